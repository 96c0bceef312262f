// C18: every matcher, class and free function, against comparing at every position.
#include "common.hpp"
#include <sim_ds/string_util/PatternMatching.hpp>
using namespace h;
namespace pm = sim_ds::pattern_matching;
using V = std::vector<size_t>;

// a string in a buffer of its own: exact under the sanitizers, otherwise amid bytes of the caller's choice
struct Placed {
    std::vector<char> buf; std::string_view v;
    Placed(const std::string& s, std::string_view around) {
#if MC_ASAN
        char* p = new char[s.size() + !s.size()]; own.reset(p); memcpy(p, s.data(), s.size()); v = {p, s.size()}; (void)around;
#else
        size_t g = 40; buf.resize(s.size() + 2 * g);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = around[i % around.size()];
        memcpy(buf.data() + g, s.data(), s.size()); v = {buf.data() + g, s.size()};
#endif
    }
    Placed(const Placed&) = delete;
    std::unique_ptr<char[]> own;
};
static V naive(std::string_view t, std::string_view k) {
    V r; for (size_t i = 0; i + k.size() <= t.size(); i++) if (memcmp(t.data() + i, k.data(), k.size()) == 0) r.push_back(i);
    return r;
}
struct All {
    pm::Simple simple; pm::Kmp kmp; pm::Bm bm; pm::Bom bom; pm::TurboBom turbo; pm::SundayQS qs; pm::SundayMS ms;
    std::string_view key;
    explicit All(std::string_view k) : simple(k), kmp(k), bm(k), bom(k), turbo(k), qs(k), ms(k), key(k) {}
    void one(const char* who, const V& got, const V& want, std::string_view t) const {
        MC_CHECK(got == want, "%s: key %s in text %s at %s, want %s", who, show_str(key).c_str(), show_str(t).c_str(), show_ints(got).c_str(), show_ints(want).c_str());
    }
    void check(mc::Ctx& c, std::string_view t, bool functions) const {
        if (c.replay) c.note("key " + show_str(key) + " text " + show_str(t));
        V want = naive(t, key);
        one("Simple", simple.find_all(t), want, t); one("Kmp", kmp.find_all(t), want, t); one("Bm", bm.find_all(t), want, t);
        one("Bom", bom.find_all(t), want, t); one("TurboBom", turbo.find_all(t), want, t);
        one("SundayQS", qs.find_all(t), want, t); one("SundayMS", ms.find_all(t), want, t);
        if (functions) {
            one("PatternMatchSimple", pm::PatternMatchSimple(t, key), want, t); one("PatternMatchKMP", pm::PatternMatchKMP(t, key), want, t);
            one("PatternMatchBM", pm::PatternMatchBM(t, key), want, t); one("PatternMatchBOM", pm::PatternMatchBOM(t, key), want, t);
            one("PatternMatchTurboBOM", pm::PatternMatchTurboBOM(t, key), want, t); one("PatternMatchSundayQS", pm::PatternMatchSundayQS(t, key), want, t);
            one("PatternMatchSundayMS", pm::PatternMatchSundayMS(t, key), want, t);
        }
        c.obs(functions ? 14 : 7);
    }
};
static std::string nth(const std::string& al, size_t len, size_t i) { std::string s; for (size_t k = 0; k < len; k++) { s += al[i % al.size()]; i /= al.size(); } return s; }
static size_t power(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }

static void exhaustive(mc::Ctx& c, const std::vector<std::string>& als, size_t maxkey, size_t maxtext) {   // every key, every text, one matcher for all texts of a length
    const std::string& al = c.pick(als);
    size_t kl = 1 + c.choose(maxkey); std::string key; for (size_t i = 0; i < kl; i++) key += al[c.choose(al.size())];
    std::string around = c.flip() ? key : std::string(1, al[0]);
    Placed k(key, around); All m(k.v);
    MC_CHECK(m.bm.find_all("") == V{}, "an occurrence in the empty text");
    for (size_t n = 0; n <= maxtext; n++) for (size_t i = 0, e = power(al.size(), n); i < e; i++) {
        Placed t(nth(al, n, i), around);
        m.check(c, t.v, i % 16 == 3);
        c.beat();
    }
    c.state(hash_str(key));
}
MC_SCOPE("C18", binary, 16) { exhaustive(c, {"ab", std::string("\0z", 2), "\x7f\x80", "\xfe\xff"}, mc::lvl(7, 9, 4, 6), mc::lvl(11, 13, 7, 9)); }
MC_SCOPE("C18", ternary, 16) { exhaustive(c, {"abc", std::string("\xff\0\x80", 3)}, mc::lvl(5, 6, 3, 4), mc::lvl(7, 9, 5, 6)); }
MC_SCOPE("C18", quaternary, 16) { exhaustive(c, {"abcd"}, mc::lvl(4, 4, 2, 3), mc::lvl(5, 7, 4, 4)); }

MC_SCOPE("C18", every_byte, 16) {                    // every byte in the key and every other one in the text
    unsigned a = c.choose(256), b = MC_ASAN ? (a ^ (1u << c.choose(9))) & 255 : unsigned(c.choose(256));
    std::string A(1, char(a)), B(1, char(b));
    for (auto& key : {A, A + B, A + B + A, B + A + A + B}) {
        Placed k(key, A + B); All m(k.v);
        for (auto& text : {A, B, A + B, B + A, A + B + A + B + A, B + A + A + B + A + A + B, B + B + A + B, std::string("xyz") + A + "x" + B + A + B, key + "\xff" + key}) { Placed t(text, A + B); m.check(c, t.v, true); }
    }
}
// keys with periods, texts glued from pieces of the key
MC_SCOPE("C18", pieces, 16) {
    static const std::vector<std::string> keys = [] {
        std::vector<std::string> r;
        for (auto u : {"a", "ab", "aab", "abc", "abaab", "aabaa"}) for (unsigned rep = 1; rep < 5; rep++) for (auto v : {"", "a", "b", "ab", "c"}) {
            std::string s; for (unsigned i = 0; i < rep; i++) s += u; s += v; if (s.size() > 2 && s.size() <= 17) r.push_back(s);
        }
        r.insert(r.end(), {"aaaaaaab", "baaaaaaa", "abacabadabacaba", "abcabcabcacab", "abaababaabaab", "mississippi"});
        std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    const std::string& key = keys[c.choose(keys.size())]; size_t n = key.size();
    c.log("key %s", key.c_str());
    std::vector<std::string> ps{"", "a", "b", key};
    size_t step = mc::lvl(n > 9 ? 2 : 1, 1, n > 6 ? 3 : 1, 2);
    for (size_t i = 1; i < n; i += step) { ps.push_back(key.substr(0, i)); ps.push_back(key.substr(i)); }
    size_t a = c.choose(ps.size());
    Placed k(key, key); All m(k.v);
    for (auto& q : ps) for (auto& r : ps) for (auto& s : {std::string(), std::string("a"), key, key.substr(n / 2)}) {
        Placed t(ps[a] + q + r + s, key); m.check(c, t.v, false);
        Placed t2(key + ps[a] + q + r, key); m.check(c, t2.v, false);
        c.beat();
    }
    c.state(hash_str(key + "|" + ps[a]));
}
MC_SCOPE("C18", all_long_binary_keys, 16) {          // every binary key of middle length against texts made of it and of its near misses
    size_t kl = 7 + c.choose(mc::lvl(3, 5, 2, 3)), no = c.choose(power(2, kl)); std::string key = nth("ab", kl, no);
    Placed k(key, key); All m(k.v);
    std::vector<std::string> near{key}; for (size_t i = 0; i < kl; i++) { auto s = key; s[i] = s[i] == 'a' ? 'b' : 'a'; near.push_back(s); s.erase(i, 1); near.push_back(s); }
    for (auto& x : near) for (auto& y : {std::string(), std::string("a"), std::string("b"), key, key.substr(0, kl / 2), key.substr(kl / 2)}) for (auto& z : {std::string(), key}) { Placed t(y + x + z, key); m.check(c, t.v, false); c.beat(); }
    c.state(hash_str(key));
}
MC_SCOPE("C18", long_keys, 8) {                      // keys around 256 bytes and more
    size_t n = c.of<size_t>({64, 127, 128, 129, 254, 255, 256, 257, 300, 520}); unsigned kind = c.choose(6), place = c.choose(6); std::string key;
    for (size_t i = 0; i < n; i++) key += char(kind == 0 ? 'a' : kind == 1 ? 'a' + (i % 2) : kind == 2 ? i : kind == 3 ? (i * i >> 3) : kind == 4 ? (i + 1 == n) : (i * 7) % 13 + 250);
    Placed k(key, "ab"); All m(k.v);
    std::string t;
    if (place == 0) t = key; else if (place == 1) t = key + key; else if (place == 2) t = key.substr(1) + key + key.substr(0, n / 2); else if (place == 3) t = key.substr(0, n - 1);
    else if (place == 4) { t = key + key.substr(n / 3) + key + 'a' + key; } else { t = key; for (size_t i = 0; i < n; i += 17) t += key.substr(n - i) + key.substr(0, n - i); }
    Placed tx(t, key); m.check(c, tx.v, true);
}
MC_SCOPE("C18", short_texts, 4) {                    // the text is shorter than the key
    size_t kl = 1 + c.choose(40), tl = c.choose(kl + 2); unsigned kind = c.choose(3); std::string key;
    for (size_t i = 0; i < kl; i++) key += "aab"[kind == 0 ? 0 : (i * kind) % 3];
    Placed k(key, key), t(key.substr(0, std::min(tl, kl)) + (tl > kl ? "a" : ""), key); All m(k.v);
    m.check(c, t.v, true);
}
// ---- positions and lengths beyond 16 bits; the reference is the Z function of key + text
static V by_z(const std::string& t, const std::string& k) {
    std::string s = k; s += t; size_t n = s.size(), m = k.size(), l = 0, r = 0; std::vector<size_t> z(n); V out;
    for (size_t i = 1; i < n; i++) { if (i < r) z[i] = std::min(r - i, z[i - l]); while (i + z[i] < n && s[z[i]] == s[i + z[i]]) z[i]++; if (i + z[i] > r) { l = i; r = i + z[i]; } if (i >= m && z[i] >= m) out.push_back(i - m); }
    return out;
}
MC_SCOPE("C18", beyond_16_bits, 8) {
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({3, 300, 32768, 65535, 65536, 65537, 70000, 100000}); unsigned kind = c.choose(5), place = c.choose(4); std::string key, t;
    bool periodic = kind < 2;
    if (kind == 3 && n > 65536 && !mc::thorough()) throw mc::Prune{};
    for (size_t i = 0; i < n; i++) key += char(kind == 0 ? 'a' : kind == 1 ? 'a' + (i % 5 == 4) : kind == 2 ? (i * i >> 7) % 251 : kind == 3 ? (i + 1 == n) : (i % 256 == 0 ? i >> 8 : 'x'));
    if (place == 0) { t = std::string(70000, 'q') + key + "ab" + key; }
    else if (place == 1) t = key.substr(1) + key + key.substr(0, n / 2);
    else if (place == 2) { while (t.size() < 66000) t += key.substr(0, n / 2 + 1) + 'z'; t += key; t += key[0]; t += key.substr(1); }
    else { t = std::string(131072 - 2, char(kind == 3 ? 0 : 'a')) + key; }
    // the matchers may compare a whole key at every position: keep the product of both lengths apart from the periodic case small
    if ((periodic || kind == 3 || kind == 4) && n > 400 && place != 1) throw mc::Prune{};
    if (periodic && n > 400 && place == 1) { t = key.substr(1) + key; t.resize(n + 40 < t.size() ? n + 40 : t.size()); }
    c.log("key %s, text of %zu in arrangement %u", show_str(key).c_str(), t.size(), place);
    V want = by_z(t, key);
    auto one = [&](const char* who, auto f) { c.beat(); V got = f(); MC_CHECK(got == want, "%s: key of kind %u and length %zu in a text of %zu (arrangement %u) at %s, want %s", who, kind, n, t.size(), place, show_ints(got).c_str(), show_ints(want).c_str()); };
    pm::Simple simple(key); one("Simple", [&] { return simple.find_all(t); });
    one("Kmp", [&] { return pm::Kmp(key).find_all(t); }); one("Bm", [&] { return pm::Bm(key).find_all(t); }); one("Bom", [&] { return pm::Bom(key).find_all(t); });
    one("TurboBom", [&] { return pm::TurboBom(key).find_all(t); }); one("SundayQS", [&] { return pm::SundayQS(key).find_all(t); }); if (n < 1000) one("SundayMS", [&] { return pm::SundayMS(key).find_all(t); });          // its preparation takes cubic time
    one("PatternMatchKMP", [&] { return pm::PatternMatchKMP(t, key); }); one("PatternMatchBM", [&] { return pm::PatternMatchBM(t, key); }); one("PatternMatchBOM", [&] { return pm::PatternMatchBOM(t, key); });
    one("PatternMatchTurboBOM", [&] { return pm::PatternMatchTurboBOM(t, key); }); one("PatternMatchSundayQS", [&] { return pm::PatternMatchSundayQS(t, key); }); if (n < 1000) one("PatternMatchSundayMS", [&] { return pm::PatternMatchSundayMS(t, key); });
    one("PatternMatchSimple", [&] { return pm::PatternMatchSimple(t, key); });
    c.obs(14); c.state(mc::hash_words({kind, place, n}));
}
