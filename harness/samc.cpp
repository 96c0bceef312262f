// C20, C21: the SAMC key set and dictionary against std::set; also run by C25.
#include "common.hpp"
#include <deque>
#include <sim_ds/string_util/Samc.hpp>
using namespace h;
using Keys = std::set<std::string>;

static std::string show(const Keys& k) { std::string s; size_t n = 0; for (auto& x : k) { if (n++ == 12) { s += "...(" + std::to_string(k.size()) + ")"; break; } s += show_str(x, 30) + " "; } return s; }
// strings around the keys: prefixes, extensions, changed bytes, NUL and 0xFF inside
static std::vector<std::string> around(const Keys& ks, size_t per) {
    std::vector<std::string> q{"", std::string(1, 0), "\xff", "a", std::string(2, 0), "\xff\xff"};
    size_t longest = 0, stride = 1 + ks.size() / per, i = 0;
    for (auto& k : ks) {
        longest = std::max(longest, k.size());
        if (i++ % stride) continue;
        for (size_t l = 0; l < k.size(); l += 1 + k.size() / 12) q.push_back(k.substr(0, l));
        for (auto e : {std::string(1, 0), std::string(2, 0), std::string("\xff"), std::string("\x01"), std::string("a"), k, std::string("\0a", 2)}) q.push_back(k + e);
        for (size_t p = 0; p < k.size(); p += 1 + k.size() / 8) for (int d : {1, -1, 64, 128}) { auto m = k; m[p] = char(m[p] + d); q.push_back(m); }
        for (size_t p = 0; p < k.size(); p += 1 + k.size() / 8) for (char x : {'\0', '\xff'}) { auto m = k; m[p] = x; q.push_back(m); q.push_back(k.substr(0, p) + x + k.substr(p)); }
        if (k.size()) q.push_back(k.substr(1));
    }
    for (size_t l = longest; l < longest + 4; l++) for (char x : {'\0', '\xff', 'a', '^', '\x01'}) q.push_back(std::string(l, x));
    return q;
}
template <class S> static void check_set(mc::Ctx& c, const S& s, const Keys& ks, const std::vector<std::string>& qs, const char* who) {
    for (auto& k : ks) MC_CHECK(s.accept(k), "%s of %s: key %s is rejected", who, show(ks).c_str(), show_str(k).c_str());
    for (auto& q : qs) if (!ks.count(q)) MC_CHECK(!s.accept(q), "%s of %s: %s is accepted", who, show(ks).c_str(), show_str(q).c_str());
    c.obs(ks.size() + qs.size());
}
template <class D> static void check_dict(mc::Ctx& c, const D& d, const Keys& ks, const std::vector<std::string>& qs, const char* who, mc::H128& t) {
    std::vector<bool> seen(ks.size());
    for (auto& k : ks) {
        size_t id = d.lookup(k);
        MC_CHECK(id < ks.size(), "%s of %s: lookup(%s) = %zu", who, show(ks).c_str(), show_str(k).c_str(), id);
        MC_CHECK(!seen[id], "%s of %s: id %zu of %s belongs to another key", who, show(ks).c_str(), id, show_str(k).c_str());
        seen[id] = true; t.word(id);
        auto a = d.access(id);
        MC_CHECK(a == k, "%s of %s: access(lookup(%s) = %zu) = %s", who, show(ks).c_str(), show_str(k).c_str(), id, show_str(a).c_str());
    }
    for (auto& q : qs) if (!ks.count(q)) { size_t id = d.lookup(q); MC_CHECK(id == D::kSearchError, "%s of %s: lookup(%s) = %zu", who, show(ks).c_str(), show_str(q).c_str(), id); }
    c.obs(2 * ks.size() + qs.size());
}
template <class Code> static void whole(mc::Ctx& c, const Keys& ks, const std::vector<std::string>& qs, bool legacy = true) {
    std::vector<std::string> v(ks.begin(), ks.end()); mc::H128 t;
    if (mc::deciding("C20")) {
        check_set(c, sim_ds::Samc<Code>(v.begin(), v.end()), ks, qs, "Samc");
        if (legacy) check_set(c, sim_ds::Samc<Code, true>(v.begin(), v.end()), ks, qs, "Samc (legacy build)");
    }
    if (mc::deciding("C21")) check_dict(c, sim_ds::SamcDict<Code>(v.begin(), v.end()), ks, qs, "SamcDict", t);
    c.transcript(t);
    if (c.fresh()) { mc::H128 h; for (auto& k : ks) mix(h, hash_str(k)); c.state(h); }
}
static std::vector<std::string> words(const std::string& al, size_t len) {
    std::vector<std::string> r{""}; size_t b = 0;
    for (size_t l = 0; l < len; l++) { size_t e = r.size(); for (; b < e; b++) for (char x : al) r.push_back(r[b] + x); }
    return r;
}
static Keys chosen(mc::Ctx& c, const std::vector<std::string>& pool, size_t n) { Keys k; for (size_t i = 0; i < n; i++) if (c.flip()) k.insert(pool[i]); c.log("keys %s", show(k).c_str()); return k; }

MC_SCOPE("C20 C21 C25", sets_of_binary_words, 16) {  // every set of words up to length 3, every query up to length 4 and odd bytes
    static const auto pool = words("ab", 3); static const auto qs = [] { auto q = words("ab", 4); for (auto& x : words(std::string("a\0\xff", 3), 4)) q.push_back(x); return q; }();
    Keys k = chosen(c, pool, mc::lvl(15, 15, 11, 13)); whole<u32>(c, k, qs);
}
MC_SCOPE("C20 C21 C25", sets_of_edge_bytes, 16) {
    static const auto pool = words("\x01\x80\xfe", 2); static const auto qs = [] { auto q = words("\x01\x80\xfe", 3); for (auto& x : words(std::string("\0\x01\xfe\xff", 4), 3)) q.push_back(x); return q; }();
    Keys k = chosen(c, pool, mc::lvl(13, 13, 10, 12)); whole<u64>(c, k, qs);
}
MC_SCOPE("C20 C21 C25", sets_of_long_words, 16) {    // words of quite different lengths and shared ends
    static const std::vector<std::string> pool{"", "a", "ab", "abcdefgh", "abcdefgi", "bcdefgh", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "zzzzzzzzzzzzzzz", "b", "^", "^^", std::string(70, 'q'), "gfedcba"};
    Keys k = chosen(c, pool, mc::lvl(13, 13, 9, 12)); whole<u32>(c, k, around(k, 100));
}
MC_SCOPE("C20 C21 C25", one_and_two_keys, 16) {      // every byte alone and next to every other
    unsigned a = 1 + c.choose(254), b = MC_ASAN ? 1 + (a * (1 + c.choose(4)) * 37) % 254 : 1 + unsigned(c.choose(254)), k = MC_ASAN ? 0 : 0; (void)k;
    std::string A(1, char(a)), B(1, char(b)); std::vector<std::string> qs = words(std::string{char(a), char(b), '\0', '\xff', char(a ^ 1)}, 2);
    whole<u32>(c, {A, B}, qs); if (a <= b) whole<u32>(c, {A + B, B + A, B}, qs);
}
// products of byte ranges: wide levels whose entries collide
static std::string bytes_of(unsigned from, unsigned step, unsigned n) { std::string s; for (unsigned i = 0; i < n; i++) s += char(1 + (from + i * step) % 254); return s; }
MC_SCOPE("C20 C21 C25", products, 16) {
    static const unsigned ns[] = {1, 2, 3, 8, 17, 40, 63, 64, 65, 130};
    unsigned i1 = c.choose(mc::lvl(10, 10, 6, 9)), i2 = c.choose(mc::lvl(10, 10, 5, 9)), st = c.of<unsigned>({1, 5}), third = c.choose(3), thin = c.choose(mc::lvl(3, 5, 2, 3));
    std::string A = bytes_of(0, st, ns[i1]), B = bytes_of(third * 50, 7, ns[i2]); Keys k; size_t no = 0;
    for (char x : A) for (char y : B) { if (thin && no++ % (thin + 1) == thin) continue; std::string s{x, y}; if (third == 1) s += char(1 + (uint8_t(x) * uint8_t(y)) % 254); if (third == 2 && no % 3 == 0) s += std::string{y, x}; k.insert(s); }
    c.log("%u x %u keys, step %u, third %u, thinned %u: %zu keys", ns[i1], ns[i2], st, third, thin, k.size());
    whole<u32>(c, k, around(k, MC_ASAN ? 40 : 150));
}
MC_SCOPE("C20 C21 C25", many_keys, 8) {              // numbers in several bases, up to several select blocks of leaves
    size_t n = c.of<size_t>({1, 2, 63, 64, 65, 255, 256, 257, 511, 512, 513, 514, 1024, 1025, size_t(mc::lvl(2500, 12000, 600, 1500))}); unsigned base = c.of<unsigned>({2, 3, 10, 26, 100, 254}), mode = c.choose(4), mul = c.of<unsigned>({1, 7, 977});
    if (MC_ASAN && n > 520 && mul != 7) throw mc::Prune{};
    Keys k;
    for (size_t i = 0; i < n; i++) { size_t v = i * mul; std::string s; for (; v; v /= base) s += char(1 + v % base); if (mode & 1) std::reverse(s.begin(), s.end()); if (mode & 2) s = s + s; k.insert(s); }
    c.log("%zu keys in base %u times %u, mode %u", k.size(), base, mul, mode);
    whole<u32>(c, k, around(k, MC_ASAN ? 30 : 200));
}
MC_SCOPE("C20 C21 C25", long_keys, 8) {              // one long key, and a second one that leaves it at every depth
    size_t l = c.of<size_t>({1, 2, 63, 64, 65, 127, 200, size_t(mc::lvl(400, 1500, 220, 400))}), at = c.choose(l + 1); unsigned how = c.choose(3);
    std::string s; for (size_t i = 0; i < l; i++) s += char(1 + (i * i + 3) % 254);
    std::string t = s.substr(0, at); if (how == 1) t += 'x'; if (how == 2) t += s;
    if (MC_ASAN && at > 20 && at + 3 < l && at % 16) throw mc::Prune{};
    Keys k{s, t}; c.log("key of length %zu, second key of length %zu leaving at %zu", l, t.size(), at);
    whole<u32>(c, k, around(k, 10));
}
MC_SCOPE("C20 C21", empty_and_default, 1) {
    unsigned w = c.choose(3); Keys none; std::vector<std::string> v, qs = words(std::string("a\0\xff", 3), 3);
    if (w == 0) {
        if (mc::deciding("C20")) { check_set(c, sim_ds::Samc<u32>(v.begin(), v.end()), none, qs, "Samc"); check_set(c, sim_ds::Samc<u32, true>(v.begin(), v.end()), none, qs, "Samc (legacy build)"); }
        if (mc::deciding("C21")) { mc::H128 t; check_dict(c, sim_ds::SamcDict<u32>(v.begin(), v.end()), none, qs, "SamcDict", t); }
    } else if (w == 1) {
        if (mc::deciding("C20")) { check_set(c, sim_ds::Samc<u32>(), none, qs, "default Samc"); check_set(c, sim_ds::Samc<u32, true>(), none, qs, "default Samc (legacy build)"); }
        if (mc::deciding("C21")) { mc::H128 t; check_dict(c, sim_ds::SamcDict<u32>(), none, qs, "default SamcDict", t); }
    } else whole<u32>(c, {""}, qs);
}
MC_SCOPE("C20 C21", other_iterators, 4) {            // std::set and std::deque ranges, narrow and wide code types
    static const auto pool = words("ac", 2); Keys k = chosen(c, pool, 7); const std::deque<std::string> v(k.begin(), k.end());
    auto qs = words(std::string("ac\0", 3), 3); mc::H128 t;
    if (mc::deciding("C20")) {
        check_set(c, sim_ds::Samc<uint8_t>(k.begin(), k.end()), k, qs, "Samc over a std::set");
        check_set(c, sim_ds::Samc<int, true>(k.begin(), k.end()), k, qs, "Samc (legacy build) over a std::set");
        check_set(c, sim_ds::Samc<uint16_t>(v.begin(), v.end()), k, qs, "Samc over a deque");
    }
    if (mc::deciding("C21")) { check_dict(c, sim_ds::SamcDict<uint8_t>(k.begin(), k.end()), k, qs, "SamcDict over a std::set", t); check_dict(c, sim_ds::SamcDict<uint16_t>(v.begin(), v.end()), k, qs, "SamcDict over a deque", t); }
}
MC_SCOPE("C20 C21", beyond_16_bits, 8) {             // more keys, nodes and codes than 16 bits count
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65537, size_t(mc::lvl(70000, 140000))}); unsigned base = c.of<unsigned>({10, 100, 254}), mode = c.choose(2); Keys k;
    for (size_t i = 0; i < n; i++) { size_t v = i * (mode ? 977 : 1); std::string s; for (; v; v /= base) s += char(1 + v % base); if (mode) std::reverse(s.begin(), s.end()); k.insert(s); }
    c.log("%zu keys in base %u, mode %u", k.size(), base, mode); c.beat();
    whole<u32>(c, k, around(k, 400), false);     // the legacy build takes quadratic time
}
