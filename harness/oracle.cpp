// C17: FactorOracle against the automaton built by the published on-line construction.
#include "common.hpp"
#include <sim_ds/string_util/FactorOracle.hpp>
using namespace h;
using sim_ds::FactorOracle;
using Text = std::string;

struct Ref {                                           // delta and supply links exactly as in the paper
    std::vector<std::map<uint8_t, size_t>> d;
    explicit Ref(const Text& t) : d(t.size() + 1) {
        std::vector<long> s(t.size() + 1, 0); s[0] = -1;
        for (size_t i = 0; i < t.size(); i++) {
            uint8_t a = uint8_t(t[i]); d[i][a] = i + 1;
            long k = s[i];
            while (k > -1 && !d[k].count(a)) { d[k][a] = i + 1; k = s[k]; }
            s[i + 1] = k == -1 ? 0 : long(d[k][a]);
        }
    }
};
static void automaton(mc::Ctx& c, const Text& t, const FactorOracle& o, const Ref& r) {   // every state, every byte
    std::vector<long> to(r.d.size(), -1), back; std::vector<size_t> todo{0}; to[0] = 0;
    std::map<size_t, size_t> owner{{0, 0}};
    while (!todo.empty()) {
        size_t q = todo.back(); todo.pop_back();
        for (unsigned b = 0; b < 256; b++) {
            size_t s = size_t(to[q]); bool ok = o.image(s, uint8_t(b)); auto it = r.d[q].find(uint8_t(b));
            MC_CHECK(ok == (it != r.d[q].end()), "image(state %zu, byte %u) of %s: %s", q, b, show_str(t).c_str(), ok ? "there is no such transition" : "the transition is missing");
            if (!ok) { MC_CHECK(s == size_t(to[q]), "a failed image(state %zu, byte %u) of %s moves to %zu", q, b, show_str(t).c_str(), s); continue; }
            size_t n = it->second;
            if (to[n] < 0) {
                MC_CHECK(owner.emplace(s, n).second, "image(state %zu, byte %u) of %s leads to the state of another one", q, b, show_str(t).c_str());
                to[n] = long(s); todo.push_back(n);
            } else MC_CHECK(size_t(to[n]) == s, "image(state %zu, byte %u) of %s leads to %zu, want %zu", q, b, show_str(t).c_str(), s, size_t(to[n]));
        }
    }
    c.obs(r.d.size() * 256);
}
static void query(const Text& t, const FactorOracle& o, const Ref& r, std::string_view q) {
    size_t s = 0, i = 0; bool want = true;
    for (; i < q.size(); i++) { auto it = r.d[s].find(uint8_t(q[i])); if (it == r.d[s].end()) { want = false; break; } s = it->second; }
    bool got = o.accept(q);
    MC_CHECK(got == want, "accept(%s) of %s = %d, want %d", show_str(q).c_str(), show_str(t).c_str(), int(got), int(want));
    FactorOracle::Exproler e(q);
    MC_CHECK(o.accept(e) == want && e.pos() == i && e.size() == q.size(), "accept(explorer of %s) of %s stops at %zu, want %zu", show_str(q).c_str(), show_str(t).c_str(), e.pos(), i);
}
static void factors(mc::Ctx& c, const Text& t, const FactorOracle& o) {   // every factor of the text is accepted
    for (size_t i = 0; i <= t.size(); i++) { size_t s = 0; for (size_t j = i; j < t.size(); j++) MC_CHECK(o.image(s, uint8_t(t[j])), "factor [%zu,%zu] of %s is rejected", i, j, show_str(t).c_str()); }
    for (size_t i = 0; i <= t.size(); i += 1 + t.size() / 40) for (size_t l = 0; i + l <= t.size(); l += 1 + t.size() / 30) MC_CHECK(o.accept(std::string_view(t).substr(i, l)), "factor (%zu,%zu) of %s is rejected", i, l, show_str(t).c_str());
    c.obs(t.size() * t.size() / 2);
}
static void whole(mc::Ctx& c, const Text& t) {
    c.log("text %s", show_str(t).c_str());
    FactorOracle o(t); Ref r(t);
    automaton(c, t, o, r); factors(c, t, o);
    query(t, o, r, t); query(t, o, r, t + 'x'); query(t, o, r, t + '\0'); query(t, o, r, t + t); query(t, o, r, "");
    c.state(hash_str(t));
}
MC_SCOPE("C17", short_texts, 16) {                   // every text and every query one longer than it
    auto al = c.pick(std::vector<std::string>{"a", "ab", std::string("\0a", 2), "\x80\xff", "abc", std::string("\0\x01\xff", 3), "abcd"});
    static const int mx[] = {0, 9, 9, 7, 5}, mt[] = {0, 12, 12, 9, 6}, ma[] = {0, 7, 7, 5, 4};
    size_t n = c.choose(1 + (MC_ASAN ? ma : mc::thorough() ? mt : mx)[al.size()]);
    Text t; for (size_t i = 0; i < n; i++) t += al[c.choose(al.size())];
    whole(c, t);
    FactorOracle o(t.begin(), t.end()); std::vector<uint8_t> u(t.begin(), t.end()); FactorOracle o2(u.begin(), u.end());
    Ref r(t); automaton(c, t, o2, r);
    std::string ext = al; if (al.find('\0') == al.npos) ext += '\0'; else ext += 'z';
    std::vector<std::string> level{""}; size_t cap = size_t(mc::lvl(6000, 60000, 1500, 6000)), total = 0;
    for (size_t l = 0; l <= n + 1 && total < cap; l++) {
        std::vector<std::string> next;
        for (auto& q : level) {
            query(t, o, r, q); total++;
            // a rejected prefix keeps its extensions rejected: one byte further is enough
            size_t s = 0; bool alive = true; for (char ch : q) { auto it = r.d[s].find(uint8_t(ch)); if (it == r.d[s].end()) { alive = false; break; } s = it->second; }
            if (alive) for (char ch : ext) next.push_back(q + ch); else if (q.size() <= 3) query(t, o, r, q + t);
        }
        level.swap(next);
    }
    c.obs(total);
}
MC_SCOPE("C17", every_byte, 16) {                    // every pair of bytes, in an arrangement with inner transitions
    unsigned a = c.choose(256), b = MC_ASAN ? (a ^ (1u << c.choose(9))) & 255 : unsigned(c.choose(256)); Text t;
    for (char x : std::string("abaabbabba")) t += char(x == 'a' ? a : b);
    whole(c, t.substr(0, 1)); whole(c, t);
}
MC_SCOPE("C17", periodic, 16) {                      // u^k v: every short u and v, lengths around the block borders
    size_t lu = 1 + c.choose(mc::lvl(3, 4, 2, 3)), lv = c.choose(mc::lvl(3, 4, 2, 3)); Text u, v, t;
    for (size_t i = 0; i < lu; i++) u += "ab\xff"[c.choose(i ? 3 : 1)];
    for (size_t i = 0; i < lv; i++) v += "abc"[c.choose(3)];
    size_t n = c.of<size_t>({20, 254, 255, 256, 257, 300});
    while (t.size() < n) t += u;
    t.resize(n); t += v;
    whole(c, t);
}
MC_SCOPE("C17", arithmetic, 16) {                    // many colliding transitions: polynomial sequences modulo every alphabet size
    static const int ms[] = {2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 23, 31, 32, 33, 61, 64, 67, 100, 127, 128, 129, 200, 251, 255, 256};
    int m = ms[c.choose(25)]; unsigned a = unsigned(c.choose(mc::lvl(4, 8, 2, 3))), b = 1 + unsigned(c.choose(mc::lvl(3, 6, 2, 3))), off = c.choose(2) * 131;
    size_t n = c.of<size_t>({100, 257, size_t(mc::lvl(600, 1500, 400, 600))}); Text t;
    for (size_t i = 0; i < n; i++) t += char((i * i * a + i * b + (i * i >> 5)) % unsigned(m) + off);
    whole(c, t);
}
MC_SCOPE("C17", words, 16) {                         // concatenations of words over a pool, crossing the first block
    static const std::vector<std::string> pool{"abracadabra", "mississippi", std::string("\0\0\x01\0", 4), "\xff\xfe\xff\xfd", "the quick brown fox", "zzzz", std::string("\x80\0\x7f", 3)};
    size_t reps = c.of<size_t>({1, 4, 20}); Text one, t; size_t k = 1 + c.choose(mc::lvl(3, 4, 2, 3));
    for (size_t i = 0; i < k; i++) one += pool[c.choose(pool.size())];
    for (size_t i = 0; i < reps; i++) { t += one; if (i % 3 == 1) t += char(i * 5); }
    whole(c, t);
}
MC_SCOPE("C17", permutations_of_bytes, 4) {          // every byte once or twice: the root has 256 transitions
    unsigned mul = 1 + 2 * unsigned(c.choose(mc::lvl(24, 128, 4, 8))), add = unsigned(c.choose(4)) * 67; size_t n = c.of<size_t>({128, 255, 256, 257, 512, 700}); Text t;
    for (size_t i = 0; i < n; i++) t += char((i < 256 ? i * mul : i * (mul + 2) / 3 ) + add);
    whole(c, t);
}
MC_SCOPE("C17", lengths, 16) {                       // every length around one and two blocks
    size_t n = c.choose(mc::lvl(560, 1100, 300, 560)); unsigned k = c.choose(3); Text t;
    for (size_t i = 0; i < n; i++) t += char(k == 0 ? 'a' + i % 2 : k == 1 ? (i * 7 % 13) * (i / 50 + 1) : i);
    whole(c, t);
}
MC_SCOPE("C17", beyond_16_bits, 8) {                 // more states than 16 bits number
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65280, 65535, 65536, 70000, size_t(mc::lvl(100000, 200000))}); unsigned k = c.choose(6); Text t;
    for (size_t i = 0; i < n; i++) t += char(k == 0 ? 'a' : k == 1 ? 'a' + (i * i >> 9) % 2 : k == 2 ? i : k == 3 ? (i * i + (i >> 8) * 7) % 251 : k == 4 ? (i * 7 % 13) * (i / 5000 + 1) : (i % 256 == 0 ? i >> 8 : 'x'));
    c.log("kind %u of length %zu", k, n);
    FactorOracle o(t); c.beat(); Ref r(t); c.beat();
    automaton(c, t, o, r); c.beat();
    query(t, o, r, t); query(t, o, r, t + 'x'); query(t, o, r, t + t); query(t, o, r, std::string_view(t).substr(n / 2)); query(t, o, r, std::string_view(t).substr(65530 < n ? 1 : 0, 65600));
    for (size_t i = 0; i < n; i += 4999) MC_CHECK(o.accept(std::string_view(t).substr(i)), "the suffix from %zu of %s is rejected", i, show_str(t).c_str());
    c.state(mc::hash_words({n, k}));
}
