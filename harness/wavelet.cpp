// C07: WaveletTree access and rank against counting in the plain string; also run by C25.
#include "common.hpp"
#include <sim_ds/WaveletTree.hpp>
using namespace h;
using sim_ds::WaveletTree;
using Syms = std::vector<uint8_t>;

template <class T> static void whole(mc::Ctx& c, const Syms& m, bool all_symbols) {
    WaveletTree w(std::vector<T>(m.begin(), m.end()));
    size_t n = m.size(); mc::H128 t;
    MC_CHECK(w.size() == n, "size() = %zu, want %zu", w.size(), n);
    std::vector<size_t> cnt(256, 0);
    std::vector<unsigned> cs;
    if (all_symbols) for (unsigned s = 0; s < 256; s++) cs.push_back(s);
    else {
        std::set<unsigned> q;
        for (auto x : m) { q.insert(x); q.insert(uint8_t(x + 1)); q.insert(uint8_t(x - 1)); q.insert(x ^ 128); q.insert(x ^ 1); q.insert(x & 15); }
        q.insert(0); q.insert(255);
        cs.assign(q.begin(), q.end());
    }
    bool sparse = n > 700 && cs.size() > 40;
    for (size_t i = 0; i <= n; i++) {
        if (!sparse || i % 64 < 2 || i % 64 == 63 || i + 2 > n)
            for (auto s : cs) { auto r = w.rank(uint8_t(s), i); MC_CHECK(r == cnt[s], "rank(%u,%zu) of %zu = %zu, want %zu", s, i, n, r, cnt[s]); t.word(r); c.obs(1); }
        if (i == n) break;
        unsigned x = m[i], a = w[i]; auto ar = w.AccessAndRank(i); auto r = w.rank(i);
        MC_CHECK(a == x, "[%zu] of %zu = %u, want %u", i, n, a, x);
        MC_CHECK(r == cnt[x], "rank(%zu) of %zu (symbol %u) = %zu, want %zu", i, n, x, r, cnt[x]);
        MC_CHECK(ar.first == x && ar.second == cnt[x], "AccessAndRank(%zu) of %zu = (%u,%llu), want (%u,%zu)", i, n, unsigned(ar.first), ull(ar.second), x, cnt[x]);
        t.word(a); t.word(r); cnt[x]++;
    }
    c.obs(3 * n); c.transcript(t); c.state(mc::hash_seq(m));
}
MC_SCOPE("C07 C25", short_strings, 8) {           // every string over an alphabet that exercises each height
    auto al = c.pick(std::vector<std::vector<uint8_t>>{{0}, {0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {0, 3, 5}, {1, 7, 8}, {0, 127, 128, 255}, {15, 16, 240}, {254, 255}, {64}, {31, 32}});
    size_t mx = al.size() <= 2 ? mc::lvl(6, 9, 5, 6) : mc::lvl(4, 6, 3, 4);
    size_t n = 1 + c.choose(mx);
    Syms m(n); for (auto& x : m) x = c.pick(al);
    c.log("string %s", show_ints(m).c_str());
    whole<uint8_t>(c, m, true);
    if (n <= 3) whole<int>(c, m, false);
}
MC_SCOPE("C07 C25", pairs, 8) {                    // every maximum symbol with every other symbol
    unsigned a = c.choose(256), b = MC_ASAN ? a ^ ((1u << c.choose(9)) & 255) : unsigned(c.choose(256));
    c.log("string of %u and %u", a, b);
    whole<uint8_t>(c, {uint8_t(a)}, false);
    whole<uint8_t>(c, {uint8_t(a), uint8_t(b)}, b % 16 == a % 16);
    whole<uint8_t>(c, {uint8_t(b), uint8_t(a), uint8_t(a), uint8_t(b), uint8_t(a)}, false);
}
MC_SCOPE("C07 C25", runs, 16) {                    // runs of border lengths, so that inner nodes pass word and block borders
    static const size_t lens[] = {0, 1, 2, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1024};
    auto al = c.pick(std::vector<std::vector<uint8_t>>{{0, 1, 0}, {2, 1, 3}, {255, 0, 128}, {7, 200, 7}, {9, 9, 8}});
    size_t nl = mc::lvl(11, 13, 6, 11); Syms m;
    for (auto s : al) m.insert(m.end(), lens[c.choose(nl)], s);
    if (m.empty()) throw mc::Prune{};
    c.log("runs of %u %u %u, length %zu", al[0], al[1], al[2], m.size());
    whole<uint8_t>(c, m, false);
}
MC_SCOPE("C07 C25", sizes, 8) {                    // every length, several arrangements
    size_t n = 1 + c.choose(mc::lvl(580, 1200, 200, 560)); unsigned k = c.choose(4);
    Syms m(n); for (size_t i = 0; i < n; i++) m[i] = k == 0 ? i : k == 1 ? i % 3 : k == 2 ? (i * i * 37 >> 3) : 255 - (i % 2);
    c.log("arrangement %u of %zu symbols", k, n);
    whole<uint8_t>(c, m, false);
}
MC_SCOPE("C07", large, 4) {                        // counts, positions and node sizes beyond 16 bits
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65536, 65537, 140000, (1 << 20) + 5, (1 << 24) + 9}); unsigned k = c.choose(4);
    if (n > 1 << 22 && !mc::thorough() && k > 1) throw mc::Prune{};
    std::vector<uint8_t> m(n);
    for (size_t i = 0; i < n; i++) m[i] = k == 0 ? 7 : k == 1 ? (i < n - 70 ? 255 : i) : k == 2 ? i : (i / 66000 * 51 + (i % 3 == 0)) % 256;
    c.log("arrangement %u of %zu symbols", k, n);
    WaveletTree w(m); c.beat();
    MC_CHECK(w.size() == n, "size() = %zu, want %zu", w.size(), n);
    size_t cnt[256] = {};
    std::vector<unsigned> cs{0, 1, 7, 51, 128, 254, 255};
    for (size_t i = 0; i <= n; i++) {
        if (i % 61 == 0 || i + 3 > n || i % 65536 < 2) for (auto s : cs) { size_t r = w.rank(uint8_t(s), i); if (r != cnt[s]) MC_CHECK(false, "rank(%u,%zu) of %zu = %zu, want %zu", s, i, n, r, cnt[s]); }
        if (i == n) break;
        size_t r = n < 2000000 || i % 7 == 0 ? w.rank(m[i], i) : cnt[m[i]];
        if (r != cnt[m[i]] || w[i] != m[i]) MC_CHECK(false, "[%zu] of %zu = %u, want %u; its rank %zu, want %zu", i, n, unsigned(w[i]), unsigned(m[i]), r, cnt[m[i]]);
        cnt[m[i]]++;
        if (i % (1 << 20) == 0) c.beat();
    }
    c.obs(3 * n); c.state(mc::hash_words({n, k}));
}
