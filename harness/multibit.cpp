// C06: MultiBitVector access and rank; also run by C25.
#include "common.hpp"
#include <sim_ds/MultiBitVector.hpp>
using namespace h;
using Syms = std::vector<uint8_t>;
template <unsigned U> using MBV = sim_ds::MultiBitVector<U>;

template <unsigned U> static void check_get(mc::Ctx& c, const MBV<U>& v, const Syms& m) {
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(v[i] == m[i], "<%u>[%zu] of %zu = %u, want %u", U, i, m.size(), unsigned(v[i]), unsigned(m[i]));
    c.obs(m.size());
}
template <unsigned U> static void check_rank(mc::Ctx& c, const MBV<U>& v, const Syms& m) {
    size_t cnt[8] = {}; mc::H128 t;
    for (size_t i = 0; i < m.size(); i++) {
        if (m[i]) { auto r = v.rank(i); MC_CHECK(r == cnt[m[i]], "<%u>rank(%zu) of symbol %u = %llu, want %zu", U, i, unsigned(m[i]), ull(r), cnt[m[i]]); t.word(r); }
        cnt[m[i]]++;
    }
    c.obs(m.size()); c.transcript(t);
}
template <unsigned U> static void whole(mc::Ctx& c, const Syms& m, int order) {
    MBV<U> v; size_t n = m.size();
    if (order == 0) for (size_t i = 0; i < n; i++) v.set(i, m[i]);
    else if (order == 1) for (size_t i = n; i-- > 0;) v.set(i, m[i]);
    else { for (size_t i = 0; i < n; i++) v.set(i, m[i] ^ ((1u << U) - 1)); v.build(); for (size_t i = 0; i < n; i++) v.set(i, m[i]); }
    check_get(c, v, m);
    v.build();
    check_get(c, v, m); check_rank(c, v, m);
    mc::H128 s; s.word(U); s.seq(m); c.state(s);
}
template <unsigned U> static void short_strings(mc::Ctx& c) {
    size_t n = c.choose(U == 1 ? mc::lvl(13, 16, 10, 13) : U == 2 ? mc::lvl(7, 9, 6, 7) : mc::lvl(6, 7, 5, 6));
    Syms m(n); for (auto& x : m) x = c.choose(1u << U);
    c.log("%u-bit symbols %s", U, show_ints(m).c_str());
    for (int o = 0; o < 3; o++) whole<U>(c, m, o);
}
MC_SCOPE("C06 C25", short1, 4) { short_strings<1>(c); }
MC_SCOPE("C06 C25", short2, 4) { short_strings<2>(c); }
MC_SCOPE("C06 C25", short3, 4) { short_strings<3>(c); }

template <unsigned U> static void runs(mc::Ctx& c) {
    Syms m; std::string s; unsigned last = 99;
    int nr = mc::lvl(U == 3 ? 2 : 3, 3, 2, 3);
    for (int i = 0; i < nr; i++) {
        unsigned a = c.choose(1u << U), b = U == 1 ? a : c.of<unsigned>({a, (a + 1) % (1u << U), a ^ 1, a ^ ((1u << U) - 1)});   // alternating pair of symbols
        if (b < a || (b == a && a == last)) throw mc::Prune{};
        size_t n = c.of<size_t>({1, 20, 21, 22, 31, 33, 63, 64, 252, 255, 257, 521});
        for (size_t k = 0; k < n; k++) m.push_back(k & 1 ? b : a);
        s += std::to_string(n) + " of " + std::to_string(a) + "/" + std::to_string(b) + ", "; last = a;
    }
    c.log("%u-bit: %s", U, s.c_str());
    whole<U>(c, m, int(m.size() % 3));
}
MC_SCOPE("C06 C25", runs1, 8) { runs<1>(c); }
MC_SCOPE("C06 C25", runs2, 8) { runs<2>(c); }
MC_SCOPE("C06 C25", runs3, 16) { runs<3>(c); }

template <unsigned U> static void all_sizes(mc::Ctx& c) {     // every length, every background, one different symbol
    size_t n = c.choose(mc::lvl(540, 1100, 300, 540)); unsigned bg = c.choose(1u << U), o = c.choose(1u << U);
    Syms m(n, uint8_t(bg)); for (size_t i = n % 5; i < n; i += 3) m[i] = o;
    c.log("%u-bit: %zu of %u with every third %u", U, n, bg, o);
    whole<U>(c, m, int(n % 3));
}
MC_SCOPE("C06 C25", sizes1, 4) { all_sizes<1>(c); }
MC_SCOPE("C06 C25", sizes2, 4) { all_sizes<2>(c); }
MC_SCOPE("C06 C25", sizes3, 8) { all_sizes<3>(c); }

template <unsigned U> static void histories(mc::Ctx& c) {     // sets anywhere in any order, builds between them
    static const size_t at[] = {0, 1, 20, 21, 31, 32, 42, 63, 64, 251, 252, 255, 256, 257, 504, 512, 600};
    MBV<U> v; Syms m; bool built = false; size_t cap = 0;
    int depth = c.depth(mc::lvl(4, 5, 3, 4));
    for (int d = 0; d < depth; d++) {
        if (d && c.choose(3) == 2) { c.log("build"); v.build(); built = true; }
        else {
            size_t i = at[c.choose(mc::thorough() ? 17 : 12) * (mc::thorough() ? 1 : 17) / (mc::thorough() ? 1 : 12)]; unsigned x = U == 1 ? c.choose(2) : c.of<unsigned>({0, 1, (1u << U) - 2, (1u << U) - 1});
            c.log("set(%zu,%u)", i, x);
            v.set(i, x); built = false;
            if (i >= m.size()) m.resize(i + 1, 0);
            m[i] = x;
        }
        (void)cap;
        if (c.fresh()) { check_get(c, v, m); if (built) check_rank(c, v, m); }
        auto h = mc::image(v); mix(h, mc::hash_seq(m));
        c.visit(h, depth - d - 1);
    }
    v.build(); check_rank(c, v, m);
}
MC_SCOPE("C06", histories1, 8) { histories<1>(c); }
MC_SCOPE("C06", histories2, 8) { histories<2>(c); }
MC_SCOPE("C06", histories3, 8) { histories<3>(c); }

// ---- sizes at which a block number, a count or a bit position of 16 or 32 bits would have wrapped
template <unsigned U> static void large(mc::Ctx& c) {
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65536 + 30, (1 << 18) + 3, (size_t(1) << 25) + 77}); unsigned kind = c.choose(4);
    const unsigned top = (1u << U) - 1;
    Syms m(n);
    for (size_t i = 0; i < n; i++) m[i] = kind == 0 ? top : kind == 1 ? i % (top + 1) : kind == 2 ? (i > n - 600 ? top - i % 2 : 0) : (i < n / 2 ? 1 : top);
    c.log("%u-bit: %zu symbols of kind %u", U, n, kind);
    MBV<U> v; for (size_t i = 0; i < n; i++) v.set(i, m[i]);
    v.build();
    for (size_t i = 0; i < n; i++) if (v[i] != m[i]) MC_CHECK(false, "<%u>[%zu] of %zu = %u, want %u", U, i, n, unsigned(v[i]), unsigned(m[i]));
    c.beat();
    size_t cnt[8] = {};
    for (size_t i = 0; i < n; i++) {
        if (m[i]) { size_t r = v.rank(i); if (r != cnt[m[i]]) MC_CHECK(false, "<%u>rank(%zu) of symbol %u among %zu = %zu, want %zu", U, i, unsigned(m[i]), n, r, cnt[m[i]]); }
        cnt[m[i]]++;
        if (i % (1 << 22) == 0) c.beat();
    }
    c.obs(2 * n); c.state(mc::hash_words({U, n, kind}));
}
MC_SCOPE("C06", large1, 4) { large<1>(c); }
MC_SCOPE("C06", large2, 4) { large<2>(c); }
MC_SCOPE("C06", large3, 4) { large<3>(c); }
template <unsigned U> static void far_set(mc::Ctx& c) {       // one symbol behind 2^31 or 2^32, everything before it unset
    if (MC_ASAN) throw mc::Prune{};
    size_t at = c.of<size_t>({(size_t(1) << 31) + 5, (size_t(1) << 32) + 5}); unsigned x = 1 + c.choose((1u << U) - 1);
    if (!mc::thorough() && (x != (1u << U) - 1 || at >> 32 != (U == 1))) throw mc::Prune{};
    c.log("<%u>set(%zu,%u)", U, at, x);
    MBV<U> v; v.set(at, x); c.beat(); v.set(7, x); v.set(at - 9, x); v.build(); c.beat();
    MC_CHECK(v[at] == x && v[7] == x && v[at - 9] == x, "<%u>[%zu] = %u after set to %u", U, at, unsigned(v[at]), x);
    MC_CHECK(v.rank(at) == 2 && v.rank(at - 9) == 1 && v.rank(7) == 0, "<%u>rank(%zu) = %llu, want 2", U, at, ull(v.rank(at)));
    for (size_t w : {at, at - 9, size_t(7)}) for (size_t k = 1; k < 6; k++) for (size_t i : {w - k, w + k}) if (i < at) MC_CHECK(v[i] == 0, "<%u>[%zu] = %u, never set", U, i, unsigned(v[i]));
    for (size_t i : {at % (size_t(1) << 31), at % (size_t(1) << 30), size_t(1) << 24, size_t(65536) + 5, size_t(5), (at - 9) % (size_t(1) << 31)}) MC_CHECK(v[i] == 0 || i == 7 || i == at || i == at - 9, "<%u>[%zu] = %u, never set", U, i, unsigned(v[i]));
    c.obs(20); c.state(mc::hash_words({U, at, x}));
}
MC_SCOPE("C06", far_set1, 1) { far_set<1>(c); }
MC_SCOPE("C06", far_set2, 1) { far_set<2>(c); }
MC_SCOPE("C06", far_set3, 1) { far_set<3>(c); }
