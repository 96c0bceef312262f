// C02: rank, C03: select, on SuccinctBitVector; also run by C25.
#include "common.hpp"
#include <sim_ds/SuccinctBitVector.hpp>
using namespace h;
using sim_ds::BitVector;
template <bool S> using SBV = sim_ds::SuccinctBitVector<S>;

template <class V> static void check_rank(mc::Ctx& c, const V& v, const Bits& m, mc::H128& t) {
    if (!mc::deciding("C02")) return;
    size_t n = m.size(), ones = 0;
    MC_CHECK(v.size() == n, "size() = %zu, want %zu", v.size(), n);
    for (size_t i = 0; i <= n; i++) {
        size_t r = v.rank(i), r1 = v.rank_1(i), r0 = v.rank_0(i);
        MC_CHECK(r == ones && r1 == ones, "rank(%zu) of %zu bits = %zu/%zu, want %zu", i, n, r, r1, ones);
        MC_CHECK(r0 == i - ones, "rank_0(%zu) of %zu bits = %zu, want %zu", i, n, r0, i - ones);
        t.word(r);
        if (i < n) { MC_CHECK(v[i] == m[i], "[%zu] of %zu = %d", i, n, int(v[i])); ones += m[i]; }
    }
    c.obs(4 * n + 4);
}
template <class V> static void check_select(mc::Ctx& c, const V& v, const Bits& m, mc::H128& t) {
    if (!mc::deciding("C03")) return;
    size_t k = 0;
    for (size_t i = 0; i < m.size(); i++) if (m[i]) {
        size_t s = v.select(k);
        MC_CHECK(s == i, "select(%zu) of %zu bits = %zu, want %zu", k, m.size(), s, i);
        t.word(s); k++;
    }
    c.obs(k);
}
static void check_all(mc::Ctx& c, const BitVector& b, const Bits& m, bool more = false) {
    mc::H128 t;
    SBV<true> v(b);
    check_rank(c, v, m, t);
    check_select(c, v, m, t);
    if (more) {
        SBV<false> w(b); check_rank(c, w, m, t);
        BitVector x(b); SBV<true> y(std::move(x)); check_rank(c, y, m, t); check_select(c, y, m, t);
    }
    c.transcript(t); c.state(hash_bits(m));
}

MC_SCOPE("C02 C03 C25", all_short, 4) {
    size_t n = c.choose(mc::lvl(15, 19, 11, 15));
    Bits m(n);
    for (size_t i = 0; i < n; i++) m[i] = c.flip();
    c.log("bits %s", show(m).c_str());
    check_all(c, BitVector(m), m, true);
    if (n == 0) { SBV<true> d; mc::H128 t; check_rank(c, d, m, t); SBV<false> e; check_rank(c, e, m, t); }
    if (n == 2) { SBV<true> d{bool(m[0]), bool(m[1])}; mc::H128 t; check_rank(c, d, m, t); check_select(c, d, m, t); }
}
MC_SCOPE("C02 C03 C25", runs, 16) {                // runs of border lengths
    Runs r;
    bool first = c.flip();
    int nr = mc::lvl(4, 5, 3, 4);
    for (int i = 0; i < nr; i++) r.add((i & 1) != first, mc::thorough() ? c.of<size_t>({0, 1, 63, 64, 65, 192, 447, 448, 511, 512, 513, 1024}) : c.of<size_t>({0, 1, 63, 64, 65, 448, 511, 512, 513}));
    Bits m = r.bits();
    c.log("%s", r.str().c_str());
    check_all(c, BitVector(m), m);
}
// blocks of 512 bits, each with a chosen number of ones in a chosen arrangement, plus a partial block
static void block(Bits& m, size_t len, unsigned kind, size_t ones) {
    size_t at = m.size();
    m.resize(at + len, false);
    ones = std::min(ones, len);
    for (size_t k = 0; k < ones; k++) {
        size_t p = kind == 0 ? k : kind == 1 ? len - 1 - k : ones ? k * len / ones : 0;
        m[at + p] = true;
    }
}
MC_SCOPE("C02 C03 C25", blocks, 16) {
    Bits m;
    int nb = int(c.choose(mc::lvl(5, 6, 4, 4)));
    std::string s;
    for (int i = 0; i < nb; i++) {
        unsigned kind = c.choose(mc::thorough() ? 3 : 2);
        size_t ones = c.of<size_t>({0, 1, 256, 511, 512});
        if (kind && (ones == 0 || ones == 512)) throw mc::Prune{};
        block(m, 512, kind, ones); s += std::to_string(ones) + "/" + std::to_string(kind) + " ";
    }
    size_t tail = c.of<size_t>({0, 1, 63, 64, 65, 127, 300, 448, 511}); unsigned kind = c.choose(2); size_t ones = c.of<size_t>({0, 1, 200, 511});
    if (tail == 0 && (kind || ones)) throw mc::Prune{};
    if (ones == 0 && kind) throw mc::Prune{};
    block(m, tail, kind, ones);
    c.log("blocks (ones/arrangement) %s tail %zu bits, %zu ones at the %s", s.c_str(), tail, ones, kind ? "back" : "front");
    check_all(c, BitVector(m), m);
}
MC_SCOPE("C02 C03 C25", ones_straddling_tips, 8) { // the 512k-th one at every place relative to the block and word borders
    size_t lead = c.of<size_t>({0, 1, 63, 64, 200, 448, 511}), dense = c.range(490, mc::thorough() ? 1060 : 530), gap = c.of<size_t>({0, 1, 64, 300, 512}), more = c.of<size_t>({0, 1, 2, 30, 600});
    Bits m(lead, false); m.insert(m.end(), dense, true); m.insert(m.end(), gap, false); m.insert(m.end(), more, true);
    c.log("0x%zu 1x%zu 0x%zu 1x%zu", lead, dense, gap, more);
    check_all(c, BitVector(m), m);
}
MC_SCOPE("C02 C03 C25", after_shrink, 8) {         // the bits that a shrink left beyond the end must not count
    size_t n = c.of<size_t>({0, 1, 30, 63, 64, 65, 100, 511, 512, 513, 540, 1023, 1024, 1025}), extra = c.of<size_t>({1, 30, 64, 500, 600}); unsigned mode = c.choose(3);
    BitVector b(n + extra, true); Bits m(n);
    for (size_t i = 0; i < n; i++) { m[i] = mode == 2 ? i % 2 : mode; b[i] = bool(m[i]); }
    b.resize(n);
    c.log("%zu bits of kind %u, %zu ones cut off behind them", n, mode, extra);
    check_all(c, b, m, true);
}
MC_SCOPE("C02 C03 C25", every_size, 4) {
    size_t n = c.choose(mc::lvl(1100, 2200, 560, 1100)); unsigned mode = c.choose(4);
    Bits m(n); for (size_t i = 0; i < n; i++) m[i] = mode == 0 ? false : mode == 1 ? true : mode == 2 ? i % 3 == 1 : (i * i >> 3) & 1;
    c.log("%zu bits, pattern %u", n, mode);
    check_all(c, BitVector(m), m, n % 64 < 2 || n % 64 == 63);
}
MC_SCOPE("C02 C03 C25", long_sparse_dense, 4) {    // thousands of ones, many tips, long gaps between them
    size_t gap = c.of<size_t>({1, 2, 3, 17, 64, 65, 511, 512, 513}), burst = c.of<size_t>({1, 2, 64, 513}), total = c.of<size_t>({511, 512, 513, 1024, 1537, 2048});
    if (gap >= 511 && burst == 1 && total > 600 && !mc::thorough()) throw mc::Prune{};
    Bits m; size_t k = 0;
    while (k < total) { for (size_t j = 0; j < burst && k < total; j++, k++) m.push_back(true); m.insert(m.end(), gap, false); }
    c.log("%zu ones in bursts of %zu every %zu", total, burst, gap);
    check_all(c, BitVector(m), m);
}

// ---- sizes at which a block number, a count or a position of 16 or 32 bits would have wrapped
MC_SCOPE("C02 C03", large, 5) {
    if (MC_ASAN) throw mc::Prune{};
    unsigned kind = c.choose(5);                  // all ones, every third, one per block, late ones only, dense then empty
    size_t n = c.of<size_t>({65536 + 300, (1 << 20) + 77, (size_t(1) << 25) + 1100, (size_t(1) << 32) + 2100});
    bool huge = n > size_t(1) << 26;
    if (huge && !mc::thorough() && (kind == 1 || kind == 2 || (kind == 3 && !mc::deciding("C03")) || kind == 4)) throw mc::Prune{};
    c.log("%zu bits of kind %u", n, kind);
    BitVector b(n, kind == 0);
    u64* d = b.data();
    size_t half = n / 2 / 64 * 64, late = n - n % 512 - 700 - 1024 * (n > 70000);
    if (kind == 1) for (size_t i = 0; i < n; i += 3) d[i / 64] |= u64(1) << (i % 64);
    if (kind == 2) for (size_t i = 5; i < n; i += 513) d[i / 64] |= u64(1) << (i % 64);
    if (kind == 3) for (size_t i = late; i < n; i += 2) d[i / 64] |= u64(1) << (i % 64);
    if (kind == 4) for (size_t i = 0; i < half; i += 64) d[i / 64] = ~u64(0);
    auto ones_before = [&](size_t i) -> size_t {
        switch (kind) { case 0: return i; case 1: return (i + 2) / 3; case 2: return i <= 5 ? 0 : (i - 6) / 513 + 1; case 3: return i <= late ? 0 : (i - late + 1) / 2; default: return std::min(i, half); }
    };
    auto place = [&](size_t k) -> size_t { switch (kind) { case 0: return k; case 1: return 3 * k; case 2: return 5 + 513 * k; case 3: return late + 2 * k; default: return k; } };
    SBV<true> v(std::move(b));
    c.beat();
    size_t total = ones_before(n);
    if (mc::deciding("C02")) {
        MC_CHECK(v.size() == n, "size() = %zu of %zu", v.size(), n);
        auto at = [&](size_t i) {
            size_t r = v.rank(i), want = ones_before(i);
            if (r != want || v.rank_1(i) != want || v.rank_0(i) != i - want) MC_CHECK(false, "rank(%zu) of %zu bits of kind %u = %zu / %zu / %zu, want %zu", i, n, kind, r, size_t(v.rank_1(i)), size_t(v.rank_0(i)), want);
        };
        size_t step = huge && !mc::thorough() ? 509 : 1;
        for (size_t i = 0; i <= n; i += step) { at(i); if (i % (1 << 22) < step) c.beat(); }
        for (size_t m : {size_t(1) << 16, size_t(1) << 25, size_t(1) << 31, size_t(1) << 32, n}) for (size_t i = m < 3000 ? 0 : m - 3000; i <= std::min(n, m + 3000); i++) at(i);
        c.obs(n / step);
    }
    if (mc::deciding("C03")) {
        auto at = [&](size_t k) { size_t s = v.select(k); if (s != place(k)) MC_CHECK(false, "select(%zu) of %zu bits of kind %u = %zu, want %zu", k, n, kind, s, place(k)); };
        size_t step = huge && !mc::thorough() ? 509 : 1;
        for (size_t k = 0; k < total; k += step) { at(k); if (k % (1 << 20) < step) c.beat(); }
        for (size_t m : {size_t(1) << 16, size_t(1) << 25, size_t(1) << 31, size_t(1) << 32, total}) for (size_t k = m < 3000 ? 0 : m - 3000; k < std::min(total, m + 3000); k++) at(k);
        c.obs(total / step);
    }
    c.state(mc::hash_words({n, kind}));
}
