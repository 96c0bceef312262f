// C26: width and layer planning.
#include "common.hpp"
#include <sim_ds/basic.hpp>
#include <sim_ds/calc.hpp>
using namespace h;
namespace calc = sim_ds::calc;
typedef unsigned __int128 u128;

static size_t want_units(u64 v, size_t unit) {
    size_t s = 1;
    while (s * unit < 64 && u128(v) >= u128(1) << (s * unit)) s++;
    return s;
}
static std::vector<u64> values_of_width(size_t w) {   // all interesting values of exactly w bits
    if (w == 0) return {0};
    u64 top = u64(1) << (w - 1);
    std::vector<u64> v = {top, mask(w), top | 1, top | (top >> 1), mask(w) ^ 1, top | (0x0123456789ABCDEFull & (top - 1))};
    return v;
}
MC_SCOPE("C26", units, 8) {
    size_t w = c.choose(65); u64 v = c.pick(values_of_width(w)); size_t unit = 1 + c.choose(64);
    size_t got = calc::SizeFitsInUnits(v, unit);
    MC_CHECK(got == want_units(v, unit), "SizeFitsInUnits(0x%llx,%zu) = %zu, want %zu", ull(v), unit, got, want_units(v, unit));
    if (unit == 1) {
        MC_CHECK(calc::SizeFitsInBits(v) == want_units(v, 1), "SizeFitsInBits(0x%llx) = %zu", ull(v), calc::SizeFitsInBits(v));
        MC_CHECK(calc::SizeFitsInBytes(v) == want_units(v, 8), "SizeFitsInBytes(0x%llx) = %zu", ull(v), calc::SizeFitsInBytes(v));
        size_t t[] = {calc::size_fits<1>(v), calc::size_fits<2>(v), calc::size_fits<3>(v), calc::size_fits<4>(v), calc::size_fits<5>(v), calc::size_fits<7>(v), calc::size_fits<8>(v),
                      calc::size_fits<9>(v), calc::size_fits<16>(v), calc::size_fits<21>(v), calc::size_fits<31>(v), calc::size_fits<32>(v), calc::size_fits<33>(v), calc::size_fits<63>(v), calc::size_fits<64>(v)};
        size_t u[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 21, 31, 32, 33, 63, 64};
        for (size_t i = 0; i < 15; i++) MC_CHECK(t[i] == want_units(v, u[i]), "size_fits<%zu>(0x%llx) = %zu, want %zu", u[i], ull(v), t[i], want_units(v, u[i]));
        c.obs(17);
    }
    c.log("0x%llx in units of %zu", ull(v), unit); c.obs(1); c.state(mc::hash_words({v, unit}));
}
MC_SCOPE("C26", units_small_values, 4) {          // every 16-bit value
    u64 hi = c.choose(256), unit = 1 + c.choose(64);
    for (u64 lo = 0; lo < 256; lo++) {
        u64 v = hi << 8 | lo; size_t got = calc::SizeFitsInUnits(v, unit);
        MC_CHECK(got == want_units(v, unit), "SizeFitsInUnits(0x%llx,%llu) = %zu", ull(v), ull(unit), got);
        if (unit == 1) MC_CHECK(calc::SizeFitsInBits(v) == want_units(v, 1) && calc::SizeFitsInBytes(v) == want_units(v, 8), "SizeFitsInBits/Bytes(0x%llx)", ull(v));
    }
    c.log("values %llu..%llu in units of %llu", ull(hi << 8), ull(hi << 8 | 255), ull(unit)); c.obs(256); c.state(mc::hash_words({hi, unit}));
}
MC_SCOPE("C26", as_list, 4) {                     // fewest leading units of a list that hold the value
    std::vector<size_t> sizes; size_t n = 1 + c.choose(4), sum = 0;
    for (size_t i = 0; i < n; i++) { sizes.push_back(c.of<size_t>({1, 2, 7, 8, 31, 33, 63})); sum += sizes.back(); }
    for (size_t w = 0; w <= std::min<size_t>(sum, 64); w++) for (u64 v : values_of_width(w)) {
        size_t want = 1, s = sizes[0];
        while (s < w) s += sizes[want++];
        size_t got = calc::SizeFitsAsList(v, sizes);
        MC_CHECK(got == want, "SizeFitsAsList(0x%llx, %s) = %zu, want %zu", ull(v), show_ints(sizes).c_str(), got, want);
        c.obs(1);
    }
    c.log("units %s", show_ints(sizes).c_str()); c.state(mc::hash_seq(sizes));
}

static void frequencies(mc::Ctx& c, const std::vector<u64>& list) {
    std::vector<size_t> want;
    for (u64 v : list) { size_t w = std::max(1u, width(v)); if (want.size() < w) want.resize(w); want[w - 1]++; }
    std::vector<size_t> got = {7, 7, 7}; std::vector<int> goti;
    calc::bit_length_frequencies(list, &got);
    MC_CHECK(got == want, "bit_length_frequencies(%s) = %s, want %s", show_ints(list).c_str(), show_ints(got).c_str(), show_ints(want).c_str());
    for (size_t i = want.size(); i-- > 1;) want[i - 1] += want[i];
    got = {9}; calc::cummulative_frequency_list(list, &got); calc::cummulative_frequency_list(list, &goti);
    MC_CHECK(got == want && std::vector<size_t>(goti.begin(), goti.end()) == want, "cummulative_frequency_list(%s) = %s, want %s", show_ints(list).c_str(), show_ints(got).c_str(), show_ints(want).c_str());
    c.obs(3);
}
// cost of every division by an independent forward dynamic program
static void plan(mc::Ctx& c, const std::vector<u64>& list, size_t max_levels, bool dflt) {
    std::vector<size_t> got = {99};
    if (dflt) calc::split_positions_optimized_for_dac(list, &got); else calc::split_positions_optimized_for_dac(list, &got, max_levels);
    size_t M = 1; for (u64 v : list) M = std::max<size_t>(M, width(v));
    std::vector<size_t> cf(M + 1, 0);
    for (u64 v : list) cf[std::max(1u, width(v)) - 1]++;
    for (size_t i = M; i-- > 1;) cf[i - 1] += cf[i];
    size_t sum = 0; for (size_t w : got) { MC_CHECK(w > 0 && w <= 64, "plan %s has a width %zu", show_ints(got).c_str(), w); sum += w; }
    MC_CHECK(got.size() >= 1 && got.size() <= max_levels, "plan %s has %zu layers, limit %zu", show_ints(got).c_str(), got.size(), max_levels);
    MC_CHECK(sum == M, "plan %s sums to %zu, want %zu", show_ints(got).c_str(), sum, M);
    auto rankbits = [&](size_t n) {
        size_t r = calc::additional_bit_size_of_rank(double(n));
        MC_CHECK(double(r) >= 1.25 * n && double(r) <= 1.25 * n + 400, "additional_bit_size_of_rank(%zu) = %zu", n, r);
        return r;
    };
    // best cost from bit t on, and the largest number of layers of a division with that cost
    std::vector<size_t> best(M + 1, 0), deep(M + 1, 0);
    for (size_t t = M; t-- > 0;) {
        best[t] = cf[t] * (M - t); deep[t] = 1;
        for (size_t i = t + 1; i < M; i++) {
            size_t x = cf[t] * (i - t) + rankbits(cf[t]) + best[i];
            if (x < best[t]) { best[t] = x; deep[t] = deep[i] + 1; } else if (x == best[t]) deep[t] = std::max(deep[t], deep[i] + 1);
        }
    }
    size_t cost = 0, t = 0;
    for (size_t k = 0; k < got.size(); k++) { cost += cf[t] * got[k] + (k + 1 < got.size() ? rankbits(cf[t]) : 0); t += got[k]; }
    MC_CHECK(cost >= best[0], "reference cost %zu is not minimal (%zu)", best[0], cost);
    if (deep[0] <= max_levels) MC_CHECK(cost == best[0], "plan %s costs %zu, a division of cost %zu exists", show_ints(got).c_str(), cost, best[0]);
    c.obs(4);
}
MC_SCOPE("C26", short_lists, 8) {                 // every list up to the length over values of the border widths
    static const u64 pal[] = {0, 1, 2, 3, 7, 8, 255, 256, 65535, u64(1) << 31, 0xFFFFFFFFull, u64(1) << 32, u64(1) << 62, u64(1) << 63, ~u64(0)};
    size_t n = 1 + c.choose(mc::lvl(4, 5, 3, 4));
    std::vector<u64> l; for (size_t i = 0; i < n; i++) l.push_back(pal[c.choose(15)]);
    c.log("list %s", show_ints(l).c_str());
    frequencies(c, l);
    plan(c, l, 8, true);
    plan(c, l, 1, false); plan(c, l, 2, false);
    c.state(mc::hash_seq(l));
}
// how many elements have each bit length, for a ladder of bit lengths
MC_SCOPE("C26", profiles, 16) {
    int rungs = mc::lvl(6, 7, 4, 5);
    std::vector<size_t> step = c.flip() ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7} : std::vector<size_t>{1, 9, 18, 27, 40, 52, 64};
    std::vector<u64> l; std::string s;
    for (int i = 0; i < rungs; i++) {
        size_t n = c.of<size_t>({0, 1, 40, 300, 1500});
        u64 top = u64(1) << (step[i] - 1);
        for (size_t k = 0; k < n; k++) l.push_back(top | (step[i] > 1 ? k & (top - 1) : 0));
        s += std::to_string(n) + "x" + std::to_string(step[i]) + "bit ";
    }
    if (l.empty()) throw mc::Prune{};
    size_t lim = 1 + c.choose(4);
    c.log("%s limit %zu (and the default)", s.c_str(), lim);
    plan(c, l, lim, false);
    if (lim == 1) { plan(c, l, 8, true); frequencies(c, l); }
    c.state(mc::hash_words({l.size(), lim})); mc::H128 h; h.bytes(s.data(), s.size()); h.word(lim); c.state(h);
}
MC_SCOPE("C26", geometric, 8) {                   // frequencies falling geometrically, so that many layers pay off
    size_t step = c.of<size_t>({4, 5, 6, 7, 8, 9}), n0 = c.of<size_t>({100, 2000, mc::thorough() ? 60000u : 20000u}); unsigned num = c.of<unsigned>({2, 3, 4}); size_t off = c.choose(3);
    std::vector<u64> l; size_t n = n0;
    for (size_t w = 1 + off; w <= 64 && n; w += step) { for (size_t k = 0; k < n; k++) l.push_back((u64(1) << (w - 1)) | (w > 20 ? k : 0)); n = n * (num == 4 ? 3 : 1) / (num == 4 ? 4 : num); }
    c.log("widths %zu, %zu, ... falling from %zu elements, %zu in all", 1 + off, 1 + off + step, n0, l.size());
    plan(c, l, 8, true);
    for (size_t lim = 1; lim <= 9; lim++) plan(c, l, lim, false);
    frequencies(c, l);
    c.state(mc::hash_words({step, n0, num, off}));
}
MC_SCOPE("C26", large_counts, 4) {                // more elements of one bit length than 16 bits count
    if (MC_ASAN) throw mc::Prune{};
    unsigned k = c.choose(5); size_t n0 = c.of<size_t>({65535, 65536, 70000, 140000, 1100000});
    if (n0 > 200000 && !mc::thorough() && k) throw mc::Prune{};
    std::vector<u64> l; 
    for (size_t i = 0; i < n0; i++) l.push_back(k == 0 ? 3 : k == 1 ? (i % 100 ? 1 : ~0ull - i) : k == 2 ? (u64(1) << 40) + i : k == 3 ? (i % 2 ? 200 : u64(1) << 33) : (u64(1) << (i % 64)));
    c.log("%zu values of kind %u", l.size(), k);
    frequencies(c, l); plan(c, l, 8, true); plan(c, l, 2, false);
    c.state(mc::hash_words({k, n0}));
}
