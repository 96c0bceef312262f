// C35, structures without a stored form and the free functions.
#include "shared.hpp"
#include <sim_ds/sort.hpp>
#include <sim_ds/log.hpp>
#include <sim_ds/bit_util256.hpp>

// the functions of the library as if they were queries of a list of numbers
struct SFunctions {
    using S = std::vector<size_t>;
    static const char* name() { return "free functions"; }
    static constexpr size_t n = 6;
    static constexpr bool serial = false;
    static S make(size_t k) { static const size_t len[n] = {4, 1, 9, 40, 300, 7}; S v; for (size_t i = 0; i < len[k]; i++) v.push_back((lcg(i, k) >> (lcg(i, 8) % 63 * (k != 5))) | 1); return v; }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t) {
        Queries<S> q; namespace calc = sim_ds::calc; namespace bu = sim_ds::bit_util;
        q.push_back({"HeapSort", [](const S& s) { S v(s); sim_ds::HeapSort(v.begin(), v.end()); return hv(v); }});
        q.push_back({"HeapSort with a comparator", [](const S& s) { S v(s); sim_ds::HeapSort(v.begin(), v.end(), [](size_t a, size_t b) { return (a ^ 5) > (b ^ 5); }); return hv(v); }});
        q.push_back({"SizeFits", [](const S& s) { mc::H128 h; for (auto x : s) { h.word(calc::SizeFitsInBits(x)); h.word(calc::SizeFitsInBytes(x)); h.word(calc::SizeFitsInUnits(x, 3)); h.word(calc::SizeFitsAsList(x, std::vector<size_t>{8, 8, 16, 32})); } return fold(h); }});
        q.push_back({"frequencies", [](const S& s) { std::vector<size_t> a, b; calc::bit_length_frequencies(s, &a); calc::cummulative_frequency_list(s, &b); return hv(a) ^ hv(b) * 7; }});
        q.push_back({"split_positions_optimized_for_dac", [](const S& s) { std::vector<size_t> a, b; calc::split_positions_optimized_for_dac(s, &a); calc::split_positions_optimized_for_dac(s, &b, 2); return hv(a) ^ hv(b) * 7; }});
        q.push_back({"bit functions", [](const S& s) { mc::H128 h; for (u64 x : s) { h.word(bu::popcnt(x)); h.word(bu::popcnt(u32(x))); h.word(bu::ctz(x)); h.word(bu::clz(x)); h.word(bu::ctz(u32(x | 1))); h.word(bu::clz(u32(x | 1))); h.word(bu::sel(x, 0)); h.word(bu::bextr(x, 3, 9)); h.word(bu::swap_pi8(x)); h.word(bu::popcnt110(x)); h.word(bu::cnt(x, 17)); } return fold(h); }});
        q.push_back({"256-bit functions", [](const S& s) { alignas(32) u64 w[4], d[4]; for (size_t i = 0; i < 4; i++) w[i] = s[i % s.size()]; mc::H128 h; h.word(bu::popcnt256(w)); h.word(bu::ctz256(w)); h.word(bu::clz256(w)); h.word(bu::is_zero256(w)); bu::copy256_epi64(w, d); for (u64 x : d) h.word(x); bu::set256_epi1(true, d); for (u64 x : d) h.word(x); return fold(h); }});
        q.push_back({"ShowAsBinary", [](const S& s) { std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); for (auto x : s) sim_ds::ShowAsBinary(x); std::cout.rdbuf(old); return hs(os.str()); }});
        q.push_back({"stream primitives", [](const S& s) { std::stringstream io; sim_ds::write_vec(s, io); sim_ds::write_val(s[0], io); sim_ds::write_string("x" + std::to_string(s.size()), io); S v; sim_ds::read_vec(io, v); u64 x = sim_ds::read_val<u64>(io); return hv(v) ^ x ^ hs(sim_ds::read_string(io)); }});
        q.push_back({"recursive", [](const S& s) { auto f = sim_ds::recursive([](auto& self, size_t i) -> u64 { return i ? i + self(self, i - 1) : 0; }); return f(s.size()); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
};
#define FUNCTIONS(X) X(SFunctions, functions)

SUBJECTS_OTHER(SCOPE_SHARED)
FUNCTIONS(SCOPE_SHARED)
SUBJECTS_OTHER(SCOPE_PAIR)
FUNCTIONS(SCOPE_PAIR)
