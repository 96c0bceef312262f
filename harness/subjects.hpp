// One description per structure of the library: how to build several contents, which const queries exist, how to modify
// and how to store it.  Used by C22 (serial), C28 (constq), C29 (value) and C25.
#pragma once
#include "common.hpp"
#include <sim_ds/basic.hpp>
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/InitializableArray.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/BijectiveHash.hpp>
#include <sim_ds/string_util/graph_util.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/PatternMatching.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/Samc.hpp>
namespace subj {
using namespace h;
template <class S> struct Query { std::string what; std::function<u64(const S&)> f; };
template <class S> using Queries = std::vector<Query<S>>;
inline u64 fold(const mc::H128& h) { return h.a ^ (h.b * 3); }
inline u64 hs(std::string_view s) { return fold(hash_str(s)); }
template <class V> u64 hv(const V& v) { return fold(mc::hash_seq(v)); }
template <class F> u64 bytes_of(F f) { std::ostringstream os; f(os); return hs(os.str()); }
template <class F> u64 throws_range(F f) { try { f(); return 1; } catch (const std::out_of_range&) { return 2; } }
inline std::string num(const char* a, size_t i, const char* b = ")") { return a + std::to_string(i) + b; }
// positions of a sequence of n elements worth asking for one by one
inline std::vector<size_t> spots(size_t n) {
    std::set<size_t> s;
    for (size_t x : {size_t(0), size_t(1), size_t(63), size_t(64), size_t(65), size_t(255), size_t(256), size_t(511), size_t(512), n / 2, n - 1, n - 2}) if (x < n) s.insert(x);
    return {s.begin(), s.end()};
}
inline u64 lcg(u64 i, u64 k) { u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
inline Bits pattern(size_t n, unsigned kind) {
    Bits b(n);
    for (size_t i = 0; i < n; i++) b[i] = kind == 0 ? lcg(i, 7) & 1 : kind == 1 ? true : kind == 2 ? i % 97 == 96 : (i / 64) % 2;
    return b;
}

struct SBitVector {
    using S = sim_ds::BitVector;
    static const char* name() { return "BitVector"; }
    static constexpr size_t n = 12;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) {
        static const size_t len[n] = {0, 1, 5, 63, 64, 65, 128, 200, 512, 513, 1000, 3};
        S b(len[k]); Bits p = pattern(len[k], k % 4);
        for (size_t i = 0; i < p.size(); i++) b[i] = p[i];
        if (k == 11) { b.resize(900, true); b.resize(70); b.resize(64, true); }
        if (k == 0) return S();
        return b;
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"empty()", [](const S& s) { return u64(s.empty()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i : spots(m)) { q.push_back({num("[", i, "]"), [i](const S& s) { return u64(bool(s[i])); }}); q.push_back({num("at(", i), [i](const S& s) { return u64(bool(s.at(i))); }}); }
        q.push_back({num("at(", m), [m](const S& s) { return throws_range([&] { (void)bool(s.at(m)); }); }});
        if (m) { q.push_back({"front()", [](const S& s) { return u64(bool(s.front())); }}); q.push_back({"back()", [](const S& s) { return u64(bool(s.back())); }}); }
        q.push_back({"iteration", [](const S& s) { mc::H128 h; for (auto it = s.begin(); it != s.end(); ++it) h.word(bool(*it)); return fold(h); }});
        q.push_back({"backward iteration", [](const S& s) { mc::H128 h; auto it = s.end(); while (it != s.begin()) { --it; h.word(bool(*it)); } return fold(h); }});
        q.push_back({"every [i]", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) h.word(bool(s[i])); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 6;
    static const char* mname(size_t k) { static const char* a[] = {"push_back(1)", "flip [0]", "resize(n+70,1)", "resize(n/2)", "assign(3,1)", "fill(all,1)"}; return a[k]; }
    static bool can(const S& s, size_t k) { return k != 1 || s.size(); }
    static void mutate(S& s, size_t k) {
        switch (k) {
            case 0: s.push_back(true); break; case 1: s[0] = !bool(s[0]); break; case 2: s.resize(s.size() + 70, true); break;
            case 3: s.resize(s.size() / 2); break; case 4: s.assign(3, true); break; default: s.fill(s.begin(), s.end(), true);
        }
    }
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { S s; s.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

template <bool Sel> struct SSuccinct {
    using S = sim_ds::SuccinctBitVector<Sel>;
    static const char* name() { return Sel ? "SuccinctBitVector<true>" : "SuccinctBitVector<false>"; }
    static constexpr size_t n = 13;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) {
        static const size_t len[n] = {0, 0, 1, 63, 64, 65, 511, 512, 513, 1024, 1500, 2048, 700};
        if (k == 0) return S();
        sim_ds::BitVector b(len[k]); Bits p = pattern(len[k], k % 4);
        for (size_t i = 0; i < p.size(); i++) b[i] = p[i];
        return S(b);
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t k, size_t m) {
        Queries<S> q; size_t ones = 0;
        { S o = make(k); if (o.size() == m) for (size_t i = 0; i < m; i++) ones += o[i]; }
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"num_blocks()", [](const S& s) { return u64(s.num_blocks()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i : spots(m)) { q.push_back({num("[", i, "]"), [i](const S& s) { return u64(s[i]); }}); }
        for (size_t i : spots(m + 1)) { q.push_back({num("rank(", i), [i](const S& s) { return u64(s.rank(i)); }}); q.push_back({num("rank_0(", i), [i](const S& s) { return u64(s.rank_0(i)); }}); }
        if constexpr (Sel) {
            for (size_t i : spots(ones)) q.push_back({num("select(", i), [i](const S& s) { return u64(s.select(i)); }});
            q.push_back({"every select", [ones](const S& s) { mc::H128 h; for (size_t i = 0; i < ones; i++) h.word(s.select(i)); return fold(h); }});
        }
        q.push_back({"every rank and bit", [m](const S& s) { mc::H128 h; for (size_t i = 0; i <= m; i++) { h.word(s.rank_1(i)); if (i < m) h.word(s[i]); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { return S(is); }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

struct SFitVector {
    using S = sim_ds::FitVector;
    static const char* name() { return "FitVector"; }
    static constexpr size_t n = 12;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) {
        static const size_t w[n] = {64, 1, 7, 8, 13, 31, 32, 33, 63, 64, 5, 64}, len[n] = {0, 65, 9, 16, 5, 33, 64, 3, 2, 70, 13, 0};
        S v(w[k]); for (size_t i = 0; i < len[k]; i++) v.push_back(lcg(i, k) & mask(w[k]));
        if (k == 10) { v.resize(40, 31); v.resize(17); }
        if (k == 11) return S(std::vector<size_t>{});
        return v;
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"empty()", [](const S& s) { return u64(s.empty()); }});
        q.push_back({"unit_width()", [](const S& s) { return u64(s.unit_width()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i : spots(m)) { q.push_back({num("[", i, "]"), [i](const S& s) { return u64(s[i]); }}); q.push_back({num("at(", i), [i](const S& s) { return u64(s.at(i)); }}); }
        q.push_back({num("at(", m), [m](const S& s) { return throws_range([&] { (void)u64(s.at(m)); }); }});
        if (m) { q.push_back({"front()", [](const S& s) { return u64(s.front()); }}); q.push_back({"back()", [](const S& s) { return u64(s.back()); }}); }
        q.push_back({"iteration", [](const S& s) { mc::H128 h; for (auto it = s.begin(); it != s.end(); ++it) h.word(u64(*it)); return fold(h); }});
        q.push_back({"backward iteration", [](const S& s) { mc::H128 h; auto it = s.end(); while (it != s.begin()) { --it; h.word(u64(*it)); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 5;
    static const char* mname(size_t k) { static const char* a[] = {"push_back(1)", "[last] ^= 1", "resize(n+9)", "resize(n/2)", "assign(5,1)"}; return a[k]; }
    static bool can(const S& s, size_t k) { return s.unit_width() && (k != 1 || s.size()); }
    static void mutate(S& s, size_t k) {
        switch (k) {
            case 0: s.push_back(1); break; case 1: { u64 v = s[s.size() - 1]; s[s.size() - 1] = v ^ 1; break; } case 2: s.resize(s.size() + 9); break;
            case 3: s.resize(s.size() / 2); break; default: s.assign(5, 1);
        }
    }
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { return S(is); }
    static void reload(S& t, std::istream& is) { t = S(is); }
};

struct SDac {
    using S = sim_ds::DacVector;
    static const char* name() { return "DacVector"; }
    static constexpr size_t n = 11;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) {
        std::vector<size_t> v; std::vector<size_t> units;
        switch (k) {
            case 0: return S();
            case 1: return S(std::vector<size_t>{});
            case 2: v = {0}; break;
            case 3: v = {1, 0, 1}; break;
            case 4: v = {0, 255, 256, 65535, 65536, 1ull << 40, ~0ull}; break;
            case 5: v = {~0ull}; break;
            case 6: for (size_t i = 0; i < 600; i++) v.push_back(lcg(i, 3) >> (lcg(i, 4) % 64)); break;
            case 7: for (size_t i = 0; i < 200; i++) v.push_back(lcg(i, 3) % 7); break;
            case 8: for (size_t i = 0; i < 60; i++) v.push_back(lcg(i, 3) & mask(20)); units = {8, 8, 8}; break;
            case 9: for (size_t i = 0; i < 60; i++) v.push_back(lcg(i, 3) >> (i % 64)); units = {1, 63}; break;
            default: v = {5, 6, 7}; units = {64}; break;
        }
        return units.empty() ? S(v) : S(v, units);
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"empty()", [](const S& s) { return u64(s.empty()); }});
        q.push_back({"num_layers()", [](const S& s) { return u64(s.num_layers()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i : spots(m)) {
            q.push_back({num("[", i, "]"), [i](const S& s) { return u64(s[i]); }}); q.push_back({num("at(", i), [i](const S& s) { return u64(s.at(i)); }});
            q.push_back({num("depth(", i), [i](const S& s) { return u64(s.depth(i)); }});
        }
        q.push_back({num("at(", m), [m](const S& s) { return throws_range([&] { s.at(m); }); }});
        if (m) { q.push_back({"front()", [](const S& s) { return u64(s.front()); }}); q.push_back({"back()", [](const S& s) { return u64(s.back()); }}); }
        if (m) q.push_back({"ShowStatus()", [](const S& s) { return bytes_of([&](std::ostream& o) { s.ShowStatus(o); }); }});
        q.push_back({"iteration", [](const S& s) { mc::H128 h; for (auto it = s.begin(); it != s.end(); ++it) h.word(u64(*it)); return fold(h); }});
        q.push_back({"every depth", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) h.word(s.depth(i)); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { return S(is); }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

template <unsigned U> struct SMulti {
    using V = sim_ds::MultiBitVector<U>;
    struct S { V v; size_t len = 0; };
    static const char* name() { return U == 1 ? "MultiBitVector<1>" : U == 2 ? "MultiBitVector<2>" : "MultiBitVector<3>"; }
    static constexpr size_t n = 9;
    static constexpr bool serial = true, fresh = true;
    static u64 sym(size_t i, size_t k) { u64 x = lcg(i, k); return k % 3 == 0 ? x & mask(U) : k % 3 == 1 ? (x % 3 ? 0 : 1 + x / 3 % mask(U)) : 1 + i / 50 % mask(U); }
    static S make(size_t k) {
        static const size_t len[n] = {0, 1, 21, 32, 64, 65, 300, 600, 20};
        S s; for (size_t i = 0; i < len[k]; i++) s.v.set(i, uint8_t(sym(i, k)));
        if (k == 8) { s.v.set(100, 1); s.len = 101; } else s.len = len[k];
        s.v.build();
        return s;
    }
    static size_t extent(const S& s) { return s.len; }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.v.size_in_bytes()); }});
        for (size_t i : spots(m)) { q.push_back({num("[", i, "]"), [i](const S& s) { return u64(s.v[i]); }}); q.push_back({num("rank(", i), [i](const S& s) { return s.v[i] ? u64(s.v.rank(i)) : ~u64(0); }}); }
        q.push_back({"every symbol and rank", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) { h.word(s.v[i]); if (s.v[i]) h.word(s.v.rank(i)); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 3;
    static const char* mname(size_t k) { static const char* a[] = {"set(0,1) build", "set(n,max) build", "set(n+130,1) build"}; return a[k]; }
    static bool can(const S&, size_t) { return true; }
    static void mutate(S& s, size_t k) {
        if (k == 0) { s.v.set(0, 1); s.len = std::max<size_t>(s.len, 1); } else if (k == 1) { s.v.set(s.len, uint8_t(mask(U))); s.len++; } else { s.v.set(s.len + 130, 1); s.len += 131; }
        s.v.build();
    }
    static void write(const S& s, std::ostream& os) { s.v.Write(os); }
    static S load(std::istream& is) { S s; s.v.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.v.Read(is); }
};

struct SWavelet {
    using S = sim_ds::WaveletTree;
    static const char* name() { return "WaveletTree"; }
    static constexpr size_t n = 10;
    static constexpr bool serial = true, fresh = false;
    static std::vector<int> seq(size_t k) {
        std::vector<int> v;
        auto fill = [&](size_t len, unsigned al) { for (size_t i = 0; i < len; i++) v.push_back(int(lcg(i, k) % al)); };
        switch (k) {
            case 0: v = {0}; break; case 1: v = {1}; break; case 2: v = {255}; break; case 3: v = {0, 1, 2, 3, 2, 1}; break;
            case 4: fill(100, 4); break; case 5: fill(600, 256); break; case 6: fill(513, 5); break; case 7: fill(64, 128); break;
            case 8: v.assign(70, 3); break; default: fill(130, 17); v.push_back(200);
        }
        return v;
    }
    static S make(size_t k) { return S(seq(k)); }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i : spots(m)) {
            q.push_back({num("[", i, "]"), [i](const S& s) { return u64(s[i]); }}); q.push_back({num("rank(", i), [i](const S& s) { return u64(s.rank(i)); }});
            q.push_back({num("AccessAndRank(", i), [i](const S& s) { auto p = s.AccessAndRank(i); return u64(p.first) << 40 ^ p.second; }});
        }
        for (unsigned ch : {0u, 1u, 3u, 17u, 200u, 255u}) q.push_back({num("rank(", ch, ",n)"), [ch, m](const S& s) { return u64(s.rank(uint8_t(ch), m)); }});
        q.push_back({"every access and rank", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) { h.word(s[i]); h.word(s.rank(i)); for (unsigned ch : {0, 1, 2, 3, 16, 254}) h.word(s.rank(uint8_t(ch), i)); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { S s = make(0); s.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

struct SMultiple {
    using S = sim_ds::MultipleVector;
    static const char* name() { return "MultipleVector"; }
    static constexpr size_t n = 7;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) {
        S s;
        switch (k) {
            case 0: return s;
            case 1: s.set_element_sizes(std::vector<size_t>{1}); for (size_t i = 0; i < 7; i++) s.push_back({lcg(i, 1) & 255}); break;
            case 2: s.set_element_sizes(std::vector<size_t>{8, 1}); for (size_t i = 0; i < 5; i++) s.push_back({lcg(i, 1), lcg(i, 2) & 255}); break;
            case 3: s.set_element_sizes(std::vector<size_t>{3, 4, 7}); for (size_t i = 0; i < 70; i++) s.push_back({lcg(i, 1) & mask(24), lcg(i, 2) & mask(32), lcg(i, 3) & mask(56)}); break;
            case 4: s.set_element_sizes(std::vector<size_t>{2, 5}); break;
            case 5: s.set_element_sizes(std::vector<size_t>{2, 2, 2, 2}); s.resize(3); break;
            default: s = S{1, 6, 2}; for (size_t i = 0; i < 9; i++) s.push_back({i, lcg(i, 9) & mask(48), 7}); s.resize(4); break;
        }
        return s;
    }
    static size_t extent(const S& s) { return s.size(); }
    static size_t fields(size_t k) { static const size_t f[n] = {0, 1, 2, 3, 2, 4, 3}; return f[k]; }
    static Queries<S> queries(size_t k, size_t m) {
        Queries<S> q; size_t f = fields(k);
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"block_size()", [](const S& s) { return u64(s.block_size()); }});
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (size_t i = 0; i < f; i++) q.push_back({num("element_size(", i), [i](const S& s) { return u64(s.element_size(i)); }});
        for (size_t i : spots(m)) {
            q.push_back({num("nested_element<0>(", i), [i](const S& s) { return u64(s.nested_element<0>(i)); }});
            if (f > 1) q.push_back({num("nested_element<1>(", i), [i](const S& s) { return u64(s.nested_element<1>(i)); }});
            q.push_back({num("block(", i, ").get<0>()"), [i](const S& s) { return u64(s.block(i).get<0>()); }});
            if (f > 2) q.push_back({num("block(", i, ").get<2>()"), [i](const S& s) { return u64(s.block(i).get<2>()); }});
        }
        q.push_back({"every element", [m, f](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) { if (f > 0) h.word(s.nested_element<0>(i)); if (f > 1) h.word(s.nested_element<1>(i)); if (f > 2) h.word(s.nested_element<2>(i)); if (f > 3) h.word(s.nested_element<3>(i)); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 4;
    static const char* mname(size_t k) { static const char* a[] = {"emplace_back()", "set_nested_element<0>(n-1,77)", "resize(n/2)", "push_back({9})"}; return a[k]; }
    static bool can(const S& s, size_t k) { return s.block_size() && (k != 1 || s.size()); }
    static void mutate(S& s, size_t k) {
        switch (k) { case 0: s.emplace_back(); break; case 1: s.set_nested_element<0>(s.size() - 1, 77); break; case 2: s.resize(s.size() / 2); break; default: s.push_back({9}); }
    }
    static void write(const S& s, std::ostream& os) { s.StoreTo(os); }
    static S load(std::istream& is) { S s; s.LoadFrom(is); return s; }
    static void reload(S& t, std::istream& is) { t.LoadFrom(is); }
};

struct SSuffix {
    using S = sim_ds::SuffixArray;
    static const char* name() { return "SuffixArray"; }
    static constexpr size_t n = 10;
    static constexpr bool serial = true, fresh = true;
    static std::string text(size_t k) {
        switch (k) {
            case 0: case 1: return ""; case 2: return "a"; case 3: return "banana"; case 4: return std::string("\0\xff\0\x80", 4); case 5: return std::string(40, 'x');
            case 6: { std::string s; for (size_t i = 0; i < 300; i++) s += "abr"[lcg(i, 5) % 3]; return s; }
            case 7: { std::string s; for (size_t i = 0; i < 256; i++) s += char(i * 37); return s; }
            case 8: return "mississippi"; default: return std::string(1, 0);
        }
    }
    static S make(size_t k) { mc::Mute m; return k == 0 ? S() : S(text(k)); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        Queries<S> q; size_t m = text(k).size();
        q.push_back({"WriteSA()", [](const S& s) { return bytes_of([&](std::ostream& o) { s.WriteSA(o); }); }});
        q.push_back({"WriteLCP()", [](const S& s) { return bytes_of([&](std::ostream& o) { s.WriteLCP(o); }); }});
        for (size_t i : spots(m)) { q.push_back({num("char_at(", i), [i](const S& s) { return u64(s.char_at(i)); }}); q.push_back({num("suffix(", i), [i](const S& s) { return hs(s.suffix(i)); }}); q.push_back({num("suffix(", i, ",3)"), [i](const S& s) { return hs(s.suffix(i, 3)); }}); }
        q.push_back({"whole text", [](const S& s) { return hs(s.suffix(0)); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { S s; s.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

inline std::vector<std::string> keys(size_t k) {
    std::set<std::string> s;
    switch (k) {
        case 0: case 1: break;
        case 2: s = {""}; break;
        case 3: s = {"a"}; break;
        case 4: s = {"", "a", "ab", "b", "ba", "bab"}; break;
        case 5: s = {"\x01", "\xfe", "\xfe\x01", "\x80\x7f", "\x7f"}; break;
        case 6: for (size_t i = 0; i < 60; i++) s.insert(std::to_string(lcg(i, 1) % 1000)); break;
        case 7: for (size_t i = 0; i < 520; i++) s.insert(std::to_string(i)); break;
        default: s = {std::string(70, 'z'), std::string(69, 'z'), std::string(40, 'z') + "y"};
    }
    return {s.begin(), s.end()};
}
inline std::vector<std::string> key_queries(size_t k) {
    std::vector<std::string> q = keys(k), r{"", "a", "ab", "b", "zzzz", std::string(1, 0), "\xff", std::string(80, 'z')};
    for (size_t i = 0; i < q.size(); i += 1 + q.size() / 12) { r.push_back(q[i]); r.push_back(q[i] + "a"); r.push_back(q[i].substr(0, q[i].size() / 2)); }
    if (!q.empty()) r.push_back(q.back());
    return r;
}
template <class Code, bool Legacy> struct SSamc {
    using S = sim_ds::Samc<Code, Legacy>;
    static const char* name() { return Legacy ? "Samc<legacy>" : sizeof(Code) == 4 ? "Samc<u32>" : "Samc<u64>"; }
    static constexpr size_t n = 9;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) { if (k == 0) return S(); auto v = keys(k); return S(v.begin(), v.end()); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        Queries<S> q; auto qs = key_queries(k), all = keys(k);
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (auto& x : qs) q.push_back({"accept(" + show_str(x) + ")", [x](const S& s) { return u64(s.accept(x)); }});
        q.push_back({"accept of every key", [all](const S& s) { mc::H128 h; for (auto& x : all) { h.word(s.accept(x)); h.word(s.accept(x + "q")); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { S s; s.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};
template <class Code> struct SDict {
    using S = sim_ds::SamcDict<Code>;
    static const char* name() { return sizeof(Code) == 4 ? "SamcDict<u32>" : "SamcDict<u64>"; }
    static constexpr size_t n = 9;
    static constexpr bool serial = true, fresh = true;
    static S make(size_t k) { if (k == 0) return S(); auto v = keys(k); return S(v.begin(), v.end()); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        Queries<S> q; auto qs = key_queries(k), all = keys(k);
        q.push_back({"size_in_bytes()", [](const S& s) { return u64(s.size_in_bytes()); }});
        for (auto& x : qs) q.push_back({"lookup(" + show_str(x) + ")", [x](const S& s) { return u64(s.lookup(x)); }});
        for (size_t i : spots(all.size())) q.push_back({num("access(", i), [i](const S& s) { return hs(s.access(i)); }});
        q.push_back({"access of every id", [all](const S& s) { mc::H128 h; for (size_t i = 0; i < all.size(); i++) { h.word(hs(s.access(i))); h.word(s.lookup(all[i])); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
    static void write(const S& s, std::ostream& os) { s.Write(os); }
    static S load(std::istream& is) { S s; s.Read(is); return s; }
    static void reload(S& t, std::istream& is) { t.Read(is); }
};

// ---- structures without a stored form
template <bool Asc> struct SHeap {
    using S = sim_ds::Heap<Asc>;
    static const char* name() { return Asc ? "MinHeap" : "MaxHeap"; }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static S make(size_t k) { std::vector<size_t> v; static const size_t len[n] = {0, 1, 2, 7, 40}; for (size_t i = 0; i < len[k]; i++) v.push_back(lcg(i, k) % (k == 3 ? 3 : 1000)); return k ? S(v) : S(); }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        if (m) q.push_back({"front()", [](const S& s) { return u64(s.front()); }});
        for (size_t i : spots(m)) { q.push_back({num("value(", i + 1), [i](const S& s) { return u64(s.value(i + 1)); }}); q.push_back({num("is_leaf(", i + 1), [i](const S& s) { return u64(s.is_leaf(i + 1)); }}); }
        q.push_back({"links", [](const S& s) { return u64(s.root() * 1000000 + s.parent(5) * 10000 + s.left(5) * 100 + s.right(5)); }});
        q.push_back({"every value", [m](const S& s) { mc::H128 h; for (size_t i = 1; i <= m; i++) h.word(s.value(i)); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 3;
    static const char* mname(size_t k) { static const char* a[] = {"push(5)", "push(0)", "pop()"}; return a[k]; }
    static bool can(const S& s, size_t k) { return k != 2 || s.size(); }
    static void mutate(S& s, size_t k) { if (k == 0) s.push(5); else if (k == 1) s.push(0); else s.pop(); }
};
template <class A, size_t Size> struct SInit {
    using S = A; using T = typename A::value_type;
    static const char* name() { return Size == 0 ? "InitializableArrayFolklore" : "InitializableArray"; }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static S fresh_one(size_t k) { if constexpr (Size == 0) { static const size_t len[] = {0, 1, 3, 8, 40}; return S(len[k], T(k)); } else return S(T(k)); }
    static S make(size_t k) {
        S s = fresh_one(k); size_t m = s.size();
        for (size_t i = 0; i < m; i++) if (k && lcg(i, k) % 3) s.set(i, T(lcg(i, k) % 100));
        if (k == 3) s.fill(T(9));
        if (k == 4 && m) { s.fill(T(8)); s.set(m - 1, T(3)); s.set(m / 2, T(4)); }
        return s;
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        for (size_t i : spots(m)) {
            q.push_back({num("get(", i), [i](const S& s) { return u64(s.get(i)); }});
            if constexpr (Size != 0) q.push_back({num("[", i, "]"), [i](const S& s) { return u64(T(s[i])); }});
        }
        q.push_back({"every get", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) h.word(u64(s.get(i))); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 3;
    static const char* mname(size_t k) { static const char* a[] = {"set(0,7)", "set(n-1,5)", "fill(2)"}; return a[k]; }
    static bool can(const S& s, size_t k) { return k == 2 || s.size(); }
    static void mutate(S& s, size_t k) { if (k == 0) s.set(0, T(7)); else if (k == 1) s.set(s.size() - 1, T(5)); else s.fill(T(2)); }
};
template <unsigned VB, unsigned LF> struct SCht {
    using S = sim_ds::CHT<VB, LF>;
    static const char* name() { return VB ? LF == 50 ? "CHT<16,50>" : "CHT<16,90>" : "CHT<0>"; }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static S make(size_t k) {
        S s(k == 4 ? 63 : 12, k == 1 ? 1 : 8);
        if (VB == 0) s.set_value_width(16);
        for (size_t i = 0; i < (k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 3 : 40); i++) s.set(i * 3, lcg(i, k) & 0xffff);
        if (k == 3) for (size_t i = 0; i < 40; i += 2) s.erase(i * 3);
        return s;
    }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"bucket()", [](const S& s) { return u64(s.bucket()); }});
        for (size_t i : {0, 1, 3, 6, 7, 9, 60, 117, 118, 4095}) q.push_back({num("get(", i), [i](const S& s) { auto p = s.get(i); return p.first ? p.second : ~u64(0); }});
        q.push_back({"every get", [](const S& s) { mc::H128 h; for (size_t i = 0; i < 200; i++) { auto p = s.get(i); h.word(p.first ? p.second + 1 : 0); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 4;
    static const char* mname(size_t k) { static const char* a[] = {"set(1,5)", "set(3,6)", "erase(3)", "20 sets"}; return a[k]; }
    static bool can(const S&, size_t) { return true; }
    static void mutate(S& s, size_t k) { if (k == 0) s.set(1, 5); else if (k == 1) s.set(3, 6); else if (k == 2) s.erase(3); else for (size_t i = 0; i < 20; i++) s.set(150 + i, i); }
};
template <class H, bool Width = true> struct SHash {
    using S = H;
    static const char* name() { return typeid(H).name(); }
    static constexpr size_t n = 6;
    static constexpr bool serial = false;
    static S make(size_t k) { static const unsigned w[n] = {1, 2, 13, 31, 63, 64}; return S(w[k]); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        static const unsigned w[n] = {1, 2, 13, 31, 63, 64};
        Queries<S> q;
        for (u64 x : {u64(0), u64(1), u64(2), u64(77), ~u64(0), u64(0x123456789abcdef)}) { u64 y = x & mask(w[k]); q.push_back({num("hash(", y), [y](const S& s) { return s.hash(y); }}); q.push_back({num("ihash(", y), [y](const S& s) { return s.ihash(y); }}); }
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
};
struct SCdrwArray {
    using S = sim_ds::CDRWArray;
    static const char* name() { return "CDRWArray"; }
    static constexpr size_t n = 4;
    static constexpr bool serial = false;
    static S make(size_t k) { static const size_t len[n] = {0, 1, 5, 40}; S s(len[k]); for (size_t i = 0; i < len[k]; i++) s.set(i, lcg(i, k) >> (lcg(i, 9) % 65 % 64)); if (k == 2) { s.set(1, 0); s.set(2, 1); } return s; }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        for (size_t i : spots(m)) q.push_back({num("get(", i), [i](const S& s) { return s.get(i); }});
        q.push_back({"every get", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) h.word(s.get(i)); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 3;
    static const char* mname(size_t k) { static const char* a[] = {"set(0,0)", "set(0,~0)", "set(n-1,9)"}; return a[k]; }
    static bool can(const S& s, size_t) { return s.size(); }
    static void mutate(S& s, size_t k) { if (k == 0) s.set(0, 0); else if (k == 1) s.set(0, ~u64(0)); else s.set(s.size() - 1, 9); }
};
struct SCdrwVector {
    using S = sim_ds::CDRWVector;
    static const char* name() { return "CDRWVector"; }
    static constexpr size_t n = 4;
    static constexpr bool serial = false;
    static S make(size_t k) { S s(k == 2 ? 3 : 0); for (size_t i = 0; i < (k == 0 ? 0 : k == 1 ? 1 : 6); i++) s.push_back(lcg(i, k) >> (i * 9)); if (k == 3) { s.pop_back(); s.reserve(20); } return s; }
    static size_t extent(const S& s) { return s.size(); }
    static Queries<S> queries(size_t, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"empty()", [](const S& s) { return u64(s.empty()); }});
        q.push_back({"capacity()>=size()", [](const S& s) { return u64(s.capacity() >= s.size()); }});
        for (size_t i : spots(m)) q.push_back({num("get(", i), [i](const S& s) { return s.get(i); }});
        q.push_back({"every get", [m](const S& s) { mc::H128 h; for (size_t i = 0; i < m; i++) h.word(s.get(i)); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 5;
    static const char* mname(size_t k) { static const char* a[] = {"push_back(3)", "pop_back()", "set(0,~0)", "resize(n+3)", "shrink_to_fit()"}; return a[k]; }
    static bool can(const S& s, size_t k) { return k != 2 || s.size(); }
    static void mutate(S& s, size_t k) { switch (k) { case 0: s.push_back(3); break; case 1: s.pop_back(); break; case 2: s.set(0, ~u64(0)); break; case 3: s.resize(s.size() + 3); break; default: s.shrink_to_fit(); } }
};
template <class Item, class Size> struct STrie {
    using S = sim_ds::graph_util::Trie<Item, Size>;
    static const char* name() { return sizeof(Size) == 8 ? "Trie<int>" : "Trie<string,u8>"; }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static Item item(size_t i) { if constexpr (std::is_same_v<Item, std::string>) return std::string("item number ") + std::to_string(i); else return Item(i); }
    static u64 hi(const Item& i) { if constexpr (std::is_same_v<Item, std::string>) return hs(i); else return u64(i); }
    static S make(size_t k) { S s; auto v = keys(k == 4 ? 8 : k + 1); for (size_t i = 0; i < v.size(); i++) s.insert(v[i], item(i)); return s; }
    static size_t extent(const S& s) { return s.size(); }
    // traverse() is not const, it hands out the address of the stored item
    static Queries<S> queries(size_t k, size_t m) {
        Queries<S> q;
        q.push_back({"size()", [](const S& s) { return u64(s.size()); }});
        q.push_back({"dfs()", [](const S& s) { mc::H128 h; s.dfs([&](auto& nd, size_t d) { h.word(d); h.word(nd.terminal()); nd.for_each_edge([&](uint8_t c, auto t) { h.word(c); h.word(t); }); }); return fold(h); }});
        q.push_back({"bfs()", [](const S& s) { mc::H128 h; s.bfs([&](auto& nd, size_t d) { h.word(d); h.word(nd.terminal()); }); return fold(h); }});
        for (size_t i : spots(m)) q.push_back({num("node(", i, ").target('a')"), [i](const S& s) { return u64(s.node(i).target('a')) * 2 + s.node(i).terminal(); }});
        q.push_back({"traverse of a copy", [k](const S& s) { S t(s); mc::H128 h; for (auto& x : key_queries(k == 4 ? 8 : k + 1)) { auto* p = t.traverse(x); h.word(p ? hi(*p) + 1 : 0); } for (auto x : {"qq", "a", ""}) { auto* p = t.traverse(x); h.word(p ? hi(*p) + 1 : 0); } return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 3;
    static const char* mname(size_t k) { static const char* a[] = {"insert(\"a\",70)", "insert(\"qq\",71)", "*traverse(\"a\")=72"}; return a[k]; }
    static bool can(const S& s, size_t k) { S t(s); return k != 2 || t.traverse("a"); }
    static void mutate(S& s, size_t k) { if (k == 0) s.insert("a", item(70)); else if (k == 1) s.insert("qq", item(71)); else *s.traverse("a") = item(72); }
};
struct SOracle {
    using S = sim_ds::FactorOracle;
    static const char* name() { return "FactorOracle"; }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static std::string text(size_t k) { switch (k) { case 0: return ""; case 1: return "a"; case 2: return "abbbaab"; case 3: return std::string("\0a\0\xff\0b", 6); default: { std::string s; for (size_t i = 0; i < 300; i++) s += char(i * i % 251); return s; } } }
    static S make(size_t k) { return S(text(k)); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        Queries<S> q; std::string t = text(k);
        for (std::string x : {std::string(), std::string("a"), std::string("ab"), std::string("bb"), std::string("abab"), std::string(1, 0), std::string("\xff"), t, t + "a", t.substr(t.size() / 3, 5), t.substr(t.size() / 2)})
            q.push_back({"accept(" + show_str(x, 20) + ")", [x](const S& s) { return u64(s.accept(std::string_view(x))); }});
        q.push_back({"every image()", [t](const S& s) { mc::H128 h; for (size_t st = 0; st <= t.size(); st++) for (unsigned c = 0; c < 256; c += t.size() > 50 ? 5 : 1) { size_t x = st; bool r = s.image(x, uint8_t(c)); h.word(r ? x : ~u64(0)); } return fold(h); }});
        q.push_back({"accept of every pair", [t](const S& s) { mc::H128 h; for (char a : {'a', 'b', '\0', '\xff'}) for (char b : {'a', 'b', '\0', '\xff'}) h.word(s.accept(std::string_view(std::string{a, b}))); return fold(h); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
};
template <class M> struct SMatcher {
    using S = M;
    static const char* name() { return typeid(M).name(); }
    static constexpr size_t n = 5;
    static constexpr bool serial = false;
    static std::string_view key(size_t k) { static const std::string ks[n] = {"a", "ab", "aaa", "abcab", std::string("\0\xff\x80", 3)}; return ks[k]; }
    static S make(size_t k) { return S(key(k)); }
    static size_t extent(const S&) { return 0; }
    static Queries<S> queries(size_t k, size_t) {
        Queries<S> q; std::string key_(key(k)), rep;
        for (int i = 0; i < 40; i++) rep += key_ + (i % 3 ? "" : "ab");
        for (std::string x : {std::string(), std::string("a"), std::string("ababab"), std::string("aaaaaaa"), std::string("abcabcabxabcab"), key_, key_ + key_, "x" + key_ + "x", key_.substr(1) + key_, rep})
            q.push_back({"find_all(" + show_str(x, 20) + ")", [x](const S& s) { return hv(s.find_all(x)); }});
        return q;
    }
    static constexpr size_t nmut = 0;
    static const char* mname(size_t) { return ""; }
    static bool can(const S&, size_t) { return false; }
    static void mutate(S&, size_t) {}
};
// all answers of s, in a fixed order
template <class Sub> std::vector<u64> answers(const typename Sub::S& s, size_t k) {
    std::vector<u64> r{Sub::extent(s)};
    for (auto& q : Sub::queries(k, r[0])) r.push_back(q.f(s));
    return r;
}
template <class Sub> std::string difference(const typename Sub::S& s, size_t k, const std::vector<u64>& want) {
    if (Sub::extent(s) != want[0]) return "size " + std::to_string(Sub::extent(s)) + " instead of " + std::to_string(want[0]);
    auto qs = Sub::queries(k, want[0]);
    for (size_t i = 0; i < qs.size(); i++) { u64 x = qs[i].f(s); if (x != want[i + 1]) return qs[i].what + " gives " + std::to_string(x) + " instead of " + std::to_string(want[i + 1]); }
    return "";
}
// (property, sub, suffix) for every structure
#define SUBJECTS_SERIAL(X) \
    X(SBitVector, bitvector) X(SSuccinct<true>, succinct_select) X(SSuccinct<false>, succinct) X(SFitVector, fitvector) X(SDac, dac) \
    X(SMulti<1>, multibit1) X(SMulti<2>, multibit2) X(SMulti<3>, multibit3) X(SWavelet, wavelet) X(SMultiple, multiple) X(SSuffix, suffix) \
    X(SSamcNew, samc) X(SSamcWide, samc_u64) X(SSamcLegacy, samc_legacy) X(SDict<u32>, dict) X(SDict<u64>, dict_u64)
using SSamcNew = SSamc<u32, false>; using SSamcWide = SSamc<u64, false>; using SSamcLegacy = SSamc<u32, true>;
using SFolklore = SInit<sim_ds::InitializableArrayFolklore<u64>, 0>; using SInplace8 = SInit<sim_ds::InitializableArray<uint8_t, 21>, 21>; using SInplace64 = SInit<sim_ds::InitializableArray<u64, 6>, 6>;
using SCht50 = SCht<16, 50>; using SCht90 = SCht<16, 90>; using SCht0 = SCht<0, 50>;
namespace pm = sim_ds::pattern_matching;
using STrieInt = STrie<int, size_t>; using STrieStr = STrie<std::string, uint8_t>;
#define SUBJECTS_OTHER(X) \
    X(SHeap<true>, minheap) X(SHeap<false>, maxheap) X(SFolklore, folklore) X(SInplace8, inplace_u8) X(SInplace64, inplace_u64) \
    X(SCht50, cht) X(SCht90, cht_dense) X(SCht0, cht_width0) X(SHash<sim_ds::SplitMixHash>, splitmix) X(SCdrwArray, cdrw_array) X(SCdrwVector, cdrw_vector) \
    X(STrieInt, trie) X(STrieStr, trie_string) X(SOracle, oracle) \
    X(SMatcher<pm::Simple>, simple) X(SMatcher<pm::Kmp>, kmp) X(SMatcher<pm::Bm>, bm) X(SMatcher<pm::Bom>, bom) X(SMatcher<pm::TurboBom>, turbobom) \
    X(SMatcher<pm::SundayQS>, qs) X(SMatcher<pm::SundayMS>, ms)
} // namespace subj
