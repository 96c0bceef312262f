// Shared by all harnesses.  Included before any header of the library.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include "mc.hpp"

namespace h {
using u64 = uint64_t;
using u32 = uint32_t;
using Bits = std::vector<bool>;
typedef unsigned long long ull;

inline u64 mask(unsigned w) { return w >= 64 ? ~u64(0) : (u64(1) << w) - 1; }
inline unsigned width(u64 v) { unsigned w = 0; while (v) { ++w; v >>= 1; } return w; }

// a bit string given as runs: (bit, length)*
struct Runs {
    std::vector<std::pair<bool, size_t>> r;
    void add(bool b, size_t n) { if (n) r.emplace_back(b, n); }
    Bits bits() const { Bits v; for (auto [b, n] : r) v.insert(v.end(), n, b); return v; }
    std::string str() const { std::string s; for (auto [b, n] : r) s += (b ? "1x" : "0x") + std::to_string(n) + " "; return s; }
};
inline std::string show(const Bits& b, size_t maxn = 80) {
    std::string s;
    for (size_t i = 0; i < b.size() && i < maxn; i++) s += b[i] ? '1' : '0';
    if (b.size() > maxn) s += "...(" + std::to_string(b.size()) + ")";
    return s;
}
template <class V> std::string show_ints(const V& v, size_t maxn = 40) {
    std::string s = "[";
    size_t i = 0;
    for (auto x : v) { if (i++ >= maxn) { s += "...(" + std::to_string(v.size()) + ")"; break; } s += std::to_string(u64(x)) + " "; }
    return s + "]";
}
inline std::string show_str(std::string_view v, size_t maxn = 60) {
    std::string s = "\"";
    size_t i = 0;
    for (unsigned char c : v) {
        if (i++ >= maxn) { s += "...(" + std::to_string(v.size()) + ")"; break; }
        if (c >= 33 && c < 127 && c != '"' && c != '\\') s += char(c); else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); s += b; }
    }
    return s + "\"";
}
inline mc::H128 hash_bits(const Bits& b) {
    mc::H128 h; h.word(b.size());
    u64 w = 0;
    for (size_t i = 0; i < b.size(); i++) { w = w * 2 + b[i]; if (i % 64 == 63) { h.word(w); w = 0; } }
    h.word(w);
    return h;
}
inline mc::H128 hash_str(std::string_view s) { mc::H128 h; h.bytes(s.data(), s.size()); return h; }
inline void mix(mc::H128& h, const mc::H128& o) { h.word(o.a); h.word(o.b); }
} // namespace h
