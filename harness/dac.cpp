// C05: DacVector returns the source list; also run by C25.
#include "common.hpp"
#include <sim_ds/DacVector.hpp>
using namespace h;
using sim_ds::DacVector;
using Ints = std::vector<u64>;
using Units = std::vector<size_t>;

static void compare(mc::Ctx& c, const DacVector& d, const Ints& m, const Units* units) {
    size_t n = m.size(); mc::H128 t;
    MC_CHECK(d.size() == n && d.empty() == (n == 0), "size() = %zu, want %zu", d.size(), n);
    for (size_t i = 0; i < n; i++) {
        u64 x = d[i];
        MC_CHECK(x == m[i], "[%zu] of %zu = 0x%llx, want 0x%llx", i, n, ull(x), ull(m[i]));
        MC_CHECK(d.at(i) == m[i], "at(%zu) = 0x%llx", i, ull(d.at(i)));
        t.word(x);
    }
    int thrown = 0;
    for (size_t i : {n, n + 1, ~size_t(0)}) try { d.at(i); } catch (std::out_of_range&) { thrown++; }
    MC_CHECK(thrown == 3, "at() outside [0,%zu) did not throw", n);
    size_t i = 0;
    for (auto x : d) { MC_CHECK(i < n && x == m[i], "iteration: element %zu of %zu", i, n); i++; }
    MC_CHECK(i == n, "iteration visits %zu of %zu", i, n);
    c.obs(3 * n + 5);
    if (n == 0) { c.transcript(t); return; }
    MC_CHECK(d.front() == m[0] && d.back() == m[n - 1], "front()/back()");
    auto it = d.end();
    for (i = n; i-- > 0;) { --it; MC_CHECK(*it == m[i], "backward iteration: element %zu", i); }
    MC_CHECK(it == d.begin(), "backward iteration does not arrive at begin()");
    if (units) MC_CHECK(d.num_layers() == units->size(), "num_layers() = %zu, want %zu", d.num_layers(), units->size());
    else MC_CHECK(d.num_layers() >= 1 && d.num_layers() <= 8, "automatic selection made %zu layers", d.num_layers());
    // depth: with explicit widths from the definition, otherwise consistent with the order of the values
    u64 seen_lo[65], seen_hi[65]; for (auto& x : seen_lo) x = ~u64(0); for (auto& x : seen_hi) x = 0;
    for (i = 0; i < n; i++) {
        size_t dep = d.depth(i);
        MC_CHECK(dep < d.num_layers(), "depth(%zu) = %zu with %zu layers", i, dep, d.num_layers());
        if (units) {
            size_t k = 0, s = (*units)[0];
            while (s < width(m[i])) s += (*units)[++k];
            MC_CHECK(dep == k, "depth(%zu) = %zu of 0x%llx, want %zu", i, dep, ull(m[i]), k);
        }
        unsigned w = std::max(1u, width(m[i]));
        seen_lo[w] = std::min<u64>(seen_lo[w], dep); seen_hi[w] = std::max<u64>(seen_hi[w], dep);
        t.word(dep);
    }
    u64 last = 0;
    for (int w = 1; w <= 64; w++) if (seen_lo[w] <= 64) { MC_CHECK(seen_lo[w] == seen_hi[w] && seen_lo[w] >= last, "depth of %d-bit values: %llu..%llu after %llu", w, ull(seen_lo[w]), ull(seen_hi[w]), ull(last)); last = seen_lo[w]; }
    c.obs(2 * n);
    t.word(d.num_layers()); c.transcript(t);
}
template <class T> static bool fits(const Ints& m) { for (u64 x : m) if (x > u64(std::numeric_limits<T>::max())) return false; return true; }
static void automatic(mc::Ctx& c, const Ints& m) {
    DacVector d(m); compare(c, d, m, nullptr);
    if (fits<u32>(m)) { std::vector<u32> s(m.begin(), m.end()); DacVector e(s); compare(c, e, m, nullptr); }
    if (fits<int>(m)) { std::vector<int> s(m.begin(), m.end()); DacVector e(s); compare(c, e, m, nullptr); }
    if (fits<uint8_t>(m)) { std::vector<uint8_t> s(m.begin(), m.end()); DacVector e(s); compare(c, e, m, nullptr); }
    c.state(mc::hash_seq(m));
}
static const u64 kPal[] = {0, 1, 2, 3, 255, 256, 65535, 65536, u64(1) << 31, 0xFFFFFFFFull, u64(1) << 32, u64(1) << 62, u64(1) << 63, ~u64(0)};

MC_SCOPE("C05 C25", short_lists, 8) {
    size_t n = c.choose(mc::lvl(5, 6, 4, 5));
    Ints m; for (size_t i = 0; i < n; i++) m.push_back(kPal[c.choose(14)]);
    c.log("list %s", show_ints(m).c_str());
    automatic(c, m);
    if (n == 0) { DacVector d; compare(c, d, m, nullptr); DacVector e(m, Units{3, 4}); compare(c, e, m, nullptr); }
}
MC_SCOPE("C05 C25", explicit_units, 16) {         // layer widths and values at every layer border
    Units u; size_t n = 1 + c.choose(mc::lvl(3, 4, 3, 3)), sum = 0;
    for (size_t i = 0; i < n; i++) { u.push_back(c.of<size_t>({1, 2, 7, 8, 31, 32, 33, 63, 64})); sum += u.back(); }
    size_t top = c.choose(std::min<size_t>(sum, 64) + 1);       // bit length of the largest value
    if (MC_ASAN && !mc::thorough() && top % 3) throw mc::Prune{};
    Ints m; size_t s = 0;
    m.push_back(0);
    for (size_t w : u) { s += w; for (size_t k : {s - 1, s, s + 1}) if (k >= 1 && k <= top) { m.push_back(mask(k)); m.push_back(u64(1) << (k - 1)); } m.push_back(1 & mask(top)); }
    if (top) m.push_back(u64(1) << (top - 1)), m.push_back(mask(top)), m.push_back(mask(top) & 0xA5A5A5A5A5A5A5A5ull);
    c.log("units %s, list %s", show_ints(u).c_str(), show_ints(m).c_str());
    DacVector d(m, u); compare(c, d, m, &u);
    std::vector<uint8_t> v8(u.begin(), u.end()); DacVector e(m, v8); compare(c, e, m, &u);
    c.state(mc::hash_words({n, top, mc::hash_seq(u).a}));
}
MC_SCOPE("C05 C25", profiles, 16) {               // hundreds of elements per bit length, in three orders
    static const size_t len[] = {1, 8, 9, 20, 33, 64};
    Ints m; std::string s; unsigned order = c.choose(3);
    int rungs = mc::lvl(6, 6, 4, 5);
    for (int i = 0; i < rungs; i++) {
        size_t n = mc::thorough() ? c.of<size_t>({0, 1, 64, 513, 1100}) : c.of<size_t>({0, 1, 64, 513});
        if (MC_ASAN && n == 64) n = 200;
        u64 top = u64(1) << (len[i] - 1);
        for (size_t k = 0; k < n; k++) m.push_back(top | ((k * 0x9E3779B97F4A7C15ull >> 9) & (top - 1)));
        s += std::to_string(n) + "x" + std::to_string(len[i]) + "bit ";
    }
    if (order == 1) std::reverse(m.begin(), m.end());
    if (order == 2) { Ints x; size_t n = m.size(); for (size_t i = 0; i < n; i++) x.push_back(m[i % 2 ? n - 1 - i / 2 : i / 2]); m = x; }
    c.log("%s order %u", s.c_str(), order);
    automatic(c, m);
    Units u = {8, 8, 16, 32}; DacVector e(m, u); compare(c, e, m, &u);
}
MC_SCOPE("C05 C25", many_layers, 4) {             // profiles whose unlimited optimum needs more than 8 layers
    size_t step = c.of<size_t>({4, 5, 6, 7}), n0 = c.of<size_t>({3000, 20000}); unsigned num = c.of<unsigned>({2, 3}); size_t off = c.choose(2);
    Ints m; size_t n = n0;
    for (size_t w = 1 + off; w <= 64 && n; w += step) { for (size_t k = 0; k < n; k++) m.push_back((u64(1) << (w - 1)) | (w > 20 ? k : 0)); n = (n + num - 1) / num - (n == 1); }
    if (off) { Ints x; size_t z = m.size(); for (size_t i = 0; i < z; i++) x.push_back(m[i * 7919 % z]); m = x; }
    if (MC_ASAN && n0 > 3000) throw mc::Prune{};
    c.log("widths %zu, %zu, ... falling from %zu elements by %u, %zu in all", 1 + off, 1 + off + step, n0, num, m.size());
    automatic(c, m);
}
MC_SCOPE("C05 C25", iterator_arithmetic, 1) {
    size_t n = 1 + c.choose(6), i = c.choose(n + 1), j = c.choose(n + 1);
    Ints m; for (size_t k = 0; k < n; k++) m.push_back(k * k * k * 1000 + k);
    DacVector d(m); auto p = d.begin() + (long long)(i), q = d.begin() + (long long)(j); long long e = (long long)(j) - (long long)(i);
    MC_CHECK(q - p == e && p + e == q && q - e == p, "iterator arithmetic %zu %zu", i, j);
    auto r = p; r += e; MC_CHECK(r == q, "+="); auto z = q; z -= e; MC_CHECK(z == p, "-=");
    MC_CHECK((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "order");
    if (j < n) MC_CHECK(*q == m[j] && d.begin()[j] == m[j], "dereference");
    if (i < n) { auto o = p; auto w = o++; MC_CHECK(w == p && o == d.begin() + (long long)(i + 1), "postfix ++"); }
    if (i > 0) { auto o = p; auto w = o--; MC_CHECK(w == p && o == d.begin() + (long long)(i - 1), "postfix --"); }
    c.log("%zu elements, positions %zu and %zu", n, i, j); c.obs(14); c.state(mc::hash_words({n, i, j}));
}
MC_SCOPE("C05", large, 4) {                        // positions, ranks and layer sizes beyond 16 bits
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65536, 65537, 140000, (1 << 20) + 3}); unsigned k = c.choose(5);
    Ints m(n);
    for (size_t i = 0; i < n; i++) {
        u64 x = 0x9E3779B97F4A7C15ull * (i + 1);
        m[i] = k == 0 ? x : k == 1 ? x >> (8 * (i % 8)) : k == 2 ? (i > n - 300 ? x : x & 15) : k == 3 ? (i < n / 2 ? x & 3 : x >> 30) : (i % 70 ? 1 : x | u64(1) << 63);
    }
    c.log("kind %u, %zu values", k, n);
    DacVector d(m); compare(c, d, m, nullptr); c.beat();
    Units u = {3, 5, 8, 16, 32}; DacVector e(m, u); compare(c, e, m, &u);
    c.state(mc::hash_words({n, k}));
}
