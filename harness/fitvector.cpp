// C04: FitVector stores fixed-width integers exactly and in isolation.
#include "common.hpp"
#include <sim_ds/FitVector.hpp>
using namespace h;
using sim_ds::FitVector;
using Ints = std::vector<u64>;

static void compare(mc::Ctx& c, FitVector& v, const Ints& m, size_t w, bool walk = true) {
    const FitVector& k = v; size_t n = m.size();
    MC_CHECK(v.size() == n && v.empty() == (n == 0), "size() = %zu, want %zu", v.size(), n);
    MC_CHECK(v.unit_width() == w, "unit_width() = %zu, want %zu", v.unit_width(), w);
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(u64(v[i]) == m[i], "[%zu] of %zu x %zu bits = %llu, want %llu", i, n, w, ull(u64(v[i])), ull(m[i]));
        MC_CHECK(u64(k[i]) == m[i], "const [%zu] of %zu x %zu bits = %llu, want %llu", i, n, w, ull(u64(k[i])), ull(m[i]));
    }
    if (n) {
        MC_CHECK(u64(v.front()) == m[0] && u64(k.front()) == m[0], "front()");
        MC_CHECK(u64(v.back()) == m[n - 1] && u64(k.back()) == m[n - 1], "back()");
        MC_CHECK(u64(v.at(n - 1)) == m[n - 1] && u64(k.at(n / 2)) == m[n / 2], "at()");
    }
    int thrown = 0;
    for (size_t i : {n, n + 1, ~size_t(0)}) {
        try { v.at(i); } catch (std::out_of_range&) { thrown++; }
        try { k.at(i); } catch (std::out_of_range&) { thrown++; }
    }
    MC_CHECK(thrown == 6, "at() outside [0,%zu) did not throw", n);
    c.obs(2 * n + 8);
    if (!walk) return;
    size_t i = 0;
    for (auto x : v) { MC_CHECK(i < n && u64(x) == m[i], "iteration: element %zu of %zu", i, n); i++; }
    MC_CHECK(i == n, "iteration visits %zu of %zu", i, n);
    i = 0;
    for (auto x : k) { MC_CHECK(i < n && u64(x) == m[i], "const iteration: element %zu of %zu", i, n); i++; }
    MC_CHECK(i == n, "const iteration visits %zu of %zu", i, n);
    auto it = k.end();
    for (i = n; i-- > 0;) { --it; MC_CHECK(u64(*it) == m[i], "backward iteration: element %zu of %zu", i, n); }
    MC_CHECK(it == k.begin(), "backward iteration does not arrive at begin()");
    c.obs(3 * n);
}
static u64 val(unsigned kind, size_t w, size_t i) {
    switch (kind) {
    case 0: return 0;
    case 1: return mask(w);
    case 2: return u64(1) << (w - 1);
    case 3: return 1;
    case 4: return (0x9E3779B97F4A7C15ull * (i + 1) >> 7) & mask(w);
    default: return (i & 1 ? 0xAAAAAAAAAAAAAAAAull : 0x5555555555555555ull) & mask(w);
    }
}

MC_SCOPE("C04", histories, 16) {
    size_t w = c.pick(mc::thorough() ? std::vector<size_t>{1, 3, 7, 13, 31, 32, 33, 60, 63, 64} : std::vector<size_t>{1, 7, 33, 63, 64});
    FitVector v(w); Ints m;
    int depth = c.depth(mc::lvl(4, 5, 3, 4));
    for (int d = 0; d < depth; d++) {
        size_t n = m.size();
        switch (c.choose(7)) {
        case 0: { u64 x = val(c.choose(3), w, d); c.log("push_back(%llu)", ull(x)); v.push_back(x); m.push_back(x); break; }
        case 1: { size_t k = c.of<size_t>({0, 1, 2, 3, 9, 20, 65}); c.log("resize(%zu)", k); v.resize(k); m.resize(k, 0); break; }
        case 2: { size_t k = c.of<size_t>({0, 1, 4, 21, 66}); u64 x = val(c.choose(2), w, 0); c.log("resize(%zu,%llu)", k, ull(x)); v.resize(k, x); m.resize(k, x); break; }
        case 3: { size_t k = c.of<size_t>({0, 2, 5, 64}); u64 x = val(1 + c.choose(2), w, 0); c.log("assign(%zu,%llu)", k, ull(x)); v.assign(k, x); m.assign(k, x); break; }
        case 4: {
            if (!n) throw mc::Prune{};
            std::vector<size_t> p = {0, n - 1, n / 2, std::min<size_t>(n - 1, 63 / w), std::min<size_t>(n - 1, 64 / w)};
            size_t i = c.pick(p); u64 x = c.flip() ? mask(w) : 0;
            switch (c.choose(4)) { case 0: v[i] = x; break; case 1: v.at(i) = x; break; case 2: if (i == 0) v.front() = x; else if (i == n - 1) v.back() = x; else throw mc::Prune{}; break;
                default: { auto r = v[i]; v[i] = x; r = x; break; } }
            m[i] = x; c.log("[%zu] = %llu", i, ull(x)); break; }
        case 5: { if (n < 2) throw mc::Prune{}; size_t i = c.of<size_t>({0, n - 1}), j = c.of<size_t>({n - 1, n / 2, 0}); c.log("[%zu] = [%zu]", i, j); v[i] = v[j]; m[i] = m[j]; break; }
        case 6: { size_t k = c.of<size_t>({0, 10, 100}); c.log("reserve(%zu)", k); v.reserve(k); break; }
        }
        if (c.fresh()) compare(c, v, m, w);
        auto h = mc::image(v); mix(h, mc::hash_seq(m));
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C04", every_width_every_place, 8) {     // a write at each position over each background, all widths
    size_t w = 1 + c.choose(64); unsigned bg = c.choose(6);
    size_t n = mc::lvl(70, 140, 34, 70);
    FitVector v(w, n); Ints m(n);
    for (size_t i = 0; i < n; i++) MC_CHECK(u64(v[i]) == 0, "fresh element %zu is %llu", i, ull(u64(v[i])));
    for (size_t i = 0; i < n; i++) v[i] = m[i] = val(bg, w, i);
    c.log("width %zu, background %u, %zu elements", w, bg, n);
    compare(c, v, m, w);
    for (size_t i = 0; i < n; i++) for (unsigned k = 0; k < 6; k++) {
        u64 x = val(k, w, i + 1), old = m[i];
        v[i] = x;
        for (size_t j = i < 3 ? 0 : i - 3; j < std::min(n, i + 4); j++)
            MC_CHECK(u64(v[j]) == (j == i ? x : m[j]), "width %zu: [%zu] = %llu made [%zu] = %llu", w, i, ull(x), j, ull(u64(v[j])));
        v[i] = old;
        c.obs(7);
    }
    compare(c, v, m, w, false);
    FitVector a(w, n, val(bg, w, 5)); Ints am(n, val(bg, w, 5)); compare(c, a, am, w, false);
    c.state(mc::hash_words({w, bg}));
}
MC_SCOPE("C04", shrink_and_grow, 8) {             // what a shrink hides must not come back
    size_t w = 1 + c.choose(64), n = c.of<size_t>({1, 2, 3, 10, 64, 65}), cut = c.choose(n + 1), grow = c.of<size_t>({1, 2, 7, 70});
    FitVector v(w, n, mask(w)); Ints m(n, mask(w));
    v.resize(cut); m.resize(cut); compare(c, v, m, w, false);
    v.resize(cut + grow); m.resize(cut + grow, 0); compare(c, v, m, w, false);
    v.push_back(1); m.push_back(1); compare(c, v, m, w, false);
    v.resize(cut + grow); m.resize(cut + grow); v.resize(cut + grow + 2); m.resize(cut + grow + 2, 0); compare(c, v, m, w, false);
    c.log("width %zu: %zu full elements, down to %zu, up by %zu", w, n, cut, grow); c.state(mc::hash_words({w, n, cut, grow}));
}
MC_SCOPE("C04", from_list, 8) {                   // width of the largest element, for every bit length of it
    size_t w = c.choose(65), n = 1 + c.choose(5), at = c.choose(n); unsigned kind = c.choose(3);
    u64 top = w == 0 ? 0 : kind == 0 ? u64(1) << (w - 1) : kind == 1 ? mask(w) : (u64(1) << (w - 1)) | 1;
    Ints m(n); for (size_t i = 0; i < n; i++) m[i] = i == at ? top : w > 1 ? val(i % 4 == 0 ? 1 : 4, w - 1, i) : 0;
    FitVector v(m); compare(c, v, m, std::max<size_t>(w, 1));
    if (w <= 32) { std::vector<u32> s(m.begin(), m.end()); FitVector x(s); compare(c, x, m, std::max<size_t>(w, 1), false); }
    if (w <= 8) { std::vector<uint8_t> s(m.begin(), m.end()); FitVector x(s); compare(c, x, m, std::max<size_t>(w, 1), false); }
    if (w <= 16) { std::vector<uint16_t> s(m.begin(), m.end()); FitVector x(s); compare(c, x, m, std::max<size_t>(w, 1), false); }
    c.log("list of %zu whose largest element %llu is at %zu", n, ull(top), at); c.state(mc::hash_seq(m));
}
MC_SCOPE("C04", iterators, 8) {
    size_t w = 1 + c.choose(64), n = c.of<size_t>({1, 5, 66}), i = c.choose(n + 1);
    if (MC_ASAN && n == 66 && i % 4) throw mc::Prune{};
    FitVector v(w, n); Ints m(n); for (size_t j = 0; j < n; j++) v[j] = m[j] = val(4, w, j);
    const FitVector& k = v;
    auto run = [&](auto& x, const char* what) {
        auto b = x.begin(); auto p = b + ptrdiff_t(i);
        MC_CHECK(p - b == ptrdiff_t(i) && x.end() - p == ptrdiff_t(n - i), "%s width %zu: (begin+%zu)-begin = %td", what, w, i, ptrdiff_t(p - b));
        for (size_t j = 0; j <= n; j++) {
            auto q = b + ptrdiff_t(j); ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
            MC_CHECK(q - p == d, "%s width %zu: (begin+%zu)-(begin+%zu) = %td", what, w, j, i, ptrdiff_t(q - p));
            auto r = p; r += d; MC_CHECK(r == q && !(r != q), "%s width %zu: (begin+%zu) += %td", what, w, i, d);
            r = p; r -= -d; MC_CHECK(r == q, "%s width %zu: (begin+%zu) -= %td", what, w, i, -d);
            MC_CHECK(p + d == q && q - d == p && d + p == q, "%s width %zu: it + %td from %zu", what, w, d, i);
            MC_CHECK((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "%s width %zu: order of %zu and %zu", what, w, i, j);
            if (j < n) { MC_CHECK(u64(p[d]) == m[j], "%s width %zu: (begin+%zu)[%td]", what, w, i, d); MC_CHECK(u64(*q) == m[j], "%s width %zu: *(begin+%zu)", what, w, j); }
            c.obs(8);
        }
        if (i < n) { auto r = p; ++r; MC_CHECK(r - b == ptrdiff_t(i + 1), "%s width %zu: ++ at %zu", what, w, i); auto o = p; auto q = o++; MC_CHECK(q == p && o == r, "%s: postfix ++ at %zu", what, i); }
        if (i > 0) { auto r = p; --r; MC_CHECK(r - b == ptrdiff_t(i - 1), "%s width %zu: -- at %zu", what, w, i); auto o = p; auto q = o--; MC_CHECK(q == p && o == r, "%s: postfix -- at %zu", what, i); }
        auto z = b; z = p; MC_CHECK(z == p, "%s: assignment", what);
    };
    run(v, "iterator"); run(k, "const_iterator");
    FitVector::const_iterator ci = v.begin() + i;
    MC_CHECK(ci == k.begin() + i, "iterator converted to const_iterator");
    if (i < n) {
        MC_CHECK(&v[i] == v.begin() + i, "address of v[%zu]", i);
        MC_CHECK(&k[i] == k.begin() + i, "address of const v[%zu]", i);
        FitVector::const_reference cr = v[i]; MC_CHECK(u64(cr) == m[i], "const_reference from reference");
    }
    Ints copy; for (auto it = k.begin(); it != k.end(); it++) copy.push_back(*it);
    MC_CHECK(copy == m, "copy through postfix iteration");
    c.log("width %zu, %zu elements, position %zu", w, n, i); c.state(mc::hash_words({w, n, i}));
}

MC_SCOPE("C04", algorithms, 8) {                   // standard algorithms that read, over every short list in the middle of a vector
    size_t w = c.of<size_t>({1, 2, 3, 7, 13, 31, 32, 33, 63, 64}), n = c.choose(mc::lvl(6, 7, 4, 5)), a = c.of<size_t>({0, 1, 9, 63});
    Ints pool{0, 1, mask(w)}; Ints m(80); for (size_t j = 0; j < m.size(); j++) m[j] = val(4, w, j);
    for (size_t j = 0; j < n; j++) m[a + j] = c.pick(pool);
    c.log("width %zu, from %zu: %s", w, a, show_ints(Ints(m.begin() + a, m.begin() + a + n)).c_str());
    FitVector v(w); for (auto x : m) v.push_back(x);
    const FitVector& k = v;
    auto same = [&](const char* what, auto f) {
        auto y = f(m.begin() + a, m.begin() + a + n, m.begin()), x = f(v.begin() + a, v.begin() + a + n, v.begin()), z = f(k.begin() + a, k.begin() + a + n, k.begin());
        MC_CHECK(x == y && z == y, "%s, width %zu, over [%zu,%zu): %lld and %lld, want %lld", what, w, a, a + n, (long long)x, (long long)z, (long long)y); c.obs(2);
    };
    for (u64 x : pool) {
        same("count", [&](auto b, auto e, auto) { return (long long)std::count(b, e, x); });
        same("find", [&](auto b, auto e, auto) { return (long long)(std::find(b, e, x) - b); });
        same("lower_bound", [&](auto b, auto e, auto) { return std::is_sorted(b, e) ? (long long)(std::lower_bound(b, e, x) - b) : -1ll; });
        same("upper_bound", [&](auto b, auto e, auto) { return std::is_sorted(b, e) ? (long long)(std::upper_bound(b, e, x) - b) : -1ll; });
    }
    same("max_element", [&](auto b, auto e, auto) { return (long long)(std::max_element(b, e) - b); });
    same("accumulate", [&](auto b, auto e, auto) { return (long long)std::accumulate(b, e, u64(0)); });
    same("search", [&](auto b, auto e, auto o) { return (long long)(std::search(o, o + 80, b, e) - o); });
    same("adjacent_find", [&](auto b, auto e, auto) { return (long long)(std::adjacent_find(b, e) - b); });
    same("equal", [&](auto b, auto e, auto) { return (long long)std::equal(b, e, b + 3); });
    same("lexicographical_compare", [&](auto b, auto e, auto) { return (long long)std::lexicographical_compare(b, e, b + 1, e + 2); });
    { Ints got; std::copy(k.begin() + a, k.begin() + a + n, std::back_inserter(got)); MC_CHECK(got == Ints(m.begin() + a, m.begin() + a + n), "copy out, width %zu", w); }
    c.state(mc::hash_words({w, n, a, mc::hash_seq(m).a}));
}

// ---- sizes at which an index, a bit position or a length of 16 or 32 bits would have wrapped
static void large_marks(mc::Ctx& c, FitVector& v, size_t w, size_t n, u64 bg, bool scan) {
    const FitVector& k = v;
    std::map<size_t, u64> marks;
    for (size_t bit : {size_t(0), size_t(65536), size_t(1) << 31, size_t(1) << 32})        // as an index, and as a bit position
        for (size_t at : {bit, bit / w}) for (size_t i = at < 2 ? 0 : at - 2; i < std::min(n, at + 3); i++) marks[i] = 0;
    for (size_t i = n - std::min<size_t>(n, 3); i < n; i++) marks[i] = 0;
    for (auto& [i, x] : marks) { x = val(4, w, i) ^ mask(w); if (i % 2) v[i] = x; else v.at(i) = x; }
    MC_CHECK(v.size() == n && k.end() - k.begin() == ptrdiff_t(n), "size() = %zu, end()-begin() = %td, want %zu", v.size(), ptrdiff_t(k.end() - k.begin()), n);
    auto want = [&](size_t i) { auto it = marks.find(i); return it == marks.end() ? bg : it->second; };
    for (auto& [i, x] : marks) for (size_t j = i < 70 ? 0 : i - 70; j < std::min(n, i + 70); j++) {
        u64 e = want(j);
        MC_CHECK(u64(k[j]) == e && u64(v[j]) == e && u64(k.at(j)) == e && u64(*(k.begin() + j)) == e && u64(*(k.end() - (n - j))) == e, "width %zu: [%zu] of %zu = %llu, want %llu", w, j, n, ull(u64(k[j])), ull(e));
        c.obs(5);
    }
    if (scan) {
        auto next = marks.begin(); size_t i = 0;
        for (; i < n; i++) {
            u64 e = bg; if (next != marks.end() && next->first == i) { e = next->second; ++next; }
            if (u64(k[i]) != e) MC_CHECK(false, "width %zu: [%zu] of %zu = %llu, want %llu", w, i, n, ull(u64(k[i])), ull(e));
            if (i % (1 << 24) == 0) c.beat();
        }
        c.obs(n);
    }
    int thrown = 0; for (size_t i : {n, n + 1}) try { k.at(i); } catch (std::out_of_range&) { thrown++; }
    MC_CHECK(thrown == 2, "at() outside [0,%zu) did not throw", n);
}
MC_SCOPE("C04", large, 8) {
    if (MC_ASAN) throw mc::Prune{};
    size_t w = c.of<size_t>({1, 3, 8, 13, 16, 31, 32, 33, 63, 64}); unsigned size = c.choose(4), kind = c.choose(4);
    size_t n = size == 0 ? 65536 + 70 : size == 1 ? (1 << 17) + 3 : size == 2 ? ((size_t(1) << 31) + 640) / w : ((size_t(1) << 32) + 640) / w;
    bool huge = size >= 2;
    if (huge && !mc::thorough() && (kind != (w + size) % 4 || w == 3 || w == 31 || w == 8 || w == 63)) throw mc::Prune{};
    u64 bg = kind == 0 ? 0 : val(4, w, 7);
    c.log("width %zu, %zu elements of %llu by %u", w, n, ull(bg), kind);
    FitVector v(w);
    if (kind == 0) { FitVector x(w, n); v = std::move(x); }
    else if (kind == 1) { FitVector x(w, n, bg); v = std::move(x); }
    else if (kind == 2) v.assign(n, bg);
    else { v.resize(n - 70, bg); for (int i = 0; i < 70; i++) v.push_back(bg); }
    bool scan = !huge || n < size_t(1) << 28 || mc::thorough();
    large_marks(c, v, w, n, bg, scan);
    if (!huge) {
        v.resize(65536 - 3); v.resize(n, bg); 
        for (size_t i = 65536 - 3; i < n; i++) MC_CHECK(u64(v[i]) == bg, "width %zu: [%zu] after shrinking to 65533 and growing to %zu", w, i, n);
        std::vector<u64> l(n); for (size_t i = 0; i < n; i++) l[i] = val(4, w, i); l[n - 1] = mask(w);
        FitVector y(l); compare(c, y, l, w);
    }
    c.state(mc::hash_words({w, size, kind}));
}
