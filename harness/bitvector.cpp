// C01: BitVector behaves as a growable sequence of bits.
#include "common.hpp"
#include <sim_ds/BitVector.hpp>
using namespace h;
using sim_ds::BitVector;

static void compare(mc::Ctx& c, BitVector& v, const Bits& m, bool walk = true) {
    const BitVector& k = v;
    size_t n = m.size();
    MC_CHECK(v.size() == n, "size() = %zu, want %zu", v.size(), n);
    MC_CHECK(v.empty() == (n == 0), "empty() with size %zu", n);
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(bool(v[i]) == m[i], "[%zu] of %zu = %d, want %d", i, n, bool(v[i]), bool(m[i]));
        MC_CHECK(bool(k[i]) == m[i], "const [%zu] of %zu = %d", i, n, bool(k[i]));
        MC_CHECK((k.data()[i / 64] >> (i % 64) & 1) == m[i], "data() word %zu bit %zu of %zu", i / 64, i % 64, n);
    }
    MC_CHECK(reinterpret_cast<uintptr_t>(k.data()) % 32 == 0, "data() is not aligned to 32 bytes");
    if (n) {
        MC_CHECK(bool(v.front()) == m[0] && bool(k.front()) == m[0], "front()");
        MC_CHECK(bool(v.back()) == m[n - 1] && bool(k.back()) == m[n - 1], "back()");
        MC_CHECK(bool(v.at(n - 1)) == m[n - 1] && bool(k.at(0)) == m[0], "at()");
    }
    int thrown = 0;
    for (size_t i : {n, n + 1, ~size_t(0)}) {
        try { v.at(i); } catch (std::out_of_range&) { thrown++; }
        try { k.at(i); } catch (std::out_of_range&) { thrown++; }
    }
    MC_CHECK(thrown == 6, "at() outside [0,%zu) did not throw", n);
    c.obs(3 * n + 8);
    if (!walk) return;
    size_t i = 0;
    for (auto b : v) { MC_CHECK(i < n && bool(b) == m[i], "iteration, element %zu", i); i++; }
    MC_CHECK(i == n, "iteration visits %zu of %zu", i, n);
    i = 0;
    for (auto b : k) { MC_CHECK(i < n && bool(b) == m[i], "const iteration, element %zu", i); i++; }
    MC_CHECK(i == n, "const iteration visits %zu of %zu", i, n);
    auto it = k.end();
    for (i = n; i-- > 0;) { --it; MC_CHECK(bool(*it) == m[i], "backward iteration, element %zu", i); }
    MC_CHECK(it == k.begin(), "backward iteration does not arrive at begin()");
    c.obs(3 * n);
}

static const std::vector<size_t> kSizes = {0, 1, 2, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 320};

MC_SCOPE("C01", histories, 16) {                  // every operation sequence up to the depth
    BitVector v; Bits m;
    int depth = c.depth(mc::lvl(5, 6, 3, 4));
    for (int d = 0; d < depth; d++) {
        switch (c.choose(8)) {
        case 0: { bool b = c.flip(); c.log("push_back(%d)", b); v.push_back(b); m.push_back(b); break; }
        case 1: { size_t n = c.of<size_t>({0, 1, 63, 64, 65, 128, 130, 257}); c.log("resize(%zu)", n); v.resize(n); m.resize(n, false); break; }
        case 2: { size_t n = c.of<size_t>({0, 2, 64, 65, 127, 256}); bool b = c.flip(); c.log("resize(%zu,%d)", n, b); v.resize(n, b); m.resize(n, b); break; }
        case 3: { size_t n = c.of<size_t>({0, 1, 63, 64, 129}); bool b = c.flip(); c.log("assign(%zu,%d)", n, b); v.assign(n, b); m.assign(n, b); break; }
        case 4: {
            if (m.empty()) throw mc::Prune{};
            std::vector<size_t> p = {0, m.size() - 1, m.size() / 2, 63, 64};
            size_t i = c.pick(p); if (i >= m.size()) throw mc::Prune{};
            bool b = !m[i];
            switch (c.choose(4)) {
            case 0: v[i] = b; break;
            case 1: v.at(i) = b; break;
            case 2: *(v.begin() + i) = b; break;
            default: *(v.end() - (m.size() - i)) = b; break;
            }
            m[i] = b; c.log("[%zu] = %d", i, b); break; }
        case 5: {
            std::vector<size_t> p = {0, m.size() / 2, m.size(), 64, 63};
            size_t a = c.pick(p), e = c.pick(p); bool b = c.flip();
            if (a > m.size() || e > m.size()) throw mc::Prune{};
            c.log("fill(%zu,%zu,%d)", a, e, b);
            v.fill(v.begin() + a, v.begin() + e, b);
            for (size_t i = a; i < e; i++) m[i] = b;
            break; }
        case 6: { size_t n = c.of<size_t>({0, 64, 300}); c.log("reserve(%zu)", n); v.reserve(n); break; }
        case 7: c.log("shrink_to_fit"); v.shrink_to_fit(); break;
        }
        if (c.fresh()) compare(c, v, m);
        auto h = mc::image(v); mix(h, hash_bits(m));
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C01", from_all_short, 4) {              // every bit string up to the length, by every construction
    size_t n = c.choose(mc::lvl(15, 19, 12, 15));
    Bits m(n);
    for (size_t i = 0; i < n; i++) m[i] = c.flip();
    BitVector a(m);
    compare(c, a, m);
    BitVector b; for (bool x : m) b.push_back(x);
    compare(c, b, m);
    BitVector d(n); for (size_t i = 0; i < n; i++) d[i] = m[i];
    compare(c, d, m);
    std::vector<int> ints(m.begin(), m.end()); for (auto& x : ints) x *= 6;
    BitVector e(ints);
    compare(c, e, m, false);
    BitVector f(a);
    compare(c, f, m, false);
    if (n == 3) { BitVector g{bool(m[0]), bool(m[1]), bool(m[2])}; compare(c, g, m); }
    if (n == 0) { BitVector g; compare(c, g, m); }
    c.log("bits %s", show(m).c_str()); c.state(hash_bits(m));
}
MC_SCOPE("C01", from_runs, 8) {                   // run-structured strings around every word and block border
    Runs r;
    bool b = c.flip();
    int nr = mc::lvl(3, 4, 2, 3);
    for (int i = 0; i < nr; i++) r.add((i & 1) != b, c.of<size_t>({0, 1, 62, 63, 64, 65, 127, 128, 191, 256, 257}));
    Bits m = r.bits();
    BitVector v(m);
    compare(c, v, m);
    size_t n = m.size();
    BitVector z(n, b);
    compare(c, z, Bits(n, b), false);
    for (size_t cut : {size_t(0), n / 2, n - n % 64, n - std::min<size_t>(n, 1)}) {   // shrink, then grow again with each bit
        for (int f = 0; f < 3; f++) {
            BitVector w(m); Bits k(m);
            w.resize(cut); k.resize(cut);
            if (f == 2) w.resize(n + 3); else w.resize(n + 3, f);
            k.resize(n + 3, f == 1);
            compare(c, w, k, false);
        }
    }
    c.log("%s", r.str().c_str()); c.state(hash_bits(m));
}
MC_SCOPE("C01", constructed_sizes, 2) {
    size_t n = c.choose(mc::lvl(321, 1100, 200, 600)); int f = int(c.choose(3));
    if (f == 2) { BitVector v(n); compare(c, v, Bits(n, false)); }
    else { BitVector v(n, f); compare(c, v, Bits(n, f)); BitVector w; w.assign(n, f); compare(c, w, Bits(n, f)); w.push_back(!f); Bits m(n, f); m.push_back(!f); compare(c, w, m); }
    c.log("size %zu kind %d", n, f); c.state(mc::hash_words({n, u64(f)}));
}
MC_SCOPE("C01", all_fills, 8) {                   // every range of a vector, on both backgrounds
    size_t n = c.pick(mc::thorough() ? std::vector<size_t>{64, 65, 130, 192, 257, 320} : std::vector<size_t>{64, 65, 130, 192});
    size_t a = c.choose(n + 1), e = c.choose(n + 1); int mode = int(c.choose(3));
    if (MC_ASAN && (a * 7 + e) % 5) throw mc::Prune{};
    Bits m(n); for (size_t i = 0; i < n; i++) m[i] = mode == 2 ? i % 3 == 0 : mode;
    for (int b = 0; b < 2; b++) {
        BitVector v(m); Bits k(m);
        v.fill(v.begin() + a, v.begin() + e, b);
        for (size_t i = a; i < e; i++) k[i] = b;
        for (size_t i = 0; i < n; i++) MC_CHECK(bool(v[i]) == k[i], "fill([%zu,%zu),%d) of %zu, background %d: bit %zu is %d", a, e, b, n, mode, i, bool(v[i]));
        c.obs(n);
    }
    c.log("fill [%zu,%zu) of %zu", a, e, n); c.state(mc::hash_words({n, a, e, u64(mode)}));
}
MC_SCOPE("C01", iterators, 8) {                   // arithmetic, order and dereference of every pair of positions
    size_t n = c.of<size_t>({1, 64, 65, 130, 200}), i = c.choose(n + 1);
    Bits m(n); for (size_t j = 0; j < n; j++) m[j] = (j * 5 + j / 7) % 3 == 0;
    BitVector v(m); const BitVector& k = v;
    auto run = [&](auto& x, const char* what) {
        auto b = x.begin(); auto p = b + ptrdiff_t(i);
        MC_CHECK(p - b == ptrdiff_t(i), "%s: (begin+%zu)-begin = %td", what, i, p - b);
        MC_CHECK(x.end() - p == ptrdiff_t(n - i), "%s: end-(begin+%zu)", what, i);
        for (size_t j = 0; j <= n; j++) {
            auto q = b + ptrdiff_t(j); ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
            MC_CHECK(q - p == d, "%s: (begin+%zu)-(begin+%zu) = %td", what, j, i, q - p);
            auto r = p; r += d; MC_CHECK(r == q && !(r != q), "%s: (begin+%zu) += %td", what, i, d);
            r = p; r -= -d; MC_CHECK(r == q, "%s: (begin+%zu) -= %td", what, i, -d);
            MC_CHECK(p + d == q && q - d == p, "%s: it + %td from %zu", what, d, i);
            MC_CHECK((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "%s: order of %zu and %zu", what, i, j);
            if (j < n) { MC_CHECK(bool(p[d]) == m[j], "%s: (begin+%zu)[%td]", what, i, d); MC_CHECK(bool(*q) == m[j], "%s: *(begin+%zu)", what, j); }
            c.obs(8);
        }
        if (i < n) { auto r = p; ++r; MC_CHECK(r - b == ptrdiff_t(i + 1), "%s: ++ at %zu", what, i); auto o = p; auto w = o++; MC_CHECK(w == p && o == r, "%s: postfix ++ at %zu", what, i); }
        if (i > 0) { auto r = p; --r; MC_CHECK(r - b == ptrdiff_t(i - 1), "%s: -- at %zu", what, i); auto o = p; auto w = o--; MC_CHECK(w == p && o == r, "%s: postfix -- at %zu", what, i); }
    };
    run(v, "iterator"); run(k, "const_iterator");
    BitVector::const_iterator ci = v.begin() + i;
    MC_CHECK(ci == k.begin() + i, "iterator converted to const_iterator");
    ci = v.begin(); MC_CHECK(ci == k.begin(), "const_iterator assigned from iterator");
    if (i < n) {
        MC_CHECK(&v[i] == v.begin() + i, "address of v[%zu]", i);
        MC_CHECK(&k[i] == k.begin() + i, "address of const v[%zu]", i);
        BitVector::const_reference cr = v[i]; MC_CHECK(bool(cr) == m[i], "const_reference from reference");
        BitVector w(m);
        for (size_t j = 0; j < n; j++) { w[i] = w[j]; MC_CHECK(bool(w[i]) == m[j], "v[%zu] = v[%zu]", i, j); w[i] = bool(m[i]); }
    }
    std::vector<bool> copy(k.begin(), k.end());
    MC_CHECK(copy == m, "copy of the range");
    c.log("size %zu, position %zu", n, i); c.state(mc::hash_words({n, i}));
}

MC_SCOPE("C01", algorithms, 8) {                   // standard algorithms over every short range at the word borders
    size_t a = c.of<size_t>({0, 1, 59, 61, 63, 64, 65, 125, 127, 128}), n = c.choose(mc::lvl(8, 10, 6, 7)); u64 word = c.choose(u64(1) << n); unsigned bg = c.choose(3);
    const size_t N = 220; Bits m(N); for (size_t j = 0; j < N; j++) m[j] = bg == 2 ? j % 3 == 0 : bg; for (size_t j = 0; j < n; j++) m[a + j] = word >> j & 1;
    c.log("220 bits, those from %zu are %s, on background %u", a, [&] { std::string t; for (size_t j = 0; j < n; j++) t += char(48 + m[a + j]); return t; }().c_str(), bg);
    BitVector src(m); const BitVector& k = src; c.obs(1);
    auto all = [&](const BitVector& v, const Bits& e, const char* what) { for (size_t j = 0; j < N; j++) if (bool(v[j]) != e[j]) MC_CHECK(false, "%s over [%zu,%zu): bit %zu is %d", what, a, a + n, j, int(bool(v[j]))); c.obs(N); };
    auto with = [&](const char* what, auto f) {        // the same on both; the results are distances from the start of the range
        BitVector v(m); Bits e(m); auto vb = v.begin() + ptrdiff_t(a), ve = vb + ptrdiff_t(n); auto eb = e.begin() + a, ee = eb + n;
        auto x = f(vb, ve, v); auto y = f(eb, ee, e); MC_CHECK(x == y, "%s over [%zu,%zu) = %td, want %td", what, a, a + n, ptrdiff_t(x), ptrdiff_t(y)); return std::make_pair(v, e);
    };
    auto mod = [&](const char* what, auto f) { auto [v, e] = with(what, f); all(v, e, what); };
    for (ptrdiff_t d : {-59, -5, -1, 0, 1, 3, 64, 66}) {
        if (ptrdiff_t(a) + d < 0) continue;
        if (d <= 0) { mod("copy", [&](auto b, auto e, auto&) { auto r = std::copy(b, e, b + d); return ptrdiff_t(r - b); }); mod("move", [&](auto b, auto e, auto&) { return ptrdiff_t(std::move(b, e, b + d) - b); }); }
        if (d >= 0) mod("copy_backward", [&](auto b, auto e, auto&) { return ptrdiff_t(std::copy_backward(b, e, e + d) - b); });
        with("equal", [&](auto b, auto e, auto&) { return ptrdiff_t(std::equal(b, e, b + d)); });
        with("lexicographical_compare", [&](auto b, auto e, auto&) { return ptrdiff_t(std::lexicographical_compare(b, e, b + d, e + d)); });
    }
    for (bool x : {false, true}) {
        mod("remove", [&](auto b, auto e, auto&) { return ptrdiff_t(std::remove(b, e, x) - b); });
        mod("fill", [&](auto b, auto e, auto&) { std::fill(b, e, x); return ptrdiff_t(0); });
        mod("fill_n", [&](auto b, auto, auto&) { return ptrdiff_t(std::fill_n(b, n / 2, x) - b); });
        mod("replace", [&](auto b, auto e, auto&) { std::replace(b, e, x, !x); return ptrdiff_t(0); });
        with("count", [&](auto b, auto e, auto&) { return ptrdiff_t(std::count(b, e, x)); });
        with("find", [&](auto b, auto e, auto&) { return ptrdiff_t(std::find(b, e, x) - b); });
        with("lower_bound", [&](auto b, auto e, auto& v) { return std::is_sorted(b, e) ? ptrdiff_t(std::lower_bound(b, e, x) - b) : -1; });
    }
    mod("unique", [&](auto b, auto e, auto&) { return ptrdiff_t(std::unique(b, e) - b); });
    mod("transform", [&](auto b, auto e, auto&) { return ptrdiff_t(std::transform(b, e, b, [](bool x) { return !x; }) - b); });
    mod("generate", [&](auto b, auto e, auto&) { int i = 0; std::generate(b, e, [&] { return i++ % 3 == 1; }); return ptrdiff_t(i); });
    with("adjacent_find", [&](auto b, auto e, auto&) { return ptrdiff_t(std::adjacent_find(b, e) - b); });
    with("max_element", [&](auto b, auto e, auto&) { return ptrdiff_t(std::max_element(b, e) - b); });
    with("search", [&](auto b, auto e, auto& v) { return ptrdiff_t(std::search(v.begin(), v.end(), b, e) - v.begin()); });
    with("accumulate", [&](auto b, auto e, auto&) { return ptrdiff_t(std::accumulate(b, e, 0)); });
    { Bits got(k.begin() + ptrdiff_t(a), k.begin() + ptrdiff_t(a + n)); MC_CHECK(got == Bits(m.begin() + a, m.begin() + a + n), "range constructor"); }
    { BitVector t(N, bg == 0); Bits e(N, bg == 0); std::copy(k.begin() + ptrdiff_t(a), k.begin() + ptrdiff_t(a + n), t.begin() + 62); std::copy(m.begin() + a, m.begin() + a + n, e.begin() + 62); all(t, e, "copy to another vector"); }
    c.state(mc::hash_words({a, n, word, bg}));
}

// ---- sizes at which an index, a length or a counter of 8, 16 or 32 bits would have wrapped
struct Ops {                                      // the expected bits as the assignments of ranges made so far
    std::vector<std::tuple<size_t, size_t, bool>> o;
    void set(size_t a, size_t e, bool b) { if (a < e) o.emplace_back(a, e, b); }
    u64 word(size_t k) const {
        u64 w = 0; size_t lo = k * 64;
        for (auto [a, e, b] : o) {
            if (e <= lo || a >= lo + 64) continue;
            u64 mk = ~u64(0);
            if (a > lo) mk &= ~u64(0) << (a - lo);
            if (e < lo + 64) mk &= ~u64(0) >> (lo + 64 - e);
            w = b ? w | mk : w & ~mk;
        }
        return w;
    }
};
static std::vector<size_t> borders(size_t n) {
    std::set<size_t> s;
    for (size_t b : {size_t(0), size_t(256), size_t(65536), size_t(1) << 24, size_t(1) << 31, size_t(1) << 32, n / 2, n})
        for (size_t i = b < 2 ? 0 : b - 2; i < std::min(n, b + 2); i++) s.insert(i);
    return {s.begin(), s.end()};
}
static void compare_large(mc::Ctx& c, BitVector& v, const Ops& m, size_t n, const char* after) {
    const BitVector& k = v;
    MC_CHECK(v.size() == n && k.end() - k.begin() == ptrdiff_t(n) && !v.empty(), "%s: size() = %zu, end()-begin() = %td, want %zu", after, v.size(), k.end() - k.begin(), n);
    std::set<size_t> turns{0}; size_t words = (n + 63) / 64;          // words from which on the expected word may differ
    for (auto [a, e, b] : m.o) for (size_t p : {a, e}) for (size_t w : {p / 64, p / 64 + 1}) if (w < words) turns.insert(w);
    turns.insert(words - 1); turns.insert(words);
    for (auto it = turns.begin(); *it < words; ++it) {
        u64 want = m.word(*it); size_t end = *std::next(it);
        for (size_t w = *it; w < end; w++) {
            u64 keep = n - w * 64 >= 64 ? ~u64(0) : (u64(1) << (n - w * 64)) - 1;
            if ((k.data()[w] ^ want) & keep) MC_CHECK(false, "%s: bits %zu.. of %zu are %016llx, want %016llx", after, w * 64, n, ull(k.data()[w] & keep), ull(want & keep));
            if (w % (1 << 24) == 0) c.beat();
        }
    }
    for (size_t i : borders(n)) {
        bool want = m.word(i / 64) >> (i % 64) & 1;
        MC_CHECK(bool(v[i]) == want && bool(k[i]) == want && bool(k.at(i)) == want && bool(v.at(i)) == want && bool(*(k.begin() + i)) == want && bool(*(k.end() - (n - i))) == want && bool(k.begin()[i]) == want, "%s: bit %zu of %zu", after, i, n);
        MC_CHECK((k.begin() + i) - k.begin() == ptrdiff_t(i) && &v[i] == v.begin() + i, "%s: iterator at %zu of %zu", after, i, n);
        c.obs(8);
    }
    int thrown = 0; for (size_t i : {n, n + 1}) try { k.at(i); } catch (std::out_of_range&) { thrown++; }
    MC_CHECK(thrown == 2, "%s: at() outside [0,%zu) did not throw", after, n);
    c.obs(n / 64);
}
MC_SCOPE("C01", large, 5) {
    if (MC_ASAN) throw mc::Prune{};
    unsigned kind = c.choose(6); size_t n = c.of<size_t>({65535, 65536, 65537, 131077, (size_t(1) << 24) + 3, (size_t(1) << 31) + 70, (size_t(1) << 32) + 70}); bool b = c.flip();
    bool huge = n > size_t(1) << 26;
    if (huge && !mc::thorough() && (b != (kind % 2 == 0) || kind == 5)) throw mc::Prune{};
    if (kind == 5 && n > 1 << 17) throw mc::Prune{};
    c.log("%zu bits of %d, by %u", n, b, kind);
    Ops m; m.set(0, n, b);
    BitVector v;
    switch (kind) {
    case 0: { BitVector x(n, b); v = std::move(x); break; }
    case 1: v.assign(n, b); break;
    case 2: v.push_back(!b); m.set(0, 1, !b); v.resize(n, b); break;
    case 3: v.resize(n - 70, b); for (int i = 0; i < 70; i++) { v.push_back(i % 3 == 0); m.set(n - 70 + i, n - 69 + i, i % 3 == 0); } break;
    case 4: { BitVector x(n); x.fill(x.begin(), x.end(), b); v = std::move(x); break; }
    case 5: { Bits bits(n, b); for (size_t i = 0; i < n; i++) bits[i] = b != (i % 7 == 3); v = BitVector(bits); for (size_t i = 3; i < n; i += 7) m.set(i, i + 1, !b); break; }
    }
    if (kind == 5) { Bits bits(n); for (size_t i = 0; i < n; i++) bits[i] = b != (i % 7 == 3); compare(c, v, bits); return; }
    compare_large(c, v, m, n, "made");
    for (size_t i : borders(n)) { v[i] = !b; m.set(i, i + 1, !b); i += 3; if (i < n) { *(v.begin() + i) = !b; m.set(i, i + 1, !b); } }
    if (!huge) compare_large(c, v, m, n, "written");
    for (size_t a : {size_t(200), size_t(65000), size_t(1) << 31, (size_t(1) << 32) - 3}) if (a + 66 < n) { v.fill(v.begin() + a, v.begin() + a + 66, !b); m.set(a, a + 66, !b); v.fill(v.begin() + a + 5, v.begin() + a + 9, b); m.set(a + 5, a + 9, b); }
    v.reserve(n + 1); v.shrink_to_fit();
    compare_large(c, v, m, n, "filled");
    size_t cut = n - 67; v.resize(cut); v.resize(n, b); m.set(cut, n, b);
    compare_large(c, v, m, n, "cut and grown");
    BitVector w(v); v.assign(3, b); if (!huge) compare_large(c, w, m, n, "copied");
    MC_CHECK(v.size() == 3 && bool(v[0]) == b && bool(v[2]) == b, "assign(3) after %zu", n);
    c.state(mc::hash_words({n, kind, u64(b)}));
}
