// C14: CDRWArray against a plain array.  C15: CDRWVector against std::vector<uint64_t>.
#include "common.hpp"
#include <sim_ds/CDRWArray.hpp>
using namespace h;
using sim_ds::CDRWArray; using sim_ds::CDRWVector;
using Ints = std::vector<u64>;
static u64 of_width(unsigned w, unsigned k) { return w == 0 ? 0 : k == 0 ? u64(1) << (w - 1) : k == 1 ? mask(w) : (u64(1) << (w - 1)) | (0x5DEECE66Dull & mask(w - 1)); }
template <class A> static void same(mc::Ctx& c, const A& a, const Ints& m, const char* when) {
    MC_CHECK(a.size() == m.size(), "%s: size() = %zu, want %zu", when, size_t(a.size()), m.size());
    for (size_t i = 0; i < m.size(); i++) { u64 v = a.get(i); MC_CHECK(v == m[i], "%s: get(%zu) of %zu = %llu, want %llu", when, i, m.size(), ull(v), ull(m[i])); }
    c.obs(m.size() + 1);
}
MC_SCOPE("C14", widths_in_sequence, 16) {           // one index goes through every sequence of bit lengths, its neighbours stay
    size_t n = c.of<size_t>({1, 2, 3, 9}), at = c.of<size_t>({0, n - 1});
    CDRWArray a(n); Ints m(n); unsigned others = c.choose(3);
    for (size_t i = 0; i < n; i++) if (i != at && others) { m[i] = of_width(others == 1 ? 1 + unsigned(i) % 64 : 64, 1); a.set(i, m[i]); }
    static const unsigned ws[] = {0, 64, 1, 63, 2, 8, 7, 33, 32, 16};
    int depth = c.depth(mc::lvl(4, 5, 2, 3));
    c.log("%zu elements, writing at %zu, others %u", n, at, others);
    for (int d = 0; d < depth; d++) {
        unsigned w = ws[c.choose(mc::lvl(7, 10, 6, 7))]; u64 v = of_width(w, unsigned(d) % 3);
        c.log("set(%zu,%llu)", at, ull(v));
        a.set(at, v); m[at] = v;
        if (c.fresh()) same(c, a, m, "after set");
        mc::H128 h = mc::hash_seq(m); h.word(others); if (!MC_ASAN && c.fresh()) mix(h, mc::image(a)); c.state(h);
    }
}
MC_SCOPE("C14", all_width_pairs, 16) {              // from every bit length to every bit length and back
    unsigned w1 = c.choose(65), w2 = c.choose(65);
    if (MC_ASAN && (w1 + w2) % 4) throw mc::Prune{};
    size_t n = 5; CDRWArray a(n); Ints m(n);
    for (size_t i = 0; i < n; i++) { m[i] = of_width((unsigned(i) * 13 + w2) % 65, 1); a.set(i, m[i]); }
    for (unsigned k = 0; k < 4; k++) for (unsigned w : {w1, w2}) { size_t i = k % 2 ? 4 : 1; u64 v = of_width(w, k % 3); a.set(i, v); m[i] = v; same(c, a, m, "after set"); }
    c.log("bit lengths %u and %u", w1, w2); c.state(mc::hash_words({w1, w2}));
}
MC_SCOPE("C14", histories, 16) {                    // several indices, few bit lengths
    size_t n = c.of<size_t>({2, 3, 8}); CDRWArray a(n); Ints m(n);
    std::vector<u64> dom = {0, 1, 2, 3, ~0ull};
    int depth = c.depth(mc::lvl(5, 6, 3, 4));
    for (int d = 0; d < depth; d++) {
        size_t i = c.of<size_t>({0, 1, n - 1}); if (n == 2 && d < 99) i = std::min<size_t>(i, 1);
        u64 v = c.pick(dom); c.log("set(%zu,%llu)", i, ull(v)); a.set(i, v); m[i] = v;
        if (c.fresh()) same(c, a, m, "after set");
        auto h = mc::image(a); mix(h, mc::hash_seq(m)); c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C14", sizes, 16) {                        // every size, filled, overwritten and filled again in several orders
    size_t n = c.choose(mc::lvl(140, 300, 34, 70)); unsigned o = c.choose(3), w = c.choose(3);
    CDRWArray a(n); Ints m(n); same(c, a, m, "fresh");
    for (unsigned round = 0; round < 4; round++) for (size_t k = 0; k < n; k++) {
        size_t i = o == 0 ? k : o == 1 ? n - 1 - k : (k * 2) % n + (n % 2 == 0 && k >= n / 2);
        unsigned bits = w == 0 ? 8 - round : w == 1 ? unsigned(i * 7 + round * 5) % 65 : round % 2 ? 0 : 40; m[i] = of_width(bits, unsigned(i + round) % 3); a.set(i, m[i]);
        if (k % 16 == 15 || k + 1 == n) same(c, a, m, "while filling");
    }
    CDRWArray b(m.begin(), m.end()); same(c, b, m, "built from a range");
    std::vector<u32> s(m.begin(), m.end()); Ints sm(s.begin(), s.end()); CDRWArray d(s.begin(), s.end()); same(c, d, sm, "built from a range of narrow integers");
    c.log("%zu elements, order %u, widths %u", n, o, w); c.state(mc::hash_words({n, o, w}));
}
MC_SCOPE("C14", large, 4) {
    size_t n = c.of<size_t>({1000, 1024, 1025, size_t(mc::lvl(3000, 20000, 1030, 3000))}); unsigned w = c.choose(4);
    CDRWArray a(n); Ints m(n);
    for (unsigned round = 0; round < 3; round++) {
        for (size_t i = 0; i < n; i++) { size_t k = i * 7 % n; m[k] = w == 0 ? (0x9E3779B97F4A7C15ull * (k + 1)) >> (k % 64) : w == 1 ? k + round : w == 2 ? ~0ull - k : (round ? 0 : k); a.set(k, m[k]); if (i % 256 == 0) c.beat(); }
        same(c, a, m, "after a round");
    }
    c.log("%zu elements, values %u", n, w); c.state(mc::hash_words({n, w}));
}

// ---------------------------------------------------------------- C15
static void same_vec(mc::Ctx& c, const CDRWVector& v, const Ints& m, const char* when) {
    same(c, v, m, when);
    MC_CHECK(v.empty() == m.empty(), "%s: empty()", when);
    MC_CHECK(v.capacity() >= m.size(), "%s: capacity() %zu below size() %zu", when, v.capacity(), m.size());
}
MC_SCOPE("C15", vector_histories, 16) {
    size_t n0 = c.of<size_t>({0, 1, 3, 8}); int how = n0 ? 1 : c.choose(2);
    std::vector<CDRWVector> v; std::vector<Ints> m; if (how) v.emplace_back(n0); else v.emplace_back(); m.emplace_back(n0);
    int depth = c.depth(mc::lvl(4, 5, 3, 4));
    c.log("vector of %zu", n0);
    if (c.fresh()) same_vec(c, v[0], m[0], "fresh");
    for (int d = 0; d < depth; d++) {
        size_t w = v.size() > 1 ? c.choose(2) : 0; auto& x = v[w]; auto& y = m[w]; size_t n = y.size();
        switch (c.choose(8)) {
        case 0: { u64 a = d % 2 ? ~0ull : u64(d + 1); c.log("v%zu.push_back(%llu)", w, ull(a)); x.push_back(a); y.push_back(a); break; }
        case 1: c.log("v%zu.pop_back", w); x.pop_back(); if (n) y.pop_back(); break;
        case 2: { if (!n) throw mc::Prune{}; size_t i = c.of<size_t>({0, n - 1}); u64 a = c.flip() ? 300 + u64(d) : 0; c.log("v%zu.set(%zu,%llu)", w, i, ull(a)); x.set(i, a); y[i] = a; break; }
        case 3: { size_t k = c.of<size_t>({0, 2, 5, 9}); c.log("v%zu.resize(%zu)", w, k); x.resize(k); y.resize(k); break; }
        case 4: { size_t k = c.of<size_t>({0, 3, 17}); c.log("v%zu.reserve(%zu)", w, k); x.reserve(k); MC_CHECK(x.capacity() >= k, "capacity() %zu after reserve(%zu)", x.capacity(), k); break; }
        case 5: c.log("v%zu.shrink_to_fit", w); x.shrink_to_fit(); break;
        case 6: c.log("v%zu.clear", w); x.clear(); y.clear(); break;
        case 7: if (v.size() == 1) { c.log("v1 = copy of v0"); CDRWVector z = v[0]; v.push_back(z); Ints q = m[0]; m.push_back(q); } else { c.log("v%zu = v%zu", w, 1 - w); x = v[1 - w]; y = m[1 - w]; } break;
        }
        if (c.fresh()) for (size_t i = 0; i < v.size(); i++) same_vec(c, v[i], m[i], "after the call");
        auto h = v.size() == 1 ? mc::image(v[0]) : mc::image(v[0], v[1]); for (auto& q : m) mix(h, mc::hash_seq(q));
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C15", deep_histories, 16) {               // fewer operations, longer histories
    size_t n0 = c.of<size_t>({0, 2}); CDRWVector x(n0); Ints y(n0);
    int depth = c.depth(mc::lvl(6, 8, 4, 5));
    c.log("vector of %zu", n0);
    for (int d = 0; d < depth; d++) {
        size_t n = y.size();
        switch (c.choose(6)) {
        case 0: { u64 a = d % 2 ? ~0ull : 9; c.log("push_back(%llu)", ull(a)); x.push_back(a); y.push_back(a); break; }
        case 1: c.log("pop_back"); x.pop_back(); if (n) y.pop_back(); break;
        case 2: { if (!n) throw mc::Prune{}; c.log("set(%zu,300)", n - 1); x.set(n - 1, 300); y[n - 1] = 300; break; }
        case 3: { size_t k = n + 1 + 3 * c.choose(2); c.log("resize(%zu)", k); x.resize(k); y.resize(k); break; }
        case 4: c.log("shrink_to_fit"); x.shrink_to_fit(); break;
        case 5: if (!n) throw mc::Prune{}; c.log("clear"); x.clear(); y.clear(); break;
        }
        if (c.fresh()) same_vec(c, x, y, "after the call");
        auto h = mc::image(x); mix(h, mc::hash_seq(y)); c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C15", grow_and_shrink, 16) {              // up by pushes, down by pops, and up again, from every initial size
    size_t n0 = c.choose(mc::lvl(20, 40, 10, 20)), up = c.of<size_t>({0, 1, 2, 3, 7, 16, 33, 70}), down = c.choose(std::min<size_t>(n0 + up, mc::lvl(40, 120, 12, 30)) + 1); unsigned kind = c.choose(4);
    CDRWVector v(n0); Ints m(n0);
    for (size_t i = 0; i < up; i++) { u64 x = 0x9E3779B97F4A7C15ull * (i + 1) >> (i % 50); v.push_back(x); m.push_back(x); }
    same_vec(c, v, m, "pushed");
    for (size_t i = 0; i < down; i++) { v.pop_back(); m.pop_back(); }
    same_vec(c, v, m, "popped");
    size_t to = m.size() + 1 + down / 2 + up;
    if (kind == 0) { v.resize(to); m.resize(to); same_vec(c, v, m, "resized up"); }
    if (kind == 1) { v.shrink_to_fit(); same_vec(c, v, m, "shrunk to fit"); v.resize(to); m.resize(to); same_vec(c, v, m, "resized up"); }
    if (kind == 2) { v.clear(); m.clear(); v.resize(to); m.resize(to); same_vec(c, v, m, "cleared and resized up"); }
    if (kind == 3) { for (size_t i = 0; i < 5; i++) { v.push_back(i); m.push_back(i); } v.resize(m.size() / 2); m.resize(m.size() / 2); v.resize(to); m.resize(to); same_vec(c, v, m, "halved and resized up"); }
    v.push_back(~0ull); m.push_back(~0ull); v.reserve(to * 3); same_vec(c, v, m, "reserved");
    for (size_t i = 0; i < m.size(); i += 3) { v.set(i, i * i); m[i] = i * i; }
    same_vec(c, v, m, "written");
    while (!m.empty()) { v.pop_back(); m.pop_back(); if (m.size() % 4 == 0) same_vec(c, v, m, "emptying"); }
    v.pop_back(); same_vec(c, v, m, "popped when empty"); v.push_back(5); m.push_back(5); same_vec(c, v, m, "pushed after emptying");
    c.log("%zu at first, %zu pushed, %zu popped, then %u", n0, up, down, kind); c.state(mc::hash_words({n0, up, down, kind}));
}

// ---- sizes at which an index or a pointer of 16 bits would have wrapped
MC_SCOPE("C14", beyond_16_bits, 8) {
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65536, 65537, 140000, (1 << 20) + 1}); unsigned w = c.choose(5);
    if (n > 1000000 && !mc::thorough() && w != 1 && w != 2) throw mc::Prune{};
    c.log("%zu elements, values %u", n, w);
    CDRWArray a(n); Ints m(n);
    for (unsigned round = 0; round < 3; round++) {
        for (size_t i = 0; i < n; i++) {
            size_t k = round == 1 ? n - 1 - i : n % 7 ? i * 7 % n : i;
            m[k] = w == 0 ? (0x9E3779B97F4A7C15ull * (k + 1)) >> (k % 64) : w == 1 ? k + round : w == 2 ? ~0ull - k : w == 3 ? (round == 1 ? 0 : k) : (k % 65536 < 3 || k > n - 4 ? ~0ull : k & 1);
            a.set(k, m[k]);
            if (i % (1 << 14) == 0) { c.beat(); MC_CHECK(a.get(k) == m[k], "get(%zu) right after set(%zu,%llu) = %llu", k, k, ull(m[k]), ull(a.get(k))); }
        }
        same(c, a, m, "after a round"); c.beat();
    }
    CDRWArray b(m.begin(), m.end()); same(c, b, m, "built from a range");
    c.state(mc::hash_words({n, w}));
}
MC_SCOPE("C15", beyond_16_bits_vector, 8) {
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65536, 65537, 140000, (1 << 19) + 5}); unsigned w = c.choose(4); bool pushes = c.flip();
    if (n > 500000 && !mc::thorough() && (w != 1 || !pushes)) throw mc::Prune{};
    c.log("%zu elements, values %u, %s", n, w, pushes ? "by pushes" : "resized at once");
    auto val = [&](size_t k, unsigned r) -> u64 { return w == 0 ? (0x9E3779B97F4A7C15ull * (k + 1 + r)) >> (k % 64) : w == 1 ? k + r : w == 2 ? ~0ull - k - r : k % 70 ? 0 : k << 30; };
    CDRWVector v; Ints m;
    if (!pushes) { v.resize(n); m.resize(n); same_vec(c, v, m, "resized"); }
    for (size_t i = 0; i < n; i++) { if (pushes) { v.push_back(val(i, 0)); m.push_back(val(i, 0)); } else { v.set(i, val(i, 0)); m[i] = val(i, 0); } if (i % (1 << 14) == 0) c.beat(); }
    same_vec(c, v, m, "filled"); c.beat();
    while (m.size() > 65000) { v.pop_back(); m.pop_back(); if (m.size() % (1 << 14) == 0) c.beat(); }
    same_vec(c, v, m, "popped to 65000"); c.beat();
    v.shrink_to_fit(); same_vec(c, v, m, "shrunk to fit");
    v.resize(n); m.resize(n); same_vec(c, v, m, "resized up"); c.beat();
    for (size_t i = 0; i < n; i += 3) { v.set(i, val(i, 9)); m[i] = val(i, 9); }
    same_vec(c, v, m, "written"); c.beat();
    CDRWVector u = v; v.clear(); MC_CHECK(v.size() == 0 && v.empty(), "clear()"); same_vec(c, u, m, "copied");
    u.reserve(2 * n + 1); same_vec(c, u, m, "reserved");
    c.state(mc::hash_words({n, w, pushes}));
}
