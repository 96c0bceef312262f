// C08: MultipleVector as an array of records of byte-wide fields.
#include "common.hpp"
#include <sim_ds/MultipleVector.hpp>
using namespace h;
using sim_ds::MultipleVector;
using Rec = std::vector<u64>;
struct Model {
    std::vector<size_t> w; std::vector<Rec> r;
    static u64 cut(u64 v, size_t bytes) { return v & mask(8 * bytes); }
    void add(const std::vector<u64>& v) { Rec x(w.size(), 0); for (size_t i = 0; i < v.size(); i++) x[i] = cut(v[i], w[i]); r.push_back(x); }
    mc::H128 hash() const { mc::H128 h; h.seq(w); for (auto& x : r) h.seq(x); return h; }
};
template <class F> static void with_id(size_t id, F f) {
    switch (id) {
    case 0: f(std::integral_constant<int, 0>{}); break; case 1: f(std::integral_constant<int, 1>{}); break;
    case 2: f(std::integral_constant<int, 2>{}); break; case 3: f(std::integral_constant<int, 3>{}); break;
    case 4: f(std::integral_constant<int, 4>{}); break; case 5: f(std::integral_constant<int, 5>{}); break;
    case 6: f(std::integral_constant<int, 6>{}); break; default: f(std::integral_constant<int, 7>{}); break;
    }
}
template <class T> static void restricted(MultipleVector& v, size_t i, size_t id, u64 want, size_t w) {
    const MultipleVector& k = v;
    u64 x = Model::cut(want, std::min(w, sizeof(T)));
    with_id(id, [&](auto I) {
        T a = v.block(i).restricted_get<I.value, T>(), b = k.block(i).restricted_get<I.value, T>();
        MC_CHECK(a == T(x), "restricted_get<%zu,%zu bytes> of record %zu = %llu, want %llu", id, sizeof(T), i, ull(a), ull(x));
        MC_CHECK(b == T(x), "const restricted_get<%zu,%zu bytes> of record %zu = %llu, want %llu", id, sizeof(T), i, ull(b), ull(x));
    });
}
static void compare(mc::Ctx& c, MultipleVector& v, const Model& m) {
    const MultipleVector& k = v; size_t n = m.r.size(), total = 0;
    for (size_t f = 0; f < m.w.size(); f++) { MC_CHECK(v.element_size(f) == m.w[f], "element_size(%zu) = %zu, want %zu", f, v.element_size(f), m.w[f]); total += m.w[f]; }
    MC_CHECK(v.block_size() == total, "block_size() = %zu, want %zu", v.block_size(), total);
    MC_CHECK(v.size() == n, "size() = %zu, want %zu", v.size(), n);
    for (size_t i = 0; i < n; i++) for (size_t f = 0; f < m.w.size(); f++) {
        u64 x = m.r[i][f];
        with_id(f, [&](auto I) {
            u64 a = k.nested_element<I.value>(i), b = v.block(i).get<I.value>(), d = k.block(i).get<I.value>();
            MC_CHECK(a == x, "field %zu of record %zu = %llu, want %llu", f, i, ull(a), ull(x));
            MC_CHECK(b == x, "block(%zu).get<%zu> = %llu, want %llu", i, f, ull(b), ull(x));
            MC_CHECK(d == x, "const block(%zu).get<%zu> = %llu, want %llu", i, f, ull(d), ull(x));
        });
        u64 a = v.block(i).get_at(f);
        MC_CHECK(a == x, "block(%zu).get_at(%zu) = %llu, want %llu", i, f, ull(a), ull(x));
        restricted<uint8_t>(v, i, f, x, m.w[f]); restricted<uint16_t>(v, i, f, x, m.w[f]); restricted<u32>(v, i, f, x, m.w[f]); restricted<u64>(v, i, f, x, m.w[f]);
        c.obs(12);
    }
}
static void direct(MultipleVector& v, Model& m, size_t i, size_t f, u64 x) {
#ifndef NDEBUG
    x = Model::cut(x, m.w[f]);          // asserted by the library
#endif
    with_id(f, [&](auto I) { v.set_nested_element<I.value>(i, x); });
    m.r[i][f] = Model::cut(x, m.w[f]);
}
template <class T> static void restricted_set(MultipleVector& v, Model& m, size_t i, size_t f, u64 x) {
    with_id(f, [&](auto I) { v.block(i).restricted_set<I.value, T>(T(x)); });
    u64 mk = mask(8 * std::min(m.w[f], sizeof(T)));
    m.r[i][f] = (m.r[i][f] & ~mk) | (x & mk);
}
static const u64 vals[] = {0x0123456789ABCDEFull, ~0ull, 0x80, 0x100, 0xFFFFFFFF, 1};
static std::vector<std::vector<size_t>> layouts() {
    std::vector<std::vector<size_t>> l = {{1}, {8}, {3}, {1, 8}, {8, 1, 4}, {2, 3, 5, 7}, {1, 1, 1}, {4, 6, 8, 2}};
    return l;
}
static MultipleVector make(const std::vector<size_t>& w, unsigned how) {
    if (how == 0) { MultipleVector v; v.set_element_sizes(w); return v; }
    switch (w.size()) {                    // list constructor
    case 1: return MultipleVector({w[0]});
    case 2: return MultipleVector({w[0], w[1]});
    case 3: return MultipleVector({w[0], w[1], w[2]});
    case 4: return MultipleVector({w[0], w[1], w[2], w[3]});
    default: return MultipleVector({w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]});
    }
}
static void assign_list(MultipleVector& v, size_t i, const std::vector<u64>& x) {
    auto b = v.block(i);
    if (x.size() == 1) b = {x[0]}; else if (x.size() == 2) b = {x[0], x[1]}; else if (x.size() == 3) b = {x[0], x[1], x[2]}; else b = {x[0], x[1], x[2], x[3]};
}
static void push(MultipleVector& v, const std::vector<u64>& x) {
    if (x.empty()) v.push_back({}); else if (x.size() == 1) v.push_back({x[0]}); else if (x.size() == 2) v.push_back({x[0], x[1]}); else if (x.size() == 3) v.push_back({x[0], x[1], x[2]}); else v.push_back({x[0], x[1], x[2], x[3]});
}
static void grow(MultipleVector& v, size_t n, const std::vector<u64>& x) {
    if (x.empty()) v.resize(n, {}); else if (x.size() == 1) v.resize(n, {x[0]}); else if (x.size() == 2) v.resize(n, {x[0], x[1]}); else if (x.size() == 3) v.resize(n, {x[0], x[1], x[2]}); else v.resize(n, {x[0], x[1], x[2], x[3]});
}
static std::vector<u64> values(size_t nf, unsigned k, size_t salt) {
    std::vector<u64> x; for (size_t f = 0; f < nf; f++) x.push_back(k == 0 ? ~0ull : 0x9E3779B97F4A7C15ull * (f + 1 + salt)); return x;
}
MC_SCOPE("C08", histories, 16) {
    static const auto ls = layouts();
    Model m; m.w = ls[c.choose(mc::lvl(5, 8, 4, 6))];
    size_t nf = m.w.size();
    auto v = make(m.w, unsigned(c.choose(2)));
    int depth = c.depth(mc::lvl(4, 5, 3, 4));
    for (int d = 0; d < depth; d++) {
        size_t n = m.r.size();
        unsigned op = n ? c.choose(9) : c.of<unsigned>({0, 1, 2, 3, 8});
        if (op == 0) { auto x = values(c.flip() ? nf : nf / 2, unsigned(d & 1), d); c.log("push_back %s", show_ints(x).c_str()); push(v, x); m.add(x); }
        else if (op == 1) { c.log("emplace_back"); v.emplace_back(); m.add({}); }
        else if (op == 2) { size_t k = c.of<size_t>({0, 1, 3, 5}); c.log("resize(%zu)", k); v.resize(k); m.r.resize(std::min(n, k)); while (m.r.size() < k) m.add({}); }
        else if (op == 3) { size_t k = c.of<size_t>({1, 2, 4}); auto x = values(c.flip() ? nf : nf - 1, 1, d); c.log("resize(%zu,%s)", k, show_ints(x).c_str()); grow(v, k, x); m.r.resize(std::min(n, k)); while (m.r.size() < k) m.add(x); }
        else if (op == 8) { c.log("reserve"); v.reserve(c.of<size_t>({0, 7})); }
        else {
            size_t i = c.of<size_t>({0, n - 1}), f = c.choose(nf); u64 x = c.of<u64>({vals[0], ~0ull, 0});
            c.log("write %u: record %zu field %zu = %llx", op, i, f, ull(x));
            if (op == 4) direct(v, m, i, f, x);
            else if (op == 5) { with_id(f, [&](auto I) { v.block(i).set<I.value>(x); }); m.r[i][f] = Model::cut(x, m.w[f]); }
            else if (op == 6) {
                unsigned k = c.choose(4);
                if (k == 0) { v.block(i).set_at(f, x); m.r[i][f] = Model::cut(x, m.w[f]); }
                else if (k == 1) { u32 y = u32(x); v.block(i).set_at(f, y); m.r[i][f] = Model::cut(y, m.w[f]); }
                else if (k == 2) restricted_set<uint8_t>(v, m, i, f, x);
                else restricted_set<u32>(v, m, i, f, x);
            } else { auto y = values(nf, x == 0, d); assign_list(v, i, y); for (size_t g = 0; g < nf; g++) m.r[i][g] = Model::cut(y[g], m.w[g]); }
        }
        if (c.fresh()) compare(c, v, m);
        auto h = mc::image(v); mix(h, m.hash());
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C08", every_width, 8) {                  // each pair of widths, each field, each way of writing, over both backgrounds
    size_t a = 1 + c.choose(8), b = 1 + c.choose(8), d = 1 + c.choose(8); bool ones = c.flip();
    Model m; m.w = {a, b, d};
    auto v = make(m.w, 1);
    std::vector<u64> bg(3, ones ? ~0ull : 0);
    for (int i = 0; i < 3; i++) { push(v, bg); m.add(bg); }
    c.log("fields of %zu, %zu, %zu bytes over %s", a, b, d, ones ? "ones" : "zeros");
    compare(c, v, m);
    for (size_t i = 0; i < 3; i++) for (size_t f = 0; f < 3; f++) for (u64 x : vals) for (int op = 0; op < 9; op++) {
        if (MC_ASAN && (x == 1 || x == 0x80)) continue;
        switch (op) {
        case 0: direct(v, m, i, f, x); break;
        case 1: with_id(f, [&](auto I) { v.block(i).set<I.value>(x); }); m.r[i][f] = Model::cut(x, m.w[f]); break;
        case 2: v.block(i).set_at(f, x); m.r[i][f] = Model::cut(x, m.w[f]); break;
        case 3: v.block(i).set_at(f, int(x & 0x7fffffff)); m.r[i][f] = Model::cut(x & 0x7fffffff, m.w[f]); break;
        case 4: v.block(i).set_at(f, uint8_t(x)); m.r[i][f] = Model::cut(uint8_t(x), m.w[f]); break;
        case 5: restricted_set<uint8_t>(v, m, i, f, x); break;
        case 6: restricted_set<uint16_t>(v, m, i, f, x); break;
        case 7: restricted_set<u32>(v, m, i, f, x); break;
        case 8: restricted_set<u64>(v, m, i, f, x); break;
        }
        compare(c, v, m);
    }
    c.state(mc::hash_words({a, b, d, ones}));
}
MC_SCOPE("C08", eight_fields, 4) {                 // run-time field ids, many records
    size_t rot = c.choose(8), n = c.of<size_t>({1, 2, 9, 40}); unsigned how = c.choose(2);
    Model m; for (size_t f = 0; f < 8; f++) m.w.push_back(1 + (f + rot) % 8);
    auto v = make(m.w, how);
    v.resize(n); for (size_t i = 0; i < n; i++) m.add({});
    for (size_t k = 0; k < 8 * n; k++) { size_t i = k * 5 % n, f = k * 3 % 8; u64 x = 0x9E3779B97F4A7C15ull * (k + 1); v.block(i).set_at(f, x); m.r[i][f] = Model::cut(x, m.w[f]); compare(c, v, m); }
    c.log("8 fields rotated by %zu, %zu records", rot, n); c.state(mc::hash_words({rot, n, how}));
}
MC_SCOPE("C08", relayout, 1) {                     // configuring an empty vector again
    static const auto ls = layouts();
    Model m; auto a = ls[c.choose(ls.size())]; m.w = ls[c.choose(ls.size())]; unsigned how = c.choose(4);
    c.log("layout %s, then %s", show_ints(a).c_str(), show_ints(m.w).c_str());
    auto v = make(a, how & 1);
    if (how & 2) { v.resize(2); v.resize(0); }
    v.set_element_sizes(m.w);
    compare(c, v, m);
    v.emplace_back(); m.add({}); compare(c, v, m);
    auto x = values(m.w.size(), 1, 3); push(v, x); m.add(x); compare(c, v, m);
    direct(v, m, 0, m.w.size() - 1, ~0ull); compare(c, v, m);
    c.state(m.hash());
}
MC_SCOPE("C08", unconfigured, 1) {
    MultipleVector v; MC_CHECK(v.size() == 0, "size() of a vector without fields = %zu", v.size());
    v.set_element_sizes(std::vector<int>{2, 3}); Model m; m.w = {2, 3}; compare(c, v, m);
    c.obs(1); c.choose(2);
}
MC_SCOPE("C08", large, 4) {                        // record numbers, byte offsets and lengths beyond 16 and 32 bits
    if (MC_ASAN) throw mc::Prune{};
    unsigned lay = c.choose(4), size = c.choose(3), how = c.choose(3);
    Model m; m.w = std::vector<std::vector<size_t>>{{1}, {3, 1, 8}, {8}, {5, 2, 7, 4}}[lay];
    size_t nf = m.w.size(), total = 0; for (auto w : m.w) total += w;
    size_t n = size == 0 ? 65536 + 9 : size == 1 ? 140001 : ((size_t(1) << (mc::thorough() ? 33 : 32)) + 4096) / total;
    if (size == 2 && ((!mc::thorough() && (lay != 3 && lay != 2)) || how != 1)) throw mc::Prune{};
    c.log("%zu records of %s by %u", n, show_ints(m.w).c_str(), how);
    auto v = make(m.w, 1);
    auto val = [&](size_t i, size_t f) { return size == 2 ? 0 : Model::cut(0x9E3779B97F4A7C15ull * (i * 4 + f + 1), m.w[f]); };
    if (how == 0) for (size_t i = 0; i < n; i++) { std::vector<u64> x; for (size_t f = 0; f < nf; f++) x.push_back(val(i, f)); push(v, x); }
    else { if (how == 1) v.resize(n); else { v.resize(5); v.resize(n, {}); }
        if (size < 2) for (size_t i = 0; i < n; i++) for (size_t f = 0; f < nf; f++) if ((i + f) % 2) v.block(i).set_at(f, val(i, f)); else with_id(f, [&](auto I) { v.set_nested_element<I.value>(i, val(i, f)); }); }
    c.beat();
    const MultipleVector& k = v;
    MC_CHECK(v.size() == n, "size() = %zu, want %zu", v.size(), n);
    std::map<size_t, Rec> marks;
    for (size_t b : {size_t(0), size_t(65536), (size_t(1) << 31) / total, (size_t(1) << 32) / total, (size_t(1) << 33) / total, n - 1}) for (size_t i = b < 1 ? 0 : b - 1; i < std::min(n, b + 2); i++) {
        Rec r(nf); for (size_t f = 0; f < nf; f++) { r[f] = Model::cut(~u64(0) - i * 3 - f, m.w[f]); if (f % 2) with_id(f, [&](auto I) { v.block(i).set<I.value>(r[f]); }); else v.block(i).set_at(f, r[f]); }
        marks[i] = r;
    }
    auto look = [&](size_t i) {
        auto it = marks.find(i);
        for (size_t f = 0; f < nf; f++) {
            u64 e = it == marks.end() ? val(i, f) : it->second[f];
            with_id(f, [&](auto I) { u64 a = k.nested_element<I.value>(i), b = k.block(i).get<I.value>(); if (a != e || b != e || u64(v.block(i).get_at(f)) != e) MC_CHECK(false, "field %zu of record %zu among %zu = %llu / %llu, want %llu", f, i, n, ull(a), ull(b), ull(e)); });
        }
    };
    if (size < 2) for (size_t i = 0; i < n; i++) look(i);
    else { for (auto& [p, r] : marks) for (size_t i = p < 9 ? 0 : p - 9; i < std::min(n, p + 9); i++) look(i); for (size_t i = 0; i < n; i += 4093) look(i); }
    c.obs(size < 2 ? n * nf : marks.size() * 18);
    if (size < 2) { v.resize(65530); v.resize(n); for (size_t i = 65530; i < n; i++) for (size_t f = 0; f < nf; f++) MC_CHECK(u64(v.block(i).get_at(f)) == 0, "field %zu of record %zu after shrinking and growing", f, i); }
    c.state(mc::hash_words({lay, size, how}));
}
