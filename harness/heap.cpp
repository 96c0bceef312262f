// C09: heaps against a multiset.  C10: HeapSort over every range and strict weak order.
#include "common.hpp"
#include <deque>
#include <sim_ds/Heap.hpp>
#include <sim_ds/sort.hpp>
using namespace h;

template <bool Min> struct Bag {           // reference
    std::multiset<u64> s;
    u64 top() const { return Min ? *s.begin() : *s.rbegin(); }
    void pop() { s.erase(Min ? s.begin() : std::prev(s.end())); }
};
template <bool Min> static void compare(mc::Ctx& c, const sim_ds::Heap<Min>& q, const Bag<Min>& m) {
    MC_CHECK(q.size() == m.s.size(), "size() = %zu, want %zu", q.size(), m.s.size());
    if (!m.s.empty()) MC_CHECK(q.front() == m.top(), "front() = %llu, want %llu", ull(q.front()), ull(m.top()));
    c.obs(2);
}
template <bool Min> static void drain(mc::Ctx& c, sim_ds::Heap<Min> q, Bag<Min> m) {
    compare(c, q, m);
    while (!m.s.empty()) { q.pop(); m.pop(); compare(c, q, m); }
}
template <bool Min> static void histories(mc::Ctx& c) {
    auto vals = mc::thorough() ? std::vector<u64>{0, 1, 2, 3, ~0ull} : std::vector<u64>{0, 1, 2, ~0ull};
    size_t n = c.choose(mc::lvl(4, 5, 3, 4)); Bag<Min> m; std::vector<u64> l(n);
    for (auto& x : l) { x = c.pick(vals); m.s.insert(x); }
    bool range = n && c.flip();
    auto q = n == 0 ? sim_ds::Heap<Min>() : range ? sim_ds::Heap<Min>(l.begin(), l.end()) : sim_ds::Heap<Min>(l);
    c.log("%s heap of %s", Min ? "min" : "max", show_ints(l).c_str());
    if (c.fresh()) drain(c, q, m);
    int depth = c.depth(mc::lvl(9, 11, 5, 7));
    for (int d = 0; d < depth; d++) {
        size_t k = c.choose(vals.size() + !m.s.empty());
        if (k == vals.size()) { c.log("pop"); q.pop(); m.pop(); }
        else { c.log("push(%llu)", ull(vals[k])); q.push(vals[k]); m.s.insert(vals[k]); }
        if (c.fresh()) drain(c, q, m);
        auto h = mc::image(q); mix(h, mc::hash_seq(m.s)); h.word(Min);
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C09", min_histories, 8) { histories<true>(c); }
MC_SCOPE("C09", max_histories, 8) { histories<false>(c); }
template <bool Min, class T> static void from_list(mc::Ctx& c, const std::vector<T>& l) {
    Bag<Min> m; for (auto x : l) m.s.insert(x);
    drain(c, sim_ds::Heap<Min>(l), m);
    if (!l.empty()) drain(c, sim_ds::Heap<Min>(l.begin(), l.end()), m);
    sim_ds::Heap<Min> q; Bag<Min> e; for (auto x : l) { q.push(x); e.s.insert(x); compare(c, q, e); }
    drain(c, q, e);
}
MC_SCOPE("C09", all_lists, 16) {                   // construction from, and pushes of, every list
    unsigned k = 1 + c.choose(4); size_t n = c.choose(k == 1 ? 9 : k == 2 ? mc::lvl(12, 15, 9, 11) : k == 3 ? mc::lvl(8, 10, 6, 7) : mc::lvl(7, 8, 5, 6));
    std::vector<u64> l(n); for (auto& x : l) x = c.choose(k);
    c.log("list %s", show_ints(l).c_str());
    from_list<true>(c, l); from_list<false>(c, l);
    c.state(mc::hash_seq(l));
}
MC_SCOPE("C09", permutations, 16) {                // every permutation of distinct values
    size_t n = 1 + c.choose(mc::lvl(9, 10, 6, 8)); std::vector<int> l, rest(n);
    std::iota(rest.begin(), rest.end(), 0);
    while (!rest.empty()) { size_t i = c.choose(rest.size()); l.push_back(rest[i]); rest.erase(rest.begin() + i); }
    c.log("permutation %s", show_ints(l).c_str());
    from_list<true>(c, l); from_list<false>(c, l);
    c.state(mc::hash_seq(l));
}
static std::vector<u64> shaped(unsigned k, size_t n) {
    std::vector<u64> l(n);
    for (size_t i = 0; i < n; i++) switch (k) {
    case 0: l[i] = i; break; case 1: l[i] = n - i; break; case 2: l[i] = std::min(i, n - i); break; case 3: l[i] = i * 7919 % (n ? n : 1); break;
    case 4: l[i] = 5; break; case 5: l[i] = i % 2; break; case 6: l[i] = i % 2 ? i : ~0ull - i; break; default: l[i] = 0x9E3779B97F4A7C15ull * (i + 1); break;
    }
    return l;
}
MC_SCOPE("C09", shapes, 8) {
    unsigned k = c.choose(8); size_t n = c.choose(mc::lvl(140, 400, 40, 80));
    auto l = shaped(k, n); c.log("shape %u, %zu values", k, n);
    from_list<true>(c, l); from_list<false>(c, l);
    Bag<true> m; sim_ds::Heap<true> q;             // two pushes, one pop
    for (size_t i = 0; i < n; i++) { q.push(l[i]); m.s.insert(l[i]); if (i % 2) { q.pop(); m.pop(); } compare(c, q, m); }
    drain(c, q, m);
    c.state(mc::hash_words({k, n}));
}
MC_SCOPE("C09", beyond_16_bits, 8) {               // more elements than an index of 16 bits counts
    if (MC_ASAN) throw mc::Prune{};
    unsigned k = c.choose(8); size_t n = c.pick(std::vector<size_t>{65535, 65536, 65537, 70001, 140000}); auto l = shaped(k, n);
    c.log("shape %u, %zu values", k, n);
    auto e = l; std::sort(e.begin(), e.end());
    auto down = [&](auto q, bool min) { for (size_t i = 0; i < n; i++) { u64 want = min ? e[i] : e[n - 1 - i]; MC_CHECK(q.size() == n - i && q.front() == want, "pop %zu of %zu: front() = %llu, want %llu (size %zu)", i, n, ull(q.front()), ull(want), q.size()); q.pop(); } MC_CHECK(q.size() == 0, "not empty at the end"); c.obs(n); };
    down(sim_ds::Heap<true>(l), true); down(sim_ds::Heap<false>(l), false); down(sim_ds::Heap<true>(l.begin(), l.end()), true);
    sim_ds::Heap<true> a; sim_ds::Heap<false> b; for (auto x : l) { a.push(x); b.push(x); } down(a, true); down(b, false);
    c.state(mc::hash_words({k, n}));
}

// ---------------------------------------------------------------- nodes: navigation and edits in place
template <bool Min> static void nodes(const sim_ds::Heap<Min>& q, const Bag<Min>& m) {
    size_t n = q.size(); MC_CHECK(n == m.s.size(), "size() = %zu, want %zu", n, m.s.size());
    std::multiset<u64> got; std::vector<bool> reached(n + 1); 
    for (size_t i = 1; i <= n; i++) got.insert(q.value(i));
    MC_CHECK(got == m.s, "value(1..%zu) are not the values contained", n);
    if (!n) return;
    MC_CHECK(q.value(q.root()) == q.front(), "value(root()) = %llu, front() = %llu", ull(q.value(q.root())), ull(q.front()));
    reached[q.root()] = true; std::vector<size_t> stack{q.root()};      // the tree below the root is every node once, each child no better than its parent
    size_t count = 0;
    while (!stack.empty()) {
        size_t i = stack.back(); stack.pop_back(); count++;
        size_t l = q.left(i), r = q.right(i);
        MC_CHECK(q.is_leaf(i) == (l > n && r > n), "is_leaf(%zu) = %d with children %zu and %zu of %zu nodes", i, int(q.is_leaf(i)), l, r, n);
        for (size_t ch : {l, r}) if (ch <= n) {
            MC_CHECK(ch && !reached[ch], "node %zu is a child twice", ch); reached[ch] = true; stack.push_back(ch);
            MC_CHECK(q.parent(ch) == i, "parent(%zu) = %zu, want %zu", ch, q.parent(ch), i);
            MC_CHECK(Min ? q.value(i) <= q.value(ch) : q.value(i) >= q.value(ch), "node %zu holds %llu above %llu in node %zu", i, ull(q.value(i)), ull(q.value(ch)), ch);
        }
    }
    MC_CHECK(count == n, "%zu of %zu nodes are reachable from the root", count, n);
}
template <bool Min> static void edits(mc::Ctx& c) {  // replace a value through its reference, then restore the order
    static const u64 vals[] = {0, 1, 2, 3, ~0ull};
    size_t n = c.choose(mc::lvl(6, 7, 5, 6)); Bag<Min> m; std::vector<u64> l(n); for (auto& x : l) { x = vals[c.choose(4) + (&x == &l[0])]; m.s.insert(x); }
    sim_ds::Heap<Min> q(l); c.log("%s heap of %s", Min ? "min" : "max", show_ints(l).c_str());
    if (c.fresh()) nodes(q, m);
    int depth = c.depth(mc::lvl(3, 4, 2, 2));
    for (int d = 0; d < depth; d++) {
        size_t k = c.choose(2 + 2 * q.size());
        if (k == 0) { u64 v = vals[c.choose(5)]; c.log("push(%llu)", ull(v)); q.push(v); m.s.insert(v); }
        else if (k == 1) { if (m.s.empty()) throw mc::Prune{}; c.log("pop"); q.pop(); m.pop(); }
        else {
            size_t i = 1 + (k - 2) / 2; u64 v = vals[c.choose(5)]; bool all = k & 1;
            u64 old = q.value(i); bool worse = Min ? v >= old : v <= old;
            if (!all && !worse) throw mc::Prune{};     // one Heapify moves a value down only
            c.log("value_reference(%zu) = %llu, then %s", i, ull(v), all ? "Build()" : "Heapify at the node");
            u64& r = q.value_reference(i); MC_CHECK(r == old, "value_reference(%zu) reads %llu, value(%zu) = %llu", i, ull(r), i, ull(old));
            r = v; MC_CHECK(q.value(i) == v, "value(%zu) = %llu after the reference was assigned %llu", i, ull(q.value(i)), ull(v));
            if (all) q.Build(); else q.Heapify(i);
            m.s.erase(m.s.find(old)); m.s.insert(v);
        }
        if (c.fresh()) { nodes(q, m); drain(c, q, m); }
        auto h = mc::image(q); mix(h, mc::hash_seq(m.s)); h.word(Min);
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C09", min_edits, 8) { edits<true>(c); }
MC_SCOPE("C09", max_edits, 8) { edits<false>(c); }

// ---------------------------------------------------------------- sorting
struct Item { int key; int id; bool operator==(const Item& o) const { return key == o.key && id == o.id; } };
template <class Seq, class Less> static void check_sorted(const Seq& before, const Seq& after, Less less, const char* what) {
    size_t n = before.size();
    for (size_t i = 0; i + 1 < n; i++) for (size_t j = i + 1; j < n && j < i + 40; j++) MC_CHECK(!less(after[j], after[i]), "%s: element %zu sorts before element %zu (%zu elements)", what, j, i, n);
    if (n > 2000) { std::vector<bool> seen(n); for (auto& x : after) { MC_CHECK(x.id >= 0 && size_t(x.id) < n && !seen[x.id] && x == before[x.id], "%s: not a permutation of the %zu elements", what, n); seen[x.id] = true; } return; }
    MC_CHECK(std::is_permutation(after.begin(), after.end(), before.begin()), "%s: not a permutation of the %zu elements", what, n);
}
template <class Less> static void sort_items(mc::Ctx& c, const std::vector<int>& keys, Less less_key, const char* what) {
    size_t n = keys.size();
    auto less = [&](const Item& a, const Item& b) { return less_key(a.key, b.key); };
    std::vector<Item> b(n); for (size_t i = 0; i < n; i++) b[i] = {keys[i], int(i)};
    std::vector<Item> a(n + 4, Item{-7, -7});      // guards around the range
    std::copy(b.begin(), b.end(), a.begin() + 2);
    sim_ds::HeapSort(a.begin() + 2, a.begin() + 2 + n, less);
    for (size_t i : {size_t(0), size_t(1), n + 2, n + 3}) MC_CHECK(a[i] == (Item{-7, -7}), "%s: element outside the range written", what);
    check_sorted(b, std::vector<Item>(a.begin() + 2, a.begin() + 2 + n), less, what);
    std::vector<Item> p(b); p.shrink_to_fit();      // through pointers, exact allocation
    sim_ds::HeapSort(p.data(), p.data() + n, less); check_sorted(b, p, less, what);
    std::deque<Item> q(b.begin(), b.end());
    sim_ds::HeapSort(q.begin(), q.end(), less); check_sorted(b, std::vector<Item>(q.begin(), q.end()), less, what);
    std::vector<Item> r(b);
    sim_ds::HeapSort(r.rbegin(), r.rend(), less); std::reverse(r.begin(), r.end()); check_sorted(b, r, less, what);
    c.obs(5 * n + 4);
}
static void plain(mc::Ctx& c, const std::vector<int>& keys) {
    auto a = keys; sim_ds::HeapSort(a.begin(), a.end());
    auto e = keys; std::sort(e.begin(), e.end());
    MC_CHECK(a == e, "HeapSort of %s = %s", show_ints(keys).c_str(), show_ints(a).c_str());
    std::vector<std::string> s; for (auto k : keys) s.push_back(std::string(k % 3, 'a') + char('a' + k % 20) + "long enough to be on the heap");
    auto t = s; sim_ds::HeapSort(s.begin(), s.end()); std::sort(t.begin(), t.end()); MC_CHECK(s == t, "HeapSort of strings for %s", show_ints(keys).c_str());
    std::vector<double> f(keys.begin(), keys.end()); sim_ds::HeapSort(f.begin(), f.end(), [](double x, double y) { return x > y; });
    MC_CHECK(std::is_sorted(f.rbegin(), f.rend()), "HeapSort descending of %s", show_ints(keys).c_str());
    c.obs(3 * keys.size());
}
MC_SCOPE("C10", all_lists_all_orders, 16) {         // every list over k keys under every strict weak order of the keys
    unsigned k = 1 + c.choose(4); int rank[4];
    for (unsigned i = 0; i < k; i++) rank[i] = int(c.choose(k));      // every weak order of k keys is some ranking
    size_t n = c.choose(k == 1 ? 9 : k == 2 ? mc::lvl(9, 12, 7, 9) : k == 3 ? mc::lvl(6, 8, 5, 6) : mc::lvl(5, 6, 4, 5));
    std::vector<int> l(n); for (auto& x : l) x = int(c.choose(k));
    c.log("list %s, ranks %d %d %d %d", show_ints(l).c_str(), rank[0], k > 1 ? rank[1] : 0, k > 2 ? rank[2] : 0, k > 3 ? rank[3] : 0);
    sort_items(c, l, [&](int a, int b) { return rank[a] < rank[b]; }, "ranked order");
    mc::H128 h = mc::hash_seq(l); for (unsigned i = 0; i < k; i++) h.word(rank[i]); c.state(h);
}
MC_SCOPE("C10", permutations_sort, 16) {
    size_t n = c.choose(mc::lvl(9, 10, 7, 8)); std::vector<int> l, rest(n);
    std::iota(rest.begin(), rest.end(), 0);
    while (!rest.empty()) { size_t i = c.choose(rest.size()); l.push_back(rest[i]); rest.erase(rest.begin() + i); }
    c.log("permutation %s", show_ints(l).c_str());
    plain(c, l);
    sort_items(c, l, std::less<int>(), "less"); sort_items(c, l, std::greater<int>(), "greater");
    sort_items(c, l, [](int a, int b) { return a / 2 < b / 2; }, "by pairs"); sort_items(c, l, [](int a, int b) { return a % 3 < b % 3; }, "by remainder");
    c.state(mc::hash_seq(l));
}
MC_SCOPE("C10", two_valued, 8) {
    size_t n = c.choose(mc::lvl(14, 18, 10, 13)); std::vector<int> l(n); for (auto& x : l) x = int(c.choose(2));
    plain(c, l); sort_items(c, l, std::less<int>(), "less");
    c.log("list %s", show_ints(l).c_str()); c.state(mc::hash_seq(l));
}
MC_SCOPE("C10", shapes_sort, 8) {
    unsigned k = c.choose(8); size_t n = c.choose(mc::lvl(160, 500, 40, 120));
    auto u = shaped(k, n); std::vector<int> l; for (auto x : u) l.push_back(int(x & 0x7fffffff));
    c.log("shape %u, %zu values", k, n);
    plain(c, l); sort_items(c, l, std::less<int>(), "less"); sort_items(c, l, std::greater<int>(), "greater"); sort_items(c, l, [](int a, int b) { return a / 8 < b / 8; }, "by eighths");
    c.state(mc::hash_words({k, n}));
}
MC_SCOPE("C10", beyond_16_bits_sort, 8) {
    if (MC_ASAN) throw mc::Prune{};
    unsigned k = c.choose(8); size_t n = c.pick(std::vector<size_t>{65535, 65536, 65537, 70001, 140000});
    auto u = shaped(k, n); std::vector<int> l; for (auto x : u) l.push_back(int(x & 0x7fffffff));
    c.log("shape %u, %zu values", k, n);
    auto a = l, e = l; sim_ds::HeapSort(a.begin(), a.end()); std::sort(e.begin(), e.end()); MC_CHECK(a == e, "HeapSort of shape %u with %zu values is not sorted", k, n);
    sort_items(c, l, std::less<int>(), "less"); sort_items(c, l, [](int a, int b) { return a / 8 < b / 8; }, "by eighths");
    c.obs(n); c.state(mc::hash_words({k, n}));
}
