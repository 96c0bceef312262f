// C36: code handed in by the user - items, comparators, visitors, iterators, element lists - may throw at any call and may call
// back into the structure: the exception arrives, nothing is leaked, the structure holds what it held (or what it would hold).
#define MC_FAULTS 1
#include "common.hpp"
#include <sim_ds/bit_util.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/BijectiveHash.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/BitVector.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/sort.hpp>
#include <sim_ds/InitializableArray.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/graph_util.hpp>
using namespace h;
using sim_ds::graph_util::Trie;

// ---- the environment: every call of user code may throw; which one does is a decision of the explorer
struct Thrown { u64 no; };
struct Env {
    u64 calls = 0, fail_at = 0; long live = 0; bool tripped = false, quiet = false;
    void call() { if (quiet) return; if (++calls == fail_at) { tripped = true; throw Thrown{calls}; } }
    void arm(u64 k) { calls = 0; fail_at = k; tripped = false; }
};
static Env g;
struct Quiet { bool was = g.quiet; Quiet() { g.quiet = true; } ~Quiet() { g.quiet = was; } };

// An item that owns memory, knows where it lives (copied bytewise it is found out) and may throw whenever it is built or assigned.
template <bool Moves> struct Tok {
    std::unique_ptr<int> v; const Tok* self;
    Tok() : self(this) { g.call(); v.reset(new int(0)); g.live++; }
    explicit Tok(int x) : self(this) { g.call(); v.reset(new int(x)); g.live++; }
    Tok(const Tok& o) : self(this) { g.call(); v.reset(new int(o.get())); g.live++; }
    Tok(Tok&& o) noexcept(Moves) : self(this) { if (!Moves) g.call(); v.reset(new int(o.get())); g.live++; }
    Tok& operator=(const Tok& o) { g.call(); int x = o.get(); (void)get(); *v = x; return *this; }
    Tok& operator=(Tok&& o) noexcept(Moves) { if (!Moves) g.call(); int x = o.get(); (void)get(); *v = x; return *this; }
    ~Tok() { g.live--; self = nullptr; }
    int get() const { if (self != this) mc::fail("an item is used that was never constructed where it is, or is destroyed"); return *v; }
    friend bool operator<(const Tok& a, const Tok& b) { g.call(); return a.get() < b.get(); }
};

// runs act() on an object prepared by make() with no call, then each single call of user code throwing
struct Outcome { bool threw; u64 calls; };
template <class F> static Outcome attempt(u64 k, const std::string& what, F act) {
    bool threw = false; g.arm(k); u64 n;
    mc::g_mem.on = true;
    try { act(); } catch (const Thrown& t) {
        mc::g_mem.on = false; threw = true; g.fail_at = 0;
        MC_CHECK(g.tripped && t.no == k, "%s: an exception arrives that was not thrown", what.c_str());
    }
    mc::g_mem.on = false; g.fail_at = 0; n = g.calls;
    MC_CHECK(threw || !g.tripped, "%s: call %llu of the user's code throws, and the exception does not arrive", what.c_str(), ull(k));
    return {threw, n};
}
template <class F> static void balanced(const std::string& what, F body) {      // body creates and destroys everything it uses
    long live = g.live; size_t blocks = mc::g_mem.blocks;
    g.quiet = false; mc::g_mem.on = false;
    try { body(); } catch (...) { mc::g_mem.on = false; g.quiet = false; throw; }
    MC_CHECK(g.live == live, "%s: %ld items are never destroyed", what.c_str(), g.live - live);
    MC_CHECK(mc::g_mem.blocks == blocks, "%s: %zu blocks are never freed", what.c_str(), mc::g_mem.blocks - blocks);
}

// ---- tries whose items throw
template <class T> static std::map<std::string, int> contents(const T& t0) {
    static const std::vector<std::string> qs{"", "a", "ab", "b", "ba", "bab", "c", "aba", std::string("a\0", 2)};
    std::map<std::string, int> m; Quiet q;
    T& t = const_cast<T&>(t0);
    for (auto& s : qs) if (auto* p = t.traverse(s)) m[s] = p->get();
    size_t items = 0; t0.dfs([&](auto& n, size_t) { items += n.terminal(); });
    MC_CHECK(items == m.size(), "%zu terminal nodes, but %zu keys", items, m.size());
    return m;
}
template <bool Moves, class Size> static void trie_items(mc::Ctx& c, int steps) {
    using T = Trie<Tok<Moves>, Size>;
    static const std::vector<std::string> keys{"", "a", "ab", "bab"};
    std::string t;
    balanced("Trie", [&] {
        std::unique_ptr<T> s; { Quiet q; s.reset(new T); }
        std::map<std::string, int> m; int failures = 0;
        for (int i = 0; i < steps; i++) {
            size_t op = c.choose(keys.size() + 3);
            if (op < keys.size()) {
                auto& k = keys[op]; int v = 10 * i + 1;
                auto insert = [&] { return s->insert(k, Tok<Moves>(v)); };
                u64 n; { T x = [&] { Quiet q; return T(*s); }(); n = attempt(0, "insert", [&] { x.insert(k, Tok<Moves>(v)); }).calls; }
                u64 f = failures >= 2 ? 0 : c.choose(n + 3);           // (the copy may hold its items more tightly than the original)
                t += "insert(" + show_str(k) + (f ? ") with call " + std::to_string(f) + " throwing; " : "); ");
                c.log("insert(%s), call %llu of %llu throws", show_str(k).c_str(), ull(f), ull(n)); c.note(t);
                auto before = m; auto o = attempt(f, t, insert); m[k] = v;
                if (f && !g.tripped) throw mc::Prune{};
                auto now = contents(*s);
                if (o.threw) {
                    failures++;
                    MC_CHECK(now == before || now == m, "%s: the keys and items are neither what they were nor what they would be", t.c_str());
                    if (c.flip()) { Quiet q; auto* p = insert(); MC_CHECK(p && p->get() == v, "%s: inserted again, another item is returned", t.c_str()); t += "again; "; now = contents(*s); MC_CHECK(now == m, "%s: inserted again, the contents are wrong", t.c_str()); }
                    else m = now;
                } else MC_CHECK(now == m, "%s: the contents are wrong", t.c_str());
            } else if (op == keys.size()) {                              // a copy that fails leaves the source alone
                std::unique_ptr<T> x; u64 n; { n = attempt(0, "copy", [&] { T y(*s); }).calls; }
                u64 f = c.choose(n + 1); t += "copy with call " + std::to_string(f) + " throwing; "; c.note(t); c.log("copy, call %llu throws", ull(f));
                auto o = attempt(f, t, [&] { x.reset(new T(*s)); });
                MC_CHECK(contents(*s) == m, "%s: the source is changed", t.c_str());
                if (!o.threw) { MC_CHECK(contents(*x) == m, "%s: the copy differs", t.c_str()); Quiet q; x->insert("b", Tok<Moves>(3)); MC_CHECK(contents(*s) == m, "%s: a change of the copy changes the source", t.c_str()); }
            } else if (op == keys.size() + 1) {                          // an assignment that fails leaves a target that can be assigned
                std::unique_ptr<T> x; { Quiet q; x.reset(new T); if (c.flip()) { x->insert("ba", Tok<Moves>(5)); x->insert("b", Tok<Moves>(6)); } }
                u64 n; { T y = [&] { Quiet q; return T(*x); }(); n = attempt(0, "assign", [&] { y = *s; }).calls; }
                u64 f = c.choose(n + 1); t += "assign with call " + std::to_string(f) + " throwing; "; c.note(t); c.log("assign, call %llu throws", ull(f));
                auto o = attempt(f, t, [&] { *x = *s; });
                MC_CHECK(contents(*s) == m, "%s: the source is changed", t.c_str());
                if (o.threw) { Quiet q; *x = *s; }
                MC_CHECK(contents(*x) == m, "%s: the target differs%s", t.c_str(), o.threw ? " after a second assignment" : "");
            } else {                                                     // moving a trie calls no user code
                t += "move; "; c.note(t); c.log("move");
                std::unique_ptr<T> x; auto o = attempt(0, t, [&] { x.reset(new T(std::move(*s))); });
                (void)o; MC_CHECK(contents(*x) == m, "%s: the new trie differs", t.c_str()); s = std::move(x);
            }
            c.obs(m.size() + 9);
            if (c.fresh()) { mc::H128 hh = hash_str(t); c.state(hh); }
        }
    });
}
MC_SCOPE("C36", trie_items_moved, 12) { trie_items<true, size_t>(c, mc::lvl(4, 6, 3, 4)); }
MC_SCOPE("C36", trie_items_copied, 12) { trie_items<false, uint8_t>(c, mc::lvl(4, 5, 3, 4)); }

// ---- traversals whose visitor throws, or traverses itself
MC_SCOPE("C36", trie_visitors, 9) {
    static const std::vector<std::string> keys{"", "a", "ab", "bab", "b", "\xff", "abc"};
    using T = Trie<int>; using Node = T::node_type;
    T t; std::string s; std::vector<std::string> in;
    for (auto& k : keys) if (c.flip()) { t.insert(k, int(in.size())); in.push_back(k); s += show_str(k); }
    size_t kind = c.choose(4);                                           // dfs, bfs, dfs from every node, edges of every node
    auto walk = [&](auto& t, auto f) {
        if (kind == 0) t.dfs([&](const Node& n, size_t d) { f(&n, d); });
        else if (kind == 1) t.bfs([&](const Node& n, size_t d) { f(&n, d); });
        else if (kind == 2) for (size_t i = 0; i < t.size(); i++) t.dfs(i, i, [&](const Node& n, size_t d) { f(&n, d); });
        else for (size_t i = 0; i < t.size(); i++) t.node(i).for_each_edge([&](uint8_t ch, size_t to) { f(&t.node(to), size_t(ch)); });
    };
    using V = std::vector<std::pair<const void*, size_t>>;
    auto all = [&](auto& t) { V v; walk(t, [&](const void* p, size_t d) { v.emplace_back(p, d); }); return v; };
    V want = all(t);
    size_t k = c.choose(want.size() + 1); std::string w = "trie of " + s + ", traversal " + std::to_string(kind) + (k ? ", visit " + std::to_string(k) + " throws" : ", traversed within every visit");
    c.note(w); c.log("%s", w.c_str());
    c.state(hash_str(w));
    size_t blocks = mc::g_mem.blocks;
    { V got; size_t got_n = 0; got.reserve(want.size() + 1); bool threw = false, bad = false;
      try { mc::g_mem.on = true; walk(t, [&](const void* p, size_t d) { if (got_n < want.size()) got.emplace_back(p, d); got_n++; mc::g_mem.on = false; if (!k && all(t) != want) bad = true; mc::g_mem.on = true; if (got_n == k) throw Thrown{k}; }); } catch (const Thrown& x) { mc::g_mem.on = false; threw = x.no == k; }
      mc::g_mem.on = false;
      MC_CHECK(threw == (k > 0), "%s: the exception %s", w.c_str(), k ? "does not arrive" : "was not thrown");
      MC_CHECK(!bad, "%s: the inner traversal visits other nodes", w.c_str());
      MC_CHECK(got_n == (k ? k : want.size()) && std::equal(got.begin(), got.end(), want.begin()), "%s: %zu visits, not the %zu expected in the same order", w.c_str(), got_n, k ? k : want.size()); }
    MC_CHECK(mc::g_mem.blocks == blocks, "%s: %zu blocks are never freed", w.c_str(), mc::g_mem.blocks - blocks);
    MC_CHECK(all(t) == want, "%s: traversed once more, other nodes are visited", w.c_str());
    for (size_t i = 0; i < in.size(); i++) { auto* p = t.traverse(in[i]); MC_CHECK(p && *p == int(i), "%s: the item of %s is lost", w.c_str(), show_str(in[i]).c_str()); }
    c.obs(want.size() * 3);
}

// ---- initialisable arrays whose elements throw
template <bool Moves> static void folklore(mc::Ctx& c, size_t size, int steps) {
    using E = Tok<Moves>; using A = sim_ds::InitializableArrayFolklore<E>;
    std::string t = "array of " + std::to_string(size) + ": ";
    balanced("InitializableArrayFolklore", [&] {
        std::unique_ptr<A> a; std::vector<int> m(size, 7); u64 n = 0;
        { std::unique_ptr<A> x; n = attempt(0, "construct", [&] { E e(7); x.reset(new A(size, e)); }).calls; }
        u64 f = c.choose(n + 1);
        auto o = attempt(f, "construct", [&] { E e(7); a.reset(new A(size, e)); });
        if (o.threw) { c.log("construct, call %llu throws", ull(f)); return; }
        auto look = [&] { Quiet q; std::vector<int> v; for (size_t i = 0; i < size; i++) v.push_back(a->get(i).get()); return v; };
        int failures = 0;
        for (int i = 0; i < steps; i++) {
            MC_CHECK(look() == m, "%s: the values are wrong", t.c_str());
            size_t op = c.choose(size + 3); int v = 10 * (i + 1);
            auto act = [&](A& x) { E e(v); if (op < size) x.set(op, e); else if (op == size) x.init(e); else if (op == size + 1) x.fill(); else (void)x.get(0).get(); };
            if (op == size + 2 && !size) throw mc::Prune{};
            std::string name = op < size ? "set(" + std::to_string(op) + "," + std::to_string(v) + ")" : op == size ? "init(" + std::to_string(v) + ")" : op == size + 1 ? "fill()" : "get(0)";
            u64 k; { std::unique_ptr<A> x; { Quiet q; x.reset(new A(*a)); } k = attempt(0, name, [&] { act(*x); }).calls; }
            u64 f = failures >= 2 ? 0 : c.choose(k + 1);
            t += name + (f ? " with call " + std::to_string(f) + " throwing; " : "; "); c.note(t); c.log("%s, call %llu of %llu throws", name.c_str(), ull(f), ull(k));
            std::vector<int> after = m; if (op < size) after[op] = v; else if (op == size) after.assign(size, v); else if (op == size + 1) after.assign(size, 0);
            auto o = attempt(f, t, [&] { act(*a); });
            if (f && !o.threw) throw mc::Prune{};
            auto now = look();
            if (o.threw) {
                failures++;
                MC_CHECK(now == m || now == after, "%s: the values are %s, neither what they were (%s) nor what they would be", t.c_str(), show_ints(now).c_str(), show_ints(m).c_str());
                if (c.flip()) { { Quiet q; act(*a); } t += "again; "; now = look(); MC_CHECK(now == after, "%s: the values are wrong", t.c_str()); }
            } else MC_CHECK(now == after, "%s: the values are wrong", t.c_str());
            m = now; c.obs(size);
            if (c.fresh()) c.state(hash_str(t));
        }
    });
}
MC_SCOPE("C36", folklore_moved, 12) { folklore<true>(c, c.choose(4), mc::lvl(4, 5, 3, 4)); }
MC_SCOPE("C36", folklore_copied, 12) { folklore<false>(c, c.choose(4), mc::lvl(4, 5, 3, 4)); }

// ---- sorting with a comparator that answers anything and may throw, of elements that may throw
MC_SCOPE("C36", sort_any_comparator, 9) {       // every sequence of answers a comparator can give
    using E = Tok<true>; size_t n = c.choose(mc::lvl(7, 8, 6, 7)); std::vector<int> seen;
    balanced("HeapSort", [&] {
        std::vector<E> v; { Quiet q; v.reserve(n + 2); v.emplace_back(-1); for (size_t i = 0; i < n; i++) v.emplace_back(int(i)); v.emplace_back(-2); }
        size_t calls = 0; bool threw = false, outside = false; const size_t most = 4 * (n + 1) * 4;
        auto answer = [&](const E& a, const E& b) {
            if (a.get() < 0 || b.get() < 0 || &a == &b) outside = true;
            if (++calls > most) mc::fail("%zu elements are compared more than %zu times", n, most);
            size_t x = c.choose(3); if (x == 2) throw Thrown{calls}; return x == 1;
        };
        try { sim_ds::HeapSort(v.begin() + 1, v.begin() + 1 + n, answer); } catch (const Thrown&) { threw = true; }
        c.note("HeapSort of " + std::to_string(n) + " elements, " + std::to_string(calls) + " comparisons");
        MC_CHECK(!outside, "%zu elements: an element outside the range, or with itself, is compared", n);
        MC_CHECK(v.front().get() == -1 && v.back().get() == -2, "%zu elements: written outside the range", n);
        for (size_t i = 0; i < n; i++) seen.push_back(v[i + 1].get());
        if (!threw) { auto s = seen; std::sort(s.begin(), s.end()); for (size_t i = 0; i < n; i++) MC_CHECK(s[i] == int(i), "%zu elements: some are lost or duplicated: %s", n, show_ints(seen).c_str()); }
        else for (int x : seen) MC_CHECK(x >= 0 && size_t(x) < n, "%zu elements: a value appears that was not there", n);
        c.obs(n + calls);
    });
    c.state(mc::hash_seq(seen));
}
template <bool Moves> static void sort_elements(mc::Ctx& c) {
    using E = Tok<Moves>; std::vector<int> p; size_t n = c.choose(mc::lvl(5, 6, 4, 5)); for (size_t i = 0; i < n; i++) p.push_back(int(c.choose(n)));
    std::string t = "HeapSort of " + show_ints(p);
    balanced(t, [&] {
        auto build = [&] { Quiet q; std::vector<E> v; v.reserve(n); for (int x : p) v.emplace_back(x); return v; };
        u64 calls = 0; { auto v = build(); calls = attempt(0, t, [&] { sim_ds::HeapSort(v.begin(), v.end()); }).calls; }
        u64 f = c.choose(calls + 1); c.note(t + ", call " + std::to_string(f) + " throws"); c.log("%s, call %llu of %llu throws", t.c_str(), ull(f), ull(calls));
        auto v = build(); auto o = attempt(f, t, [&] { sim_ds::HeapSort(v.begin(), v.end()); });
        if (!o.threw) { auto q = p; std::sort(q.begin(), q.end()); for (size_t i = 0; i < n; i++) MC_CHECK(v[i].get() == q[i], "%s: not sorted", t.c_str()); }
        for (auto& e : v) { int x = e.get(); MC_CHECK(std::find(p.begin(), p.end(), x) != p.end(), "%s, call %llu throws: a value appears that was not there", t.c_str(), ull(f)); }
        c.obs(n); mc::H128 hh = mc::hash_seq(p); hh.word(f); c.state(hh);
    });
}
MC_SCOPE("C36", sort_elements_moved, 9) { sort_elements<true>(c); }
MC_SCOPE("C36", sort_elements_copied, 9) { sort_elements<false>(c); }

// ---- construction from ranges and lists whose iterators throw
template <class V> struct It {                                           // over values of the harness; every step and every look may throw
    using iterator_category = std::random_access_iterator_tag; using value_type = V; using difference_type = ptrdiff_t; using pointer = const V*; using reference = const V&;
    const V* p = nullptr;
    reference operator*() const { g.call(); return *p; }
    pointer operator->() const { g.call(); return p; }
    reference operator[](ptrdiff_t i) const { g.call(); return p[i]; }
    It& operator++() { g.call(); ++p; return *this; }
    It operator++(int) { g.call(); auto x = *this; ++p; return x; }
    It& operator--() { g.call(); --p; return *this; }
    It operator--(int) { g.call(); auto x = *this; --p; return x; }
    It& operator+=(ptrdiff_t i) { g.call(); p += i; return *this; }
    It& operator-=(ptrdiff_t i) { g.call(); p -= i; return *this; }
    friend It operator+(It a, ptrdiff_t i) { g.call(); a.p += i; return a; }
    friend It operator+(ptrdiff_t i, It a) { g.call(); a.p += i; return a; }
    friend It operator-(It a, ptrdiff_t i) { g.call(); a.p -= i; return a; }
    friend ptrdiff_t operator-(const It& a, const It& b) { g.call(); return a.p - b.p; }
    friend bool operator==(const It& a, const It& b) { g.call(); return a.p == b.p; }
    friend bool operator!=(const It& a, const It& b) { g.call(); return a.p != b.p; }
    friend bool operator<(const It& a, const It& b) { g.call(); return a.p < b.p; }
    friend bool operator>(const It& a, const It& b) { g.call(); return a.p > b.p; }
    friend bool operator<=(const It& a, const It& b) { g.call(); return a.p <= b.p; }
    friend bool operator>=(const It& a, const It& b) { g.call(); return a.p >= b.p; }
};
template <class V> struct List { std::vector<V> v; size_t size() const { g.call(); return v.size(); } bool empty() const { g.call(); return v.empty(); } It<V> begin() const { return {v.data()}; } It<V> end() const { return {v.data() + v.size()}; } const V& operator[](size_t i) const { g.call(); return v[i]; } };

template <class S, class V, class Make, class Good> static void from_range(mc::Ctx& c, const char* name, const std::vector<std::vector<V>>& inputs, Make make, Good good) {
    size_t i = c.choose(inputs.size()); auto& in = inputs[i]; std::string t = std::string(name) + " of range " + std::to_string(i);
    { std::unique_ptr<S> warm; g.arm(0); warm.reset(make(in)); }         // (what is set up once is no leak)
    u64 f = 0;
    balanced(t, [&] {
        static std::map<std::string, u64> memo; u64 n;
        auto it = memo.find(t); if (it == memo.end()) { std::unique_ptr<S> s; n = attempt(0, t, [&] { s.reset(make(in)); }).calls; memo[t] = n; } else n = it->second;
        f = c.choose(std::min<u64>(n, mc::lvl(400, 4000, 150, 400)) + 1); t += ", call " + std::to_string(f) + " throws"; c.note(t); c.log("%s (of %llu)", t.c_str(), ull(n));
        std::unique_ptr<S> s; auto o = attempt(f, t, [&] { s.reset(make(in)); });
        MC_CHECK(o.threw == (f > 0), "%s: the range is used differently the second time", t.c_str());
        if (o.threw && c.flip()) { Quiet q; s.reset(make(in)); t += ", then constructed again"; }
        if (s) { Quiet q; std::string d = good(*s, in); MC_CHECK(d.empty(), "%s: %s", t.c_str(), d.c_str()); }
        c.obs(in.size() + 1); mc::H128 hh = hash_str(t); c.state(hh);
    });
}
static std::vector<std::vector<u64>> ints() { std::vector<std::vector<u64>> r{{}, {0}, {5}, {~u64(0)}, {1, 2}, {9, 0, 300}, {4, 4, 4, 4, 4}}; std::vector<u64> v; for (u64 i = 0; i < 20; i++) v.push_back((i * 0x9E3779B97F4A7C15ull) >> (i * 13 % 64)); r.push_back(v); return r; }
MC_SCOPE("C36", range_cdrw, 4) {
    static const auto in = ints(); using V = std::vector<u64>;
    from_range<sim_ds::CDRWArray, u64>(c, "CDRWArray", in, [](const V& v) { return new sim_ds::CDRWArray(It<u64>{v.data()}, It<u64>{v.data() + v.size()}); },
        [](auto& s, const V& v) -> std::string { if (s.size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); i++) if (s.get(i) != v[i]) return "wrong value"; return ""; });
}
template <bool Asc> static void heap_range(mc::Ctx& c) {
    static const auto in = ints(); using V = std::vector<u64>; using H = sim_ds::Heap<Asc>;
    from_range<H, u64>(c, Asc ? "MinHeap" : "MaxHeap", in, [](const V& v) { return new H(It<u64>{v.data()}, It<u64>{v.data() + v.size()}); },
        [](auto& s, V v) -> std::string { std::sort(v.begin(), v.end()); if (!Asc) std::reverse(v.begin(), v.end()); for (u64 x : v) { if (!s.size() || s.front() != x) return "wrong order"; s.pop(); } return s.size() ? "wrong size" : ""; });
}
MC_SCOPE("C36", range_min_heap, 4) { heap_range<true>(c); }
MC_SCOPE("C36", range_max_heap, 4) { heap_range<false>(c); }
MC_SCOPE("C36", range_folklore, 4) {
    static const auto in = ints(); using V = std::vector<u64>; using A = sim_ds::InitializableArrayFolklore<u64>;
    from_range<A, u64>(c, "InitializableArrayFolklore", in, [](const V& v) { return new A(It<u64>{v.data()}, It<u64>{v.data() + v.size()}); },
        [](auto& s, const V& v) -> std::string { if (s.size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); i++) if (s.get(i) != v[i]) return "wrong value"; return ""; });
}
MC_SCOPE("C36", range_bits, 4) {
    using V = std::vector<bool>; using W = std::vector<char>;
    static const std::vector<W> in = [] { std::vector<W> r{{}, {1}, {0}, {1, 0, 1}}; for (size_t n : {64, 65, 130}) { W w; for (size_t i = 0; i < n; i++) w.push_back(i * i % 7 < 3); r.push_back(w); } return r; }();
    from_range<sim_ds::BitVector, char>(c, "BitVector", in, [](const W& v) { return new sim_ds::BitVector(List<char>{v}); },
        [](auto& s, const W& v) -> std::string { if (s.size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); i++) if (bool(s[i]) != bool(v[i])) return "wrong bit"; return ""; });
    (void)sizeof(V);
}
static const std::vector<std::vector<char>>& texts() { static const std::vector<std::vector<char>> r = [] { std::vector<std::vector<char>> r; for (std::string s : {"", "a", "aa", "ab", "abbbaab", "mississippi", "abcdefgh"}) r.emplace_back(s.begin(), s.end()); return r; }(); return r; }
template <class O> static void oracle_range(mc::Ctx& c, const char* name) {
    using W = std::vector<char>;
    from_range<O, char>(c, name, texts(), [](const W& v) { return new O(It<char>{v.data()}, It<char>{v.data() + v.size()}); },
        [](auto& s, const W& v) -> std::string { for (size_t i = 0; i <= v.size(); i++) for (size_t j = i; j <= v.size(); j++) if (!s.accept(std::string(v.begin() + i, v.begin() + j))) return "a factor is not accepted"; return s.accept("zz") ? "zz is accepted" : ""; });
}
MC_SCOPE("C36", range_oracle_ctafo, 4) { oracle_range<sim_ds::FactorOracle>(c, "FactorOracle"); }
static const std::vector<std::vector<std::string>>& key_sets() { static const std::vector<std::vector<std::string>> r{{"a"}, {"", "a"}, {"a", "ab", "b"}, {"abc", "abd", "bcd", "bce", "c"}, {"", "a", "aa", "aaa", "ab", "ba", "bb", "c"}}; return r; }
template <class D, bool Dict> static void samc_range(mc::Ctx& c, const char* name) {
    using W = std::vector<std::string>;
    from_range<D, std::string>(c, name, key_sets(), [](const W& v) { return new D(It<std::string>{v.data()}, It<std::string>{v.data() + v.size()}); },
        [](auto& s, const W& v) -> std::string {
            std::set<std::string> k(v.begin(), v.end());
            for (std::string q : {"", "a", "ab", "b", "abc", "abd", "bcd", "bce", "c", "aa", "aaa", "ba", "bb", "d", "cc"}) if ([&] { if constexpr (Dict) return s.lookup(q) != size_t(-1); else return s.accept(q); }() != (k.count(q) > 0)) return "accept(" + show_str(q) + ") is wrong";
            if constexpr (Dict) for (auto& q : v) if (s.access(s.lookup(q)) != q) return "access(lookup(" + show_str(q) + ")) is another key";
            return "";
        });
}
MC_SCOPE("C36", range_samc, 4) { samc_range<sim_ds::Samc<uint8_t>, false>(c, "Samc<u8>"); }
MC_SCOPE("C36", range_samc_legacy, 4) { samc_range<sim_ds::Samc<uint16_t, true>, false>(c, "Samc<u16,legacy>"); }
MC_SCOPE("C36", range_samc_dict, 4) { samc_range<sim_ds::SamcDict<uint8_t>, true>(c, "SamcDict<u8>"); }

// ---- recursion whose body throws at any depth
MC_SCOPE("C36", recursion, 2) {
    int depth = int(c.choose(mc::lvl(40, 200, 20, 40))), at = int(c.choose(size_t(depth) + 2)), width = 1 + int(c.choose(2));
    if (width == 2 && depth > 8) throw mc::Prune{};
    balanced("recursive", [&] {
        std::vector<Tok<true>> kept; int calls = 0; bool threw = false;
        auto walk = [&](auto& self, int d) -> long { Tok<true> t(d); if (++calls == at) throw Thrown{u64(at)}; long n = 1; if (d < depth) for (int i = 0; i < width; i++) n += self(self, d + 1); return n + (t.get() - d); };
        auto f = sim_ds::recursive(walk);
        long n = -1; try { n = f(0); } catch (const Thrown& x) { threw = int(x.no) == at; }
        long all = width == 1 ? depth + 1 : (2L << depth) - 1;
        MC_CHECK(threw == (at > 0), "depth %d: exception of call %d is lost", depth, at);
        MC_CHECK(threw ? calls == at : n == all, "depth %d, call %d throws: %d calls, result %ld", depth, at, calls, n);
        int at0 = at; at = 0; calls = 0; n = f(0); MC_CHECK(n == all, "depth %d, called again after the exception of call %d: result %ld", depth, at0, n);
        at = at0; c.obs(size_t(calls)); c.state(mc::hash_words({u64(depth), u64(at), u64(width)}));
    });
}

// ---- arguments that refer to the contents of the structure they are given to
template <class V, class Ref> static void own_elements(mc::Ctx& c, const char* name, V v, std::vector<u64> m, u64 top, int steps) {
    (void)sizeof(Ref); std::string t = std::string(name) + " of " + show_ints(m) + ": ";
    for (int s = 0; s < steps; s++) {
        size_t n = m.size(); static const std::vector<const char*> names{"push_back(v[i])", "resize(n+d, v[i])", "assign(n+d, v[i])", "v[i] = v[j]", "push_back(back())", "assign(n/2, back())", "v[i] flipped through a kept reference"};
        size_t op = c.choose(names.size()); if (!n) throw mc::Prune{};
        size_t i = op == 4 || op == 5 ? n - 1 : c.of({size_t(0), n / 2, n - 1}), d = op == 1 || op == 2 ? c.of({size_t(1), size_t(64), size_t(130)}) : 0, j = op == 3 ? c.of({size_t(0), n / 2, n - 1}) : 0;
        t += std::string(names[op]) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + " d=" + std::to_string(d) + "; "; c.log("%s i=%zu j=%zu d=%zu", names[op], i, j, d); c.note(t);
        const u64 x = m[i];
        switch (op) {
            case 0: v.push_back(v[i]); m.push_back(x); break;
            case 1: v.resize(n + d, v[i]); m.resize(n + d, x); break;
            case 2: v.assign(n + d, v[i]); m.assign(n + d, x); break;
            case 3: v[i] = v[j]; m[i] = m[j]; break;
            case 4: v.push_back(v.back()); m.push_back(x); break;
            case 5: if (n < 2) throw mc::Prune{}; v.assign(n / 2, v.back()); m.assign(n / 2, x); break;
            default: { auto r = v[i]; r = top - u64(r); m[i] = top - m[i]; r = r; }
        }
        MC_CHECK(v.size() == m.size(), "%s: size() = %zu, want %zu", t.c_str(), v.size(), m.size());
        for (size_t k = 0; k < m.size(); k++) MC_CHECK(u64(v[k]) == m[k], "%s: element %zu is %llu, want %llu", t.c_str(), k, ull(u64(v[k])), ull(m[k]));
        c.obs(m.size()); if (c.fresh()) { auto hh = mc::hash_seq(m); hh.word(top); c.state(hh); }
    }
}
MC_SCOPE("C36", own_bits, 9) {
    size_t n = c.of({size_t(1), size_t(2), size_t(63), size_t(64), size_t(65), size_t(128)}), k = c.choose(2); std::vector<u64> m; sim_ds::BitVector v;
    for (size_t i = 0; i < n; i++) { m.push_back(k ^ (i % 3 == 0)); v.push_back(m.back()); }
    own_elements<sim_ds::BitVector, bool>(c, "BitVector", v, m, 1, mc::lvl(3, 3, 2, 3));
}
MC_SCOPE("C36", own_numbers, 9) {
    unsigned w = unsigned(c.of({1, 5, 8, 31, 63, 64})); size_t n = c.of({size_t(1), size_t(2), size_t(13), size_t(64)}); std::vector<u64> m; sim_ds::FitVector v(w);
    for (size_t i = 0; i < n; i++) { m.push_back((i + 1) * 0x9E3779B97F4A7C15ull & mask(w)); v.push_back(m.back()); }
    own_elements<sim_ds::FitVector, u64>(c, "FitVector of width " , v, m, mask(w), mc::lvl(3, 3, 2, 3));
}
template <bool Asc> static void own_heap(mc::Ctx& c) {
    sim_ds::Heap<Asc> p; std::multiset<u64> m; std::string t = "heap: "; size_t n = c.choose(6);
    for (size_t i = 0; i < n; i++) { u64 x = c.choose(3); p.push(x); m.insert(x); t += std::to_string(x) + " "; }
    for (int s = 0; s < 3 && p.size(); s++) {
        size_t id = 1 + c.choose(p.size()); u64 x = p.value(id); t += "push(value_reference(" + std::to_string(id) + ")) "; c.note(t); c.log("push(value_reference(%zu))", id);
        p.push(p.value_reference(id)); m.insert(x);
    }
    std::vector<u64> want(m.begin(), m.end()), got; if (!Asc) std::reverse(want.begin(), want.end());
    while (p.size()) { got.push_back(p.front()); p.pop(); }
    MC_CHECK(got == want, "%s: yields %s, want %s", t.c_str(), show_ints(got).c_str(), show_ints(want).c_str());
    c.obs(got.size()); auto hh = mc::hash_seq(want); hh.word(Asc); c.state(hh);
}
MC_SCOPE("C36", own_heap_min, 6) { own_heap<true>(c); }
MC_SCOPE("C36", own_heap_max, 6) { own_heap<false>(c); }
MC_SCOPE("C36", own_items, 9) {                  // keys and items taken from the items that are in the trie
    Trie<std::string> t; std::map<std::string, std::string> m; std::string what = "trie: ";
    auto add = [&](const std::string& k, const std::string& x) { t.insert(k, x); m[k] = x; };
    add("a", "an item that is longer than the string object"); add("b", "a");
    int steps = mc::lvl(4, 5, 3, 4); std::vector<std::string> keys{"a", "b"};
    for (int s = 0; s < steps; s++) {
        size_t i = c.choose(keys.size()), j = c.choose(keys.size()), op = c.choose(3);
        auto *p = t.traverse(keys[i]), *q = t.traverse(keys[j]); if (!p || !q) mc::fail("%s: a key is lost", what.c_str());
        std::string k = op == 0 ? *p : op == 1 ? p->substr(0, p->size() / 2) : keys[i], x = *q;
        what += "insert(" + std::string(op == 0 ? "item" : op == 1 ? "half of item" : "key") + " of " + keys[i].substr(0, 4) + ", item of " + keys[j].substr(0, 4) + "); "; c.note(what); c.log("op %zu, %zu, %zu", op, i, j);
        auto* r = op == 0 ? t.insert(*p, *q) : op == 1 ? t.insert(std::string_view(*p).substr(0, p->size() / 2), *q) : t.insert(keys[i], *q);
        if (!m.count(k)) keys.push_back(k); m[k] = x;
        MC_CHECK(r && *r == x, "%s: another item is returned", what.c_str());
        for (auto& [a, b] : m) { auto* z = t.traverse(a); MC_CHECK(z && *z == b, "%s: the item of %s is %s", what.c_str(), show_str(a).c_str(), z ? show_str(*z).c_str() : "gone"); }
        c.obs(m.size()); if (c.fresh()) { std::string h; for (auto& [a, b] : m) h += a + "=" + b + ","; c.state(hash_str(h)); }
    }
}
MC_SCOPE("C36", own_values, 9) {                 // values of an initialisable array set again in the same array
    size_t n = 1 + c.choose(3); sim_ds::InitializableArrayFolklore<std::string> a(n, "the initial value, longer than a string object"); std::vector<std::string> m(n, a.get(0)); std::string t = "array: ";
    int steps = mc::lvl(4, 5, 3, 4);
    for (int s = 0; s < steps; s++) {
        size_t op = c.choose(4), i = c.choose(n), j = op == 0 ? c.choose(n) : 0; t += "op " + std::to_string(op) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + "; "; c.note(t); c.log("op %zu, i=%zu, j=%zu", op, i, j);
        if (op == 0) { a.set(i, a.get(j)); m[i] = m[j]; }
        else if (op == 1) { std::string x = m[i]; a.init(a.get(i)); m.assign(n, x); }
        else if (op == 2) { std::string x = m[i]; a.fill(a.get(i)); m.assign(n, x); }
        else { m[i] = "value " + std::to_string(s); a.set(i, m[i]); }
        for (size_t k = 0; k < n; k++) MC_CHECK(a.get(k) == m[k], "%s: element %zu is %s, want %s", t.c_str(), k, show_str(a.get(k)).c_str(), show_str(m[k]).c_str());
        c.obs(n); if (c.fresh()) { std::string h; for (auto& x : m) h += x + ","; c.state(hash_str(h)); }
    }
}
