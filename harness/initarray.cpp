// C11: initializable arrays against a plain array, from every content of the storage.
// C27: writes per operation, counted by page protection and by a counting element type.
#include "common.hpp"
#include <sim_ds/InitializableArray.hpp>
using namespace h;
using sim_ds::InitializableArray;
using sim_ds::InitializableArrayFolklore;

// object whose storage holds chosen bytes before construction
template <class A> struct Raw {
    alignas(64) unsigned char mem[sizeof(A)];
    A& get() { return *std::launder(reinterpret_cast<A*>(mem)); }
};
static void opaque(void* p) { asm volatile("" : : "r"(p) : "memory"); }
template <class A, class T> __attribute__((noinline)) static void construct(Raw<A>& r, T v) { opaque(r.mem); new (r.mem) A(v); opaque(r.mem); }

// where the elements lie in the object (only to place chosen bytes there before construction)
template <class A> static size_t cells_offset(size_t n) {
    using T = typename A::value_type;
    auto r = std::make_unique<Raw<A>>();
    T mark; memset(&mark, std::is_same_v<T, bool> ? 1 : 0x33, sizeof(T));
    memset(r->mem, 0xA5, sizeof r->mem); construct(*r, T(0));
    for (size_t i = 0; i < n; i++) r->get().set(i, mark);
    opaque(r->mem);
    for (size_t b = 0; b + n * sizeof(T) <= sizeof(A); b += sizeof(T)) {
        size_t i = 0; while (i < n && !memcmp(r->mem + b + i * sizeof(T), &mark, sizeof(T))) i++;
        if (i == n) return b;
    }
    return 0;                              // another layout: the bytes go wherever they go
}
template <class A, size_t N> static void fill_cells(Raw<A>& r, const std::vector<u64>& cells) {
    using T = typename A::value_type;
    static const size_t off = cells_offset<A>(N);
    memset(r.mem, 0xA5, sizeof r.mem);
    for (size_t i = 0; i < cells.size() && off + (i + 1) * sizeof(T) <= sizeof(A); i++) { T t = T(cells[i]); memcpy(r.mem + off + i * sizeof(T), &t, sizeof(T)); }
}
template <class A, class V> static void compare_all(mc::Ctx& c, A& a, const V& m) {
    const A& k = a; using T = typename A::value_type;
    MC_CHECK(a.size() == m.size(), "size() = %zu, want %zu", size_t(a.size()), m.size());
    for (size_t i = 0; i < m.size(); i++) {
        T g = a.get(i); MC_CHECK(g == m[i], "get(%zu) of %zu = %lld, want %lld", i, m.size(), (long long)g, (long long)m[i]);
        T x = a[i], y = k[i]; MC_CHECK(x == m[i] && y == m[i], "[%zu] of %zu = %lld/%lld, want %lld", i, m.size(), (long long)x, (long long)y, (long long)m[i]);
    }
    c.obs(3 * m.size());
}

// ---------------------------------------------------------------- every reachable state of a small array
// States are object images; transitions are all set(i,v), init(v).  The initial states are the constructor's results over
// every content of the storage.  Expected values after a transition follow from the (already checked) values before it.
template <class T, size_t N> static void closure(mc::Ctx& c, const std::vector<u64>& dom) {
    using A = InitializableArray<T, N>;
    static_assert(std::is_trivially_copyable_v<A>, "states are copied bytewise");
    constexpr size_t cells = N + N % 2;
    struct Node { uint32_t parent; int32_t op; };
    std::vector<Node> info; std::vector<unsigned char> pool; std::unordered_set<mc::H128, mc::H128Hash> seen;
    auto r = std::make_unique<Raw<A>>(), s = std::make_unique<Raw<A>>();
    auto read = [&](Raw<A>& x, std::array<T, N>& out) { for (size_t i = 0; i < N; i++) out[i] = x.get().get(i); };
    auto add = [&](Raw<A>& x, uint32_t parent, int op) {
        mc::H128 h; h.bytes(x.mem, sizeof(A));
        if (!seen.insert(h).second) return;
        h.word(N); h.word(sizeof(T)); c.state(h);
        info.push_back({parent, op}); pool.insert(pool.end(), x.mem, x.mem + sizeof(A));
    };
    size_t D = dom.size();
    std::vector<size_t> ix(cells, 0); std::vector<u64> content(cells);
    std::array<T, N> before, after;
    for (;;) {                                    // initial states
        for (size_t i = 0; i < cells; i++) content[i] = dom[ix[i]];
        for (auto v : {dom[0], dom[D - 1]}) {
            fill_cells<A, N>(*r, content); construct(*r, T(v)); read(*r, after);
            for (size_t i = 0; i < N; i++) MC_CHECK(after[i] == T(v), "constructed with %lld over storage %s: get(%zu) = %lld", (long long)v, show_ints(content).c_str(), i, (long long)after[i]);
            add(*r, ~0u, int(info.size()));
        }
        size_t i = 0; while (i < cells && ++ix[i] == D) ix[i++] = 0;
        if (i == cells) break;
    }
    u64 trans = 0;
    for (size_t n = 0; n < info.size(); n++) {
        memcpy(s->mem, pool.data() + n * sizeof(A), sizeof(A)); opaque(s->mem); read(*s, before);
        if (n % 4096 == 0) c.beat();
        for (size_t op = 0; op < N * D + D; op++) {
            memcpy(r->mem, s->mem, sizeof(A)); opaque(r->mem);
            size_t i = op / D; T v = T(dom[op % D]);
            if (op < N * D) { if (op & 1) r->get().set(i, v); else r->get()[i] = v; } else { if (op & 1) r->get().init(v); else r->get().fill(v); }
            opaque(r->mem);
            read(*r, after); trans++;
            for (size_t j = 0; j < N; j++) {
                T want = op >= N * D || j == i ? v : before[j];
                if (after[j] == want) continue;
                std::string path;                 // history that leads here
                for (uint32_t k = uint32_t(n); k != ~0u; k = info[k].parent) {
                    if (info[k].parent == ~0u) { path = " storage state " + std::to_string(info[k].op) + path; break; }
                    size_t o = size_t(info[k].op);
                    path = (o < N * D ? "; set(" + std::to_string(o / D) + "," + std::to_string((long long)T(dom[o % D])) + ")" : "; init(" + std::to_string((long long)T(dom[o % D])) + ")") + path;
                }
                mc::fail("size %zu, %s%s; then %s(%zu,%lld): get(%zu) = %lld, want %lld", N, "from", path.c_str(), op < N * D ? "set" : "init", i, (long long)v, j, (long long)after[j], (long long)want);
            }
            add(*r, uint32_t(n), int(op));
        }
        if (info.size() > (mc::thorough() ? 30u << 20 : 4u << 20)) throw std::logic_error("closure larger than planned");
    }
    c.st->edges += trans; c.obs(trans * N);
    c.log("size %zu, %zu-byte elements, %zu values: %zu reachable states, %llu transitions", N, sizeof(T), D, info.size(), ull(trans));
}
MC_SCOPE("C11", reachable_states, 16) {
    bool big = mc::thorough();
    size_t k = c.choose(MC_ASAN ? 6 : big ? 12 : 10);
    if (c.choose(2)) throw mc::Prune{};            // (tasks are cut at the second choice)
    switch (k) {
    case 0: closure<uint8_t, 1>(c, {0, 1, 2, 255}); break;
    case 1: closure<uint8_t, 2>(c, {0, 1, 2, 3, 4, 255}); break;
    case 2: closure<uint8_t, 3>(c, MC_ASAN ? std::vector<u64>{0, 2, 3, 255} : std::vector<u64>{0, 1, 2, 3, 4, 255}); break;
    case 3: closure<int8_t, 4>(c, MC_ASAN ? std::vector<u64>{0, 2, 255} : std::vector<u64>{0, 1, 2, 3, 4, 255}); break;
    case 4: closure<uint16_t, 4>(c, MC_ASAN ? std::vector<u64>{0, 2, 0x102} : std::vector<u64>{0, 1, 2, 0x102, 0xffff}); break;
    case 5: closure<bool, 2>(c, {0, 1}); break;
    case 6: closure<uint8_t, 5>(c, {0, 1, 2, 4}); break;
    case 7: closure<uint8_t, 6>(c, {0, 2, 3, 4, 255}); break;
    case 8: closure<int, 6>(c, {0, 2, 4, ~0ull}); break;
    case 9: closure<uint8_t, 7>(c, {0, 2, 4, 6}); break;
    case 10: closure<uint8_t, 6>(c, {0, 1, 2, 3, 4, 5, 255}); break;
    case 11: closure<u64, 8>(c, {0, 2, 4, 6}); break;
    }
}

// ---------------------------------------------------------------- larger arrays: histories to a depth, structured long histories
template <class T, size_t N> static std::vector<u64> pattern(unsigned k) {
    constexpr size_t cells = N + N % 2, nb = cells / 2; std::vector<u64> v(cells);
    for (size_t i = 0; i < cells; i++) switch (k) {
    case 0: v[i] = 0; break;
    case 1: v[i] = ~0ull; break;
    case 2: v[i] = 2 * (nb - 1 - i / 2); break;                   // first and last block point at each other, and so on
    case 3: v[i] = 2 * (i / 2); break;                            // each block points at itself
    case 4: v[i] = 2 * ((i / 2 + nb / 2) % nb); break;            // the two halves point at each other
    default: v[i] = 2 * ((i / 2) ^ 1); break;                     // neighbours point at each other
    }
    return v;
}
template <class T, size_t N> static void histories(mc::Ctx& c, int depth) {
    using A = InitializableArray<T, N>;
    auto r = std::make_unique<Raw<A>>(); unsigned p = c.choose(6); std::vector<T> m(N);
    std::vector<u64> dom = {0, 2 * (N / 2) - 2, 2, ~0ull};
    T v0 = T(c.choose(2) ? 2 : 7);
    fill_cells<A, N>(*r, pattern<T, N>(p)); construct(*r, v0); m.assign(N, v0);
    if (c.fresh()) compare_all(c, r->get(), m);
    c.log("size %zu, %zu-byte elements, storage pattern %u", N, sizeof(T), p);
    std::vector<size_t> at = {0, N - 1, N / 2, 1, 2, N - 2};
    for (int d = 0; d < depth; d++) {
        size_t op = c.choose(7);
        if (op == 6) { T v = T(c.pick(dom)); c.log("init(%lld)", (long long)v); r->get().init(v); m.assign(N, v); }
        else { size_t i = std::min(at[op], N - 1); T v = T(dom[c.choose(3)]); c.log("set(%zu,%lld)", i, (long long)v); if (d & 1) r->get().set(i, v); else r->get()[i] = v; m[i] = v; }
        if (c.fresh()) compare_all(c, r->get(), m);
        mc::H128 h; h.bytes(r->mem, sizeof(A)); h.word(N);
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C11", histories_inplace, 16) {
    size_t k = c.choose(8); int d = c.depth(mc::lvl(4, 5, 3, 4));
    switch (k) {
    case 0: histories<uint8_t, 8>(c, d); break;
    case 1: histories<int, 9>(c, d); break;
    case 2: histories<int8_t, 17>(c, d); break;
    case 3: histories<uint8_t, 255>(c, std::min(d, 3)); break;
    case 4: histories<uint8_t, 256>(c, std::min(d, 3)); break;
    case 5: histories<int8_t, 128>(c, std::min(d, 3)); break;
    case 6: histories<uint16_t, 33>(c, d); break;
    case 7: histories<u64, 12>(c, d); break;
    }
}
// order in which the indices are written
static size_t order(unsigned k, size_t i, size_t n) {
    switch (k) { case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; case 3: return (i * 2) % n + (n % 2 == 0 && i >= n / 2); default: return (i * 7 + 3) % n; }
}
template <class A> static void long_run(mc::Ctx& c, A& a, size_t n, unsigned ord, unsigned val, size_t limit) {
    using T = typename A::value_type; std::vector<T> m(n, T(a.get(0)));
    auto value = [&](size_t i, int round) -> T { switch (val) { case 0: return T(i); case 1: return T(2 * (i / 2)); case 2: return T(2 * ((n - 1 - i) / 2)); case 3: return T(0); default: return T(i * 31 + round); } };
    for (int round = 0; round < 3; round++) {
        size_t k = std::min(limit, round == 1 ? n / 2 : n);
        for (size_t i = 0; i < k; i++) {
            size_t p = order(ord, i, n) % n; T v = value(p, round);
            a.set(p, v); m[p] = v;
            if (n <= 64 || i % (n / 16) == 0) { for (size_t j = 0; j < n; j++) MC_CHECK(T(a.get(j)) == m[j], "round %d, after set(%zu,%lld): get(%zu) = %lld, want %lld", round, p, (long long)v, j, (long long)T(a.get(j)), (long long)m[j]); c.obs(n); }
        }
        for (size_t j = 0; j < n; j++) MC_CHECK(T(a.get(j)) == m[j], "round %d: get(%zu) = %lld, want %lld", round, j, (long long)T(a.get(j)), (long long)m[j]);
        T v = round ? T(2 * (n / 4)) : T(0); a.fill(v); m.assign(n, v);
        for (size_t j = 0; j < n; j++) MC_CHECK(T(a.get(j)) == v, "after fill: get(%zu) = %lld, want %lld", j, (long long)T(a.get(j)), (long long)v);
    }
}
template <class T, size_t N> static void long_inplace(mc::Ctx& c) {
    using A = InitializableArray<T, N>; auto r = std::make_unique<Raw<A>>();
    unsigned p = c.choose(6), o = c.choose(5), v = c.choose(5);
    fill_cells<A, N>(*r, pattern<T, N>(p)); construct(*r, T(1));
    c.log("size %zu, storage pattern %u, order %u, values %u", N, p, o, v);
    long_run(c, r->get(), N, o, v, ~size_t(0));
    c.state(mc::hash_words({N, sizeof(T), p, o, v}));
}
MC_SCOPE("C11", long_inplace_runs, 16) {
    switch (c.choose(10)) {
    case 0: long_inplace<uint8_t, 256>(c); break; case 1: long_inplace<uint8_t, 255>(c); break; case 2: long_inplace<int8_t, 128>(c); break; case 3: long_inplace<int8_t, 127>(c); break;
    case 4: long_inplace<int, 1000>(c); break; case 5: long_inplace<uint16_t, 501>(c); break; case 6: long_inplace<u64, 64>(c); break; case 7: long_inplace<uint32_t, 63>(c); break;
    case 8: long_inplace<char, 100>(c); break; case 9: long_inplace<uint8_t, 31>(c); break;
    }
}
template <class T> static void folklore_compare(mc::Ctx& c, const InitializableArrayFolklore<T>& a, const std::vector<T>& m) {
    MC_CHECK(a.size() == m.size(), "size() = %zu, want %zu", a.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(a.get(i) == m[i], "get(%zu) of %zu differs from what was written", i, m.size());
    c.obs(m.size());
}
template <class T> static void folklore(mc::Ctx& c, const std::vector<T>& dom) {
    size_t n = c.choose(6); bool range = c.flip(); std::vector<T> m;
    for (size_t i = 0; i < n; i++) m.push_back(range ? dom[i % dom.size()] : dom[1]);
    auto a = range ? InitializableArrayFolklore<T>(m.begin(), m.end()) : InitializableArrayFolklore<T>(n, dom[1]);
    c.log("folklore array of %zu", n);
    if (c.fresh()) folklore_compare(c, a, m);
    int depth = c.depth(mc::lvl(5, 6, 4, 5));
    for (int d = 0; d < depth; d++) {
        size_t k = c.choose(n + 1);
        const T v = dom[c.choose(dom.size())];
        if (k == n) { c.log("init"); if (d & 1) a.init(v); else a.fill(v); m.assign(n, v); } else { c.log("set(%zu)", k); a.set(k, v); m[k] = v; }
        if (c.fresh()) folklore_compare(c, a, m);
        auto h = mc::image(a); mc::H128 g; for (auto&& x : m) g.word(size_t(std::find(dom.begin(), dom.end(), x) - dom.begin())); mix(h, g);
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C11", folklore_ints, 8) { folklore<u64>(c, {0, 1, 2, ~0ull}); }
MC_SCOPE("C11", folklore_strings, 8) { folklore<std::string>(c, {"", "a", "a string that does not fit into the object"}); }
MC_SCOPE("C11", folklore_bools, 8) { folklore<bool>(c, {false, true}); }
MC_SCOPE("C11", long_folklore, 4) {
    size_t n = c.of<size_t>({1, 2, 63, 64, 1000}); unsigned o = c.choose(5), v = c.choose(5);
    InitializableArrayFolklore<int> a(n, 3);
    c.log("folklore array of %zu, order %u, values %u", n, o, v);
    long_run(c, a, n, o, v, ~size_t(0)); c.state(mc::hash_words({n, o, v}));
}

template <class T, size_t N> static void beyond(mc::Ctx& c) {       // as many elements as the links can number
    using A = InitializableArray<T, N>; auto r = std::make_unique<Raw<A>>();
    unsigned o = c.choose(4); bool v = c.flip();
    fill_cells<A, N>(*r, pattern<T, N>(o == 0 ? 0 : o + 1)); construct(*r, T(1));
    c.log("size %zu, %zu-byte elements, order %u, values %u", N, sizeof(T), o, v);
    long_run(c, r->get(), N, o == 1 ? 3 : o, v ? 2 : 1, ~size_t(0));
    c.state(mc::hash_words({N, sizeof(T), o, v}));
}
MC_SCOPE("C11", beyond_16_bits, 8) {
    if (MC_ASAN) throw mc::Prune{};
    switch (c.choose(7)) {
    case 0: beyond<uint16_t, 65536>(c); break; case 1: beyond<uint16_t, 65535>(c); break; case 2: beyond<int16_t, 32768>(c); break; case 3: beyond<u32, 70001>(c); break;
    case 4: beyond<u64, 140000>(c); break; case 5: beyond<int, 65537>(c); break;
    case 6: { size_t n = c.of<size_t>({65536, 140000}); unsigned o = c.choose(4); InitializableArrayFolklore<u32> a(n, 3); c.log("folklore array of %zu, order %u", n, o); long_run(c, a, n, o, 2, ~size_t(0)); c.state(mc::hash_words({n, o})); break; }
    }
}

// ---------------------------------------------------------------- C27
namespace pages {
static char* lo; static char* hi; static volatile size_t faults;
static void on_segv(int, siginfo_t* si, void*) {
    char* p = static_cast<char*>(si->si_addr);
    if (p < lo || p >= hi) { signal(SIGSEGV, SIG_DFL); return; }
    faults = faults + 1;
    mprotect(reinterpret_cast<char*>(reinterpret_cast<uintptr_t>(p) & ~uintptr_t(4095)), 4096, PROT_READ | PROT_WRITE);
}
struct Region {                            // memory of one array, write-protected during the counted operation
    size_t n; char* p;
    explicit Region(size_t bytes) : n((bytes + 4095) / 4096 * 4096) {
        p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr);
    }
    ~Region() { munmap(p, n); signal(SIGSEGV, SIG_DFL); }
    template <class F> size_t count(F f) { lo = p; hi = p + n; faults = 0; mprotect(p, n, PROT_READ); f(); mprotect(p, n, PROT_READ | PROT_WRITE); return faults; }
};
}
static const size_t kMaxPages = 24, kMaxWrites = 24;      // far below the number of pages / elements of the arrays used
template <class T, size_t N> static void pages_inplace(mc::Ctx& c) {
    using A = InitializableArray<T, N>;
    pages::Region R(sizeof(A));
    unsigned p = c.choose(3), o = c.choose(5); size_t written = c.of<size_t>({0, 1, N / 3, N - 1, N});
    unsigned vals = c.choose(2);
    memset(R.p, p == 0 ? 0 : p == 1 ? 0xff : 0x02, R.n);
    A* a = reinterpret_cast<A*>(R.p); size_t worst = 0;
    auto counted = [&](const char* what, auto f) { size_t k = R.count(f); worst = std::max(worst, k); MC_CHECK(k <= kMaxPages, "%s on %zu elements with %zu written before writes to %zu pages", what, N, written, k); c.obs(1); };
    counted("construction", [&] { opaque(a); a = new (R.p) A(T(2)); opaque(a); });
    size_t step = mc::thorough() ? 1 : std::max<size_t>(1, written / 3000);
    for (size_t i = 0; i < written; i++) {
        size_t x = order(o, i, N) % N; T v = vals ? T(i * 2654435761u) : T(2);
        if (i % step == 0 || i + 16 > written) counted("set", [&] { a->set(x, v); }); else a->set(x, v);
    }
    T v = vals ? T(5) : T(2);
    counted("init", [&] { a->init(v); });
    counted("get", [&] { volatile T x = a->get(N / 2); (void)x; });
    for (size_t i = 0; i < 40; i++) counted("set after init", [&] { a->set(order(o, i, N) % N, v); });
    counted("fill", [&] { a->fill(v); });
    counted("fill again", [&] { a->fill(T(9)); });
    MC_CHECK(a->get(0) == T(9) && a->get(N - 1) == T(9), "fill did not take");
    c.log("in-place array of %zu: pattern %u, order %u, %zu written; at most %zu pages written per operation", N, p, o, written, worst);
    c.state(mc::hash_words({N, sizeof(T), p, o, written, vals}));
}
MC_SCOPE("C27", pages_of_inplace_array, 12) {
    size_t k = c.choose(3);
    if (k == 0) pages_inplace<int, 65536>(c); else if (k == 1) pages_inplace<uint32_t, 1 << 20>(c); else pages_inplace<long long, 30001>(c);
}
static u64 g_writes;
struct Counted {
    long v = 0;
    Counted() = default;
    Counted(long x) : v(x) {}
    Counted(const Counted& o) : v(o.v) { g_writes++; }
    Counted& operator=(const Counted& o) { v = o.v; g_writes++; return *this; }
    bool operator==(const Counted& o) const { return v == o.v; }
};
MC_SCOPE("C27", writes_of_folklore_array, 4) {
    size_t n = c.of<size_t>({64, 1000, 20000}), o = c.choose(5), written = std::min(n, c.of<size_t>({0, 1, 33, 500, 20000}));
    InitializableArrayFolklore<Counted> a(n, Counted(4)); u64 worst = 0;
    auto counted = [&](const char* what, auto f) { g_writes = 0; f(); worst = std::max(worst, g_writes); MC_CHECK(g_writes <= kMaxWrites, "%s on %zu elements with %zu written before makes %llu element writes", what, n, written, ull(g_writes)); c.obs(1); };
    for (size_t i = 0; i < written; i++) counted("set", [&] { a.set(order(unsigned(o), i, n) % n, Counted(long(i))); });
    counted("init", [&] { a.init(Counted(7)); });
    counted("get", [&] { a.get(0); });
    for (size_t i = 0; i < 60; i++) counted("set after init", [&] { a.set(order(unsigned(o), i, n) % n, Counted(1)); });
    counted("fill", [&] { a.fill(Counted(8)); });
    MC_CHECK(a.get(n - 1).v == 8, "fill did not take");
    c.log("folklore array of %zu: order %zu, %zu written; at most %llu element writes per operation", n, o, written, ull(worst));
    c.state(mc::hash_words({n, o, written}));
}
#if !MC_ASAN
MC_SCOPE("C27", pages_of_folklore_array, 4) {
    size_t n = c.of<size_t>({100000, 1000000}), o = c.choose(5), written = std::min(n, c.of<size_t>({0, 1, 40000, 1000000}));
    using A = InitializableArrayFolklore<u64>;
    memset(mc::g_arena.base, 0, mc::g_arena.used); mc::g_arena.used = 0;
    mc::g_arena_on = true; A* a = new (mc::arena_alloc(sizeof(A), 64)) A(n, u64(4)); mc::g_arena_on = false;
    pages::Region R(4096); char* keep = R.p; size_t keepn = R.n; R.p = mc::g_arena.base; R.n = (mc::g_arena.used + 4095) / 4096 * 4096;
    for (size_t i = 0; i < written; i++) a->set(order(unsigned(o), i, n) % n, i);
    size_t worst = 0;
    auto counted = [&](const char* what, auto f) { size_t k = R.count(f); worst = std::max(worst, k); if (k > kMaxPages) { R.p = keep; R.n = keepn; mc::fail("%s on %zu elements with %zu written before writes to %zu pages", what, n, written, k); } c.obs(1); };
    counted("init", [&] { a->init(7); });
    counted("get", [&] { volatile u64 x = a->get(n / 2); (void)x; });
    counted("fill", [&] { a->fill(8); });
    bool ok = a->get(0) == 8 && a->get(n - 1) == 8;
    R.p = keep; R.n = keepn;
    a->~A();
    MC_CHECK(ok, "fill did not take");
    c.log("folklore array of %zu: order %zu, %zu written; at most %zu pages written", n, o, written, worst);
    c.state(mc::hash_words({n, o, written, 1}));
}
#endif
