// C37: what every operation costs, counted in basic blocks entered, bytes moved by the C library and bytes allocated - never in time.
// The cost at a large size may be at most a constant times the cost at a small size, scaled by the law the operation promises.
#define MC_FAULTS 1
#include "subjects.hpp"
#include <sim_ds/sort.hpp>
using namespace subj;
#ifdef MC_STEPS
#define NOCOUNT __attribute__((no_sanitize_coverage))
static volatile u64 g_steps;      // the compiler takes the callback for one that touches nothing
extern "C" {
NOCOUNT void __sanitizer_cov_trace_pc() { g_steps = g_steps + 1; }
void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t);
NOCOUNT void* __wrap_memset(void* d, int v, size_t n) { g_steps += n / 8; return __real_memset(d, v, n); }
NOCOUNT void* __wrap_memmove(void* d, const void* s, size_t n) { g_steps += n / 8; return __real_memmove(d, s, n); }
NOCOUNT void* __wrap_memcpy(void* d, const void* s, size_t n) { g_steps += n / 8; return __real_memcpy(d, s, n); }
NOCOUNT int __wrap_memcmp(const void* a, const void* b, size_t n) {
    auto* x = static_cast<const unsigned char*>(a); auto* y = static_cast<const unsigned char*>(b); size_t i = 0; while (i < n && x[i] == y[i]) i++;
    g_steps += i / 8; return i == n ? 0 : int(x[i]) - int(y[i]);
}
NOCOUNT void* __wrap_memchr(const void* d, int c, size_t n) { void* r = __real_memchr(d, c, n); g_steps += (r ? size_t(static_cast<char*>(r) - static_cast<const char*>(d)) : n) / 8; return r; }
}
#else
static volatile u64 g_steps;      // the compiler takes the callback for one that touches nothing
#endif
static mc::Ctx* g_ctx;
template <class F> static double cost(F&& f) {
    static unsigned calls; if (g_ctx && ++calls % 256 == 0) g_ctx->beat();
    size_t t0 = mc::g_mem.total; mc::g_mem.sums = true; u64 s0 = g_steps;
    try { f(); } catch (...) { mc::g_mem.sums = false; throw; }
    u64 s = g_steps - s0; mc::g_mem.sums = false;
    return double(s) + double(mc::g_mem.total - t0) / 8;
}
static std::string S(size_t n) { return std::to_string(n); }
// the worst cost seen of every operation; the first letter of a name is its law: 1 constant, L logarithmic, n linear, N n log n, Q n squared
struct Costs : std::map<std::string, double> {
    void up(const std::string& k, double x) { auto& w = (*this)[k]; if (x > w) w = x; }
    void up(const Costs& o) { for (auto& [k, x] : o) up(k, x); }
    template <class F> void of(const char* k, F&& f) { up(k, cost(f)); }
};
static double law(char g, double n) { double l = std::log2(n + 2); return g == '1' ? 1 : g == 'L' ? l : g == 'n' ? n + 1 : g == 'N' ? (n + 1) * l : (n + 1) * (n + 1); }
static volatile u64 g_sink;
template <class T> static void use(const T& x) { g_sink = g_sink + u64(x); }
// all kinds of content at the small sizes say what an operation costs there
template <class M> static const Costs& base_of(const std::string& what, unsigned kinds, const std::vector<size_t>& small, M measure) {
    static std::map<std::string, Costs> memo; auto it = memo.find(what); if (it != memo.end()) return it->second;
    Costs b; for (unsigned k = 0; k < kinds; k++) for (size_t n : small) for (auto& [op, x] : measure(k, n)) b.up(op, x / law(op[0], double(n)));
    return memo[what] = b;
}
template <class M> static void grows(mc::Ctx& c, const std::string& what, unsigned kinds, const std::vector<size_t>& small, const std::vector<size_t>& large, M measure, double slack = 0, bool phase = false) {
    unsigned kind = unsigned(c.choose(kinds)); size_t n = c.pick(large);
    std::string of = what + ", content " + S(kind) + ", n = " + S(n); c.note(of); c.log("%s", of.c_str()); g_ctx = &c;
    Costs b = base_of(what, kinds, small, measure); c.beat();
    // where in its cycle of doubling a table stands matters: the small sizes at the same point
    if (phase) { std::vector<size_t> same; for (size_t m = n; m >= 256; m /= 2) if (m <= 1100) for (size_t d : {0, 1, 2}) same.push_back(m + d); for (auto& [op, x] : base_of(what + S(n), kinds, same, measure)) b.up(op, x); }
    Costs got = measure(kind, n);
    for (auto& [op, x] : got) {
        double unit = b.at(op), most = (slack ? slack : op[0] == '1' || op[0] == 'L' ? 4 : 3) * unit * law(op[0], double(n)) + 150;
#ifdef CALIBRATE
        static std::map<std::string, double> worst; double r = (x - 150) / (unit * law(op[0], double(n)) + 1e-9); auto& w = worst[what + op];
        if (r > w) { w = r; FILE* f = fopen("/tmp/calib.txt", "a"); fprintf(f, "%.3f\t%s\t%s\t(%.0f; unit %.2f)\n", r, of.c_str(), op.c_str(), x, unit); fclose(f); }
#else
        MC_CHECK(x <= most, "%s: %s takes %.0f steps, at most %.0f expected of %s (%.2f for each unit at small sizes)", of.c_str(), op.c_str() + 2, x, most, op[0] == '1' ? "a constant cost" : op[0] == 'L' ? "a logarithmic cost" : op[0] == 'n' ? "a linear cost" : op[0] == 'N' ? "a cost of n log n" : "a cost of n squared", unit);
#endif
    }
    c.obs(got.size()); if (c.fresh()) c.state(hash_str(of));
}
static std::vector<size_t> big(std::initializer_list<size_t> quick, std::initializer_list<size_t> more) { std::vector<size_t> v(quick); if (mc::lvl(0, 1, 0, 1)) v.insert(v.end(), more.begin(), more.end()); return v; }
// what every structure does with itself: moving costs nothing, copying costs its size
template <class T> static void whole(Costs& r, const T& s) {
    alignas(T) static char room[2][sizeof(T)]; T *a = nullptr, *b = nullptr;
    r.of("n:copying it", [&] { a = new (room[0]) T(s); });
    r.of("1:moving it", [&] { b = new (room[1]) T(std::move(*a)); });
    r.of("1:move assignment", [&] { *a = std::move(*b); });
    r.of("n:copy assignment", [&] { *b = s; });
    r.of("1:swap", [&] { std::swap(*a, *b); });
    r.of("n:destroying two", [&] { a->~T(); b->~T(); });
}
// a copy into a stream buffer that is already large enough, so that only the structure's own work counts
template <class W, class R> static void streams(Costs& r, W write, R read) {
    std::ostringstream os; write(os); std::string bytes = os.str(); std::ostringstream again; again.str(bytes);
    r.of("n:writing it", [&] { write(again); });
    std::istringstream is(bytes); r.of("n:reading it", [&] { read(is); });
}
static const std::vector<size_t>& small_sizes() { static const std::vector<size_t> v{250, 256, 300, 350, 400, 512, 513}; return v; }

// ---- vectors
static Costs bitvector(unsigned kind, size_t n) {
    Costs r; Bits p = pattern(n, kind); std::unique_ptr<sim_ds::BitVector> b;
    r.of("n:construction", [&] { b.reset(new sim_ds::BitVector(n)); });
    { sim_ds::BitVector v; r.of("n:push_back of them all", [&] { for (size_t i = 0; i < n; i++) v.push_back(p[i]); }); r.of("n:resize to twice as many", [&] { v.resize(2 * n, true); }); r.of("n:resize to half", [&] { v.resize(n / 2); }); r.of("n:assign", [&] { v.assign(n, true); }); r.of("n:shrink_to_fit", [&] { v.shrink_to_fit(); }); r.of("n:fill", [&] { v.fill(v.begin(), v.end(), false); }); }
    auto& s = *b; const auto& cs = s;
    for (size_t i = 0; i < n; i++) { r.of("1:[i] =", [&] { s[i] = p[i]; }); r.of("1:[i]", [&] { use(bool(cs[i])); }); r.of("1:at", [&] { use(bool(s.at(i))); }); }
    for (size_t i = 0; i < n; i += 61) { r.of("1:begin() + i", [&] { use(bool(*(cs.begin() + ptrdiff_t(i)))); }); r.of("1:end() - begin()", [&] { use(cs.end() - cs.begin()); }); }
    r.of("n:iteration", [&] { for (auto it = cs.begin(); it != cs.end(); ++it) use(bool(*it)); });
    r.of("1:size, empty, front, back", [&] { use(s.size()); use(s.empty()); use(bool(s.front())); use(bool(s.back())); use(s.size_in_bytes()); });
    streams(r, [&](auto& o) { s.Write(o); }, [&](auto& i) { sim_ds::BitVector t; t.Read(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_bits, 8) { grows(c, "BitVector", 4, small_sizes(), big({4096, 65537, 1 << 18}, {1 << 14, 100000, 1 << 20, 3000000}), bitvector); }
template <unsigned W> static Costs fitvector(unsigned kind, size_t n) {
    Costs r; std::unique_ptr<sim_ds::FitVector> b; auto val = [&](size_t i) { return kind == 0 ? 0 : kind == 1 ? mask(W) : lcg(i, 1) & mask(W); };
    r.of("n:construction", [&] { b.reset(new sim_ds::FitVector(W, n)); });
    { sim_ds::FitVector v(W); r.of("n:push_back of them all", [&] { for (size_t i = 0; i < n; i++) v.push_back(val(i)); }); r.of("n:resize to twice as many", [&] { v.resize(2 * n, 1); }); r.of("n:resize to half", [&] { v.resize(n / 2); }); r.of("n:assign", [&] { v.assign(n, 1); }); }
    auto& s = *b; const auto& cs = s;
    for (size_t i = 0; i < n; i++) { r.of("1:[i] =", [&] { s[i] = val(i); }); r.of("1:[i]", [&] { use(cs[i]); }); r.of("1:at", [&] { use(u64(s.at(i))); }); }
    for (size_t i = 0; i < n; i += 61) { r.of("1:begin() + i", [&] { use(u64(*(cs.begin() + ptrdiff_t(i)))); }); r.of("1:end() - begin()", [&] { use(cs.end() - cs.begin()); }); }
    r.of("n:iteration", [&] { for (auto it = cs.begin(); it != cs.end(); ++it) use(u64(*it)); });
    r.of("1:size, empty, front, back", [&] { use(s.size()); use(s.empty()); use(u64(s.front())); use(u64(s.back())); use(s.size_in_bytes()); });
    std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(val(i)); r.of("n:construction from numbers", [&] { sim_ds::FitVector t(v); });
    streams(r, [&](auto& o) { s.Write(o); }, [&](auto& i) { sim_ds::FitVector t(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_numbers, 8) {
    unsigned w = unsigned(c.choose(4)); auto ns = big({4096, 65537}, {1 << 14, 100000, 1 << 20});
    if (w == 0) grows(c, "FitVector of 1 bit", 3, small_sizes(), ns, fitvector<1>); else if (w == 1) grows(c, "FitVector of 13 bits", 3, small_sizes(), ns, fitvector<13>); else if (w == 2) grows(c, "FitVector of 32 bits", 3, small_sizes(), ns, fitvector<32>); else grows(c, "FitVector of 64 bits", 3, small_sizes(), ns, fitvector<64>);
}
static Costs records(unsigned kind, size_t n) {
    static const std::vector<std::vector<size_t>> shapes{{1}, {8}, {3, 4, 7}, {2, 5, 8}}; auto& sh = shapes[kind];
    Costs r; sim_ds::MultipleVector s; s.set_element_sizes(sh); r.of("n:push_back of them all", [&] { for (size_t i = 0; i < n; i++) s.push_back({i & 255}); });
    { sim_ds::MultipleVector v; v.set_element_sizes(sh); r.of("n:emplace_back of them all", [&] { for (size_t i = 0; i < n; i++) v.emplace_back(); }); r.of("n:resize to twice as many", [&] { v.resize(2 * n); }); }
    const auto& cs = s;
    for (size_t i = 0; i < n; i++) { r.of("1:nested_element", [&] { use(cs.nested_element<0>(i)); }); r.of("1:set_nested_element", [&] { s.set_nested_element<0>(i, i & 127); }); r.of("1:block", [&] { use(cs.block(i).get<0>()); }); }
    r.of("1:size", [&] { use(s.size()); use(s.block_size()); use(s.size_in_bytes()); });
    streams(r, [&](auto& o) { s.StoreTo(o); }, [&](auto& i) { sim_ds::MultipleVector t; t.LoadFrom(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_records, 8) { grows(c, "MultipleVector", 4, small_sizes(), big({4096, 65537}, {20000, 300000}), records); }
// ---- bit patterns with rank and select
static Bits sparse(size_t n, unsigned kind) {
    if (kind < 4) return pattern(n, kind);
    Bits b(n); for (size_t i = 0; i < n; i++) b[i] = kind == 4 ? false : kind == 5 ? i % 5000 == 4999 || i + 1 == n : kind == 6 ? i < 600 || i + 600 >= n : i >= n / 2;       // none; rare; both ends; one half
    return b;
}
template <bool Sel> static Costs succinct(unsigned kind, size_t n) {
    Costs r; Bits p = sparse(n, kind); sim_ds::BitVector b(n); size_t ones = 0; for (size_t i = 0; i < n; i++) { b[i] = p[i]; ones += p[i]; }
    using T = sim_ds::SuccinctBitVector<Sel>; std::unique_ptr<T> q; r.of("n:construction", [&] { q.reset(new T(static_cast<const sim_ds::BitVector&>(b))); });
    const T& s = *q; for (size_t i = 0; i <= n; i++) { r.of("1:rank", [&] { use(s.rank_1(i)); }); r.of("1:rank_0", [&] { use(s.rank_0(i)); }); if (i < n) r.of("1:[i]", [&] { use(s[i]); }); }
    if constexpr (Sel) { r.up("L:select", 0); for (size_t i = 0; i < ones; i++) r.of("L:select", [&] { use(s.select(i)); }); }
    streams(r, [&](auto& o) { s.Write(o); }, [&](auto& i) { T t; t.Read(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_rank, 8) { static const std::vector<size_t> small{1000, 1500, 2048, 3000}; auto ns = big({20000, 1 << 17, 1 << 19}, {1 << 16, 300000, 1 << 22}); if (c.flip()) grows(c, "SuccinctBitVector<true>", 8, small, ns, succinct<true>); else grows(c, "SuccinctBitVector<false>", 8, small, ns, succinct<false>); }
template <unsigned U> static Costs symbols(unsigned kind, size_t n) {
    using M = SMulti<U>; Costs r; typename M::V v; r.of("n:setting them all", [&] { for (size_t i = 0; i < n; i++) v.set(i, uint8_t(M::sym(i, kind))); }); r.of("n:build", [&] { v.build(); });
    const auto& cv = v; for (size_t i = 0; i < n; i++) { r.of("1:[i]", [&] { use(cv[i]); }); if (cv[i]) r.of("1:rank", [&] { use(cv.rank(i)); }); }
    for (size_t i = 0; i < n; i += 7) r.of("1:setting one again", [&] { v.set(i, uint8_t(M::sym(i, kind))); });
    streams(r, [&](auto& o) { v.Write(o); }, [&](auto& i) { typename M::V t; t.Read(i); }); whole(r, v); return r;
}
MC_SCOPE("C37", cost_symbols, 8) { unsigned u = unsigned(c.choose(3)); auto ns = big({4096, 1 << 16, 200000}, {20000, 1 << 20}); if (u == 0) grows(c, "MultiBitVector<1>", 3, small_sizes(), ns, symbols<1>); else if (u == 1) grows(c, "MultiBitVector<2>", 3, small_sizes(), ns, symbols<2>); else grows(c, "MultiBitVector<3>", 3, small_sizes(), ns, symbols<3>); }
template <unsigned H> static Costs wavelet(unsigned kind, size_t n) {
    Costs r; std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(int(kind == 0 ? lcg(i, 3) & mask(H) : kind == 1 ? mask(H) : kind == 2 ? (i * mask(H)) / n : i % 64 ? 0 : mask(H)));
    std::unique_ptr<sim_ds::WaveletTree> q; r.of("n:construction", [&] { q.reset(new sim_ds::WaveletTree(v)); }); const auto& s = *q;
    for (size_t i = 0; i < n; i++) { r.of("1:[i]", [&] { use(s[i]); }); r.of("1:rank(i)", [&] { use(s.rank(i)); }); r.of("1:rank(c, i)", [&] { use(s.rank(uint8_t(v[i]), i)); }); r.of("1:AccessAndRank", [&] { use(s.AccessAndRank(i).second); }); }
    streams(r, [&](auto& o) { s.Write(o); }, [&](auto& i) { sim_ds::WaveletTree t(std::vector<int>{0}); t.Read(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_wavelet, 8) { unsigned h = unsigned(c.choose(3)); static const std::vector<size_t> small{500, 512, 700, 1000}; auto ns = big({8192, 60000}, {20000, 1 << 18}); if (h == 0) grows(c, "WaveletTree of bits", 4, small, ns, wavelet<1>); else if (h == 1) grows(c, "WaveletTree of 3 bits", 4, small, ns, wavelet<3>); else grows(c, "WaveletTree of bytes", 4, small, ns, wavelet<8>); }
// rank and access cost the height of the tree: n is the number of bits of a symbol here
static Costs wavelet_height(unsigned kind, size_t h) {
    Costs r; std::vector<int> v; for (size_t i = 0; i < 3000; i++) v.push_back(int(kind == 0 ? lcg(i, 3) & mask(unsigned(h)) : mask(unsigned(h)))); v[17] = int(mask(unsigned(h)));
    sim_ds::WaveletTree s(v); for (size_t i = 0; i < v.size(); i++) { r.of("n:[i]", [&] { use(s[i]); }); r.of("n:rank(i)", [&] { use(s.rank(i)); }); r.of("n:rank(c, i)", [&] { use(s.rank(uint8_t(v[i]), i)); }); r.of("n:AccessAndRank", [&] { use(s.AccessAndRank(i).second); }); }
    return r;
}
MC_SCOPE("C37", cost_wavelet_height, 2) { grows(c, "WaveletTree by height", 2, {1, 2}, {2, 3, 4, 5, 6, 7, 8}, wavelet_height, 2); }
template <unsigned L> static Costs layers(unsigned kind, size_t n) {
    Costs r; std::vector<size_t> v, plan(L, 64 / L); for (size_t i = 0; i < n; i++) { u64 x = lcg(i, 5); v.push_back(kind == 0 ? x >> (x % 64) : kind == 1 ? ~0ull : kind == 2 ? x & 1 : i % 100 ? x & 15 : x); }
    std::unique_ptr<sim_ds::DacVector> q; r.of("n:construction", [&] { q.reset(new sim_ds::DacVector(v, plan)); }); const auto& s = *q;
    if (L == 8) r.of("n:construction with layers of its own choice", [&] { sim_ds::DacVector t(v); });
    for (size_t i = 0; i < n; i++) { r.of("1:[i]", [&] { use(s[i]); }); r.of("1:depth", [&] { use(s.depth(i)); }); r.of("1:at", [&] { use(s.at(i)); }); }
    r.of("n:iteration", [&] { for (auto it = s.begin(); it != s.end(); ++it) use(u64(*it)); });
    r.of("1:size, front, back", [&] { use(s.size()); use(s.front()); use(s.back()); use(s.empty()); });
    streams(r, [&](auto& o) { s.Write(o); }, [&](auto& i) { sim_ds::DacVector t(i); }); whole(r, s); return r;
}
MC_SCOPE("C37", cost_layers, 8) { unsigned l = unsigned(c.choose(3)); auto ns = big({4096, 50000}, {20000, 1 << 18}); if (l == 0) grows(c, "DacVector of 1 layer", 4, small_sizes(), ns, layers<1>); else if (l == 1) grows(c, "DacVector of 2 layers", 4, small_sizes(), ns, layers<2>); else grows(c, "DacVector of 8 layers", 4, small_sizes(), ns, layers<8>); }
// ---- heaps
template <bool Asc> static Costs heap(unsigned kind, size_t n) {
    auto val = [&](size_t i) -> size_t { return kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? lcg(i, 1) : kind == 3 ? 7 : lcg(i, 2) % 10; };
    Costs r; using H = sim_ds::Heap<Asc>; std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(val(i));
    std::unique_ptr<H> h; r.of("n:construction from an array", [&] { h.reset(new H(v)); }); r.of("n:Build", [&] { h->Build(); }); whole(r, *h);
    r.of("1:front, size", [&] { use(h->front()); use(h->size()); });
    double all = 0; for (size_t i = 0; i < n; i++) { double x = cost([&] { h->pop(); }); r.up("L:pop", x); all += x; } r.up("N:popping them all", all);
    H g; all = 0; for (size_t i = 0; i < n; i++) { bool grow = (i & (i - 1)) == 0; double x = cost([&] { g.push(v[i]); }); if (!grow) r.up("L:push", x); all += x; } r.up("N:pushing them all", all);
    std::vector<size_t> a = v; r.of("N:HeapSort", [&] { sim_ds::HeapSort(a.begin(), a.end()); }); return r;
}
MC_SCOPE("C37", cost_heap, 8) { auto ns = big({4096, 100000}, {30000, 1 << 20}); if (c.flip()) grows(c, "MinHeap", 5, small_sizes(), ns, heap<true>); else grows(c, "MaxHeap", 5, small_sizes(), ns, heap<false>); }
// ---- initializable arrays: fill costs the same whatever the size
static Costs folklore(unsigned kind, size_t n) {
    Costs r; using A = sim_ds::InitializableArrayFolklore<u64>; std::unique_ptr<A> a; r.of("n:construction", [&] { a.reset(new A(n, 5)); });
    auto at = [&](size_t i) { return kind == 0 ? i : kind == 1 ? n - 1 - i : lcg(i, 1) % n; };
    for (int round = 0; round < 3; round++) {
        double all = cost([&] { for (size_t i = 0; i < n; i++) a->set(at(i), i); }); r.up("n:setting them all", all);
        for (size_t i = 0; i < n; i++) { r.of("1:get", [&] { use(a->get(i)); }); if (kind < 2) r.of("1:set again", [&] { a->set(i, i); }); }
        r.of("1:fill", [&] { a->fill(u64(round)); }); r.of("1:get after fill", [&] { use(a->get(n / 2)); }); a->set(n / 2, 1);
    }
    whole(r, *a); return r;
}
MC_SCOPE("C37", cost_folklore, 8) { grows(c, "InitializableArrayFolklore", 3, small_sizes(), big({4096, 65537, 1 << 18}, {30000, 1 << 20}), folklore); }
template <class T> static Costs in_place(unsigned kind, size_t n) {
    Costs r; auto go = [&](auto tag) {
        constexpr size_t N = decltype(tag)::value; using A = sim_ds::InitializableArray<T, N>; auto a = std::make_unique<A>(T(1));
        auto at = [&](size_t i) { return kind == 0 ? i : kind == 1 ? N - 1 - i : lcg(i, 1) % N; };
        static char room[sizeof(A)]; r.of("1:construction", [&] { new (room) A(T(1)); });
        for (int round = 0; round < 3; round++) {
            for (size_t i = 0; i < N; i++) r.of("1:set", [&] { a->set(at(i), T(i)); });
            for (size_t i = 0; i < N; i++) r.of("1:get", [&] { use(a->get(i)); });
            r.of("1:fill", [&] { a->fill(T(round)); });
            for (size_t i = 0; i < N / 2; i++) r.of("1:set", [&] { a->set(at(i), T(i)); });
            r.of("1:fill", [&] { a->fill(T(round)); });
        }
    };
    if (n == 100) go(std::integral_constant<size_t, 100>{}); else if (n == 200) go(std::integral_constant<size_t, 200>{}); else if (n == 4000) { if constexpr (sizeof(T) > 1) go(std::integral_constant<size_t, 4000>{}); } else { if constexpr (sizeof(T) > 2) go(std::integral_constant<size_t, 100000>{}); }
    return r;
}
MC_SCOPE("C37", cost_in_place, 8) { unsigned t = unsigned(c.choose(4)); if (t == 0) grows(c, "InitializableArray<u8>", 3, {100}, {200}, in_place<uint8_t>); else if (t == 1) grows(c, "InitializableArray<u16>", 3, {100}, {200, 4000}, in_place<uint16_t>); else if (t == 2) grows(c, "InitializableArray<u32>", 3, {100}, {200, 4000, 100000}, in_place<u32>); else grows(c, "InitializableArray<u64>", 3, {100}, {200, 4000, 100000}, in_place<u64>); }
// ---- hash tables: n operations in a linear number of steps, for keys the hash spreads (consecutive, scattered, spaced by a power of two)
template <unsigned VB, unsigned LF> static Costs table(unsigned kind, size_t n) {
    using T = sim_ds::CHT<VB, LF>; Costs r; auto key = [&](size_t i) -> u64 { return kind == 0 ? i : kind == 1 ? u64(i) << 12 : kind == 2 ? n - i : lcg(i, 1) & mask(32); };
    auto fresh = [&] { auto t = std::make_unique<T>(33u); if (!VB) t->set_value_width(16); return t; };
    auto t = fresh(); r.of("n:setting n keys", [&] { for (size_t i = 0; i < n; i++) t->set(key(i), i & 0xffff); });
    r.of("n:setting n keys again", [&] { for (size_t i = 0; i < n; i++) t->set(key(i), ~i & 0xffff); });
    r.of("n:getting n keys", [&] { for (size_t i = 0; i < n; i++) use(t->get(key(i)).second); });
    r.of("n:looking for n keys that are not there", [&] { for (size_t i = 0; i < n; i++) use(t->get((u64(1) << 32) + i).first); });
    r.of("1:size, bucket", [&] { use(t->size()); use(t->bucket()); }); whole(r, *t);
    auto u = std::make_unique<T>(*t);
    r.of("n:replacing n keys by others", [&] { for (size_t i = 0; i < n; i++) { u->erase(key(i)); u->set((u64(1) << 32) + i, i & 0xffff); } });
    r.of("n:erasing n keys", [&] { for (size_t i = n; i-- > 0;) t->erase(key(i)); });
    r.of("n:erasing keys that are not there", [&] { for (size_t i = 0; i < n; i++) t->erase(key(i)); });
    r.of("n:setting n keys in what is empty again", [&] { for (size_t i = 0; i < n; i++) t->set(key(i), i & 0xffff); });
    u = fresh(); r.of("n:reserve", [&] { u->reserve(n); }); r.of("n:setting n keys after reserve", [&] { for (size_t i = 0; i < n; i++) u->set(key(i), i & 0xffff); });
    r.of("n:one key set and erased n times", [&] { for (size_t i = 0; i < n; i++) { u->set(u64(1) << 32, 1); u->erase(u64(1) << 32); } });
    return r;
}
static const std::vector<size_t>& table_sizes() { static const std::vector<size_t> v{240, 257, 258, 259, 290, 330, 370, 410, 460, 500, 513, 515, 516, 530, 600, 660, 750, 820, 930, 1000, 1030}; return v; }
MC_SCOPE("C37", cost_table, 8) { unsigned l = unsigned(c.choose(3)); auto ns = big({5000, 60000, 130000}, {9000, 20000, 33000, 250000, 520000, 1000000}); if (l == 0) grows(c, "CHT<16,50>", 4, table_sizes(), ns, table<16, 50>, 5, true); else if (l == 1) grows(c, "CHT<16,90>", 4, table_sizes(), ns, table<16, 90>, 5, true); else grows(c, "CHT<0,80>", 4, table_sizes(), ns, table<0, 80>, 5, true); }
static Costs widths(unsigned kind, size_t n) {
    Costs r; auto val = [&](size_t i) -> u64 { u64 x = lcg(i, 4); return kind == 0 ? 0 : kind == 1 ? x >> (x % 64) : kind == 2 ? x | u64(1) << 63 : i & 1 ? 0 : i; };
    std::unique_ptr<sim_ds::CDRWArray> a; r.of("n:construction", [&] { a.reset(new sim_ds::CDRWArray(n)); });
    r.of("n:setting them all", [&] { for (size_t i = 0; i < n; i++) a->set(i, val(i)); }); r.of("n:getting them all", [&] { for (size_t i = 0; i < n; i++) use(a->get(i)); });
    r.of("n:setting them all to others", [&] { for (size_t i = n; i-- > 0;) a->set(i, val(i + n) >> 1); }); r.of("n:setting them all to 0", [&] { for (size_t i = 0; i < n; i++) a->set(i, 0); });
    r.of("n:one element to and fro", [&] { for (size_t i = 0; i < n; i++) a->set(n / 2, u64(1) << (i % 64)); });
    whole(r, *a);
    sim_ds::CDRWVector v; r.of("n:push_back of them all", [&] { for (size_t i = 0; i < n; i++) v.push_back(val(i)); }); r.of("n:push_back and pop_back in turn", [&] { for (size_t i = 0; i < n; i++) { if (i & 1) v.pop_back(); else v.push_back(i); } });
    r.of("n:resize by one and back", [&] { for (size_t i = 0; i < n; i++) v.resize(n + (i & 1)); }); r.of("n:resize by one, n times", [&] { for (size_t i = 0; i < n; i++) v.resize(n + i); });
    r.of("n:pop_back of them all", [&] { while (!v.empty()) v.pop_back(); }); r.of("n:reserve by one, n times", [&] { for (size_t i = 0; i < n; i++) v.reserve(i); }); r.of("1:size, capacity, clear", [&] { use(v.size()); use(v.capacity()); v.clear(); });
    whole(r, v); return r;
}
MC_SCOPE("C37", cost_widths, 8) { grows(c, "CDRWArray", 4, table_sizes(), big({4096, 60000}, {33000, 100000, 300000}), widths, 5, true); }
// ---- push and pop in turn, r at a time, at every size: no reallocation over and over
template <class V, class Push, class Pop> static void in_turn(mc::Ctx& c, const char* what, V v, Push push, Pop pop) {
    static std::map<std::string, double> unit; size_t top = size_t(mc::lvl(300, 1200, 60, 200)), by = c.pick(std::vector<size_t>{1, 2, 3, 8}); std::string of = std::string(what) + ", " + S(by) + " at a time"; c.note(of); c.log("%s", of.c_str());
    double all = 0; size_t ops = 0;
    for (size_t n = 0; n < top; n++) {
        double here = cost([&] { for (int k = 0; k < 40; k++) { for (size_t i = 0; i < by; i++) push(v, k); for (size_t i = 0; i < by; i++) pop(v); } });
        all += here; ops += 80 * by; push(v, 1); c.beat();
        // a resize or two of everything, and a constant for each operation
        double each = unit.count(what) ? unit[what] : here / double(80 * by); if (!unit.count(what) || (n < 16 && each < here / double(80 * by))) unit[what] = std::max(each, here / double(80 * by));
        if (n >= 16) MC_CHECK(here <= 4 * unit[what] * double(80 * by) + 16 * unit[what] * double(n + 10) + 8000, "%s: at %zu elements 40 rounds of push and pop take %.0f steps, %.2f each at small sizes", of.c_str(), n, here, unit[what]);
    }
    c.obs(ops); if (c.fresh()) c.state(hash_str(of));
}
MC_SCOPE("C37", cost_in_turn, 8) {
    unsigned k = unsigned(c.choose(6));
    if (k == 0) in_turn(c, "BitVector", sim_ds::BitVector(), [](auto& v, int i) { v.push_back(i & 1); }, [](auto& v) { v.resize(v.size() - 1); });
    else if (k == 1) in_turn(c, "FitVector", sim_ds::FitVector(17), [](auto& v, int i) { v.push_back(u64(i)); }, [](auto& v) { v.resize(v.size() - 1); });
    else if (k == 2) in_turn(c, "MultipleVector", SMultiple::make(4), [](auto& v, int i) { v.push_back({u64(i), 1}); }, [](auto& v) { v.resize(v.size() - 1); });
    else if (k == 3) in_turn(c, "CDRWVector", sim_ds::CDRWVector(), [](auto& v, int i) { v.push_back(u64(i)); }, [](auto& v) { v.pop_back(); });
    else if (k == 4) in_turn(c, "CDRWVector by resize", sim_ds::CDRWVector(), [](auto& v, int) { v.resize(v.size() + 1); }, [](auto& v) { v.resize(v.size() - 1); });
    else in_turn(c, "MinHeap", sim_ds::MinHeap(), [](auto& v, int i) { v.push(u64(i)); }, [](auto& v) { v.pop(); });
}
// ---- tries, automata and dictionaries: a key costs its length, whatever else is stored
static std::vector<std::string> some_keys(unsigned kind, size_t n) {
    std::vector<std::string> v; std::set<std::string> s;
    for (size_t i = 0; s.size() < n; i++) { std::string t; if (kind == 0) t = S(i); else if (kind == 1) { for (u64 x = i + 1; x; x /= 2) t += char('a' + (x & 1)); } else if (kind == 2) { for (u64 x = i, k = 0; k < 5; k++, x /= 16) t += char('a' + x % 16); } else { for (u64 x = i, k = 0; k < 4; k++, x /= 254) t += char(1 + (x + k * 7) % 250); } s.insert(t); }
    return {s.begin(), s.end()};
}
static size_t lengths(const std::vector<std::string>& v) { size_t l = 0; for (auto& k : v) l = std::max(l, k.size()); return l; }
static Costs trie(unsigned kind, size_t n) {
    Costs r; auto keys = some_keys(kind, n); double len = double(lengths(keys) + 1); using T = sim_ds::graph_util::Trie<u32>; T t;
    r.up("n:inserting n keys, by byte", cost([&] { for (size_t i = 0; i < n; i++) t.insert(keys[i], u32(i)); }) / len);
    for (auto& k : keys) { r.up("1:traverse, by byte", cost([&] { use(*t.traverse(k)); }) / len); r.up("1:inserting again, by byte", cost([&] { t.insert(k, 5); }) / len); std::string z = k + "zz"; r.up("1:traverse to a key that is not there, by byte", cost([&] { use(t.traverse(z) == nullptr); }) / len); }
    r.up("n:dfs, by byte", cost([&] { t.dfs([](auto&, size_t d) { use(d); }); }) / len); r.up("n:bfs, by byte", cost([&] { t.bfs([](auto&, size_t d) { use(d); }); }) / len);
    r.of("1:size", [&] { use(t.size()); });
    T u(t); r.of("1:moving it", [&] { T w(std::move(u)); u = std::move(w); }); r.up("n:copying it, by byte", cost([&] { T w(t); }) / len); return r;
}
MC_SCOPE("C37", cost_trie, 8) { grows(c, "Trie", 4, {120, 200, 256, 257, 300}, big({4000, 50000}, {8000, 100000}), trie); }
template <class Code> static Costs dictionary(unsigned kind, size_t n) {
    Costs r; auto keys = some_keys(kind, n); double len = double(lengths(keys) + 1); sim_ds::Samc<Code> s(keys.begin(), keys.end()); sim_ds::SamcDict<Code> d(keys.begin(), keys.end());
    for (size_t i = 0; i < n; i++) {
        auto& k = keys[i]; std::string z = k.substr(0, k.size() - 1) + "~";
        r.up("1:accept, by byte", cost([&] { use(s.accept(k)); }) / len); r.up("1:accept of a key that is not there, by byte", cost([&] { use(s.accept(z)); }) / len);
        r.up("1:lookup, by byte", cost([&] { use(d.lookup(k)); }) / len); r.up("1:lookup of a key that is not there, by byte", cost([&] { use(d.lookup(z)); }) / len); r.up("1:access, by byte", cost([&] { use(d.access(i).size()); }) / len);
    }
    r.of("1:moving", [&] { auto a = std::move(s); s = std::move(a); auto b = std::move(d); d = std::move(b); }); return r;
}
MC_SCOPE("C37", cost_dictionary, 8) { if (c.flip()) grows(c, "Samc, codes of 4 bytes", 4, {100, 300, 500}, big({2000, 6000}, {4000, 15000}), dictionary<u32>); else grows(c, "Samc, codes of 8 bytes", 4, {100, 300, 500}, big({2000, 6000}, {15000}), dictionary<u64>); }
// a word costs its length: the automaton is of a text of n letters
static std::string text(unsigned kind, size_t n) {
    std::string x, y; if (kind == 5) { x = "a"; y = "b"; while (x.size() < n) { std::string z = x + y; y = x; x = z; } x.resize(n); return x; }
    for (size_t i = 0; i < n; i++) x += char(kind == 0 ? 'a' : kind == 1 ? 'a' + lcg(i, 1) % 2 : kind == 2 ? 'a' + lcg(i, 2) % 4 : kind == 3 ? lcg(i, 3) | 1 : kind == 4 ? 'a' + i % 7 : kind == 6 ? (i + 1 == n ? 'b' : 'a') : kind == 7 ? (i % 64 == 63 ? 'b' : 'a') : 'a' + (i * 2 / n));
    return x;
}
static Costs oracle(unsigned kind, size_t n) {
    Costs r; std::string x = text(kind, n); sim_ds::FactorOracle o(x);
    for (size_t st = 0; st <= n; st += 1 + n / 3000) for (unsigned ch : {1, 97, 98, 99, 103, 255}) r.of("1:image", [&] { size_t s = st; use(o.image(s, uint8_t(ch))); });
    for (size_t i = 0; i + 40 <= n; i += 1 + n / 500) { std::string f = x.substr(i, 40); r.of("1:accept of 40 letters", [&] { use(o.accept(std::string_view(f))); }); std::string g = f + "~" + f; r.of("1:accept of 81 other letters", [&] { use(o.accept(std::string_view(g))); }); }
    r.of("n:accept of the text", [&] { use(o.accept(std::string_view(x))); }); whole(r, o); return r;
}
MC_SCOPE("C37", cost_oracle, 8) { grows(c, "FactorOracle", 9, {256, 300, 512}, big({4096, 20000}, {60000}), oracle); }
// ---- suffix arrays
static Costs suffix(unsigned kind, size_t n) {
    mc::Mute m; Costs r; std::string x = text(kind, n); std::unique_ptr<sim_ds::SuffixArray> s; r.of("N:construction", [&] { s.reset(new sim_ds::SuffixArray(x)); });
    for (size_t i = 0; i < n; i += 1 + n / 3000) { r.of("1:suffix", [&] { use(s->suffix(i).size()); }); r.of("1:suffix of some letters", [&] { use(s->suffix(i, 7).size()); }); r.of("1:char_at", [&] { use(s->char_at(i)); }); }
    r.of("n:writing the suffix array", [&] { std::ostringstream o; s->WriteSA(o); }); r.of("n:writing the LCP array", [&] { std::ostringstream o; s->WriteLCP(o); });
    streams(r, [&](auto& o) { s->Write(o); }, [&](auto& i) { sim_ds::SuffixArray t; t.Read(i); }); whole(r, *s); return r;
}
MC_SCOPE("C37", cost_suffix, 8) { grows(c, "SuffixArray", 9, {256, 300, 512, 700}, big({8192, 60000}, {20000, 200000}), suffix); }
// ---- matching
template <class M> static Costs linear_match(unsigned kind, size_t n) {                    // linear in text and pattern together, at the worst
    Costs r; std::string x = text(kind, n);
    for (size_t m : {size_t(1), size_t(2), size_t(7), size_t(63), n / 8, n / 2, n - 1}) for (unsigned pk = 0; pk < 9; pk++) {
        std::string p = pk < 3 ? x.substr(pk == 0 ? 0 : pk == 1 ? n - m : (n - m) / 2, m) : text(pk == 3 ? 6 : pk == 4 ? 0 : pk == 5 ? 5 : pk == 6 ? 7 : pk == 7 ? 4 : 1, m);
        r.of("n:preparing the pattern and searching", [&] { M k(p); use(k.find_all(x).size()); });
    }
    return r;
}
MC_SCOPE("C37", cost_kmp, 8) { grows(c, "Kmp", 9, {500, 512, 1000}, big({4096, 20000}, {9999, 100000}), linear_match<pm::Kmp>); }
MC_SCOPE("C37", cost_kmp_words, 8) {                                                         // every binary pattern, over texts made of it
    unsigned m = unsigned(c.choose(size_t(mc::lvl(9, 12, 4, 6)))) + 1, w = unsigned(c.choose(size_t(1) << m)); std::string p; for (unsigned i = 0; i < m; i++) p += char('a' + (w >> i & 1)); c.note(p); c.log("%s", p.c_str());
    static const double unit = [] { double u = 0; for (unsigned k = 0; k < 9; k++) { std::string x = text(k, 1000); for (auto q : {"a", "ab", "aab"}) u = std::max(u, cost([&] { pm::Kmp a(q); use(a.find_all(x).size()); }) / 1000); } return u; }();
    for (size_t cut = 0; cut <= m; cut++) for (char other : {'a', 'b'}) { std::string piece = p.substr(0, cut) + other, x; while (x.size() < 600) x += piece; double got = cost([&] { pm::Kmp a(p); use(a.find_all(x).size()); }); MC_CHECK(got <= 4 * unit * double(x.size() + m) + 200, "Kmp: searching %s in %zu letters of %s repeated takes %.0f steps, %.2f a letter elsewhere", p.c_str(), x.size(), piece.c_str(), got, unit); c.obs(1); }
    c.state(hash_str(p));
}
template <class M> static Costs any_match(unsigned kind, size_t n) {                       // never more than text times pattern; the pattern has 20 letters here
    Costs r; std::string x = text(kind, n);
    for (unsigned pk = 0; pk < 9; pk++) { std::string p = pk < 3 ? x.substr(pk == 0 ? 0 : pk == 1 ? n - 20 : n / 2, 20) : text(pk == 3 ? 6 : pk == 4 ? 0 : pk == 5 ? 5 : pk == 6 ? 7 : pk == 7 ? 4 : 1, 20); M k(p); r.of("n:searching", [&] { use(k.find_all(x).size()); }); }
    return r;
}
// the longer the pattern the fewer letters are looked at, when none of the text's letters is in the pattern: n is the length of the pattern here
template <class M> static void skips(mc::Ctx& c, const char* name) {
    size_t m = c.pick(std::vector<size_t>{16, 64, 100, 255, 256, 300, 1000}); unsigned kind = unsigned(c.choose(4)), tk = unsigned(c.choose(3)); std::string of = std::string(name) + " with a pattern of " + S(m) + ", kind " + S(kind) + ", text " + S(tk); c.note(of); c.log("%s", of.c_str());
    auto pat = [&](unsigned k, size_t l) { std::string p; for (size_t i = 0; i < l; i++) p += char(k == 0 ? 'A' : k == 1 ? 'A' + i % 26 : k == 2 ? 'A' + i % 2 : 'A' + lcg(i, 1) % 26); return p; };
    static const std::string texts[3] = {std::string(64000, 'z'), text(1, 64000), [] { std::string x; for (size_t i = 0; i < 64000; i++) x += char('a' + i % 26); return x; }()};
    static const double unit = [&] { double u = 0; for (unsigned k = 0; k < 4; k++) for (auto& x : texts) { M a(pat(k, 8)); u = std::max(u, cost([&] { use(a.find_all(x).size()); }) / (64000.0 / 8)); } return u; }();
    M a(pat(kind, m)); double got = cost([&] { use(a.find_all(texts[tk]).size()); }), most = 3 * unit * (64000.0 / double(m) + 1) + 200;
    MC_CHECK(got <= most, "%s: a text of 64000 letters none of which is in the pattern takes %.0f steps, at most %.0f expected (%.2f a window with a pattern of 8)", of.c_str(), got, most, unit);
    c.obs(1); c.state(hash_str(of));
}
#define MATCHER(M, low) MC_SCOPE("C37", cost_##low, 8) { grows(c, #M, 9, {500, 512, 1000}, big({4096, 30000}, {9999, 200000}), any_match<pm::M>); }
#define SKIPPER(M, low) MATCHER(M, low) MC_SCOPE("C37", cost_skips_##low, 4) { skips<pm::M>(c, #M); }
MATCHER(Simple, simple) SKIPPER(Bm, bm) SKIPPER(Bom, bom) MATCHER(TurboBom, turbobom) SKIPPER(SundayQS, qs) SKIPPER(SundayMS, ms)
// ---- histories: whatever the order of growing and shrinking, the whole history costs what its calls add up to
static void within(const std::string& of, double total, double work, double unit) {
#ifdef CALIBRATE
    static double worst = 0; double r = total / (work * unit); if (r > worst) { worst = r; FILE* f = fopen("/tmp/calib.txt", "a"); fprintf(f, "%.3f\t%s\t(history: %.0f of %.0f)\n", r, of.c_str(), total, work * unit); fclose(f); }
#else
    MC_CHECK(total <= 4 * work * unit + 500, "%s: %.0f steps for %.0f units of work, %.2f a unit elsewhere", of.c_str(), total, work, unit);
#endif
}
template <unsigned VB, unsigned LF> static void table_history(mc::Ctx& c) {
    using T = sim_ds::CHT<VB, LF>; static const double unit = [] { double u = 0; for (size_t n : table_sizes()) { Costs r = table<VB, LF>(3, n); for (auto op : {"n:setting n keys", "n:replacing n keys by others", "n:one key set and erased n times"}) u = std::max(u, r[op] / double(n)); } return u; }();
    T t(33u); if (!VB) t.set_value_width(16);
    std::deque<u64> keys; u64 next = 0; double total = 0, work = 16; std::string of = "CHT<" + S(VB) + "," + S(LF) + ">"; int waves = c.depth(mc::lvl(4, 5, 2, 3));
    static const size_t by[] = {1, 40, 300, 1100};
    for (int w = 0; w < waves; w++) {
        unsigned what = unsigned(c.choose(5)); size_t k = by[c.choose(what == 4 ? 1 : 4)];
        if ((what == 1 || what == 2) && keys.size() < k) throw mc::Prune{};
        static const char* names[] = {"set ", "erase the oldest ", "erase the newest ", "set and erase ", "reserve for twice as many"}; of += std::string("; ") + names[what] + (what == 4 ? "" : S(k)); c.log("%s%zu", names[what], k); c.note(of);
        total += cost([&] {
            if (what == 0) for (size_t i = 0; i < k; i++) { t.set(next * 5 + (u64(1) << 20), next & 0xffff); keys.push_back(next++ * 5 + (u64(1) << 20)); }
            else if (what == 1) for (size_t i = 0; i < k; i++) { t.erase(keys.front()); keys.pop_front(); }
            else if (what == 2) for (size_t i = 0; i < k; i++) { t.erase(keys.back()); keys.pop_back(); }
            else if (what == 3) for (size_t i = 0; i < k; i++) { t.set(7, 1); t.erase(7); }
            else t.reserve(2 * keys.size());
        });
        work += what == 4 ? double(2 * keys.size() + 1) : double(k * (1 + (what == 3))); c.beat(); within(of, total, work, unit);
    }
    MC_CHECK(t.size() == keys.size(), "%s: size() is %zu, want %zu", of.c_str(), size_t(t.size()), keys.size());
    c.obs(u64(waves)); c.state(hash_str(of));
}
MC_SCOPE("C37", cost_table_history, 16) { table_history<16, 50>(c); }
MC_SCOPE("C37", cost_table_history_dense, 16) { table_history<16, 90>(c); }
template <class V, class Make, class Push, class Pop> static void vector_history(mc::Ctx& c, const char* name, Make make, Push push, Pop pop, bool shrinks, bool reserves) {
    static const double unit = [&] { double u = 0; for (size_t n : {300, 512, 700, 1000, 1024, 1030, 1900}) { V v = make(); u = std::max(u, cost([&] { for (size_t i = 0; i < n; i++) push(v, i); }) / double(n)); u = std::max(u, cost([&] { for (size_t i = 0; i < n; i++) pop(v); }) / double(n)); } return u; }();
    V v = make(); double total = 0, work = 64; std::string of = name; int waves = c.depth(mc::lvl(4, 5, 2, 3)); static const size_t by[] = {1, 3, 60, 1100};
    for (int w = 0; w < waves; w++) {
        unsigned what = unsigned(c.choose(6)); size_t k = by[c.choose(what > 3 ? 1 : 4)]; if ((what == 4 && !shrinks) || (what == 5 && !reserves) || ((what == 1 || what == 3) && v.size() < k)) throw mc::Prune{};
        static const char* names[] = {"push_back ", "pop_back ", "resize up by ", "resize down by ", "shrink_to_fit", "reserve one more, then push_back 40 times"}; of += std::string("; ") + names[what] + (what > 3 ? "" : S(k)); c.log("%s%zu", names[what], k); c.note(of);
        size_t before = v.size();
        total += cost([&] {
            if (what == 0) for (size_t i = 0; i < k; i++) push(v, i);
            else if (what == 1) for (size_t i = 0; i < k; i++) pop(v);
            else if (what == 2) v.resize(v.size() + k); else if (what == 3) v.resize(v.size() - k);
            else if (what == 4) { if constexpr (std::is_same_v<V, sim_ds::CDRWVector> || std::is_same_v<V, sim_ds::BitVector>) v.shrink_to_fit(); }
            else { if constexpr (!std::is_same_v<V, sim_ds::MinHeap>) v.reserve(v.size() + 1); for (int i = 0; i < 40; i++) push(v, size_t(i)); }
        });
        work += what < 4 ? double(k) : what == 4 ? double(before + 64) : 40 + double(before); c.beat(); within(of, total, work, unit);
    }
    c.obs(u64(waves)); c.state(hash_str(of));
}
MC_SCOPE("C37", cost_vector_history, 16) {
    unsigned k = unsigned(c.choose(4));
    if (k == 0) vector_history<sim_ds::BitVector>(c, "BitVector", [] { return sim_ds::BitVector(); }, [](auto& v, size_t i) { v.push_back(i & 1); }, [](auto& v) { v.resize(v.size() - 1); }, true, true);
    else if (k == 1) vector_history<sim_ds::FitVector>(c, "FitVector", [] { return sim_ds::FitVector(17); }, [](auto& v, size_t i) { v.push_back(i); }, [](auto& v) { v.resize(v.size() - 1); }, false, true);
    else if (k == 2) vector_history<sim_ds::MultipleVector>(c, "MultipleVector", [] { return SMultiple::make(4); }, [](auto& v, size_t i) { v.push_back({i & 255, 1}); }, [](auto& v) { v.resize(v.size() - 1); }, false, true);
    else vector_history<sim_ds::CDRWVector>(c, "CDRWVector", [] { return sim_ds::CDRWVector(); }, [](auto& v, size_t i) { v.push_back(i); }, [](auto& v) { v.pop_back(); }, true, true);
}
