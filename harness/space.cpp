// C32: the space every structure takes - reported, stored, held on the heap - and how that grows under histories of changes.
// Heap bytes are counted by the allocator of the build without sanitizers; with sanitizers only reported sizes are compared.
#define MC_FAULTS 1
#include "subjects.hpp"
#include <sim_ds/sort.hpp>
using namespace subj;

// ---- measuring
static void limit(const char* what, const std::string& of, double got, double most) {
    if (!strncmp(what, "memory", 6) || !strncmp(what, "stored", 6)) most = 1.03 * most + 64;      // what an implementation may round up to
#ifdef CALIBRATE
    static std::map<std::string, double> worst; double r = got / most; auto& w = worst[what + std::string(" ~ ") + of.substr(0, of.find_first_of(" <,("))];
    if (r > w) { w = r; FILE* f = fopen("/tmp/calib.txt", "a"); fprintf(f, "%.3f\t%s ~ %s\t(%.0f of %.0f)\n", r, what, of.c_str(), got, most); fclose(f); }
#else
    MC_CHECK(got <= most, "%s: %s is %.0f, at most %.0f expected", of.c_str(), what, got, most);
#endif
}
struct Heap0 {                                 // heap use of the library between begin() and end()
    size_t live0 = 0, total0 = 0, blocks0 = 0; uint64_t allocs = 0; size_t held = 0, total = 0, blocks = 0, peak = 0;
    void begin() { live0 = mc::g_mem.live; total0 = mc::g_mem.total; blocks0 = mc::g_mem.blocks; mc::g_mem.peak = live0; mc::g_mem.allocs = 0; mc::g_mem.on = true; }
    void end() { mc::g_mem.on = false; held = mc::g_mem.live - live0; total = mc::g_mem.total - total0; blocks = mc::g_mem.blocks - blocks0; peak = mc::g_mem.peak - live0; allocs = mc::g_mem.allocs; }
};
template <class F> static Heap0 measured(F f) { Heap0 h; h.begin(); try { f(); } catch (...) { mc::g_mem.on = false; throw; } h.end(); return h; }
constexpr bool kHeap = !MC_ASAN;

// an object, its copy and what is loaded from its stored form: none takes more than `most` heap bytes, the object itself may hold
// `slack` times that; and the size it reports is the size of the stored form, give or take a few words
template <class S> static void stored_size(const std::string& of, const S& s, const std::string& bytes) {
    double rep = double(s.size_in_bytes()), w = double(bytes.size());
    limit("size_in_bytes() beyond the bytes written", of, rep - w + 100, 116);
    limit("bytes written beyond size_in_bytes()", of, w - rep + 100, 116);
}
template <class S> static void copy_held(const std::string& of, const S& s, double most) {
    if (!kHeap) return;
    std::unique_ptr<S> t; auto h = measured([&] { t.reset(new S(s)); });
    limit("memory of a copy", of, double(h.held), most + double(sizeof(S)));
}
template <class Sub> static std::string image_of(const typename Sub::S& s) { std::ostringstream os; Sub::write(s, os); return os.str(); }
template <class Sub> static void loaded_held(const std::string& of, const std::string& bytes, double most) {
    if (!kHeap) return;
    std::istringstream is(bytes); std::unique_ptr<typename Sub::S> t; auto h = measured([&] { t.reset(new typename Sub::S(Sub::load(is))); });
    limit("memory of a loaded object", of, double(h.held), most + double(sizeof(typename Sub::S)));
}
static std::vector<size_t> sizes(size_t dense, size_t top) {
    std::vector<size_t> v; for (size_t n = 0; n <= dense; n++) v.push_back(n);
    for (size_t b = 64; b <= top; b *= 2) for (size_t n : {b - 1, b, b + 1, b + b / 2}) if (n > dense && n <= top) v.push_back(n);
    return v;
}
static void done(mc::Ctx& c, const std::string& of, u64 n = 1) { c.obs(n); if (c.fresh()) c.state(hash_str(of)); }
static const std::vector<size_t>& dense_sizes() { static const auto v = sizes(size_t(mc::lvl(700, 2100, 130, 300)), size_t(mc::lvl(40000, 200000, 3000, 10000))); return v; }
static std::string S(size_t n) { return std::to_string(n); }
static std::string list(const std::vector<size_t>& v) { std::string s = "{"; for (auto x : v) s += (s.size() > 1 ? "," : "") + S(x); return s + "}"; }

// ---- vectors of bits and of fixed-width numbers
MC_SCOPE("C32", space_bits, 8) {
    unsigned how = unsigned(c.choose(4)); size_t n = c.pick(dense_sizes());
    std::string of = "BitVector of " + S(n) + " bits"; c.note(of); c.log("%s", of.c_str());
    std::unique_ptr<sim_ds::BitVector> s;
    auto h = measured([&] {
        s.reset(new sim_ds::BitVector(how == 0 ? n : 0));
        if (how == 1) for (size_t i = 0; i < n; i++) s->push_back(i % 3);
        if (how == 2) s->resize(n, true);
        if (how == 3) { s->reserve(n); for (size_t i = 0; i < n; i++) s->push_back(i & 1); }
    });
    double bytes = double(n) / 8 + 64;
    if (kHeap) {
        limit(how == 1 ? "memory after push_back" : "memory", of, double(h.held), (how == 1 ? 2.1 : 1) * bytes + 64);
        limit("memory allocated in all", of, double(h.total), how == 1 ? 4.2 * bytes + 256 : bytes + 64);
        limit("allocations", of, double(h.allocs), how == 1 ? 4 + 1.5 * std::log2(n + 2) : 4);
    }
    copy_held(of, *s, bytes);
    std::string w = image_of<SBitVector>(*s); stored_size(of, *s, w); limit("stored size", of, double(w.size()), bytes); loaded_held<SBitVector>(of, w, bytes);
    done(c, of + S(how), 6);
}
MC_SCOPE("C32", space_rank, 8) {
    bool sel = c.flip(); unsigned kind = unsigned(c.choose(4)); size_t n = c.pick(dense_sizes());
    std::string of = std::string(sel ? "SuccinctBitVector<true>" : "SuccinctBitVector<false>") + " of " + S(n) + " bits, pattern " + S(kind); c.note(of); c.log("%s", of.c_str());
    sim_ds::BitVector b(n); Bits p = pattern(n, kind); size_t ones = 0; for (size_t i = 0; i < n; i++) { b[i] = p[i]; ones += p[i]; }
    double most = 1.3 * double(n) / 8 + (sel ? double(ones) / 64 : 0) + 160;
    auto go = [&](auto tag) {
        constexpr bool Sel = decltype(tag)::value; using T = sim_ds::SuccinctBitVector<Sel>;
        std::unique_ptr<T> s; auto h = measured([&] { s.reset(new T(static_cast<const sim_ds::BitVector&>(b))); });
        if (kHeap) limit("memory", of, double(h.held), 1.2 * most + sizeof(T));
        copy_held(of, *s, most); std::string w = image_of<SSuccinct<Sel>>(*s); stored_size(of, *s, w); limit("stored size", of, double(w.size()), most); loaded_held<SSuccinct<Sel>>(of, w, most);
    };
    if (sel) go(std::true_type{}); else go(std::false_type{});
    done(c, of, 5);
}
MC_SCOPE("C32", space_fit, 8) {
    unsigned w = unsigned(c.choose(64)) + 1, how = unsigned(c.choose(4));
    static const auto ns = sizes(size_t(mc::lvl(70, 300, 20, 70)), size_t(mc::lvl(3000, 20000, 300, 1000)));
    size_t n = c.pick(ns); std::string of = "FitVector of " + S(n) + " numbers of " + S(w) + " bits"; c.note(of); c.log("%s", of.c_str());
    std::unique_ptr<sim_ds::FitVector> s;
    auto h = measured([&] {
        s.reset(how == 0 ? new sim_ds::FitVector(w, n) : new sim_ds::FitVector(w));
        if (how == 1) for (size_t i = 0; i < n; i++) s->push_back(i & mask(w));
        if (how == 2) s->resize(n, 1);
        if (how == 3) { s->reserve(n); for (size_t i = 0; i < n; i++) s->push_back(i & mask(w)); }
    });
    double bytes = double(n) * w / 8 + 48;
    if (kHeap) {
        limit(how == 1 ? "memory after push_back" : "memory", of, double(h.held), (how == 1 ? 2.1 : 1) * bytes + 64);
        limit("memory allocated in all", of, double(h.total), how == 1 ? 4.2 * bytes + 256 : bytes + 64);
        limit("allocations", of, double(h.allocs), how == 1 ? 6 + 1.5 * std::log2(n + 2) : 4);
    }
    copy_held(of, *s, bytes); std::string i = image_of<SFitVector>(*s); stored_size(of, *s, i); limit("stored size", of, double(i.size()), bytes); loaded_held<SFitVector>(of, i, bytes);
    done(c, of + S(how), 6);
}
// a container is as small as its numbers: constructed from values of at most w bits
MC_SCOPE("C32", space_fit_values, 4) {
    unsigned w = unsigned(c.choose(64)) + 1; size_t n = c.pick(std::vector<size_t>{1, 2, 63, 64, 65, 500});
    std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(i == n / 2 ? mask(w) : lcg(i, w) & mask(w));
    std::string of = "FitVector from " + S(n) + " numbers of at most " + S(w) + " bits"; c.note(of); c.log("%s", of.c_str());
    sim_ds::FitVector s(v); limit("size_in_bytes()", of, double(s.size_in_bytes()), double(n) * w / 8 + 48); done(c, of);
}
// ---- numbers in layers
static double layers_cost(const std::vector<size_t>& v, const std::vector<size_t>& units) {      // bytes of the layout: numbers, one continuation bit per number that has a further layer
    double bits = 0; size_t from = 0;
    for (size_t l = 0; l < units.size(); l++) { size_t k = 0; for (auto x : v) k += l == 0 || width(x) > from; bits += double(k) * (double(units[l]) + 1.3 * (l + 1 < units.size())); from += units[l]; }
    return bits / 8;
}
MC_SCOPE("C32", space_layers, 8) {
    unsigned shape = unsigned(c.choose(8)), u = unsigned(c.choose(12)); size_t n = c.pick(std::vector<size_t>{1, 2, 3, 64, 65, 400, 513, 3000});
    std::vector<size_t> v;
    for (size_t i = 0; i < n; i++) { u64 x = lcg(i, shape); v.push_back(shape == 0 ? x % 2 : shape == 1 ? x & 255 : shape == 2 ? x >> (x % 64) : shape == 3 ? (i % 100 ? x & 15 : x) : shape == 4 ? x : shape == 5 ? u64(1) << (i % 64) : shape == 6 ? (i % 64 ? x & 3 : x & mask(40)) : 0); }
    static const std::vector<std::vector<size_t>> plans{{}, {64}, {8}, {4}, {16}, {1, 63}, {8, 56}, {32, 32}, {4, 12, 48}, {8, 8, 8, 8, 8, 8, 8, 8}, {20, 44}, {7, 7, 7, 43}};
    std::vector<size_t> plan = plans[u], want; size_t widest = 1; for (auto x : v) widest = std::max<size_t>(widest, width(x));
    size_t sum = std::accumulate(plan.begin(), plan.end(), size_t(0)); if (!plan.empty() && sum < widest) throw mc::Prune{};
    std::string of = "DacVector of " + S(n) + " numbers of shape " + S(shape) + ", layers " + (plan.empty() ? "chosen by itself" : list(plan)); c.note(of); c.log("%s", of.c_str());
    double most = 0;
    if (!plan.empty()) { most = layers_cost(v, plan) + 144.0 * double(plan.size()) + 96; }
    else {                                     // no dearer than any uniform plan of at most eight layers
        most = 1e18;
        for (size_t unit = (widest + 7) / 8; unit <= 64; unit++) { std::vector<size_t> p; for (size_t k = 0; k < widest; k += unit) p.push_back(std::min(unit, widest - k)); most = std::min(most, layers_cost(v, p)); }
        most = 1.05 * most + 144.0 * 8 + 96;
    }
    std::unique_ptr<sim_ds::DacVector> s; auto h = measured([&] { s.reset(plan.empty() ? new sim_ds::DacVector(v) : new sim_ds::DacVector(v, plan)); });
    if (kHeap) limit("memory", of, double(h.held), 1.5 * most);
    copy_held(of, *s, most); std::string w = image_of<SDac>(*s); stored_size(of, *s, w); limit("stored size", of, double(w.size()), most); loaded_held<SDac>(of, w, most);
    done(c, of, 5);
}
// ---- symbols
template <unsigned U> static void symbols(mc::Ctx& c) {
    unsigned kind = unsigned(c.choose(3)); static const auto ns = sizes(size_t(mc::lvl(300, 1100, 66, 130)), size_t(mc::lvl(20000, 100000, 1000, 3000))); size_t n = c.pick(ns);
    std::string of = "MultiBitVector<" + S(U) + "> of " + S(n) + " symbols, kind " + S(kind); c.note(of); c.log("%s", of.c_str());
    std::unique_ptr<typename SMulti<U>::S> s;
    auto h = measured([&] { s.reset(new typename SMulti<U>::S); for (size_t i = 0; i < n; i++) s->v.set(i, uint8_t(SMulti<U>::sym(i, kind))); s->v.build(); });
    double most = double(n) * (64.0 / (64 / U) + 1.1 * ((1 << U) - 1)) / 8 + 24.0 * (1 << U) + 96;
    if (kHeap) { limit("memory", of, double(h.held), 2.2 * most); limit("memory allocated in all", of, double(h.total), 4.5 * most + 256); }
    copy_held(of, *s, most); std::string w = image_of<SMulti<U>>(*s); stored_size(of, s->v, w); limit("stored size", of, double(w.size()), most); loaded_held<SMulti<U>>(of, w, most);
    done(c, of, 6);
}
MC_SCOPE("C32", space_symbols1, 8) { symbols<1>(c); }
MC_SCOPE("C32", space_symbols2, 8) { symbols<2>(c); }
MC_SCOPE("C32", space_symbols3, 8) { symbols<3>(c); }
MC_SCOPE("C32", space_wavelet, 8) {
    size_t al = c.pick(std::vector<size_t>{1, 2, 3, 4, 5, 8, 9, 16, 17, 64, 65, 200, 256}); static const auto ns = sizes(size_t(mc::lvl(20, 70, 6, 20)), size_t(mc::lvl(10000, 60000, 600, 2000)));
    size_t n = c.pick(ns); unsigned skew = unsigned(c.choose(2)); if (!n) throw mc::Prune{};
    std::vector<int> v; size_t top = 0; for (size_t i = 0; i < n; i++) { v.push_back(int(skew ? (i % 50 ? 0 : lcg(i, 3) % al) : lcg(i, 3) % al)); top = std::max(top, size_t(v.back())); }
    std::string of = "WaveletTree of " + S(n) + " symbols below " + S(al); c.note(of); c.log("%s", of.c_str());
    unsigned height = std::max(1u, width(top)); double nodes = double((size_t(1) << height) - 1), most = 1.3 * double(n) * height / 8 + nodes * 128 + 128;
    std::unique_ptr<sim_ds::WaveletTree> s; auto h = measured([&] { s.reset(new sim_ds::WaveletTree(v)); });
    if (kHeap) { limit("memory", of, double(h.held), 2 * most); limit("memory while building", of, double(h.peak), 4 * most); }
    copy_held(of, *s, most); std::string w = image_of<SWavelet>(*s); stored_size(of, *s, w); limit("stored size", of, double(w.size()), most); loaded_held<SWavelet>(of, w, most);
    done(c, of + S(skew), 6);
}
MC_SCOPE("C32", space_records, 8) {
    static const std::vector<std::vector<size_t>> shapes{{1}, {8}, {3, 4, 7}, {1, 1}, {2, 5, 8, 1}};
    auto& shape = c.pick(shapes); unsigned how = unsigned(c.choose(3)); static const auto ns = sizes(size_t(mc::lvl(200, 600, 40, 100)), size_t(mc::lvl(10000, 60000, 400, 2000))); size_t n = c.pick(ns);
    size_t record = std::accumulate(shape.begin(), shape.end(), size_t(0)); std::string of = "MultipleVector of " + S(n) + " records " + list(shape); c.note(of); c.log("%s", of.c_str());
    std::unique_ptr<sim_ds::MultipleVector> s;
    auto h = measured([&] { s.reset(new sim_ds::MultipleVector); s->set_element_sizes(shape); if (how == 0) for (size_t i = 0; i < n; i++) s->push_back({i & 255}); else if (how == 1) for (size_t i = 0; i < n; i++) s->emplace_back(); else s->resize(n); });
    double bytes = double(n * record) + 24.0 * double(shape.size()) + 64;
    if (kHeap) { limit(how < 2 ? "memory after push_back" : "memory", of, double(h.held), (how < 2 ? 2.1 : 1) * bytes + 128); limit("memory allocated in all", of, double(h.total), (how < 2 ? 4.2 : 1) * bytes + 256); limit("allocations", of, double(h.allocs), how < 2 ? 14 + 1.5 * std::log2(n + 2) : 14); }
    copy_held(of, *s, bytes); std::string w = image_of<SMultiple>(*s); stored_size(of, *s, w); limit("stored size", of, double(w.size()), bytes); loaded_held<SMultiple>(of, w, bytes);
    done(c, of + S(how), 6);
}
// ---- heaps, sorting in place

MC_SCOPE("C32", space_heaps, 8) {
    static const auto ns = sizes(size_t(mc::lvl(300, 1000, 40, 100)), size_t(mc::lvl(10000, 100000, 400, 2000))); size_t n = c.pick(ns); unsigned shape = unsigned(c.choose(6));
    std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? lcg(i, 1) % 10 : shape == 3 ? lcg(i, 2) : shape == 4 ? 7 : (i & 1 ? i : n - i));
    std::string of = "heap of " + S(n) + " values of shape " + S(shape); c.note(of); c.log("%s", of.c_str());
    if (kHeap) {
        std::unique_ptr<sim_ds::MinHeap> s; auto h = measured([&] { s.reset(new sim_ds::MinHeap(v)); });
        limit("memory of a heap made from an array", of, double(h.held), double(8 * n) + 64);
        copy_held(of, *s, double(8 * n) + 64);
        s.reset(); h = measured([&] { s.reset(new sim_ds::MinHeap); for (auto x : v) s->push(x); });
        limit("memory after push", of, double(h.held), double(16 * n) + 128); limit("memory allocated by push", of, double(h.total), double(34 * n) + 256);
        h = measured([&] { for (size_t i = 0; i < n; i++) s->pop(); }); limit("memory allocated by pop", of, double(h.total), 0.5);
        std::vector<size_t> a = v; h = measured([&] { sim_ds::HeapSort(a.begin(), a.end()); }); limit("memory allocated by HeapSort", of, double(h.total), 0.5);
    }
    std::vector<size_t> a = v; u64 comparisons = 0; sim_ds::HeapSort(a.begin(), a.end(), [&](auto l, auto r) { comparisons++; return l < r; });
    limit("comparisons of HeapSort", of, double(comparisons), 2.0 * double(n) * std::log2(double(n) + 2) + 4.0 * double(n) + 4);
    done(c, of, 8);
}
// ---- initializable arrays: a constant number of words beside the elements (in place) or two per element (Folklore)
template <class T, size_t N> static void in_place() {
    using A = sim_ds::InitializableArray<T, N>;
    limit("size of the object", "InitializableArray of " + S(N) + " elements of " + S(sizeof(T)) + " bytes", double(sizeof(A)), double((N + 2) * sizeof(T)) + 32);
    if (kHeap) { auto h = measured([&] { auto a = std::make_unique<A>(T(1)); for (size_t i = 0; i < N; i += 3) a->set(i, T(2)); a->fill(T(3)); for (size_t i = 0; i < N; i += 2) a->set(i, T(2)); A b(*a); b.fill(T(5)); });
        limit("memory allocated", "InitializableArray", double(h.total), double(sizeof(A)) + 0.5); }
}
MC_SCOPE("C32", space_arrays, 4) {
    size_t n = c.pick(dense_sizes()); std::string of = "InitializableArrayFolklore of " + S(n); c.note(of); c.log("%s", of.c_str());
    if (n == 0) { in_place<u64, 1>(); in_place<u64, 2>(); in_place<u64, 101>(); in_place<u64, 4096>(); in_place<uint8_t, 3>(); in_place<uint8_t, 100>(); in_place<uint8_t, 250>(); in_place<uint16_t, 4000>(); in_place<u32, 777>(); in_place<u32, 70000>(); in_place<int, 64>(); in_place<uint16_t, 64>(); in_place<bool, 2>(); }
    using A = sim_ds::InitializableArrayFolklore<u64>; std::unique_ptr<A> a;
    auto h = measured([&] { a.reset(new A(n, 5)); for (size_t round = 0; round < 3; round++) { for (size_t i = 0; i < n; i++) a->set((i * 7 + round) % n, i); if (n) a->fill(round); } for (size_t i = 0; i < n; i++) a->set(i, i); });
    if (kHeap) { limit("memory", of, double(h.held), 32.5 * double(n) + 128); limit("memory allocated in all", of, double(h.total), 50.0 * double(n) + 256); copy_held(of, *a, 24.0 * double(n) + 64); }
    done(c, of, 3);
}
// ---- hash tables: as many buckets as the largest number of keys ever held asks for, in every history
template <unsigned VB, unsigned LF> static double buckets_for(double keys) { return 4.0 * keys * 100 / LF + 8; }
template <unsigned VB, unsigned LF> static void table_histories(mc::Ctx& c) {
    using T = sim_ds::CHT<VB, LF>;
    size_t first = c.pick(std::vector<size_t>{1, 2, 8, 64}); int waves = mc::lvl(3, 4, 2, 3);
    T t(20, first); if (!VB) t.set_value_width(16);
    static const std::vector<size_t> ups{1, 3, 7, 30, 200}, downs{1, 2, 6, 29, 150, 200};
    std::string of = "CHT<" + S(VB) + "," + S(LF) + "> with " + S(first) + " buckets at first"; size_t most = 0; std::vector<u64> keys; u64 next = 0; Heap0 h; size_t sets = 0;
    auto check = [&] {
        if (t.bucket() > first) limit("buckets", of, double(t.bucket()), buckets_for<VB, LF>(double(most)));
        if (!keys.empty()) MC_CHECK(t.get(keys.back()).first, "%s: a key is missing", of.c_str());
    };
    size_t total = 0;
    for (int w = 0; w < waves; w++) {
        size_t k = c.choose(ups.size() + downs.size());
        bool up = k < ups.size(); size_t by = up ? ups[k] : downs[k - ups.size()];
        if (!up && keys.size() < by) throw mc::Prune{};
        of += (up ? ", +" : ", -") + S(by); c.log("%s %zu keys", up ? "insert" : "erase", by); c.note(of);
        auto m = measured([&] {
            for (size_t i = 0; i < by; i++) {
                if (up) { t.set(next * 3, next & 0xffff); keys.push_back(next++ * 3); most = std::max(most, keys.size()); sets++; }
                else { t.erase(keys.front()); keys.erase(keys.begin()); sets++; }
                mc::g_mem.on = false; check(); mc::g_mem.on = true;
            }
        });
        total += m.total;
    }
    if (kHeap) {
        double per = (20.0 + 4 + 16) / 8, b = std::max(double(first), buckets_for<VB, LF>(double(most)));
        copy_held(of, t, b * per + 128);
        limit("memory allocated in all", of, double(total), 8 * b * per + 600.0 * waves + double(sets) * 1600);
    }
    done(c, of, 3);
}
// removals give buckets back: whatever was held before, at most 400/(load factor - 1) buckets per key held now, and 512
template <unsigned LF> static void table_shrinks(mc::Ctx& c) {
    sim_ds::CHT<8, LF> t(22); std::deque<u64> keys; u64 next = 0; int waves = mc::lvl(2, 3, 1, 2);
    std::string of = "CHT<8," + S(LF) + ">"; static const std::vector<size_t> ups{20, 700, 5000}, keep{0, 1, 15, 90, 600};
    for (int w = 0; w < waves; w++) {
        size_t up = c.pick(ups), left = c.pick(keep); unsigned order = unsigned(c.choose(3));
        if (left > keys.size() + up) throw mc::Prune{};
        of += ", +" + S(up) + " down to " + S(left) + (order == 0 ? " oldest first" : order == 1 ? " youngest first" : " from both ends"); c.log("insert %zu, then erase down to %zu, order %u", up, left, order); c.note(of);
        auto check = [&] { limit("buckets after removals", of, double(t.bucket()), 400.0 / (LF - 1) * double(keys.size() + 1) + 512); };
        for (size_t i = 0; i < up; i++) { t.set(next * 5, next & 255); keys.push_back(next++ * 5); if (i % 7 == 0) check(); }
        while (keys.size() > left) {
            bool front = order == 0 || (order == 2 && keys.size() % 2); u64 k = front ? keys.front() : keys.back();
            t.erase(k); if (front) keys.pop_front(); else keys.pop_back(); check();
        }
        MC_CHECK(t.size() == keys.size(), "%s: size() = %zu, want %zu", of.c_str(), t.size(), keys.size());
        for (u64 k : keys) MC_CHECK(t.get(k).first && t.get(k).second == (k / 5 & 255), "%s: key %llu is missing", of.c_str(), ull(k));
        c.obs(up);
    }
    done(c, of, 3);
}
MC_SCOPE("C32", space_table_shrinks, 8) { switch (c.choose(4)) { case 0: return table_shrinks<20>(c); case 1: return table_shrinks<50>(c); case 2: return table_shrinks<75>(c); default: return table_shrinks<95>(c); } }
MC_SCOPE("C32", space_table, 8) { table_histories<16, 50>(c); }
MC_SCOPE("C32", space_table_dense, 8) { table_histories<16, 90>(c); }
MC_SCOPE("C32", space_table_width0, 8) { table_histories<0, 50>(c); }
// every bucket takes what is left of the key, four flags and the value
MC_SCOPE("C32", space_buckets, 4) {
    unsigned kb = unsigned(c.choose(60)) + 1; size_t b = size_t(1) << c.choose(12); unsigned vw = unsigned(c.of({1, 7, 16, 64})); std::string of = "table of " + S(b) + " buckets, keys of " + S(kb) + " bits, values of " + S(vw); c.note(of); c.log("%s", of.c_str());
    if (kHeap) {
        using T = sim_ds::CHT<0, 50>; std::unique_ptr<T> t; auto h = measured([&] { t.reset(new T(kb, b)); t->set_value_width(vw); });
        double bits = double(b) * (std::max(0.0, double(kb) - std::log2(double(b))) + 4 + vw);
        limit("memory", of, double(h.held), bits / 8 + 64 + sizeof(T)); copy_held(of, *t, bits / 8 + 64);
    }
    done(c, of, 2);
}
// ---- variable-width arrays: seven bits per element, and per value its width and a hash table entry
MC_SCOPE("C32", space_widths, 8) {
    unsigned shape = unsigned(c.choose(6)); size_t n = c.pick(std::vector<size_t>{1, 2, 8, 64, 65, 1000, 5000}); std::vector<u64> v;
    for (size_t i = 0; i < n; i++) { u64 x = lcg(i, shape); v.push_back(shape == 0 ? 0 : shape == 1 ? 1 : shape == 2 ? (i % 10 ? 0 : x) : shape == 3 ? x >> (x % 64) : shape == 4 ? x | u64(1) << 63 : x & 255); }
    unsigned order = unsigned(c.choose(5)); std::string of = "CDRWArray of " + S(n) + " values of shape " + S(shape) + ", order " + S(order); c.note(of); c.log("%s", of.c_str());
    if (kHeap) {
        std::unique_ptr<sim_ds::CDRWArray> s; auto h = measured([&] {
            s.reset(new sim_ds::CDRWArray(n));
            for (size_t i = 0; i < n; i++) s->set(order == 0 ? i : n - 1 - i, v[order == 0 ? i : n - 1 - i]);
            if (order == 2) for (size_t i = 0; i < n; i++) { s->set(i, i & 1); s->set(i, v[i]); }
            if (order == 3) for (size_t i = 0; i < n; i++) { for (unsigned w = 0; w < 64; w++) s->set(i, u64(1) << w); s->set(i, v[i]); }       // through every width, one element at a time
            if (order == 4) for (size_t i = n; i-- > 0;) { for (unsigned w = 64; w-- > 0;) { s->set(i, ~u64(0) >> w); if (w % 5 == 0) s->set(i, 0); } s->set(i, v[i]); }
        });
        double bits = 7.0 * double(n); std::map<unsigned, double> per; for (auto x : v) if (x) per[width(x)]++;
        if (order == 2) per[1] = std::max(per[1], double(n) / 2 + 1);
        double kbits = std::max(1u, width(n - 1)); for (auto& [w, k] : per) bits += (8 * k + 8) * (kbits + 4 + w);
        double most = bits / 8 + 64 * (8 * 8.0 + 8 * (kbits + 4) / 8 + 40);
        limit("memory", of, double(h.held), most + sizeof(*s)); copy_held(of, *s, most);
    }
    done(c, of, 2);
}
MC_SCOPE("C32", space_widths_vector, 8) {
    size_t first = c.pick(std::vector<size_t>{0, 1, 2, 9, 100}); int waves = mc::lvl(3, 4, 2, 2); sim_ds::CDRWVector s(first); std::string of = "CDRWVector(" + S(first) + ")"; double most = double(first);
    static const std::vector<size_t> by{1, 2, 5, 17, 60};
    for (int w = 0; w < waves; w++) {
        size_t k = c.choose(3 * by.size() + 4), d = by[k % by.size()]; const char* what = k < 5 ? "push_back" : k < 10 ? "pop_back" : k < 15 ? "resize +" : k == 15 ? "shrink_to_fit" : k == 16 ? "reserve(50)" : k == 17 ? "clear" : "resize(n/4)";
        of += std::string("; ") + what + (k < 15 ? " " + S(d) : ""); c.log("%s %zu", what, k < 15 ? d : size_t(0)); c.note(of);
        if (k >= 5 && k < 10 && s.size() < d) throw mc::Prune{};
        size_t before = s.capacity(), allocated = 0;
        if (k < 10) for (size_t i = 0; i < d; i++) {
            size_t cap = s.capacity(); if (k < 5) s.push_back(i); else s.pop_back();
            allocated += s.capacity() != cap ? s.capacity() : 0; most = std::max(most, double(s.size()));
            limit("capacity", of, double(s.capacity()), std::max(2 * most, double(before)));
            if (k >= 5) limit("capacity after pop_back", of, double(s.capacity()), 3.0 * double(s.size()) + 6);
        } else if (k < 15) { s.resize(s.size() + d); most = std::max(most, double(s.size())); limit("capacity", of, double(s.capacity()), std::max(2 * most, double(before))); }
        else if (k == 15) { s.shrink_to_fit(); limit("capacity after shrink_to_fit", of, double(s.capacity()), double(s.size()) + 0.5); }
        else if (k == 17) s.clear();
        else if (k == 18) s.resize(s.size() / 4);
        else { s.reserve(50); most = std::max(most, 50.0); limit("capacity", of, double(s.capacity()), std::max(2 * most, double(before))); }
        most = std::max(most, double(before) / 2);
        limit("capacity moved by growing one by one", of, double(allocated), 4.0 * double(s.size() + d) + 2.0 * double(before) + 4);
        MC_CHECK(s.capacity() >= s.size(), "%s: capacity %zu below the size %zu", of.c_str(), s.capacity(), s.size());
    }
    done(c, of, 3);
}
// ---- tries, automata, dictionaries
static std::vector<std::string> some_keys(unsigned kind, size_t n) {
    std::set<std::string> s;
    for (size_t i = 0; s.size() < n && i < 4 * n + 4; i++) s.insert(kind == 0 ? S(i) : kind == 1 ? std::string(i % 40, 'a') + S(i / 40) : kind == 2 ? std::string(1, char(1 + i % 250)) + S(lcg(i, 1) % 100) : [&] { std::string t; for (u64 x = i + 1; x; x /= 2) t += char('a' + (x & 1)); return t; }());
    return {s.begin(), s.end()};
}
MC_SCOPE("C32", space_trie, 8) {
    unsigned kind = unsigned(c.choose(4)); static const auto ns = sizes(size_t(mc::lvl(70, 300, 20, 40)), size_t(mc::lvl(2000, 8000, 200, 800))); size_t n = c.pick(ns); auto keys = some_keys(kind, n);
    std::set<std::string> prefixes{""}; for (auto& k : keys) for (size_t i = 1; i <= k.size(); i++) prefixes.insert(k.substr(0, i));
    std::string of = "Trie of " + S(keys.size()) + " keys of kind " + S(kind); c.note(of); c.log("%s", of.c_str());
    using T = sim_ds::graph_util::Trie<u32>; std::unique_ptr<T> t; auto h = measured([&] { t.reset(new T); for (size_t r = 0; r < 2; r++) for (size_t i = 0; i < keys.size(); i++) t->insert(keys[i], u32(i)); });
    double nodes = double(prefixes.size() + keys.size()); limit("nodes", of, double(t->size()), nodes + 0.5);
    if (kHeap) { limit("memory", of, double(h.held), 180 * nodes + 256); limit("memory allocated in all", of, double(h.total), 340 * nodes + 512); copy_held(of, *t, 128 * nodes + 128); }
    done(c, of, 4);
}
MC_SCOPE("C32", space_texts, 8) {
    unsigned kind = unsigned(c.choose(6)); static const auto ns = sizes(size_t(mc::lvl(130, 600, 40, 80)), size_t(mc::lvl(5000, 50000, 300, 1000))); size_t n = c.pick(ns);
    std::string x; for (size_t i = 0; i < n; i++) x += char(kind == 0 ? 'a' : kind == 1 ? 'a' + lcg(i, 1) % 2 : kind == 2 ? 'a' + lcg(i, 2) % 4 : kind == 3 ? lcg(i, 3) : kind == 4 ? 'a' + i % 7 : 'a' + (i * i / 3) % 3);
    std::string of = "text of " + S(n) + " bytes of kind " + S(kind); c.note(of); c.log("%s", of.c_str());
    if (kHeap) {
        std::unique_ptr<sim_ds::FactorOracle> o; auto h = measured([&] { o.reset(new sim_ds::FactorOracle(x)); });
        limit("memory of a factor oracle", of, double(h.held), 2 * 28.0 * double(n + 1) + 4096); copy_held(of, *o, 28.0 * double(n + 1) + 2048); limit("memory while building a factor oracle", of, double(h.peak), 120.0 * double(n + 1) + 8192);
        mc::Mute m; std::unique_ptr<sim_ds::SuffixArray> s; h = measured([&] { s.reset(new sim_ds::SuffixArray(x)); });
        limit("memory of a suffix array", of, double(h.held), 40.0 * double(n) + 512); limit("memory while building a suffix array", of, double(h.peak), 90.0 * double(n) + 12288);
    }
    done(c, of, 4);
}
template <class Code> static void dictionaries(mc::Ctx& c) {
    unsigned kind = unsigned(c.choose(4)); static const auto ns = sizes(size_t(mc::lvl(40, 200, 12, 30)), size_t(mc::lvl(1000, 5000, 200, 400))); size_t n = c.pick(ns); auto keys = some_keys(kind, n); if (keys.empty()) throw mc::Prune{};
    std::set<std::string> prefixes{""}; size_t longest = 0; for (auto& k : keys) { longest = std::max(longest, k.size()); for (size_t i = 1; i <= k.size(); i++) prefixes.insert(k.substr(0, i)); }
    std::string of = "dictionary of " + S(keys.size()) + " keys of kind " + S(kind) + ", codes of " + S(sizeof(Code)) + " bytes"; c.note(of); c.log("%s", of.c_str());
    double nodes = double(prefixes.size() + keys.size()), most = 16.0 * nodes + double(longest + 2) * (256.0 * sizeof(Code) + 8) + 128;
    auto go = [&](auto sub, const char* which, double extra) {
        using Sub = decltype(sub); using T = typename Sub::S; std::string who = std::string(which) + " " + of; double all = most + extra;
        std::unique_ptr<T> s; auto h = measured([&] { s.reset(new T(keys.begin(), keys.end())); });
        if (kHeap) limit("memory", who, double(h.held), 2.2 * all); copy_held(who, *s, all); std::string w = image_of<Sub>(*s); stored_size(who, *s, w); limit("stored size", who, double(w.size()), all); loaded_held<Sub>(who, w, all);
    };
    go(SSamc<Code, false>{}, "Samc", 0); go(SDict<Code>{}, "SamcDict", 12.0 * nodes + 256);
    done(c, of, 10);
}
MC_SCOPE("C32", space_dictionaries, 8) { dictionaries<u32>(c); }
MC_SCOPE("C32", space_dictionaries_u64, 8) { dictionaries<u64>(c); }
