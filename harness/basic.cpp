// C30: stream primitives, the recursion helper and ShowAsBinary.
#include "common.hpp"
#include <sim_ds/basic.hpp>
#include <sim_ds/log.hpp>
using namespace h;

struct P3 { uint8_t a, b, c; bool operator==(const P3& o) const { return a == o.a && b == o.b && c == o.c; } };
struct P12 { u32 a; u64 b; uint8_t c; P12() : P12(0) {} explicit P12(u64 x) { memset((void*)this, 0, sizeof *this); a = u32(x * 7); b = ~x; c = uint8_t(x); } bool operator==(const P12& o) const { return a == o.a && b == o.b && c == o.c; } };
template <class T> T make(u64 x) {
    if constexpr (std::is_same_v<T, P3>) return P3{uint8_t(x), uint8_t(x >> 8), uint8_t(~x)};
    else if constexpr (std::is_same_v<T, P12>) return P12(x);
    else return T(x);
}
static const u64 vals[] = {0, 1, 0x80, 0xff, 0x0a0d1a00, 0x8000000000000000ull, ~0ull, 0x0123456789abcdefull};

// a log of writes is kept next to the stream, then everything is read back in order
struct Log {
    std::ostringstream os; std::vector<std::function<void(std::istream&)>> checks; std::string narrated; size_t bytes = 0;
    template <class T> void val(u64 x) {
        T v = make<T>(x); sim_ds::write_val(v, os); bytes += sizeof(T);
        checks.push_back([v](std::istream& is) { T g = sim_ds::read_val<T>(is); MC_CHECK(g == v, "read_val of %zu bytes differs from what was stored", sizeof(T)); });
    }
    template <class T> void vec(size_t n, u64 x, size_t old) {
        std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(make<T>(x + i * 0x0101010101010101ull));
        sim_ds::write_vec(v, os); bytes += sizeof(size_t) + sizeof(T) * n;
        MC_CHECK(sim_ds::size_vec(v) == sizeof(size_t) + sizeof(T) * n, "size_vec of %zu elements = %zu", n, sim_ds::size_vec(v));
        checks.push_back([v, n, old](std::istream& is) {
            std::vector<T> g; for (size_t i = 0; i < old; i++) g.push_back(make<T>(~i));
            sim_ds::read_vec(is, g);
            MC_CHECK(g == v, "read_vec of %zu elements of %zu bytes over %zu old ones: %zu elements, or other values", n, sizeof(T), old, g.size());
        });
    }
    template <class T> void avec(size_t n, u64 x, size_t old) {
        sim_ds::aligned_vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(make<T>(x * i + i));
        sim_ds::write_vec(v, os); bytes += sizeof(size_t) + sizeof(T) * n;
        checks.push_back([v, n, old](std::istream& is) {
            sim_ds::aligned_vector<T> g(old, make<T>(3)); sim_ds::read_vec(is, g);
            MC_CHECK(g == v, "read_vec of %zu aligned elements of %zu bytes over %zu old ones", n, sizeof(T), old);
            MC_CHECK(g.empty() || reinterpret_cast<uintptr_t>(g.data()) % 32 == 0, "aligned_vector storage is not aligned to 32 bytes");
        });
    }
    void str(size_t n, u64 x) {
        std::string s; for (size_t i = 0; i < n; i++) s += char(x + i * 37);
        sim_ds::write_string(s, os); bytes += sizeof(size_t) + n;
        checks.push_back([s](std::istream& is) { auto g = sim_ds::read_string(is); MC_CHECK(g == s, "read_string: %s, want %s", show_str(g).c_str(), show_str(s).c_str()); });
    }
    void verify() {
        std::string all = os.str();
        MC_CHECK(all.size() == bytes, "%zu bytes were written, want %zu", all.size(), bytes);
        for (int pass = 0; pass < 2; pass++) {          // with further data behind, and with the stream ending there
            std::istringstream is(all + (pass ? "" : "tail"));
            for (auto& f : checks) { f(is); MC_CHECK(is.good(), "the stream failed although everything was stored"); }
            std::string rest(std::istreambuf_iterator<char>(is), {});
            MC_CHECK(rest == (pass ? "" : "tail"), "the reads left %zu bytes, want %d", rest.size(), pass ? 0 : 4);
        }
    }
};
static void put(mc::Ctx& c, Log& l, unsigned what, size_t n, u64 x, size_t old) {
    c.log("write kind %u, length %zu, value %llx, target had %zu", what, n, ull(x), old);
    switch (what) {
        case 0: l.val<uint8_t>(x); break; case 1: l.val<uint16_t>(x); break; case 2: l.val<u32>(x); break; case 3: l.val<u64>(x); break;
        case 4: l.val<double>(u32(x)); break; case 5: l.val<bool>(x & 1); break; case 6: l.val<P3>(x); break; case 7: l.val<P12>(x); break;
        case 8: l.vec<uint8_t>(n, x, old); break; case 9: l.vec<uint16_t>(n, x, old); break; case 10: l.vec<u32>(n, x, old); break; case 11: l.vec<u64>(n, x, old); break;
        case 12: l.vec<P3>(n, x, old); break; case 13: l.vec<P12>(n, x, old); break; case 14: l.avec<u64>(n, x, old); break; case 15: l.avec<uint8_t>(n, x, old); break;
        case 16: l.str(n, x); break;
    }
}
MC_SCOPE("C30", one_value, 8) {                      // every kind, every border value, every length and old length
    unsigned w = c.choose(17); u64 x = vals[c.choose(8)];
    size_t n = w < 8 ? 0 : c.choose(mc::lvl(70, 300, 40, 70)), old = w < 8 || w == 16 ? 0 : c.of<size_t>({0, 1, 2, 5, 64, 100});
    Log l; put(c, l, w, n, x, old); l.verify(); c.obs(3); c.state(mc::hash_words({w, x, n, old}));
}
MC_SCOPE("C30", sequences, 16) {                     // all sequences of writes, read back in order
    int d = c.depth(mc::lvl(4, 5, 3, 4)); Log l; std::vector<u64> tr;
    static const unsigned kinds[] = {0, 3, 5, 8, 11, 12, 14, 16}; static const size_t lens[] = {0, 1, 3};
    for (int i = 0; i < d; i++) {
        unsigned w = kinds[c.choose(8)]; size_t n = w < 8 ? 0 : lens[c.choose(3)];
        put(c, l, w, n, vals[(i * 3 + n) % 8], size_t(i * 2) % 5); tr.push_back(w * 8 + n);
        if (c.fresh()) { l.verify(); c.obs(tr.size()); c.state(mc::hash_seq(tr)); }
    }
}
MC_SCOPE("C30", long_data, 4) {
    unsigned w = 8 + c.choose(9); size_t n = c.of<size_t>({1000, 4095, 4096, 4097, 65536, 65537, size_t(mc::lvl(200000, 2000000, 70000, 200000))});
    Log l; put(c, l, w, n, 0x55, 7); l.verify(); c.obs(2);
}
MC_SCOPE("C30", file_streams, 1) {                   // through a real file
    size_t n = c.choose(20); char path[] = "/tmp/mc-basic-XXXXXX"; int fd = mkstemp(path); if (fd < 0) throw std::runtime_error("mkstemp"); close(fd);
    struct Rm { const char* p; ~Rm() { unlink(p); } } rm{path};
    std::vector<u32> v(n, 0x0a0d1a00); std::string s(n, '\0');
    { std::ofstream os(path, std::ios::binary); sim_ds::write_vec(v, os); sim_ds::write_string(s, os); sim_ds::write_val(n, os); }
    std::ifstream is(path, std::ios::binary); std::vector<u32> g(3); sim_ds::read_vec(is, g); auto t = sim_ds::read_string(is); auto m = sim_ds::read_val<size_t>(is);
    MC_CHECK(g == v && t == s && m == n, "file round trip of %zu elements", n);
    MC_CHECK(is.peek() == EOF, "bytes are left in the file");
}
// recursion: the callable is used after the expression that made it
template <class F> static auto made(F f) { auto r = sim_ds::recursive(f); volatile char junk[256]; for (auto& j : junk) j = 0x5a; return r; }
static size_t clobber(size_t n) { volatile char a[512]; for (size_t i = 0; i < 512; i++) a[i] = char(i * n + 1); return a[n % 512]; }
MC_SCOPE("C30", recursion, 4) {
    size_t n = c.choose(mc::lvl(60, 200, 40, 60)), off = c.choose(5);
    c.log("recursion depth %zu, captured %zu", n, off);
    std::vector<size_t> seen; std::string text = "a captured string that lives on the heap";
    {   // captures by value and by reference; no result
        auto r = made([&seen, off, text](auto& self, size_t k) -> void { if (text.size() != 40) { seen.clear(); return; } seen.push_back(k + off); if (k) self(self, k - 1); });
        clobber(n); r(n); clobber(n); r(n);
        std::vector<size_t> want; for (int t = 0; t < 2; t++) for (size_t k = n + 1; k-- > 0;) want.push_back(k + off);
        MC_CHECK(seen == want, "the recursion visits %s, want %s", show_ints(seen).c_str(), show_ints(want).c_str());
    }
    {   // moved and copied callables, kept in a container
        auto r = made([off, &seen](auto self, size_t k, size_t& out) -> void { out += off + 1; if (k) self(self, k - 1, out); });
        auto cp = r; auto mv = std::move(r); size_t a = 0, b = 0; clobber(3); cp(n, a); mv(n, b);
        MC_CHECK(a == (n + 1) * (off + 1) && b == a, "copies of the callable add %zu and %zu, want %zu (arguments are forwarded by reference)", a, b, (n + 1) * (off + 1));
    }
    {   // move-only arguments
        auto r = made([](auto& self, std::unique_ptr<size_t> p, std::vector<size_t>* out) -> void { out->push_back(*p); if (*p) self(self, std::make_unique<size_t>(*p - 1), out); });
        std::vector<size_t> o; clobber(5); r(std::make_unique<size_t>(n), &o);
        MC_CHECK(o.size() == n + 1 && o.front() == n && o.back() == 0, "move-only arguments: %s", show_ints(o).c_str());
    }
    {   // branching recursion: binary words in order
        size_t depth = n % 9; std::string all;
        auto r = made([&all](const auto& self, std::string pre, size_t d) -> void { if (!d) { all += pre + ","; return; } self(self, pre + "0", d - 1); self(self, pre + "1", d - 1); });
        r("", depth); std::string want;
        for (size_t i = 0; i < size_t(1) << depth; i++) { for (size_t b = depth; b-- > 0;) want += char('0' + (i >> b & 1)); want += ","; }
        MC_CHECK(all == want, "branching recursion of depth %zu", depth);
    }
    c.obs(4);
}
MC_SCOPE("C30", recursion_results, 2) {
    size_t n = c.choose(40);
    auto fib = made([](auto& self, size_t k) -> u64 { return k < 2 ? k : k > 20 ? k : self(self, k - 1) + self(self, k - 2); });
    clobber(1);
    if constexpr (std::is_convertible_v<decltype(fib(n)), u64>) {
        u64 a = 0, b = 1; for (size_t i = 0; i < n; i++) { u64 t = a + b; a = b; b = t; }
        u64 got = fib(n); MC_CHECK(got == (n > 20 ? n : a), "the result of f(%zu) through recursive() is %llu", n, ull(got));
    } else mc::fail("recursive() drops the result of its function");
    auto s = made([](auto& self, std::string x, size_t d) -> std::string { return d ? self(self, x + x[d % x.size()], d - 1) : x; });
    if constexpr (std::is_convertible_v<decltype(s(std::string(), n)), std::string>) { std::string w = "ab"; for (size_t d = n; d; d--) w += w[d % w.size()]; MC_CHECK(s("ab", n) == w, "a string result of recursive()"); }
}
// timing: the process runs exactly once, before the call returns, and the result is its duration in the stated unit
MC_SCOPE("C30", timing, 1) {
    using clk = std::chrono::high_resolution_clock; using ms = std::chrono::duration<double, std::milli>;
    size_t spin = c.choose(4), kind = c.choose(2); c.log("timing kind %zu over %zu ms", kind, spin);
    for (int tries = 0;; tries++) {                    // (a clock that is set back in between gets another chance)
        int runs = 0; double in = 0; auto t0 = clk::now(); sim_ds::Stopwatch sw;
        auto work = [&] { runs++; auto a = clk::now(); while (ms(clk::now() - a).count() < double(spin)) {} in = ms(clk::now() - a).count(); };
        double got = kind == 0 ? sim_ds::millisec_time_in_process(work) : sim_ds::microsec_time_in_process(work) / 1000;
        double s = sw.get_sec() * 1000, m = sw.get_milli_sec(), u = sw.get_micro_sec() / 1000, p = ms(sw.time_process()).count(), out = ms(clk::now() - t0).count();
        MC_CHECK(runs == 1, "the process ran %d times", runs);
        const double e = 1e-6; bool fine = in - e <= got && got <= s + e && s <= m + e && m <= u + e && u <= p + e && p <= out + e;
        if (fine) break;
        MC_CHECK(tries < 5, "timing %zu: the process took %g ms of %g ms, reported %g; the stopwatch says %g, %g, %g, %g ms", kind, in, out, got, s, m, u, p);
    }
    c.obs(5);
}
template <class T> static void binary(mc::Ctx& c, T v, size_t size, bool dflt) {
    std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf());
    if (dflt) sim_ds::ShowAsBinary(v); else sim_ds::ShowAsBinary(v, size);
    std::cout.rdbuf(old);
    std::string want; for (size_t i = size * 8; i-- > 0;) { want += char('0' + (u64(v) >> i & 1)); if (i % 8 == 0) want += ' '; } want += '\n';
    MC_CHECK(os.str() == want, "ShowAsBinary(%llx, %zu) prints \"%s\", want \"%s\"", ull(u64(v)), size, os.str().c_str(), want.c_str());
    c.obs(1);
}
MC_SCOPE("C30", show_as_binary, 16) {
    unsigned k = c.choose(4), slice = c.choose(16);
    if (k == 0) for (unsigned v = slice * 16; v < slice * 16 + 16; v++) { binary<uint8_t>(c, uint8_t(v), 1, true); binary<u32>(c, v << 8, 4, true); }
    if (k == 1) for (unsigned v = slice * 4096; v < slice * 4096 + 4096; v += MC_ASAN ? 37 : 1) { binary<uint16_t>(c, uint16_t(v), 2, true); binary<u64>(c, v, 2, false); binary<u32>(c, v, 1, false); }
    if (k == 2) for (unsigned i = slice * 4; i < slice * 4 + 4; i++) for (unsigned j = 0; j < 64; j++) { binary<u64>(c, (1ull << i) | (1ull << j), 8, true); binary<u64>(c, ~(1ull << i), 1 + j % 8, false); binary<uint32_t>(c, u32((1ull << i) | (1ull << j)), 4, true); }
    if (k == 3) { binary<int>(c, int(slice) - 8, 4, true); binary<int8_t>(c, int8_t(slice * 16), 1, true); binary<short>(c, short(-int(slice)), 2, true); binary<long long>(c, -(1ll << (slice * 4)), 8, true); binary<u64>(c, vals[slice % 8], slice % 8 + 1, false); }
}
