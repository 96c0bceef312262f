// C34: streams that end, refuse or fail at any byte, and streams that deliver and take bytes in any portions.
#define MC_FAULTS 1
#include <alloca.h>
#include "subjects.hpp"
using namespace subj;

// Streams that cannot be repositioned.  how: 0 the stream ends (refuses) at byte `stop`, 1 its buffer throws there.
struct Broken : std::runtime_error { Broken() : std::runtime_error("device error") {} };
struct Source : std::streambuf {
    std::string data; size_t at = 0, stop, chunk; int how; std::vector<char> buf;
    Source(const std::string& d, size_t stop_, size_t chunk_, int how_) : data(d), stop(stop_), chunk(chunk_), how(how_), buf(chunk_) {}
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t n = std::min(chunk, stop - at);
        if (!n) { if (how) throw Broken(); return traits_type::eof(); }
        std::memcpy(buf.data(), data.data() + at, n); at += n; setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(buf[0]);
    }
    size_t taken() const { return at - size_t(egptr() - gptr()); }
};
struct Sink : std::streambuf {
    std::string got; size_t stop, chunk; int how; std::vector<char> buf;
    Sink(size_t stop_, size_t chunk_, int how_) : stop(stop_), chunk(chunk_), how(how_), buf(chunk_) { if (chunk > 1) setp(buf.data(), buf.data() + chunk); }
    bool drain() {                                      // what is in the buffer goes to the device, as far as it accepts it
        size_t n = size_t(pptr() - pbase()), m = std::min(n, stop - got.size());
        if (n) got.append(pbase(), m);
        if (chunk > 1) setp(buf.data(), buf.data() + chunk);
        if (m < n) { if (how) throw Broken(); return false; }
        return true;
    }
    int_type overflow(int_type ch) override {
        if (!drain()) return traits_type::eof();
        if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
        if (chunk > 1) { *pptr() = char(ch); pbump(1); return ch; }
        if (got.size() == stop) { if (how) throw Broken(); return traits_type::eof(); }
        got += char(ch); return ch;
    }
    int sync() override { return drain() ? 0 : -1; }
};
static void formatted(std::ios& s, size_t how) { if (how & 1) { s.setf(std::ios::hex | std::ios::showbase | std::ios::unitbuf); s.width(11); s.fill('*'); } }
__attribute__((noinline)) static void soil_stack(int with) { volatile char* p = static_cast<volatile char*>(alloca(48 << 10)); for (size_t i = 0; i < (48u << 10); i++) p[i] = char(with); }

static std::string without_padding(unsigned U, std::string b) {      // the rank samples of a multi-bit vector end in padding
    const size_t used = 8 + 4 * U, whole = (used + 7) / 8 * 8; size_t at = 0; u64 n;
    auto count = [&] { if (b.size() < at + 8) return false; std::memcpy(&n, b.data() + at, 8); at += 8; return true; };
    if (!count()) return b;
    at += 8 * n;
    for (unsigned t = 0; t < 1u << U; t++) {
        if (!count()) return b;
        for (; n; n--, at += whole) for (size_t i = at + used; i < at + whole && i < b.size(); i++) b[i] = 0;
    }
    return b;
}
template <class Sub> static std::string meaning(std::string b) {
    if constexpr (std::is_same_v<Sub, SMulti<1>>) return without_padding(1, std::move(b));
    else if constexpr (std::is_same_v<Sub, SMulti<2>>) return without_padding(2, std::move(b));
    else if constexpr (std::is_same_v<Sub, SMulti<3>>) return without_padding(3, std::move(b));
    else return b;
}
template <class T> static auto settle(T& s, u64 n, int) -> decltype(s.len, void()) { s.len = n; }
template <class T> static void settle(T&, u64, long) {}

template <class Sub> struct Torn {
    using S = typename Sub::S;
    static const std::vector<u64>& expected(size_t k) { static std::map<size_t, std::vector<u64>> memo; auto& e = memo[k]; if (e.empty()) e = answers<Sub>(Sub::make(k), k); return e; }
    static const std::string& image(size_t k) { static std::map<size_t, std::string> memo; auto& e = memo[k]; if (e.empty()) { std::ostringstream os; Sub::write(Sub::make(k), os); e = os.str(); } return e; }
    static void must(const S& s, size_t k, const std::string& what) { std::string d = difference<Sub>(s, k, expected(k)); MC_CHECK(d.empty(), "%s content %zu: %s: %s", Sub::name(), k, what.c_str(), d.c_str()); }
    static std::string quoted(size_t j, size_t n, int how, bool mask) { return "stream " + std::string(how ? "breaks" : "ends") + " after " + std::to_string(j) + " of " + std::to_string(n) + " bytes" + (mask ? ", exceptions enabled" : ""); }
    // cuts: all of them, or for long images all around the ends and a fine grid between
    static size_t cut(mc::Ctx& c, size_t n, size_t all) {
        if (n <= all) return c.choose(n);
        std::vector<size_t> v; size_t step = (n - all / 2) / (all / 2) + 1; if (step % 8 == 0) step++;
        for (size_t j = 0; j < all / 4; j++) v.push_back(j);
        for (size_t j = all / 4; j < n - all / 4; j += step) v.push_back(j);
        for (size_t j = n - all / 4; j < n; j++) v.push_back(j);
        return c.pick(v);
    }
    static void on(const std::function<void()>& f) { mc::g_mem.on = true; try { f(); } catch (...) { mc::g_mem.on = false; throw; } mc::g_mem.on = false; }
    static size_t full_peak(size_t k) {                    // memory that reading the whole image takes
        static std::map<size_t, size_t> memo; auto it = memo.find(k); if (it != memo.end()) return it->second;
        const std::string& b = image(k); Source src(b, b.size(), 1 << 16, 0); std::istream is(&src);
        size_t live = mc::g_mem.live; mc::g_mem.peak = live;
        on([&] { S s = Sub::load(is); });
        return memo[k] = mc::g_mem.peak - live;
    }
    static void reading(mc::Ctx& c) {
        size_t k = c.choose(Sub::n), target = c.choose(3); bool mask = c.flip(); int how = int(c.choose(2)); const size_t old = target == 1 ? Sub::n - 1 : Sub::n / 2;
        const std::string& b = image(k); size_t j = cut(c, b.size(), size_t(mc::lvl(96, 1200, 24, 200)));
        std::string t = (target ? "read onto content " + std::to_string(old) + ": " : "read: ") + quoted(j, b.size(), how, mask);
        c.note(std::string(Sub::name()) + " content " + std::to_string(k) + ": " + t); c.log("%s", t.c_str());
        expected(k); expected(old); size_t peak = full_peak(k) + 1024; { static const size_t last = Sub::n - 1; expected(last); image(last); }
        size_t then = c.choose(4);
        Source src(b, j, 1 + 63 * c.choose(2), how); size_t blocks = mc::g_mem.blocks;
        {
            std::istream is(&src); if (mask) is.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
            std::unique_ptr<S> p; bool threw = false, stream = false;
            if (target) on([&] { p.reset(new S(Sub::make(old))); });
            size_t live = mc::g_mem.live; mc::g_mem.peak = live;
            soil_stack(int(0xA5 + 16 * then));
            try { on([&] { if (target) Sub::reload(*p, is); else p.reset(new S(Sub::load(is))); }); }
            catch (std::ios_base::failure&) { threw = stream = true; }
            catch (Broken&) { threw = stream = true; }
            catch (std::exception&) { threw = true; }
            MC_CHECK(MC_ASAN || mc::g_mem.peak - live <= peak, "%s content %zu: %s: takes %zu bytes of memory where the whole image needs %zu", Sub::name(), k, t.c_str(), mc::g_mem.peak - live, peak - 1024);
            MC_CHECK(is.fail(), "%s content %zu: %s: the stream does not tell that reading failed", Sub::name(), k, t.c_str());
            MC_CHECK(!mask || stream, "%s content %zu: %s: the failure of the stream does not reach the caller (%s)", Sub::name(), k, t.c_str(), threw ? "another exception does" : "nothing is thrown");
            MC_CHECK(!threw || mask, "%s content %zu: %s: an exception although the stream has none enabled", Sub::name(), k, t.c_str());
            MC_CHECK(src.taken() <= j, "%s content %zu: %s: more is consumed than there is", Sub::name(), k, t.c_str());
            if (p) {
                const size_t fresh = Sub::n - 1;
                if (then == 0) {                            // the same image, complete this time
                    Source whole(b, b.size(), 64, 0); std::istream again(&whole);
                    on([&] { Sub::reload(*p, again); }); settle(*p, expected(k)[0], 0);
                    MC_CHECK(!again.fail() && whole.taken() == b.size(), "%s content %zu: %s: then the complete image: %zu of %zu bytes read", Sub::name(), k, t.c_str(), whole.taken(), b.size());
                    must(*p, k, t + ", then the complete image read");
                }
                if (then == 1) {
                    Source whole(image(fresh), image(fresh).size(), 5, 0); std::istream again(&whole);
                    on([&] { Sub::reload(*p, again); }); settle(*p, expected(fresh)[0], 0);
                    must(*p, fresh, t + ", then another image read");
                }
                if (then == 2) { on([&] { S x(*p); *p = Sub::make(fresh); *p = static_cast<const S&>(*p); }); must(*p, fresh, t + ", copied, then a new value assigned"); }
            } else if (then) throw mc::Prune{};
            c.obs(5 + expected(k).size());
        }
        MC_CHECK(MC_ASAN || mc::g_mem.blocks == blocks, "%s content %zu: %s: %zu blocks are never freed", Sub::name(), k, t.c_str(), mc::g_mem.blocks - blocks);
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); for (u64 x : {u64(k), u64(target), u64(mask), u64(how), u64(j), u64(then)}) h.word(x); c.state(h); }
    }
    static void writing(mc::Ctx& c) {
        size_t k = c.choose(Sub::n); bool mask = c.flip(); int how = int(c.choose(2)); size_t chunk = c.pick(std::vector<size_t>{1, 32});
        const std::string b = meaning<Sub>(image(k)); size_t j = cut(c, b.size(), size_t(mc::lvl(96, 1200, 24, 200)));
        std::string t = "write: " + quoted(j, b.size(), how, mask);
        c.note(std::string(Sub::name()) + " content " + std::to_string(k) + ": " + t); c.log("%s", t.c_str());
        expected(k); size_t blocks = mc::g_mem.blocks;
        {
            std::unique_ptr<S> own; on([&] { own.reset(new S(Sub::make(k))); }); const S& s = *own;
            Sink sink(j, chunk, how); std::ostream os(&sink); if (mask) os.exceptions(std::ios::failbit | std::ios::badbit);
            bool stream = false, threw = false;
            try { on([&] { Sub::write(s, os); os.flush(); }); }
            catch (std::ios_base::failure&) { threw = stream = true; } catch (Broken&) { threw = stream = true; } catch (std::exception&) { threw = true; }
            MC_CHECK(!os.good(), "%s content %zu: %s: the stream does not tell that writing failed", Sub::name(), k, t.c_str());
            MC_CHECK(!mask || stream, "%s content %zu: %s: the failure of the stream does not reach the caller", Sub::name(), k, t.c_str());
            MC_CHECK(!threw || mask, "%s content %zu: %s: an exception although the stream has none enabled", Sub::name(), k, t.c_str());
            std::string got = sink.got; got.resize(b.size()); got = meaning<Sub>(got).substr(0, sink.got.size());
            MC_CHECK(sink.got.size() <= j && got == b.substr(0, got.size()), "%s content %zu: %s: what the stream took (%zu bytes) is not the beginning of the image", Sub::name(), k, t.c_str(), sink.got.size());
            must(s, k, t);
            std::ostringstream rest; on([&] { Sub::write(s, rest); });
            MC_CHECK(meaning<Sub>(rest.str()) == b, "%s content %zu: %s: written again it gives another image", Sub::name(), k, t.c_str());
            c.obs(6 + expected(k).size());
        }
        MC_CHECK(MC_ASAN || mc::g_mem.blocks == blocks, "%s content %zu: %s: %zu blocks are never freed", Sub::name(), k, t.c_str(), mc::g_mem.blocks - blocks);
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); for (u64 x : {u64(k), u64(mask), u64(how), u64(chunk), u64(j)}) h.word(x); c.state(h); }
    }
    // portions: streams that are not memory, hand over and take any number of bytes at a time and have formatting set
    static void portions(mc::Ctx& c) {
        static const std::vector<size_t> chunks{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 1000, 4096};
        size_t k = c.choose(Sub::n), chunk = c.pick(chunks), fmt = c.choose(2), target = c.choose(3);
        const std::string& b = image(k); const std::string tail = fmt ? "" : "trailing bytes"; const size_t old = target == 1 ? Sub::n - 1 : Sub::n / 2;
        c.log("%s content %zu in portions of %zu bytes", Sub::name(), k, chunk);
        Sink sink(~size_t(0), chunk, 0); std::ostream os(&sink); formatted(os, fmt); S orig = Sub::make(k); auto loc = os.flags();
        Sub::write(static_cast<const S&>(orig), os); os.flush();
        MC_CHECK(os.good() && meaning<Sub>(sink.got) == meaning<Sub>(b), "%s content %zu: written in portions of %zu bytes it gives another image", Sub::name(), k, chunk);
        MC_CHECK(os.flags() == loc, "%s content %zu: writing changes the formatting of the stream", Sub::name(), k);
        Source src(sink.got + tail, sink.got.size() + tail.size(), chunk, 0); std::istream is(&src); formatted(is, fmt);
        std::unique_ptr<S> p; soil_stack(0x77);
        if (target) { p.reset(new S(Sub::make(old))); Sub::reload(*p, is); } else p.reset(new S(Sub::load(is)));
        settle(*p, expected(k)[0], 0);
        MC_CHECK(is.good(), "%s content %zu: read in portions of %zu bytes the stream fails", Sub::name(), k, chunk);
        MC_CHECK(src.taken() == b.size(), "%s content %zu: read in portions of %zu bytes: %zu of %zu bytes consumed", Sub::name(), k, chunk, src.taken(), b.size());
        must(*p, k, "read in portions of " + std::to_string(chunk) + " bytes");
        c.obs(4 + expected(k).size());
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); for (u64 x : {u64(k), u64(chunk), u64(fmt), u64(target)}) h.word(x); c.state(h); }
    }
};
#define SCOPE_TORN(Sub, id) \
    static void torn_read_##id(mc::Ctx& c) { Torn<Sub>::reading(c); } static mc::Reg torn_read_reg_##id("C34", "read_cut_" #id, 4, torn_read_##id); \
    static void torn_write_##id(mc::Ctx& c) { Torn<Sub>::writing(c); } static mc::Reg torn_write_reg_##id("C34", "write_cut_" #id, 2, torn_write_##id); \
    static void torn_part_##id(mc::Ctx& c) { Torn<Sub>::portions(c); } static mc::Reg torn_part_reg_##id("C34", "portions_" #id, 1, torn_part_##id);
SUBJECTS_SERIAL(SCOPE_TORN)

// ---- the building blocks: what a cut read hands over is determined by the bytes that were there
template <class F> static void twice(F f, const char* what, size_t j) {
    soil_stack(0x11); auto a = f(); soil_stack(0xEE); auto b = f();
    MC_CHECK(a == b, "%s: with only %zu bytes there the result is indeterminate", what, j);
}
template <class T> __attribute__((noinline)) static T value_of(const std::string& b, bool& failed) { std::istringstream is(b); T v = sim_ds::read_val<T>(is); failed = is.fail(); return v; }
template <class T> static void blocks(mc::Ctx& c, const char* name) {
    const size_t size = sizeof(T), n = c.choose(5), j = c.choose(8 + n * size + 1); bool failed = false;
    c.log("%s: %zu elements, %zu bytes there", name, n, j);
    std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(T(lcg(i, 5) % 200 + 3));
    if (j < size) {
        std::string b(j, '\x42');
        twice([&] { return value_of<T>(b, failed); }, (std::string("read_val<") + name + ">").c_str(), j);
        MC_CHECK(failed, "read_val<%s> of %zu bytes does not fail", name, j);
    }
    std::ostringstream os; sim_ds::write_vec(v, os); std::string whole = os.str();
    for (size_t old : {size_t(0), size_t(3), size_t(9)}) {
        twice([&] {
            std::istringstream is(whole.substr(0, j)); std::vector<T> w(old, T(1)); sim_ds::read_vec(is, w);
            MC_CHECK(is.fail() == (j < whole.size()), "read_vec<%s> of %zu of %zu bytes: fail() is %d", name, j, whole.size(), int(is.fail()));
            if (j == whole.size()) MC_CHECK(w == v, "read_vec<%s> of the whole vector differs", name);
            MC_CHECK(j < 8 || w.size() == n, "read_vec<%s> with %zu of %zu bytes gives %zu elements", name, j, whole.size(), w.size());
            if (j >= 8) for (size_t i = 0; i < (j - 8) / size; i++) MC_CHECK(w[i] == v[i], "read_vec<%s> with %zu of %zu bytes: element %zu is complete and differs", name, j, whole.size(), i);
            return w;
        }, (std::string("read_vec<") + name + ">").c_str(), j);
    }
    std::string s; for (auto x : v) s += char(x); std::ostringstream os2; sim_ds::write_string(s, os2); std::string img = os2.str();
    if (j <= img.size()) twice([&] {
        std::istringstream is(img.substr(0, j)); std::string w = sim_ds::read_string(is);
        MC_CHECK(is.fail() == (j < img.size()), "read_string of %zu of %zu bytes: fail() is %d", j, img.size(), int(is.fail()));
        MC_CHECK(j < 8 || (w.size() == n && w.substr(0, j - 8) == s.substr(0, j - 8)), "read_string with %zu of %zu bytes gives %s", j, img.size(), show_str(w).c_str());
        return w;
    }, "read_string", j);
    c.obs(4);
    if (c.fresh()) { mc::H128 h = hash_str(name); h.word(n); h.word(j); c.state(h); }
}
MC_SCOPE("C34", pieces, 4) {
    switch (c.choose(7)) {
        case 0: blocks<uint8_t>(c, "uint8_t"); break; case 1: blocks<uint16_t>(c, "uint16_t"); break; case 2: blocks<u32>(c, "uint32_t"); break; case 3: blocks<u64>(c, "uint64_t"); break;
        case 4: blocks<int>(c, "int"); break; case 5: blocks<char>(c, "char"); break; default: blocks<double>(c, "double");
    }
}
