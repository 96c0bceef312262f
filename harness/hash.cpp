// C13: every bijective hash is inverted by its ihash on its whole key width.
#include "common.hpp"
#include <sim_ds/BijectiveHash.hpp>
using namespace h;
using sim_ds::SplitMixHash; using sim_ds::MultiplyHash; using sim_ds::Xorshift;

template <class F, class G> static void both(mc::Ctx& c, unsigned w, u64 x, F f, G g, const char* what) {
    u64 m = mask(w); x &= m;
    u64 y = f(x), z = g(x);
    MC_CHECK(y <= m, "%s of width %u: hash(%llu) = %llu leaves the width", what, w, ull(x), ull(y));
    MC_CHECK(z <= m, "%s of width %u: ihash(%llu) = %llu leaves the width", what, w, ull(x), ull(z));
    MC_CHECK(g(y) == x, "%s of width %u: ihash(hash(%llu)) = %llu", what, w, ull(x), ull(g(y)));
    MC_CHECK(f(z) == x, "%s of width %u: hash(ihash(%llu)) = %llu", what, w, ull(x), ull(f(z)));
}
template <class S, class M, class X> static void all(mc::Ctx& c, unsigned w, u64 x, const S& s, const M& p, const X& r) {
    both(c, w, x, [&](u64 v) { return s.hash(v); }, [&](u64 v) { return s.ihash(v); }, "SplitMixHash");
    both(c, w, x, [&](u64 v) { return p.template hash<0>(v); }, [&](u64 v) { return p.template ihash<0>(v); }, "MultiplyHash<0>");
    both(c, w, x, [&](u64 v) { return p.template hash<1>(v); }, [&](u64 v) { return p.template ihash<1>(v); }, "MultiplyHash<1>");
    both(c, w, x, [&](u64 v) { return p.template hash<2>(v); }, [&](u64 v) { return p.template ihash<2>(v); }, "MultiplyHash<2>");
    both(c, w, x, [&](u64 v) { return r.template hash<0>(v); }, [&](u64 v) { return r.template ihash<0>(v); }, "Xorshift<0>");
    both(c, w, x, [&](u64 v) { return r.template hash<1>(v); }, [&](u64 v) { return r.template ihash<1>(v); }, "Xorshift<1>");
    both(c, w, x, [&](u64 v) { return r.template hash<2>(v); }, [&](u64 v) { return r.template ihash<2>(v); }, "Xorshift<2>");
    c.obs(28);
}
MC_SCOPE("C13", whole_small_widths, 32) {           // every integer of the width, in slices
    unsigned w = 1 + c.choose(mc::lvl(24, 30, 12, 18)); unsigned slices = w > 12 ? 64 : 1, s = c.choose(slices);
    SplitMixHash a(w); MultiplyHash b(w); Xorshift x(w); u64 n = u64(1) << w;
    for (u64 v = n / slices * s; v < n / slices * (s + 1); v++) { all(c, w, v, a, b, x); if (v % 65536 == 0) c.beat(); }
    c.log("all %llu integers of width %u, slice %u of %u", ull(n), w, s, slices); c.state(mc::hash_words({w, s}));
}
MC_SCOPE("C13", all_widths, 32) {                  // bit patterns of every width: basis vectors, all pairs and runs of bits, dense borders
    unsigned w = 1 + c.choose(65); bool def = w == 65; if (def) w = 64;
    unsigned i = c.choose(w);
    SplitMixHash a = def ? SplitMixHash() : SplitMixHash(w); MultiplyHash b = def ? MultiplyHash() : MultiplyHash(w); Xorshift x = def ? Xorshift() : Xorshift(w);
    auto f = [&](u64 v) { all(c, w, v, a, b, x); };
    for (unsigned j = 0; j < w; j++) {
        u64 two = (u64(1) << i) | (u64(1) << j), run = mask(std::max(i, j) + 1) & ~mask(std::min(i, j));
        f(two); f(~two); f(run); f(~run); f(u64(1) << i); f((u64(1) << i) - 1); f(two + 1);
        if (mc::thorough()) for (unsigned k = 0; k < j; k++) { f(two ^ (u64(1) << k)); f(~(two ^ (u64(1) << k))); }
    }
    for (u64 k = 0; k < u64(mc::lvl(512, 65536, 64, 1024)); k++) { f(k << i); f(~(k << i)); f(k * 0x9E3779B97F4A7C15ull + i); }
    c.log("width %u%s, patterns with bit %u", w, def ? " (default)" : "", i); c.state(mc::hash_words({w, i, def}));
}
