// C23: word-level bit functions; also run by C25 in every instruction-set configuration.
#include "common.hpp"
#include <sim_ds/basic.hpp>
#include <sim_ds/bit_util.hpp>
using namespace h;
namespace bu = sim_ds::bit_util;

namespace ref {
static unsigned pop(u64 x) { unsigned c = 0; for (; x; x &= x - 1) c++; return c; }
static unsigned ctz(u64 x, unsigned w) { for (unsigned i = 0; i < w; i++) if (x >> i & 1) return i; return w; }
static unsigned clz(u64 x, unsigned w) { for (unsigned i = 0; i < w; i++) if (x >> (w - 1 - i) & 1) return i; return w; }
static unsigned fields(u64 x, unsigned bits, unsigned value) {
    unsigned c = 0;
    for (unsigned i = 0; i + bits <= 64; i += bits) c += ((x >> i) & ((1u << bits) - 1)) == value;
    return c;
}
static u64 swap(u64 x, unsigned d) {   // exchange adjacent d-bit fields: bit i <-> bit i^d
    u64 y = 0;
    for (unsigned i = 0; i < 64; i++) if (x >> i & 1) y |= u64(1) << (i ^ d);
    return y;
}
}

static void check_word(mc::Ctx& c, u64 x, bool deep = true) {
    mc::H128 t;
    auto eq = [&](const char* f, u64 got, u64 want, u64 arg = 0) {
        MC_CHECK(got == want, "%s(0x%016llx, %llu) = %llu, want %llu", f, ull(x), ull(arg), ull(got), ull(want));
        t.word(got);
    };
    eq("popcnt64", bu::popcnt64(x), ref::pop(x));
    eq("popcnt<u64>", bu::popcnt<uint64_t>(x), ref::pop(x));
    eq("popcnt32", bu::popcnt32(u32(x)), ref::pop(u32(x)));
    eq("popcnt<u32>", bu::popcnt<uint32_t>(u32(x)), ref::pop(u32(x)));
    eq("popcnt16", bu::popcnt16(uint16_t(x)), ref::pop(uint16_t(x)));
    eq("popcnt<u16>", bu::popcnt<uint16_t>(uint16_t(x)), ref::pop(uint16_t(x)));
    eq("popcnt8", bu::popcnt8(uint8_t(x)), ref::pop(uint8_t(x)));
    eq("popcnt<u8>", bu::popcnt<uint8_t>(uint8_t(x)), ref::pop(uint8_t(x)));
    eq("ctz64", bu::ctz(uint64_t(x)), ref::ctz(x, 64));
    eq("clz64", bu::clz(uint64_t(x)), ref::clz(x, 64));
    eq("ctz32", bu::ctz(uint32_t(x)), ref::ctz(u32(x), 32));
    eq("clz32", bu::clz(uint32_t(x)), ref::clz(u32(x), 32));
    eq("popcnt11", bu::popcnt11(x), ref::fields(x, 2, 3));
    eq("popcnt10", bu::popcnt10(x), ref::fields(x, 2, 2));
    eq("popcnt111", bu::popcnt111(x), ref::fields(x, 3, 7));
    eq("popcnt110", bu::popcnt110(x), ref::fields(x, 3, 6));
    eq("popcnt101", bu::popcnt101(x), ref::fields(x, 3, 5));
    eq("popcnt100", bu::popcnt100(x), ref::fields(x, 3, 4));
    // select: the position (1-based) of every one
    unsigned k = 0;
    for (unsigned i = 0; i < 64; i++) if (x >> i & 1) { ++k; eq("sel", bu::sel(x, k), i + 1, k); }
    c.obs(18 + k);
    if (deep) {
        for (unsigned len = 0; len <= 64; len++) eq("cnt", bu::cnt<uint64_t>(x, len), ref::pop(x & mask(len)), len);
        for (unsigned len = 0; len <= 32; len++) eq("cnt<u32>", bu::cnt<uint32_t>(u32(x), len), ref::pop(u32(x) & mask(len)), len);
        for (unsigned len = 0; len <= 8; len++) eq("cnt<u8>", bu::cnt<uint8_t>(uint8_t(x), len), ref::pop(uint8_t(x) & mask(len)), len);
        eq("swap_pi1", bu::swap_pi1(x), ref::swap(x, 1));
        eq("swap_pi2", bu::swap_pi2(x), ref::swap(x, 2));
        eq("swap_pi4", bu::swap_pi4(x), ref::swap(x, 4));
        eq("swap_pi8", bu::swap_pi8(x), ref::swap(x, 8));
        eq("swap_pi16", bu::swap_pi16(x), ref::swap(x, 16));
        eq("swap_pi32", bu::swap_pi32(x), ref::swap(x, 32));
        c.obs(65 + 33 + 9 + 6);
    }
    c.transcript(t);
    c.state(mc::hash_words({x}));
}

MC_SCOPE("C23 C25", bytes_palette, 16) {           // every 64-bit word over a byte palette
    static const uint8_t pal[] = {0x00, 0xFF, 0x01, 0x80, 0x7E, 0xA5, 0x0F, 0xF0};
    size_t n = mc::lvl(5, 8, 3, 4);
    u64 x = 0;
    for (int i = 0; i < 8; i++) x |= u64(pal[c.choose(n)]) << (8 * i);
    c.log("word 0x%016llx", ull(x));
    check_word(c, x, false);
}
MC_SCOPE("C23 C25", two_runs, 16) {                // ones exactly in [a,b) and [d,e), and the complement
    long step = mc::lvl(1, 1, 3, 1);
    long a = c.range(0, 64 / step) * step, b = std::min(64L, a + c.range(0, 64) * 1);
    if (b < a) throw mc::Prune{};
    b = std::max(a, b);
    long d = c.range(b, 64), e = c.range(d, 64);
    u64 x = (mask(b) ^ mask(a)) | (mask(e) ^ mask(d));
    c.log("ones in [%ld,%ld) and [%ld,%ld)", a, b, d, e);
    check_word(c, x, (b - a) % 4 == 0 && (e - d) % 8 < 2);
    check_word(c, ~x, false);
}
MC_SCOPE("C23 C25", byte_in_context, 4) {          // every byte value at every byte position, in several backgrounds
    unsigned pos = c.choose(8), v = c.choose(256);
    u64 bg = c.of<u64>({0, ~u64(0), 0x0101010101010101ull, 0x8080808080808080ull, 0x5555555555555555ull, 0xFFFFFFFF00000000ull, 0x00000000FFFFFFFFull, 0x6666666666666666ull});
    u64 x = (bg & ~(u64(0xFF) << (8 * pos))) | u64(v) << (8 * pos);
    c.log("byte %u = %02x over 0x%016llx", pos, v, ull(bg));
    check_word(c, x);
}
MC_SCOPE("C23 C25", halfwords, 8) {                // every 16-bit value at every 16-bit position
    unsigned v = c.choose(1024), pos = c.choose(4); u64 bg = c.of<u64>({0, ~u64(0)});
    for (unsigned lo = 0; lo < 64; lo++) {
        u64 w = v * 64 + lo;
        check_word(c, (bg & ~(u64(0xFFFF) << (16 * pos))) | w << (16 * pos), false);
    }
    c.log("16-bit values %u..%u at %u over %llx", v * 64, v * 64 + 63, pos, ull(bg));
}
MC_SCOPE("C23 C25", symbol_fields, 4) {            // 3- and 2-bit symbol strings: s^n t^m with a window of all symbols
    unsigned w = 2 + c.choose(2), per = 64 / w, sym = 1u << w;
    unsigned s = c.choose(sym), t = c.choose(sym), n = c.choose(per + 1);
    unsigned at = c.choose(per - 1), p = c.choose(sym), q = c.choose(sym);
    u64 x = 0;
    for (unsigned i = 0; i < per; i++) {
        unsigned v = i == at ? p : i == at + 1 ? q : i < n ? s : t;
        x |= u64(v) << (w * i);
    }
    u64 top = c.choose(2);
    if (w == 3) x |= top << 63;
    c.log("width %u: %u^%u %u^rest, [%u]=%u,%u", w, s, n, t, at, p, q);
    check_word(c, x, false);
}
MC_SCOPE("C23 C25", bextr_all, 4) {                // every start and length on patterned words
    u64 x = c.of<u64>({0, ~u64(0), 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x8000000000000001ull, 0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 0x00FF00FF00FF00FFull});
    unsigned start = c.choose(64);
    mc::H128 t;
    for (unsigned len = 0; len <= 64; len++) {
        u64 got = bu::bextr(x, start, len), want = (x >> start) & mask(len);
        MC_CHECK(got == want, "bextr(0x%llx,%u,%u) = 0x%llx, want 0x%llx", ull(x), start, len, ull(got), ull(want));
        t.word(got);
    }
    c.obs(65); c.transcript(t);
    c.state(mc::hash_words({x, start}));
    c.log("bextr of 0x%llx from %u, all lengths", ull(x), start);
}
template <size_t... I> static void static_masks(mc::Ctx& c, std::index_sequence<I...>) {
    auto one = [&](unsigned w, u64 got) { MC_CHECK(got == mask(w), "width_mask<%u> = 0x%llx", w, ull(got)); c.obs(1); };
    (one(I, bu::width_mask<I>), ...);
    one(64, bu::width_mask<64>);
    auto off = [&](unsigned w, u64 got) { MC_CHECK(got == u64(1) << w, "offset_mask<%u> = 0x%llx", w, ull(got)); c.obs(1); };
    (off(I, bu::offset_mask<I>), ...);
}
MC_SCOPE("C23 C25", masks, 1) {
    unsigned w = c.choose(65);
    c.log("masks of width %u", w);
    u64 got = bu::WidthMask(w);
    MC_CHECK(got == mask(w), "WidthMask(%u) = 0x%llx, want 0x%llx", w, ull(got), ull(mask(w)));
    if (w < 64) MC_CHECK(bu::OffsetMask(w) == u64(1) << w, "OffsetMask(%u) = 0x%llx", w, ull(bu::OffsetMask(w)));
    static_masks(c, std::make_index_sequence<64>());
    c.state(mc::hash_words({w})); c.transcript(mc::hash_words({got}));
}
MC_SCOPE("C23 C25", three_bits, 8) {               // every word with at most three ones, and complements
    unsigned a = c.choose(65), b = a + c.choose(65 - a), d = b + c.choose(65 - b);
    u64 x = 0;
    for (unsigned i : {a, b, d}) if (i < 64) x |= u64(1) << i;
    c.log("bits %u %u %u", a, b, d);
    check_word(c, x, false); check_word(c, ~x, false);
}
MC_SCOPE("C23", all_u32, 64) {                     // thorough: every 32-bit operand
    if (!mc::thorough()) { c.choose(1); unsigned hi = c.choose(256); u32 x = hi << 24 | hi << 12 | hi; check_word(c, x); c.log("32-bit %x", x); return; }
    u32 hi = u32(c.choose(256)), mid = u32(c.choose(MC_ASAN ? 4 : 256));
    for (u32 lo = 0; lo < 65536; lo++) {
        u32 x = hi << 24 | mid << 16 | lo;
        unsigned p = unsigned(__builtin_popcount(x)), tz = x ? unsigned(__builtin_ctz(x)) : 32, lz = x ? unsigned(__builtin_clz(x)) : 32;
        MC_CHECK(bu::popcnt32(x) == p && unsigned(bu::ctz(x)) == tz && unsigned(bu::clz(x)) == lz, "popcnt32/ctz/clz of 0x%x: %u %d %d", x, bu::popcnt32(x), bu::ctz(x), bu::clz(x));
    }
    c.obs(3 * 65536); c.log("32-bit words %08x..%08x", hi << 24 | mid << 16, hi << 24 | mid << 16 | 0xFFFF);
    c.state(mc::hash_words({hi, mid}));
}
