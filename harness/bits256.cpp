// C24: 256-bit block operations; also run by C25 in every instruction-set configuration.
#include "common.hpp"
#include <sim_ds/basic.hpp>
#include <sim_ds/bit_util256.hpp>
using namespace h;
namespace bu = sim_ds::bit_util;

struct alignas(32) Block { u64 w[4]; };
static bool bit(const Block& b, unsigned i) { return b.w[i >> 6] >> (i & 63) & 1; }
static void put(Block& b, unsigned i, bool v) { b.w[i >> 6] = (b.w[i >> 6] & ~(u64(1) << (i & 63))) | u64(v) << (i & 63); }
static std::string str(const Block& b) { char s[80]; snprintf(s, sizeof s, "%016llx'%016llx'%016llx'%016llx", ull(b.w[3]), ull(b.w[2]), ull(b.w[1]), ull(b.w[0])); return s; }
static mc::H128 hash(const Block& b) { return mc::hash_words({b.w[0], b.w[1], b.w[2], b.w[3]}); }

struct Guarded { alignas(32) u64 pre[4]; Block b; alignas(32) u64 post[4]; };
static void canary(Guarded& g) { for (int i = 0; i < 4; i++) g.pre[i] = g.post[i] = 0xC0FFEE0123456789ull + i, g.b.w[i] = 0x5A5A5A5A5A5A5A5Aull; }
static void check_canary(const Guarded& g, const char* f) {
    for (int i = 0; i < 4; i++) MC_CHECK(g.pre[i] == 0xC0FFEE0123456789ull + i && g.post[i] == 0xC0FFEE0123456789ull + i, "%s wrote outside its block", f);
}

static void scalar(mc::Ctx& c, const Block& b) {
    unsigned pop = 0, tz = 256, lz = 256;
    for (unsigned i = 0; i < 256; i++) if (bit(b, i)) { pop++; if (tz == 256) tz = i; lz = 255 - i; }
    int p = bu::popcnt256(b.w), t = bu::ctz256(b.w), l = bu::clz256(b.w);
    bool z = bu::is_zero256(b.w);
    MC_CHECK(p == int(pop), "popcnt256(%s) = %d, want %u", str(b).c_str(), p, pop);
    MC_CHECK(t == int(tz), "ctz256(%s) = %d, want %u", str(b).c_str(), t, tz);
    MC_CHECK(l == int(lz), "clz256(%s) = %d, want %u", str(b).c_str(), l, lz);
    MC_CHECK(z == (pop == 0), "is_zero256(%s) = %d", str(b).c_str(), z);
#ifdef __AVX2__
    bool zi = bu::is_zero256_intrinsics(_mm256_load_si256(reinterpret_cast<const __m256i*>(b.w)));
    MC_CHECK(zi == (pop == 0), "is_zero256_intrinsics(%s) = %d", str(b).c_str(), zi);
#endif
    Guarded g; canary(g);
    Block src = b;
    bu::copy256_epi64(src.w, g.b.w);
    check_canary(g, "copy256_epi64");
    for (int i = 0; i < 4; i++) MC_CHECK(g.b.w[i] == b.w[i] && src.w[i] == b.w[i], "copy256_epi64(%s): word %d is %llx", str(b).c_str(), i, ull(g.b.w[i]));
    for (int v = 0; v < 2; v++) {
        bu::set256_epi1(v, g.b.w);
        check_canary(g, "set256_epi1");
        for (int i = 0; i < 4; i++) MC_CHECK(g.b.w[i] == (v ? ~u64(0) : 0), "set256_epi1(%d): word %d is %llx", v, i, ull(g.b.w[i]));
    }
    c.obs(8); c.transcript(mc::hash_words({u64(p), u64(t), u64(l), u64(z)})); c.state(hash(b));
}
static void xmap(mc::Ctx& c, const Block& b, unsigned mask) {
    Block src = b;
    Guarded g; canary(g);
    bu::xor_map(src.w, uint8_t(mask), g.b.w);
    check_canary(g, "xor_map");
    for (unsigned i = 0; i < 256; i++)
        MC_CHECK(bit(g.b, i) == bit(b, i ^ mask), "xor_map(%s, %u): bit %u is %d, want bit %u", str(b).c_str(), mask, i, bit(g.b, i), i ^ mask);
    for (int i = 0; i < 4; i++) MC_CHECK(src.w[i] == b.w[i], "xor_map changed its source");
#ifdef __AVX2__
    Block r;
    _mm256_store_si256(reinterpret_cast<__m256i*>(r.w), bu::xor_map_intrinsics(_mm256_load_si256(reinterpret_cast<const __m256i*>(b.w)), uint8_t(mask)));
    for (int i = 0; i < 4; i++) MC_CHECK(r.w[i] == g.b.w[i], "xor_map_intrinsics(%s, %u) = %s, want %s", str(b).c_str(), mask, str(r).c_str(), str(g.b).c_str());
#endif
    c.obs(2); c.transcript(hash(g.b)); mc::H128 s = hash(b); s.word(mask); c.state(s);
}
static const u64 kPal[] = {0, ~u64(0), 1, u64(1) << 63, 0x0123456789ABCDEFull, 0xAAAAAAAAAAAAAAAAull, 0x00000000FFFFFFFFull, 0xFF00FF00FF00FF00ull,
                           u64(1) << 31, u64(1) << 32, 0x8000000000000001ull, 0x7FFFFFFFFFFFFFFEull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFFFF0000FFFF0000ull, 0x8421084210842108ull};

MC_SCOPE("C24 C25", words_palette, 8) {           // 16^4 blocks
    Block b;
    unsigned n = mc::lvl(16, 16, 8, 16);
    for (auto& w : b.w) w = kPal[c.choose(n)];
    c.log("block %s", str(b).c_str());
    scalar(c, b);
}
MC_SCOPE("C24 C25", runs, 8) {                    // every block whose ones are one run, or one run plus one bit
    unsigned a = c.choose(257), e = a + c.choose(257 - a), x = c.choose(mc::lvl(17, 257, 9, 17));
    Block b{};
    for (unsigned i = a; i < e; i++) put(b, i, true);
    unsigned p = mc::thorough() ? x : x * 16;
    if (p < 256) put(b, p, !bit(b, p));
    c.log("ones in [%u,%u), bit %u flipped", a, e, p);
    scalar(c, b);
    Block n = b; for (auto& w : n.w) w = ~w;
    scalar(c, n);
}
MC_SCOPE("C24 C25", single_bit_all_masks, 8) {    // where every bit goes under every mask, alone and as the only zero
    unsigned mask = c.choose(256), i = c.choose(256);
    Block b{}; put(b, i, true);
    c.log("bit %u under mask %u", i, mask);
    xmap(c, b, mask);
    for (auto& w : b.w) w = ~w;
    xmap(c, b, mask);
}
MC_SCOPE("C24 C25", patterns_all_masks, 8) {
    unsigned mask = c.choose(256);
    Block b;
    unsigned n = mc::lvl(6, 12, 3, 6);
    for (auto& w : b.w) w = kPal[(c.choose(n) * 5 + 4) % 16];
    c.log("block %s under mask %u", str(b).c_str(), mask);
    xmap(c, b, mask);
}
MC_SCOPE("C24 C25", pairs_of_bits, 8) {           // thorough: every pair of bits through the counting functions and eight masks
    unsigned i = c.choose(256), j = mc::thorough() ? c.choose(256) : (c.choose(32) * 8 + i % 8);
    Block b{}; put(b, i, true); put(b, j, true);
    c.log("bits %u %u", i, j);
    scalar(c, b);
    for (unsigned k = 0; k < 8; k++) xmap(c, b, 255u ^ (1u << k));
}
