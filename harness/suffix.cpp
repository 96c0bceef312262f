// C19: the suffix and LCP arrays against sorting the suffixes and comparing neighbours.
#include "common.hpp"
#include <sim_ds/string_util/SuffixArray.hpp>
using namespace h;
using sim_ds::SuffixArray;

static std::vector<size_t> read_array(const std::string& bytes, const char* what) {
    std::istringstream is(bytes); sim_ds::FitVector v(is);
    std::vector<size_t> r(v.size()); for (size_t i = 0; i < r.size(); i++) r[i] = v[i];
    return r;
}
// suffix order by prefix doubling: independent of the library and fast on periodic strings
static std::vector<size_t> sorted_suffixes(const std::string& s) {
    size_t n = s.size(); std::vector<size_t> sa(n); std::vector<long> rk(n), t(n);
    for (size_t i = 0; i < n; i++) sa[i] = i, rk[i] = (unsigned char)s[i];
    if (n <= 40) { std::sort(sa.begin(), sa.end(), [&](size_t a, size_t b) { return s.compare(a, s.npos, s, b, s.npos) < 0; }); return sa; }
    for (size_t k = 1;; k *= 2) {
        auto key = [&](size_t i) { return std::pair<long, long>(rk[i], i + k < n ? rk[i + k] : -1); };
        std::sort(sa.begin(), sa.end(), [&](size_t a, size_t b) { return key(a) < key(b); });
        t[sa[0]] = 0; for (size_t i = 1; i < n; i++) t[sa[i]] = t[sa[i - 1]] + (key(sa[i - 1]) < key(sa[i]));
        rk = t;
        if (rk[sa[n - 1]] == long(n) - 1) return sa;
    }
}
static void whole(mc::Ctx& c, const std::string& s) {
    if (c.replay) { c.note("string " + show_str(s)); }
    mc::Mute mute;
    SuffixArray a(s); size_t n = s.size();
    std::ostringstream o1, o2; a.WriteSA(o1); a.WriteLCP(o2);
    auto sa = read_array(o1.str(), "suffix array"), lcp = read_array(o2.str(), "LCP array");
    auto want = sorted_suffixes(s);
    MC_CHECK(sa.size() == n && lcp.size() == n, "%s: %zu suffixes and %zu LCP values", show_str(s).c_str(), sa.size(), lcp.size());
    MC_CHECK(sa == want, "%s: suffix array %s, want %s", show_str(s).c_str(), show_ints(sa).c_str(), show_ints(want).c_str());
    std::vector<size_t> inv(n); for (size_t i = 0; i < n; i++) inv[want[i]] = i;
    size_t l = 0;
    for (size_t p = 0; p < n; p++) {                   // LCP of neighbours
        if (inv[p] + 1 == n) { MC_CHECK(lcp[inv[p]] == 0, "%s: the last LCP value is %zu", show_str(s).c_str(), lcp[inv[p]]); l = 0; continue; }
        size_t q = want[inv[p] + 1]; while (p + l < n && q + l < n && s[p + l] == s[q + l]) l++;
        MC_CHECK(lcp[inv[p]] == l, "%s: LCP[%zu] = %zu, want %zu", show_str(s).c_str(), inv[p], lcp[inv[p]], l);
        if (l) l--;
    }
    for (size_t i = 0; i < n; i += 1 + n / 50) {
        MC_CHECK(a.char_at(i) == uint8_t(s[i]), "%s: char_at(%zu) = %u", show_str(s).c_str(), i, a.char_at(i));
        MC_CHECK(a.suffix(i) == std::string_view(s).substr(i), "%s: suffix(%zu) = %s", show_str(s).c_str(), i, show_str(a.suffix(i)).c_str());
        for (size_t k : {size_t(0), size_t(1), size_t(2), n - i, n}) MC_CHECK(a.suffix(i, k) == std::string_view(s).substr(i, k), "%s: suffix(%zu,%zu) = %s", show_str(s).c_str(), i, k, show_str(a.suffix(i, k)).c_str());
    }
    c.obs(4 * n); c.state(hash_str(s));
}
static std::string nth(const std::string& al, size_t len, size_t i) { std::string s; for (size_t k = 0; k < len; k++) { s += al[i % al.size()]; i /= al.size(); } return s; }
static size_t power(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
MC_SCOPE("C19", every_string, 16) {
    static const std::vector<std::string> als{"a", "ab", std::string("\0\x01", 2), "\x7f\x80", "\xff" "a", "abc", std::string("\0b\xff", 3), "abcd", std::string("\x01\0\xfe\xff\x80", 5)};
    auto& al = c.pick(als); static const int q[] = {0, 40, 15, 10, 8, 6}, t[] = {0, 60, 20, 12, 10, 8}, as[] = {0, 20, 11, 7, 5, 5}, at[] = {0, 30, 14, 9, 7, 6};
    size_t mx = (MC_ASAN ? (mc::thorough() ? at : as) : (mc::thorough() ? t : q))[al.size()];
    size_t n = c.choose(mx + 1), e = power(al.size(), n), part = e > 64 ? 64 : 1, p = c.choose(part);
    for (size_t i = p; i < e; i += part) { whole(c, nth(al, n, i)); c.beat(); }
}
MC_SCOPE("C19", every_byte, 16) {                    // every byte next to every other one
    unsigned a = c.choose(256), b = MC_ASAN ? (a ^ (1u << c.choose(9))) & 255 : unsigned(c.choose(256));
    std::string A(1, char(a)), B(1, char(b));
    for (auto& s : {A, A + B, A + B + A, B + A + A + B, A + B + B + A + B + A + B + B + A}) whole(c, s);
}
// words over blocks: the induced sort has to recurse, down to as many levels as the nesting
MC_SCOPE("C19", blocks, 16) {
    static const std::vector<std::vector<std::string>> bs{{"ab", "aab", "abb"}, {"ba", "baa", "bab"}, {"ab", "ac", "abac"}, {std::string("\xff\0", 2), std::string("\xff\0\0", 3), std::string("\0\xff", 2)}, {"aba", "abb", "ab"}};
    auto& b = c.pick(bs); size_t n = c.choose(mc::lvl(8, 10, 6, 7)), e = power(3, n), part = e > 27 ? 27 : 1, p = c.choose(part), nest = c.choose(2);
    for (size_t i = p; i < e; i += part) {
        std::string w = nth(std::string("\0\1\2", 3), n, i), s;
        for (char x : w) s += b[x];
        if (nest) { std::string t; for (char x : s) t += b[(unsigned char)x % 3]; s = t; }
        whole(c, s); c.beat();
    }
}
MC_SCOPE("C19", morphisms, 16) {                     // fixed points of every small morphism: Fibonacci, Thue-Morse, period doubling, ...
    static const std::vector<std::string> im{"a", "b", "aa", "ab", "ba", "bb", "aba", "bab", "abb", "aab", "baa", "bba"};
    const auto &fa = im[c.choose(im.size())], &fb = im[c.choose(im.size())]; size_t cap = c.of<size_t>({40, 200, size_t(mc::lvl(1500, 6000, 500, 1500))}); std::string s = "ab";
    for (int k = 0; k < 24 && s.size() < cap; k++) { std::string t; for (char x : s) t += x == 'a' ? fa : fb; if (t.size() > 3 * cap) break; s = t; }
    c.log("a -> %s, b -> %s, length %zu", fa.c_str(), fb.c_str(), s.size());
    whole(c, s);
}
MC_SCOPE("C19", lengths, 16) {                       // every length, several families
    size_t n = c.choose(mc::lvl(700, 1500, 200, 500)); unsigned k = c.choose(7); std::string s;
    for (size_t i = 0; i < n; i++) s += char(k == 0 ? 'a' : k == 1 ? 'a' + i % 2 : k == 2 ? i : k == 3 ? 255 - i : k == 4 ? (i * i >> 4) : k == 5 ? (i % 17 == 0) : (i + 1 == n ? 0 : 255));
    c.log("family %u of length %zu", k, n);
    whole(c, s);
}
MC_SCOPE("C19", runs, 16) {                          // runs of border lengths
    static const size_t ls[] = {0, 1, 2, 3, 7, 15, 16, 33}; auto al = c.pick(std::vector<std::string>{"abab", "abcb", "abac", "ab\xff" "a"}); std::string s;
    for (char x : al) s.append(ls[c.choose(mc::lvl(8, 8, 5, 7))], x);
    whole(c, s); whole(c, s + s);
}
MC_SCOPE("C19", beyond_16_bits, 8) {                 // positions and common prefixes beyond 16 bits
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.of<size_t>({65535, 65536, 65537, 70000, 131073, size_t(mc::lvl(140000, 300000))}); unsigned k = c.choose(8); std::string s;
    if (k == 7) { std::string a = "a", b = "ab"; while (b.size() < n) { auto t = b + a; a = b; b = t; } s = b.substr(0, n); }
    else for (size_t i = 0; i < n; i++) s += char(k == 0 ? 'a' : k == 1 ? 'a' + i % 2 : k == 2 ? (i * i >> 9) : k == 3 ? __builtin_popcountll(i) % 2 : k == 4 ? (i * i * 7 >> 5) % 3 : k == 5 ? (i % (n / 2 + 3)) * 2654435761u >> 27 : (i + 1 == n ? 0 : 255 - (i % 65600 == 0)));
    c.log("family %u of length %zu", k, n); c.beat();
    whole(c, s);
}
