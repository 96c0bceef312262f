// C22: whatever was written is read back as an equal object from exactly the same bytes.  C25 compares the bytes between builds.
#include "subjects.hpp"
using namespace subj;

static std::string stored(const std::function<void(std::ostream&)>& w) { std::ostringstream os; w(os); return os.str(); }
// bytes as far as they have a meaning: the rank samples of a multi-bit vector are structures with padding at their end
template <unsigned U> static std::string without_padding(std::string b) {
    const size_t used = 8 + 4 * U, whole = (used + 7) / 8 * 8; size_t at = 0; u64 n;
    auto count = [&] { if (b.size() < at + 8) return false; std::memcpy(&n, b.data() + at, 8); at += 8; return n <= b.size(); };
    if (!count() || b.size() < at + 8 * n) return b;
    at += 8 * n;
    for (unsigned t = 0; t < 1u << U; t++) {
        if (!count() || b.size() < at + whole * n) return b;
        for (; n; n--, at += whole) std::fill(b.begin() + at + used, b.begin() + at + whole, 0);
    }
    return b;
}
template <class Sub> static std::string meaning(std::string b) {
    if constexpr (std::is_same_v<Sub, SMulti<1>>) return without_padding<1>(std::move(b));
    else if constexpr (std::is_same_v<Sub, SMulti<2>>) return without_padding<2>(std::move(b));
    else if constexpr (std::is_same_v<Sub, SMulti<3>>) return without_padding<3>(std::move(b));
    else return b;
}
// read from bytes + tail; exactly the bytes must be consumed
template <class F> static void reading(const std::string& bytes, const std::string& tail, const char* what, F f) {
    std::istringstream is(bytes + tail);
    f(is);
    MC_CHECK(!is.fail(), "%s: reading runs past the end of what was written", what);
    auto at = (long long)is.tellg();
    MC_CHECK(at == (long long)bytes.size(), "%s: reading consumes %lld of %zu bytes", what, at, bytes.size());
}
// how: 0 fresh object, 1 + j object that holds content j
template <class Sub> static void round_trip(mc::Ctx& c, size_t k, size_t how, const std::string& tail, bool deep) {
    using S = typename Sub::S;
    S orig = Sub::make(k);
    auto want = answers<Sub>(orig, k);
    std::string bytes = stored([&](std::ostream& o) { Sub::write(orig, o); }), what = std::string(Sub::name()) + " content " + std::to_string(k) + (how ? " into content " + std::to_string(how - 1) : "");
    const std::string sense = meaning<Sub>(bytes);
    mc::H128 t; t.bytes(sense.data(), sense.size()); t.seq(want); c.transcript(t);
    MC_CHECK(answers<Sub>(orig, k) == want, "%s: writing changed the object: %s", what.c_str(), difference<Sub>(orig, k, want).c_str());
    auto examine = [&](S& s) {
        if constexpr (std::is_same_v<Sub, SMulti<1>> || std::is_same_v<Sub, SMulti<2>> || std::is_same_v<Sub, SMulti<3>>) s.len = orig.len;
        std::string d = difference<Sub>(s, k, want);
        MC_CHECK(d.empty(), "%s: %s", what.c_str(), d.c_str());
        std::string again = stored([&](std::ostream& o) { Sub::write(s, o); });
        MC_CHECK(meaning<Sub>(again) == sense, "%s: written again it gives other bytes (%zu, first %zu)", what.c_str(), again.size(), bytes.size());
        c.obs(want.size() + 1);
        if (!deep) return;
        if constexpr (Sub::nmut > 0) {                  // and it goes on working like the original
            size_t m = c.choose(Sub::nmut), m2 = c.choose(Sub::nmut + 1);
            S twin = orig;
            for (size_t x : {m, m2}) if (x < Sub::nmut && Sub::can(twin, x)) { c.log("then %s", Sub::mname(x)); Sub::mutate(twin, x); Sub::mutate(s, x); }
            std::vector<u64> w2{Sub::extent(twin)};
            for (auto& q : Sub::queries(k, w2[0])) w2.push_back(q.f(twin));
            d = difference<Sub>(s, k, w2);
            MC_CHECK(d.empty(), "%s, then %s %s: %s", what.c_str(), Sub::mname(m), m2 < Sub::nmut ? Sub::mname(m2) : "", d.c_str());
        }
    };
    if (how == 0) {
        std::unique_ptr<S> p;
        reading(bytes, tail, what.c_str(), [&](std::istream& is) { p.reset(new S(Sub::load(is))); });
        examine(*p);
    } else {
        S s = Sub::make(how - 1);
        reading(bytes, tail, what.c_str(), [&](std::istream& is) { Sub::reload(s, is); });
        examine(s);
    }
}
template <class Sub> static void pairs(mc::Ctx& c) {
    size_t k = c.choose(Sub::n), how = c.choose(Sub::n + 1); static const std::string tails[] = {"", std::string(64, '\xff'), std::string(3, 0)};
    size_t t = c.choose(3);
    c.log("%s: content %zu, target %s%zu, %zu bytes follow in the stream", Sub::name(), k, how ? "with content " : "fresh ", how ? how - 1 : 0, tails[t].size());
    round_trip<Sub>(c, k, how, tails[t], t == 0);
    if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); h.word(how); h.word(t); c.state(h); }
}
#define SCOPE_PAIRS(Sub, id) static void pairs_fn_##id(mc::Ctx& c) { pairs<Sub>(c); } static mc::Reg pairs_reg_##id("C22 C25", "store_and_load_" #id, 1, pairs_fn_##id);
SUBJECTS_SERIAL(SCOPE_PAIRS)

// ---- several objects in one stream
struct Kind { const char* name; size_t n; void (*put)(size_t, std::ostream&); void (*get)(mc::Ctx&, size_t, size_t, std::istream&); };
template <class Sub> static void put(size_t k, std::ostream& os) { Sub::write(Sub::make(k), os); }
template <class Sub> static void get(mc::Ctx& c, size_t k, size_t old, std::istream& is) {
    using S = typename Sub::S;
    static std::vector<std::vector<u64>> memo(Sub::n);
    if (memo[k].empty()) memo[k] = answers<Sub>(Sub::make(k), k);
    std::unique_ptr<S> p;
    if (old == 0) p.reset(new S(Sub::load(is))); else { p.reset(new S(Sub::make((old - 1) % Sub::n))); Sub::reload(*p, is); }
    if constexpr (std::is_same_v<Sub, SMulti<1>> || std::is_same_v<Sub, SMulti<2>> || std::is_same_v<Sub, SMulti<3>>) p->len = memo[k][0];
    std::string d = difference<Sub>(*p, k, memo[k]);
    MC_CHECK(d.empty(), "%s content %zu in the middle of a stream: %s", Sub::name(), k, d.c_str());
    c.obs(memo[k].size());
}
#define KIND(Sub, id) {Sub::name(), Sub::n, put<Sub>, get<Sub>},
static const std::vector<Kind> kinds = {SUBJECTS_SERIAL(KIND)};
static void streams(mc::Ctx& c, size_t len, const std::vector<size_t>& contents) {
    std::vector<std::pair<size_t, size_t>> l; std::stringstream io; std::vector<size_t> ends;
    for (size_t i = 0; i < len; i++) {
        size_t t = c.choose(kinds.size()), k = contents[c.choose(contents.size())] % kinds[t].n;
        l.emplace_back(t, k); c.log("write %s content %zu", kinds[t].name, k);
    }
    size_t old = c.choose(2) * 3;
    for (auto [t, k] : l) { kinds[t].put(k, io); ends.push_back(size_t(io.tellp())); }
    for (size_t i = 0; i < len; i++) {
        auto [t, k] = l[i];
        kinds[t].get(c, k, old, io);
        MC_CHECK(!io.fail() && size_t(io.tellg()) == ends[i], "object %zu of the stream (%s content %zu): read up to %lld instead of %zu", i, kinds[t].name, k, (long long)io.tellg(), ends[i]);
    }
    if (c.fresh()) { mc::H128 h; for (auto [t, k] : l) { h.word(t); h.word(k); } h.word(old); c.state(h); }
}
MC_SCOPE("C22", two_in_a_stream, 16) { std::vector<size_t> all; for (size_t i = 0; i < size_t(mc::lvl(9, 13, 3, 6)); i++) all.push_back(i); streams(c, 2, all); }
MC_SCOPE("C22", three_in_a_stream, 16) { streams(c, 3, mc::lvl(0, 1, 0, 0) ? std::vector<size_t>{0, 4, 6} : MC_ASAN ? std::vector<size_t>{4} : std::vector<size_t>{3, 0}); }

// ---- every small content
static std::string as_is(std::string b) { return b; }
template <class S, class W, class L, class O> static void small(mc::Ctx& c, const S& s, W write, L load, O observe, const char* what, std::string (*sense)(std::string) = as_is) {
    std::string bytes = stored([&](std::ostream& o) { write(s, o); }), first = sense(bytes);
    mc::H128 want = observe(s); mc::H128 t = want; t.bytes(first.data(), first.size()); c.transcript(t);
    for (const std::string& tail : {std::string(), std::string(40, '\x5a')})
        reading(bytes, tail, what, [&](std::istream& is) {
            auto p = load(is);
            MC_CHECK(observe(*p) == want, "%s: the loaded object answers differently", what);
            std::string again = stored([&](std::ostream& o) { write(*p, o); });
            MC_CHECK(sense(again) == first, "%s: written again it gives other bytes", what);
        });
    c.obs(2);
}
MC_SCOPE("C22 C25", every_bit_string, 16) {
    size_t n = c.choose(mc::lvl(15, 19, 11, 14)); Bits b(n); for (size_t i = 0; i < n; i++) b[i] = c.flip();
    c.log("bits %s", show(b).c_str());
    sim_ds::BitVector v(n); for (size_t i = 0; i < n; i++) v[i] = b[i];
    auto ob = [n](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < n; i++) h.word(bool(s[i])); return h; };
    small(c, v, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::BitVector>(); p->Read(is); return p; }, ob, "BitVector");
    sim_ds::SuccinctBitVector<true> s(v); size_t ones = 0; for (bool x : b) ones += x;
    small(c, s, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { return std::make_unique<sim_ds::SuccinctBitVector<true>>(is); },
          [&](auto& s) { mc::H128 h = ob(s); for (size_t i = 0; i <= n; i++) h.word(s.rank(i)); for (size_t i = 0; i < ones; i++) h.word(s.select(i)); return h; }, "SuccinctBitVector");
    if (c.fresh()) c.state(hash_bits(b));
}
MC_SCOPE("C22 C25", every_size, 16) {                   // every length, four patterns, over every kind of bit structure
    size_t n = c.choose(mc::lvl(1100, 2600, 600, 1100)), kind = c.choose(4); Bits b = pattern(n, unsigned(kind));
    c.log("%zu bits of pattern %zu", n, kind);
    sim_ds::BitVector v(n); for (size_t i = 0; i < n; i++) v[i] = b[i];
    sim_ds::SuccinctBitVector<true> s(v); size_t ones = 0; for (bool x : b) ones += x;
    auto ob = [n](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < n; i++) h.word(bool(s[i])); return h; };
    small(c, v, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::BitVector>(5, true); p->Read(is); return p; }, ob, "BitVector");
    small(c, s, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::SuccinctBitVector<true>>(); p->Read(is); return p; },
          [&](auto& s) { mc::H128 h = ob(s); for (size_t i = 0; i <= n; i++) h.word(s.rank(i)); for (size_t i = 0; i < ones; i++) h.word(s.select(i)); return h; }, "SuccinctBitVector");
    sim_ds::MultiBitVector<3> m; for (size_t i = 0; i < n / 3; i++) m.set(i, uint8_t(b[3 * i] + 2 * b[3 * i + 1] + 4 * b[3 * i + 2])); m.build();
    small(c, m, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::MultiBitVector<3>>(); p->Read(is); return p; },
          [&](auto& s) { mc::H128 h; for (size_t i = 0; i < n / 3; i++) { h.word(s[i]); if (s[i]) h.word(s.rank(i)); } return h; }, "MultiBitVector<3>", without_padding<3>);
    if (c.fresh()) c.state(mc::hash_words({n, kind}));
}
MC_SCOPE("C22 C25", every_width, 16) {                  // fixed-width vectors: every width, every length to 40; also after growing and shrinking
    size_t w = 1 + c.choose(64), n = c.choose(mc::lvl(41, 140, 20, 41)), how = c.choose(3);
    c.log("%zu values of %zu bits, made in way %zu", n, w, how);
    sim_ds::FitVector v(w);
    if (how == 0) for (size_t i = 0; i < n; i++) v.push_back(lcg(i, w) & mask(unsigned(w)));
    if (how == 1) { v.assign(n + 5, mask(unsigned(w))); v.resize(n); }
    if (how == 2) { v.reserve(3 * n + 1); v.resize(n); if (n) v[n - 1] = mask(unsigned(w)); }
    small(c, v, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { return std::make_unique<sim_ds::FitVector>(is); },
          [](auto& s) { mc::H128 h; h.word(s.size()); h.word(s.unit_width()); for (size_t i = 0; i < s.size(); i++) h.word(u64(s[i])); return h; }, "FitVector");
    if (c.fresh()) c.state(mc::hash_words({w, n, how}));
}
MC_SCOPE("C22 C25", every_list, 16) {                   // all lists of border values as directly addressable code, wavelet tree and records
    static const std::vector<size_t> al{0, 1, 127, 128, 255, 256, 65535, 1ull << 32, ~0ull};
    size_t n = c.choose(mc::lvl(5, 6, 4, 5)); std::vector<size_t> l; for (size_t i = 0; i < n; i++) l.push_back(c.pick(al));
    c.log("list %s", show_ints(l).c_str());
    sim_ds::DacVector d(l);
    small(c, d, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { return std::make_unique<sim_ds::DacVector>(is); },
          [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) { h.word(s[i]); h.word(s.depth(i)); } return h; }, "DacVector");
    if (n) {
        std::vector<int> bs; for (auto x : l) bs.push_back(int(x & 255));
        sim_ds::WaveletTree t(bs);
        small(c, t, [](auto& s, std::ostream& o) { s.Write(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::WaveletTree>(std::vector<int>{9, 3}); p->Read(is); return p; },
              [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) { h.word(s[i]); h.word(s.rank(i)); } for (unsigned x : {0, 1, 127, 255}) h.word(s.rank(uint8_t(x), s.size())); return h; }, "WaveletTree");
    }
    sim_ds::MultipleVector m; m.set_element_sizes(std::vector<size_t>{8, 3, 1}); for (auto x : l) m.push_back({x, x & 0xffffff, x & 255});
    small(c, m, [](auto& s, std::ostream& o) { s.StoreTo(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::MultipleVector>(); p->LoadFrom(is); return p; },
          [](auto& s) { mc::H128 h; h.word(s.size()); h.word(s.block_size()); for (size_t i = 0; i < s.size(); i++) { h.word(s.template nested_element<0>(i)); h.word(s.template nested_element<1>(i)); h.word(s.template nested_element<2>(i)); } return h; }, "MultipleVector");
    if (c.fresh()) c.state(mc::hash_seq(l));
}
MC_SCOPE("C22 C25", every_key_set, 16) {                // every set of short words, as set and as dictionary; and the text they form
    static const std::vector<std::string> pool{"", "a", "b", "aa", "ab", "ba", "bb", "aba", "\xfe", "\x01\x80", "bbbbbbbb"};
    std::vector<std::string> ks; size_t np = size_t(mc::lvl(11, 11, 8, 10)); std::set<std::string> s; for (size_t i = 0; i < np; i++) if (c.flip()) s.insert(pool[i]);
    ks.assign(s.begin(), s.end()); std::string all; for (auto& x : ks) all += x + ",";
    c.log("keys %s", show_str(all).c_str());
    auto acc = [&](auto& s) { mc::H128 h; for (auto& x : pool) { h.word(s.accept(x)); h.word(s.accept(x + "a")); } return h; };
    auto look = [&](auto& s) { mc::H128 h; for (auto& x : pool) { h.word(s.lookup(x)); h.word(s.lookup(x + "a")); } for (size_t i = 0; i < ks.size(); i++) h.word(hs(s.access(i))); return h; };
    auto wr = [](auto& s, std::ostream& o) { s.Write(o); };
    using A = sim_ds::Samc<u32>; using B = sim_ds::Samc<u64, true>; using D = sim_ds::SamcDict<u32>; using X = sim_ds::SuffixArray;
    small(c, A(ks.begin(), ks.end()), wr, [](std::istream& is) { auto p = std::make_unique<A>(); p->Read(is); return p; }, acc, "Samc");
    small(c, B(ks.begin(), ks.end()), wr, [](std::istream& is) { auto p = std::make_unique<B>(); p->Read(is); return p; }, acc, "Samc (legacy)");
    small(c, D(ks.begin(), ks.end()), wr, [](std::istream& is) { auto p = std::make_unique<D>(); p->Read(is); return p; }, look, "SamcDict");
    std::unique_ptr<X> t; { mc::Mute mu; t.reset(new X(all)); }
    small(c, *t, wr, [](std::istream& is) { auto p = std::make_unique<X>(); p->Read(is); return p; },
          [&](auto& s) { mc::H128 h; h.word(bytes_of([&](std::ostream& o) { s.WriteSA(o); s.WriteLCP(o); })); for (size_t i = 0; i < all.size(); i++) h.word(s.char_at(i)); h.word(hs(s.suffix(0))); return h; }, "SuffixArray");
    if (c.fresh()) c.state(hash_str(all));
}
MC_SCOPE("C22", beyond_16_bits, 1) {                    // more elements and bytes than lengths of 16 bits count
    if (MC_ASAN) throw mc::Prune{};
    size_t n = c.pick(std::vector<size_t>{65535, 65536, 65537, 70001, 140000}), what = c.choose(8);
    c.log("structure %zu with %zu elements", what, n);
    auto wr = [](auto& s, std::ostream& o) { s.Write(o); };
    auto bits = [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) h.word(bool(s[i])); return h; };
    auto each = [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) h.word(u64(s[i])); return h; };
    auto bitvec = [&](size_t m, unsigned kind) { Bits b = pattern(m, kind); sim_ds::BitVector v(m); for (size_t i = 0; i < m; i++) v[i] = b[i]; return v; };
    auto word = [](size_t i) { std::string w; for (int k = 0; k < 4; k++) w += char('a' + (i >> (4 * k) & 15)); w += char('a' + (i >> 16)); return w; };
    switch (what) {
    case 0: small(c, bitvec(64 * n + 7, 0), wr, [](std::istream& is) { auto p = std::make_unique<sim_ds::BitVector>(5, true); p->Read(is); return p; }, bits, "BitVector"); break;
    case 1: { sim_ds::SuccinctBitVector<true> s(bitvec(64 * n + 7, 0)); size_t ones = s.rank(64 * n + 7);
        small(c, s, wr, [](std::istream& is) { return std::make_unique<sim_ds::SuccinctBitVector<true>>(is); },
              [&](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i <= 64 * n + 7; i += 3) h.word(s.rank(i)); for (size_t i = 0; i < ones; i++) h.word(s.select(i)); return h; }, "SuccinctBitVector"); break; }
    case 2: for (size_t w : {3, 17, 64}) { sim_ds::FitVector v(w); for (size_t i = 0; i < n; i++) v.push_back(lcg(i, w) & mask(unsigned(w)));
        small(c, v, wr, [](std::istream& is) { return std::make_unique<sim_ds::FitVector>(is); }, each, "FitVector"); } break;
    case 3: { std::vector<size_t> l(n); for (size_t i = 0; i < n; i++) l[i] = lcg(i, 5) >> (i % 64);
        small(c, sim_ds::DacVector(l), wr, [](std::istream& is) { return std::make_unique<sim_ds::DacVector>(is); }, each, "DacVector"); break; }
    case 4: { std::vector<int> l(n); for (size_t i = 0; i < n; i++) l[i] = int(lcg(i, 9) % 251);
        small(c, sim_ds::WaveletTree(l), wr, [](std::istream& is) { auto p = std::make_unique<sim_ds::WaveletTree>(std::vector<int>{9, 3}); p->Read(is); return p; },
              [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) h.word(s[i]); for (unsigned x = 0; x < 256; x++) for (size_t i : {s.size() / 2, s.size()}) h.word(s.rank(uint8_t(x), i)); return h; }, "WaveletTree"); break; }
    case 5: { sim_ds::MultiBitVector<3> m; for (size_t i = 0; i < n; i++) m.set(i, uint8_t(lcg(i, 3) & 7)); m.build();
        small(c, m, wr, [](std::istream& is) { auto p = std::make_unique<sim_ds::MultiBitVector<3>>(); p->Read(is); return p; },
              [n](auto& s) { mc::H128 h; for (size_t i = 0; i < n; i++) { h.word(s[i]); if (s[i]) h.word(s.rank(i)); } return h; }, "MultiBitVector<3>", without_padding<3>);
        sim_ds::MultipleVector v; v.set_element_sizes(std::vector<size_t>{8, 3, 1}); for (size_t i = 0; i < n; i++) v.push_back({lcg(i, 1), lcg(i, 2) & 0xffffff, lcg(i, 3) & 255});
        small(c, v, [](auto& s, std::ostream& o) { s.StoreTo(o); }, [](std::istream& is) { auto p = std::make_unique<sim_ds::MultipleVector>(); p->LoadFrom(is); return p; },
              [](auto& s) { mc::H128 h; h.word(s.size()); for (size_t i = 0; i < s.size(); i++) { h.word(s.template nested_element<0>(i)); h.word(s.template nested_element<1>(i)); h.word(s.template nested_element<2>(i)); } return h; }, "MultipleVector"); break; }
    case 6: { std::vector<std::string> ks; for (size_t i = 0; i < n; i++) ks.push_back(word(i)); std::sort(ks.begin(), ks.end()); if (n > 70001) ks.resize(100000);
        small(c, sim_ds::Samc<u32>(ks.begin(), ks.end()), wr, [](std::istream& is) { auto p = std::make_unique<sim_ds::Samc<u32>>(); p->Read(is); return p; },
              [&](auto& s) { mc::H128 h; for (auto& x : ks) { h.word(s.accept(x)); h.word(s.accept(x.substr(1))); } return h; }, "Samc");
        small(c, sim_ds::SamcDict<u32>(ks.begin(), ks.end()), wr, [](std::istream& is) { auto p = std::make_unique<sim_ds::SamcDict<u32>>(); p->Read(is); return p; },
              [&](auto& s) { mc::H128 h; for (auto& x : ks) h.word(s.lookup(x)); for (size_t i = 0; i < ks.size(); i++) h.word(hs(s.access(i))); return h; }, "SamcDict"); break; }
    default: { using X = sim_ds::SuffixArray; std::string all; for (size_t i = 0; i < n; i++) all += char(lcg(i, 4)); std::unique_ptr<X> t; { mc::Mute mu; t.reset(new X(all)); }
        small(c, *t, wr, [](std::istream& is) { auto p = std::make_unique<X>(); p->Read(is); return p; },
              [&](auto& s) { mc::H128 h; h.word(bytes_of([&](std::ostream& o) { s.WriteSA(o); s.WriteLCP(o); })); for (size_t i = 0; i < all.size(); i++) h.word(s.char_at(i)); return h; }, "SuffixArray"); }
    }
    if (c.fresh()) c.state(mc::hash_words({n, what}));
}
