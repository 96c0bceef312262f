// C33: an allocation that fails at any point of any operation is reported as bad_alloc, harms no other object, leaves the
// object of the operation destructible and assignable, and nothing is leaked - nor by operations that succeed.
#define MC_FAULTS 1
#include <stdlib.h>
#include "mc.hpp"
#if MC_ASAN
extern "C" int mc_posix_memalign(void** p, size_t a, size_t n) noexcept { return mc::g_mem.refuse() ? ENOMEM : posix_memalign(p, a, n); }
#define posix_memalign mc_posix_memalign
#endif
#include "subjects.hpp"
using namespace subj;

template <class Sub> struct Faults {
    using S = typename Sub::S;
    static const std::vector<u64>& expected(size_t k, const std::vector<size_t>& muts = {}) {
        static std::map<std::vector<size_t>, std::vector<u64>> memo;
        std::vector<size_t> key(muts); key.push_back(k);
        auto& e = memo[key];
        if (e.empty()) {
            S s = Sub::make(k);
            for (size_t m : muts) if (Sub::can(s, m)) Sub::mutate(s, m);
            e.push_back(Sub::extent(s));
            for (auto& q : Sub::queries(k, e[0])) e.push_back(q.f(s));
        }
        return e;
    }
    enum Kind { Make, Copy, Assign, Mutate, Load, Reload, Ask, Store, Move, kKinds };
    struct Step { Kind kind; size_t k, j, m; };            // content of the object, of the other one, modification or query
    struct Scene { std::unique_ptr<S> a, b; Queries<S> q; std::string bytes; };
    static std::string text(const Step& s) {
        std::string k = std::to_string(s.k), j = std::to_string(s.j);
        switch (s.kind) {
            case Make: return "construct content " + k; case Copy: return "copy-construct from content " + k; case Assign: return "assign content " + j + " to content " + k;
            case Mutate: return "content " + k + ": " + Sub::mname(s.m); case Load: return "load content " + k; case Reload: return "load content " + j + " onto content " + k;
            case Ask: return "query " + std::to_string(s.m) + " of content " + k; case Store: return "write content " + k; default: return "move-construct from content " + k;
        }
    }
    static void set_up(Scene& w, const Step& s) {
        if (s.kind != Make && s.kind != Load && s.kind != Copy && s.kind != Move) w.a.reset(new S(Sub::make(s.k)));
        if (s.kind == Copy || s.kind == Move) w.b.reset(new S(Sub::make(s.k)));
        if (s.kind == Assign) w.b.reset(new S(Sub::make(s.j)));
        if (s.kind == Ask) w.q = Sub::queries(s.k, expected(s.k)[0]);
        if constexpr (Sub::serial) if (s.kind == Load || s.kind == Reload) { std::ostringstream os; Sub::write(Sub::make(s.kind == Load ? s.k : s.j), os); w.bytes = os.str(); }
    }
    template <class T> static auto settle(T& s, u64 n, int) -> decltype(s.len, void()) { s.len = n; }      // the harness's own length note is no part of the image
    template <class T> static void settle(T&, u64, long) {}
    static void act(Scene& w, const Step& s, std::istream& is, std::ostream& os) {
        switch (s.kind) {
            case Make: w.a.reset(new S(Sub::make(s.k))); break;
            case Copy: if constexpr (std::is_copy_constructible_v<S>) w.a.reset(new S(static_cast<const S&>(*w.b))); break;
            case Assign: if constexpr (std::is_copy_assignable_v<S>) *w.a = static_cast<const S&>(*w.b); break;
            case Mutate: Sub::mutate(*w.a, s.m); break;
            case Load: if constexpr (Sub::serial) { w.a.reset(new S(Sub::load(is))); settle(*w.a, expected(s.k)[0], 0); } break;
            case Reload: if constexpr (Sub::serial) { Sub::reload(*w.a, is); settle(*w.a, expected(s.j)[0], 0); } break;
            case Ask: (void)w.q[s.m].f(*w.a); break;
            case Store: if constexpr (Sub::serial) Sub::write(*w.a, os); break;
            default: w.a.reset(new S(std::move(*w.b)));
        }
    }
    static void must(const S& s, size_t k, const std::vector<u64>& e, const std::string& what) {
        std::string d = difference<Sub>(s, k, e);
        MC_CHECK(d.empty(), "%s: %s: %s", Sub::name(), what.c_str(), d.c_str());
    }
    static u64 allocations(const Step& s) {                // how many an undisturbed run makes
        static std::map<std::array<size_t, 4>, u64> memo;
        auto key = std::array<size_t, 4>{size_t(s.kind), s.k, s.j, s.m};
        auto it = memo.find(key); if (it != memo.end()) return it->second;
        u64 n = 0;
        for (int round = 0; round < 2; round++) {
            Scene w; set_up(w, s); std::istringstream is(w.bytes); std::ostringstream os;
            mc::g_mem.allocs = 0; mc::g_mem.fail_at = 0; mc::g_mem.on = true;
            try { act(w, s, is, os); } catch (...) { mc::g_mem.on = false; throw; }
            mc::g_mem.on = false; n = mc::g_mem.allocs;
        }
        return memo[key] = n;
    }
    static void run(mc::Ctx& c) {
        static const std::vector<size_t> few = [] { std::vector<size_t> v{0}; for (size_t i : {Sub::n / 2, Sub::n - 1}) if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); return v; }();
        Step s{}; s.kind = Kind(c.choose(kKinds)); s.k = c.choose(Sub::n);
        if ((s.kind == Load || s.kind == Reload || s.kind == Store) && !Sub::serial) throw mc::Prune{};
        if (s.kind == Copy && !std::is_copy_constructible_v<S>) throw mc::Prune{};
        if (s.kind == Assign && !std::is_copy_assignable_v<S>) throw mc::Prune{};
        if (s.kind == Mutate && !Sub::nmut) throw mc::Prune{};
        if (s.kind == Assign || s.kind == Reload) s.j = mc::lvl(1, 1, 0, 1) ? c.choose(Sub::n) : c.pick(few);
        if (s.kind == Mutate) { s.m = c.choose(Sub::nmut); S x = Sub::make(s.k); if (!Sub::can(x, s.m)) throw mc::Prune{}; }
        if (s.kind == Ask) s.m = c.choose(expected(s.k).size() - 1);
        u64 n = allocations(s), f = 0; const u64 most = mc::lvl(700, 3000, 150, 700);
        if (n > most) n = most;
        f = c.choose(n + 1);
        c.log("%s, allocation %llu of %llu fails", text(s).c_str(), ull(f), ull(n));
        auto& after_k = expected(s.kind == Assign || s.kind == Reload ? s.j : s.k, s.kind == Mutate ? std::vector<size_t>{s.m} : std::vector<size_t>{});
        auto& before = expected(s.k);
        const size_t qk = s.kind == Assign || s.kind == Reload ? s.j : s.k;
        size_t blocks0 = mc::g_mem.blocks, live0 = mc::g_mem.live; std::string t = text(s) + (f ? " with allocation " + std::to_string(f) + " failing" : "");
        c.note(std::string(Sub::name()) + ": " + t);
        size_t then = f ? c.choose(3) : 0;
        { expected(few.back()); }
        {
            std::ostringstream os; Scene w; bool threw = false;
            auto on = [&](auto body) { mc::g_mem.on = true; try { body(); } catch (...) { mc::g_mem.on = false; throw; } mc::g_mem.on = false; };
            on([&] { set_up(w, s); });
            std::istringstream is(w.bytes);
            mc::g_mem.allocs = 0; mc::g_mem.tripped = false; mc::g_mem.fail_at = f;
            try { on([&] { act(w, s, is, os); }); } catch (std::bad_alloc&) { threw = true; }
            mc::g_mem.fail_at = 0;
            const bool tripped = mc::g_mem.tripped;
            MC_CHECK(!threw || tripped, "%s: %s: bad_alloc although no allocation failed", Sub::name(), t.c_str());
            if (f && !tripped) throw mc::Prune{};
            if (w.b && s.kind != Move) must(*w.b, s.kind == Assign ? s.j : s.k, expected(s.kind == Assign ? s.j : s.k), t + ": the other object");
            if (s.kind == Ask || s.kind == Store) must(*w.a, s.k, before, t + ": the object asked");
            else if (!threw) must(*w.a, qk, after_k, t);
            if (threw && w.a && s.kind != Ask && s.kind != Store) {
                if (then == 1) { on([&] { if constexpr (std::is_move_assignable_v<S>) *w.a = Sub::make(few.back()); else w.a.reset(new S(Sub::make(few.back()))); }); must(*w.a, few.back(), expected(few.back()), t + ", then a new value assigned"); }
                if (then == 2) { on([&] { S x = Sub::make(few.back()); if constexpr (std::is_copy_assignable_v<S>) *w.a = static_cast<const S&>(x); }); if (std::is_copy_assignable_v<S>) must(*w.a, few.back(), expected(few.back()), t + ", then another object assigned"); }
            } else if (then) throw mc::Prune{};
            c.obs(before.size());
        }
        MC_CHECK(mc::g_mem.blocks == blocks0, "%s: %s: %zu blocks (%zu bytes) are never freed", Sub::name(), t.c_str(), mc::g_mem.blocks - blocks0, mc::g_mem.live - live0);
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); for (u64 x : {u64(s.kind), u64(s.k), u64(s.j), u64(s.m), f, u64(then)}) h.word(x); c.state(h); }
    }
};
#define SCOPE_FAULTS(Sub, id) static void faults_fn_##id(mc::Ctx& c) { Faults<Sub>::run(c); } static mc::Reg faults_reg_##id("C33", "faults_" #id, 9, faults_fn_##id);
SUBJECTS_SERIAL(SCOPE_FAULTS)
SUBJECTS_OTHER(SCOPE_FAULTS)

// ---- histories in which operations fail: a failed insertion, removal or growth leaves the stored contents as they were (or as they
// would be without the failure), and repeating the operation gives what it would have given
template <class Mod> static void failing_history(mc::Ctx& c, int steps) {
    using S = typename Mod::S;
    auto on = [&](auto body) { mc::g_mem.on = true; try { body(); } catch (...) { mc::g_mem.on = false; throw; } mc::g_mem.on = false; };
    size_t k = c.choose(Mod::n), blocks0 = 0; std::string t = std::string(Mod::name()) + " content " + std::to_string(k);
    (void)Mod::kept(Mod::make(k));                           // (warms up what is allocated once)
    blocks0 = mc::g_mem.blocks;
    {
        std::unique_ptr<S> s; on([&] { s.reset(new S(Mod::make(k))); });
        int failures = 0;
        for (int i = 0; i < steps; i++) {
            size_t op = c.choose(Mod::nops + (i > 0 ? 1 : 0)); if (op == Mod::nops) break;
            if (!Mod::can(*s, op)) throw mc::Prune{};
            t += std::string("; ") + Mod::oname(op);
            std::vector<u64> before = Mod::kept(*s), after; u64 n;
            { S x(*s); mc::g_mem.allocs = 0; mc::g_mem.fail_at = 0; on([&] { Mod::act(x, op); }); n = mc::g_mem.allocs; after = Mod::kept(x); }
            // the copy may be tighter than the object: one more failure point than it needs, which then simply does not happen
            u64 f = failures ? 0 : c.choose(std::min<u64>(n + 2, u64(mc::lvl(200, 500, 40, 200))));
            if (f) { failures++; t += " with allocation " + std::to_string(f) + " failing"; }
            c.note(t); c.log("%s%s", Mod::oname(op), f ? (" with allocation " + std::to_string(f) + " failing").c_str() : "");
            mc::g_mem.allocs = 0; mc::g_mem.tripped = false; mc::g_mem.fail_at = f; bool threw = false;
            try { on([&] { Mod::act(*s, op); }); } catch (std::bad_alloc&) { threw = true; }
            mc::g_mem.fail_at = 0;
            if (f && !mc::g_mem.tripped) throw mc::Prune{};
            MC_CHECK(!threw || mc::g_mem.tripped, "%s: bad_alloc although no allocation failed", t.c_str());
            std::vector<u64> now = Mod::kept(*s);
            if (threw) {
                MC_CHECK(now == before || now == after, "%s: bad_alloc, and the contents are neither what they were nor what they would be", t.c_str());
                bool again = now == before || Mod::idempotent(op);
                if (again) { on([&] { Mod::act(*s, op); }); now = Mod::kept(*s); }
                MC_CHECK(now == after, "%s, then repeated: contents differ from those without the failure", t.c_str());
            } else MC_CHECK(now == after, "%s: contents differ from those of a copy after the same operation", t.c_str());
            c.obs(before.size() * 2);
            if (c.fresh()) { mc::H128 h = hash_str(Mod::name()); h.seq(now); h.word(f); h.word(op); c.state(h); }
        }
    }
    MC_CHECK(mc::g_mem.blocks == blocks0, "%s: %zu blocks are never freed", t.c_str(), mc::g_mem.blocks - blocks0);
}

// kept(): everything that was stored, as the promise is about it (capacity and node numbers are not part of it)
struct HBit {
    using S = sim_ds::BitVector; static constexpr size_t n = 7, nops = 6;
    static const char* name() { return "BitVector"; }
    static const char* oname(size_t i) { static const char* a[] = {"push_back(1)", "push_back(0)", "resize(n+70,1)", "resize(n/2)", "reserve(n+300)", "shrink_to_fit()"}; return a[i]; }
    static S make(size_t k) { static const size_t len[n] = {0, 1, 63, 64, 128, 300, 512}; S s; for (size_t i = 0; i < len[k]; i++) s.push_back(lcg(i, k) & 1); return s; }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t i) { return i > 3; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.push_back(true); break; case 1: s.push_back(false); break; case 2: s.resize(s.size() + 70, true); break; case 3: s.resize(s.size() / 2); break; case 4: s.reserve(s.size() + 300); break; default: s.shrink_to_fit(); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.size(); i++) v.push_back(bool(s[i])); return v; }
};
struct HFit {
    using S = sim_ds::FitVector; static constexpr size_t n = 6, nops = 5;
    static const char* name() { return "FitVector"; }
    static const char* oname(size_t i) { static const char* a[] = {"push_back(max)", "resize(n+9)", "resize(n+7,1)", "resize(n/2)", "reserve(n+40)"}; return a[i]; }
    static S make(size_t k) { static const size_t w[n] = {1, 7, 8, 33, 63, 64}, len[n] = {64, 0, 8, 1, 70, 16}; S s(w[k]); for (size_t i = 0; i < len[k]; i++) s.push_back(lcg(i, k) & mask(w[k])); return s; }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t i) { return i == 4; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.push_back(mask(s.unit_width())); break; case 1: s.resize(s.size() + 9); break; case 2: s.resize(s.size() + 7, 1); break; case 3: s.resize(s.size() / 2); break; default: s.reserve(s.size() + 40); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.size(); i++) v.push_back(s[i]); return v; }
};
struct HRecords {
    using S = sim_ds::MultipleVector; static constexpr size_t n = 4, nops = 5;
    static const char* name() { return "MultipleVector"; }
    static const char* oname(size_t i) { static const char* a[] = {"push_back({9,8})", "emplace_back()", "resize(n+3,{5,6})", "resize(n/2)", "reserve(n+20)"}; return a[i]; }
    static S make(size_t k) { S s; if (k < 2) s.set_element_sizes(std::vector<size_t>{1, 2}); else s.set_element_sizes(std::vector<size_t>{8, 3}); for (size_t i = 0; i < (k & 1 ? 8 : 0); i++) s.push_back({lcg(i, 1) & 255, lcg(i, 2) & 65535}); return s; }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t i) { return i == 4; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.push_back({9, 8}); break; case 1: s.emplace_back(); break; case 2: s.resize(s.size() + 3, {5, 6}); break; case 3: s.resize(s.size() / 2); break; default: s.reserve(s.size() + 20); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.size(); i++) { v.push_back(s.nested_element<0>(i)); v.push_back(s.nested_element<1>(i)); } return v; }
};
struct HSymbols {                                            // set only; build() is repeated afterwards in any case
    struct S { sim_ds::MultiBitVector<2> v; size_t len = 0; }; static constexpr size_t n = 3, nops = 3;
    static const char* name() { return "MultiBitVector<2>"; }
    static const char* oname(size_t i) { static const char* a[] = {"set(n,3)", "set(0,2)", "set(n+100,1)"}; return a[i]; }
    static S make(size_t k) { S s; s.len = k == 0 ? 1 : k == 1 ? 32 : 128; for (size_t i = 0; i < s.len; i++) s.v.set(i, uint8_t(lcg(i, k) & 3)); return s; }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t) { return false; }
    static void act(S& s, size_t i) { size_t at = i == 0 ? s.len : i == 1 ? 0 : s.len + 100; s.v.set(at, uint8_t(3 - i)); s.len = std::max(s.len, at + 1); }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.len; i++) v.push_back(s.v[i]); return v; }
};
template <unsigned VB, unsigned LF> struct HTable {
    using S = sim_ds::CHT<VB, LF>; static constexpr size_t n = 7, nops = 7;
    static const char* name() { return VB ? LF == 50 ? "CHT<16,50>" : "CHT<16,90>" : "CHT<0>"; }
    static const char* oname(size_t i) { static const char* a[] = {"set(1,5)", "set(3,6)", "set(77,7)", "erase(3)", "erase(1)", "erase(9)", "reserve(40)"}; return a[i]; }
    static S make(size_t k) {
        static const size_t fill[n] = {0, 1, 4, 5, 7, 8, 16};
        S s(12, k == 1 ? 1 : 8); if (VB == 0) s.set_value_width(16);
        for (size_t i = 0; i < fill[k]; i++) s.set(i * 3, lcg(i, k) & 0xffff);
        if (k == 6) for (size_t i = 4; i < 13; i++) s.erase(i * 3);
        return s;
    }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t) { return true; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.set(1, 5); break; case 1: s.set(3, 6); break; case 2: s.set(77, 7); break; case 3: s.erase(3); break; case 4: s.erase(1); break; case 5: s.erase(9); break; default: s.reserve(40); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v{s.size()}; for (size_t i = 0; i < 128; i++) { auto p = s.get(i); v.push_back(p.first ? p.second + 1 : 0); } return v; }
};
struct HCdrwArray {
    using S = sim_ds::CDRWArray; static constexpr size_t n = 3, nops = 5;
    static const char* name() { return "CDRWArray"; }
    static const char* oname(size_t i) { static const char* a[] = {"set(0,~0)", "set(1,0)", "set(1,5)", "set(n-1,4)", "set(n/2,7)"}; return a[i]; }
    static S make(size_t k) { S s(k == 0 ? 2 : k == 1 ? 9 : 24); for (size_t i = 0; i < s.size(); i++) s.set(i, k == 2 ? (i < 4 ? 4 + i : 16 + i % 8) : lcg(i, k) >> (i * 7 % 64)); return s; }   // content 2: tables about to grow
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t) { return true; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.set(0, ~u64(0)); break; case 1: s.set(1, 0); break; case 2: s.set(1, 5); break; case 3: s.set(s.size() - 1, 4); break; default: s.set(s.size() / 2, 7); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.size(); i++) v.push_back(s.get(i)); return v; }
};
struct HCdrwVector {
    using S = sim_ds::CDRWVector; static constexpr size_t n = 5, nops = 7;
    static const char* name() { return "CDRWVector"; }
    static const char* oname(size_t i) { static const char* a[] = {"push_back(3)", "push_back(~0)", "pop_back()", "set(0,6)", "resize(n+3)", "shrink_to_fit()", "reserve(9)"}; return a[i]; }
    static S make(size_t k) { S s; for (size_t i = 0; i < (k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 4 : 8); i++) s.push_back(k == 3 ? 4 + i % 4 : lcg(i, k) >> (i * 9 % 64)); if (k == 4) for (int i = 0; i < 6; i++) s.pop_back(); return s; }
    static bool can(const S& s, size_t i) { return i != 3 || s.size(); }
    static bool idempotent(size_t i) { return i == 3 || i > 4; }
    static void act(S& s, size_t i) { switch (i) { case 0: s.push_back(3); break; case 1: s.push_back(~u64(0)); break; case 2: s.pop_back(); break; case 3: s.set(0, 6); break; case 4: s.resize(s.size() + 3); break; case 5: s.shrink_to_fit(); break; default: s.reserve(9); } }
    static std::vector<u64> kept(const S& s) { std::vector<u64> v; for (size_t i = 0; i < s.size(); i++) v.push_back(s.get(i)); return v; }
};
template <class Item, class Size> struct HTrie {
    using S = sim_ds::graph_util::Trie<Item, Size>; static constexpr size_t n = 5, nops = 6;
    static const char* name() { return sizeof(Size) == 8 ? "Trie<int>" : "Trie<string,u8>"; }
    static const std::vector<std::string>& key() { static const std::vector<std::string> k{"", "a", "ab", "ba", "bab", std::string("a\xff", 2)}; return k; }
    static const char* oname(size_t i) { static const char* a[] = {"insert(\"\")", "insert(a)", "insert(ab)", "insert(ba)", "insert(bab)", "insert(a\\xff)"}; return a[i]; }
    static Item item(size_t i) { if constexpr (std::is_same_v<Item, std::string>) return std::string("an item that does not fit into a string object ") + std::to_string(i); else return Item(i); }
    static S make(size_t k) { (void)key(); S s; for (size_t i = 0; i < k; i++) s.insert(key()[i], item(100 + i)); return s; }
    static bool can(const S&, size_t) { return true; }
    static bool idempotent(size_t) { return true; }
    static void act(S& s, size_t i) { s.insert(key()[i], item(i)); }
    static std::vector<u64> kept(const S& s) {
        S t(s); std::vector<u64> v;
        for (auto x : {"", "a", "ab", "ba", "bab", "b", "c", "abab", "a\xff"}) { auto* p = t.traverse(x); if constexpr (std::is_same_v<Item, std::string>) v.push_back(p ? hs(*p) : 0); else v.push_back(p ? u64(*p) + 1 : 0); }
        size_t items = 0; t.dfs([&](auto& nd, size_t) { items += nd.terminal(); }); v.push_back(items);
        return v;
    }
};
using HTable50 = HTable<16, 50>; using HTable90 = HTable<16, 90>; using HTable0 = HTable<0, 50>; using HTrieInt = HTrie<int, size_t>; using HTrieStr = HTrie<std::string, uint8_t>;
#define SCOPE_HISTORY(Mod, id) MC_SCOPE("C33", failing_##id, 9) { failing_history<Mod>(c, mc::lvl(2, 3, 2, 2)); }
SCOPE_HISTORY(HBit, bitvector) SCOPE_HISTORY(HFit, fitvector) SCOPE_HISTORY(HRecords, multiple) SCOPE_HISTORY(HSymbols, multibit2)
SCOPE_HISTORY(HTable50, cht) SCOPE_HISTORY(HTable90, cht_dense) SCOPE_HISTORY(HTable0, cht_width0)
SCOPE_HISTORY(HCdrwArray, cdrw_array) SCOPE_HISTORY(HCdrwVector, cdrw_vector) SCOPE_HISTORY(HTrieInt, trie) SCOPE_HISTORY(HTrieStr, trie_string)
