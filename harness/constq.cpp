// C28: const queries write nothing.  The queried object (and everything it owns, and everything the library allocated
// before) lies in read-only memory while it is queried; the program's own writable sections and thread-local block are
// compared before and after; every pair (triple) of queries is run and must answer as in a fresh process.
#include "statics.hpp"

#if !MC_ASAN
static void lock_memory(bool on) { mprotect(mc::g_arena.base, (mc::g_arena.used + 4096) & ~size_t(4095), on ? PROT_READ : PROT_READ | PROT_WRITE); g_locked = on; }
#endif

// every sequence of len queries on objects of the given contents; built once per call
template <class Sub> struct Frozen {
    using S = typename Sub::S;
    std::vector<S*> objs; std::vector<size_t> ks; std::vector<Queries<S>> qs;
    std::vector<const std::vector<u64>*> want;
    ~Frozen() {
#if !MC_ASAN
        if (g_locked) lock_memory(false);
        mc::g_arena_on = false; mc::g_track.on = false;
#else
        for (S* p : objs) delete p;
#endif
    }
    Frozen(mc::Ctx& c, std::vector<size_t> contents) : ks(contents) {
        for (size_t k : ks) want.push_back(&pristine<Sub>(k));
        for (size_t k : ks) { qs.push_back(Sub::queries(k, (*want[qs.size()])[0])); }
        for (size_t k : ks) { S warm = Sub::make(k); (void)warm; }      // whatever is set up once per process is set up outside the arena
#if !MC_ASAN
        memset(mc::g_arena.base, 0x5A, mc::g_arena.used); mc::g_arena.used = 0;
        mc::g_arena_on = true;
        for (size_t k : ks) { void* at = mc::arena_alloc(sizeof(S), 64); objs.push_back(new (at) S(Sub::make(k))); }
        mc::g_arena_on = false;
#else
        for (size_t k : ks) objs.push_back(new S(Sub::make(k)));
#endif
        for (size_t o = 0; o < objs.size(); o++) {
            size_t e = Sub::extent(*objs[o]);
            MC_CHECK(e == (*want[o])[0], "%s content %zu: size %zu, in a fresh process %llu", Sub::name(), ks[o], e, ull((*want[o])[0]));
        }
    }
    void ask(mc::Ctx& c, size_t o, size_t q, const char* when, const std::vector<Seg>* segs) {
        const S& s = *objs[o];
        if (c.replay) c.note(std::string(Sub::name()) + " content " + std::to_string(ks[o]) + ": " + qs[o][q].what + " " + when);
        auto& f = qs[o][q].f;
        u64 x;
        if (segs) {
            snapshot(*segs, g_before);
            x = f(s);
            MC_CHECK(!changed(*segs, g_before), "%s content %zu: %s changes static data of the program", Sub::name(), ks[o], qs[o][q].what.c_str());
        } else x = f(s);
        MC_CHECK(x == (*want[o])[q + 1], "%s content %zu: %s %s gives %llu, in a fresh process %llu", Sub::name(), ks[o], qs[o][q].what.c_str(), when, ull(x), ull((*want[o])[q + 1]));
        c.obs(1);
    }
};
// every query once, on read-only objects, globals compared
template <class Sub> static void single(mc::Ctx& c) {
    size_t k = c.choose(Sub::n), other = c.choose(Sub::n);
    c.log("%s: contents %zu and %zu, every query, memory locked", Sub::name(), k, other);
    Frozen<Sub> f(c, {k, other});
    std::vector<Seg> segs = segments(); segs.reserve(segs.size() + 8192);
#if !MC_ASAN
    snapshot(segs, g_before);
    mc::g_track.on = mc::g_track.any = true;
#endif
    for (size_t o = 0; o < 2; o++) for (size_t q = 0; q < f.qs[o].size(); q++) f.ask(c, o, q, "the first time", nullptr);     // lazily set up constants are in place from here on
#if !MC_ASAN
    mc::g_track.on = false;
    size_t kept = mc::g_track.n, bytes = 0;
    for (size_t i = 0; i < kept; i++) { segs.push_back({static_cast<const char*>(mc::g_track.b[i].p), mc::g_track.b[i].n}); bytes += mc::g_track.b[i].n; }
    g_before.resize(g_before.size() + bytes);
    c.log("%zu heap blocks outlive the first round of queries and are watched too", kept);
    mc::g_track.any = true;
    lock_memory(true);
    for (size_t o = 0; o < 2; o++) for (size_t q = 0; q < f.qs[o].size(); q++) { f.ask(c, o, q, "on locked memory", &segs); }
    for (size_t q = 0; q < std::max(f.qs[0].size(), f.qs[1].size()); q++) for (size_t o = 2; o-- > 0;) if (q < f.qs[o].size()) f.ask(c, o, q, "alternating with another object", &segs);
    if constexpr (Sub::serial) {
        for (size_t o = 0; o < 2; o++) { const auto& s = *f.objs[o]; std::ostringstream os; c.note(std::string(Sub::name()) + ": writing to a stream"); snapshot(segs, g_before); Sub::write(s, os); MC_CHECK(!changed(segs, g_before), "%s: writing to a stream changes static data", Sub::name()); }
    }
    { const auto& s = *f.objs[0]; c.note(std::string(Sub::name()) + ": copying from a const object"); typename Sub::S copy(s); (void)copy; }
#endif
    if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); h.word(other); c.state(h); }
}
// a fresh object, locked before anything was asked: nothing may be computed lazily into it
template <class Sub> static void first(mc::Ctx& c) {
    size_t k = c.choose(Sub::n); size_t nq = Sub::queries(k, pristine<Sub>(k)[0]).size(), q = c.choose(nq);
    Frozen<Sub> f(c, {k});
    c.log("%s content %zu: %s on an untouched, locked object", Sub::name(), k, f.qs[0][q].what.c_str());
#if !MC_ASAN
    lock_memory(true);
#endif
    f.ask(c, 0, q, "as the first query of an untouched object", nullptr);
    if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); h.word(q); c.state(h); }
}
// every sequence of two (three) queries on two objects
template <class Sub> static void order(mc::Ctx& c) {
    size_t k = c.choose(Sub::n), other = c.choose(Sub::n);
    c.log("%s: contents %zu and %zu, every sequence of queries", Sub::name(), k, other);
    Frozen<Sub> f(c, {k, other});
#if !MC_ASAN
    lock_memory(true);
#endif
    std::vector<std::pair<size_t, size_t>> all;
    for (size_t o = 0; o < 2; o++) for (size_t q = 0; q < f.qs[o].size(); q++) all.emplace_back(o, q);
    size_t step = MC_ASAN ? 1 + all.size() / 12 : 1;
    for (size_t x = 0; x < all.size(); x += step) for (size_t y = 0; y < all.size(); y += step) {
        f.ask(c, all[x].first, all[x].second, "first", nullptr); f.ask(c, all[y].first, all[y].second, "second", nullptr);
        if (mc::thorough() && k == other) for (size_t z = 0; z < all.size(); z += 1 + all.size() / 16) f.ask(c, all[z].first, all[z].second, "third", nullptr);
        if (c.fresh() && !c.replay) { c.st->edges += 2; }
        if (y % 8 == 0) c.beat();
    }
    if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); h.word(other); h.word(7); c.state(h); }
}
#define SCOPE_Q(Sub, id) \
    static void s_fn_##id(mc::Ctx& c) { single<Sub>(c); } static mc::Reg s_reg_##id("C28", "locked_" #id, 1, s_fn_##id); \
    static void f_fn_##id(mc::Ctx& c) { first<Sub>(c); } static mc::Reg f_reg_##id("C28", "untouched_" #id, 1, f_fn_##id); \
    static void o_fn_##id(mc::Ctx& c) { order<Sub>(c); } static mc::Reg o_reg_##id("C28", "orders_" #id, 1, o_fn_##id);
SUBJECTS_SERIAL(SCOPE_Q)
SUBJECTS_OTHER(SCOPE_Q)
