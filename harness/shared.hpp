// C35: distinct objects share nothing.  A script of every operation runs once on the main thread, which sets up whatever the
// program sets up once.  Then it runs on another thread, with other objects, and after each operation the writable sections of the
// program and every block that outlived the first run have to be as before: no operation writes memory that another thread's
// operation could reach, so all interleavings of operations on distinct objects are equivalent to running them one after another.
#pragma once
#include "statics.hpp"
#include <thread>
static void on_thread(bool other, const std::function<void()>& f) {
    if (!other) { f(); return; }
    std::exception_ptr e;
    std::thread t([&] { try { f(); } catch (...) { e = std::current_exception(); } });
    t.join();
    if (e) std::rethrow_exception(e);
}
using Step = std::function<void(const char*, const std::function<void()>&)>;
using Report = std::function<void(const char*, const char*)>;
template <class Sub> struct Shared {
    using S = typename Sub::S;
    static std::string image(const S& s) { std::string r; if constexpr (Sub::serial) { std::ostringstream os; Sub::write(s, os); r = os.str(); } return r; }
    // every operation of the structure on objects of content k
    static void script(size_t k, const Queries<S>& qs, const Step& step) {
        std::unique_ptr<S> a, b; std::string bytes; u64 sum = 0;
        step("construction", [&] { a.reset(new S(Sub::make(k))); });
        step("queries", [&] { for (auto& q : qs) sum += q.f(*a); });
        if constexpr (std::is_copy_constructible_v<S>) step("copy construction", [&] { b.reset(new S(static_cast<const S&>(*a))); });
        step("queries of the copy", [&] { if (b) for (auto& q : qs) sum += q.f(*b); });
        if constexpr (Sub::serial) {
            step("writing", [&] { bytes = image(*a); });
            step("reading", [&] { std::istringstream is(bytes); b.reset(new S(Sub::load(is))); });
            step("reading onto an object", [&] { std::istringstream is(bytes); Sub::reload(*b, is); });
        }
        for (size_t m = 0; m < Sub::nmut; m++) {
            bool can = false; step("a test for applicability", [&] { can = Sub::can(*a, m); });
            if (can) step(Sub::mname(m), [&] { Sub::mutate(*a, m); });
        }
        for (size_t m = Sub::nmut; m-- > 0;) { bool can = false; step("a test for applicability", [&] { can = Sub::can(*a, m); }); if (can) step(Sub::mname(m), [&] { Sub::mutate(*a, m); }); }
        if constexpr (std::is_copy_assignable_v<S>) step("copy assignment", [&] { if (!b) b.reset(new S(Sub::make(0))); *b = static_cast<const S&>(*a); });
        step("move construction", [&] { std::unique_ptr<S> x(new S(std::move(*a))); a = std::move(x); });
        if constexpr (std::is_move_assignable_v<S>) step("move assignment", [&] { if (b) { *b = std::move(*a); a.reset(new S(std::move(*b))); } });
        if constexpr (std::is_move_assignable_v<S>) step("swap", [&] { if (!b) b.reset(new S(Sub::make(k))); else *b = Sub::make(k); using std::swap; swap(*a, *b); });
        step("destruction", [&] { a.reset(); b.reset(); });
    }
    // content j on another thread after the contents `first` on this one; report is called for every operation that writes shared memory
    static size_t watched(const std::vector<size_t>& first, size_t j, mc::Ctx& c, const Report& report) {
        auto qj = Sub::queries(j, pristine<Sub>(j)[0]); std::vector<Queries<S>> qs; for (size_t x : first) qs.push_back(Sub::queries(x, pristine<Sub>(x)[0]));
        std::vector<Seg> segs = segments(false); segs.reserve(segs.size() + 8192);
        snapshot(segs, g_before); g_before.resize(g_before.size() + (8 << 20));
        mc::g_track.n = 0; mc::g_track.on = mc::g_track.any = true;
        struct Off { ~Off() { mc::g_track.on = mc::g_track.any = false; mc::g_track.n = 0; } } off;
        on_thread(true, [] {});
        for (size_t i = 0; i < first.size(); i++) script(first[i], qs[i], [](const char*, const std::function<void()>& f) { f(); });
        mc::g_track.on = false;
        size_t kept = mc::g_track.n, bytes = 0;
        for (size_t i = 0; i < kept; i++) { segs.push_back({static_cast<const char*>(mc::g_track.b[i].p), mc::g_track.b[i].n}); bytes += mc::g_track.b[i].n; }
        if (bytes > (8u << 20)) mc::fail("%s: %zu bytes are kept after all objects are destroyed", Sub::name(), bytes);
        c.log("%zu heap blocks of %zu bytes outlive the first run and are watched", kept, bytes);
        size_t steps = 0;
        on_thread(true, [&] {
            script(j, qj, [&](const char* what, const std::function<void()>& f) {
                if (c.replay) c.note(std::string(Sub::name()) + " content " + std::to_string(j) + " on the other thread: " + what);
                snapshot(segs, g_before);
                f();
                steps++;
                if (mc::g_track.n != kept) report(what, "frees a block that belongs to static data"); else if (changed(segs, g_before)) report(what, "changes data that all objects share");
            });
        });
        return steps;
    }
    static void nothing_shared(mc::Ctx& c) {
        size_t k = c.choose(Sub::n), j = c.choose(Sub::n);
        c.log("%s: every operation on content %zu, then on another thread on content %zu", Sub::name(), k, j);
        size_t steps = watched({j, k}, j, c, [&](const char* op, const char* what) { mc::fail("%s: after content %zu on one thread, content %zu on another thread: %s %s", Sub::name(), k, j, op, what); });
        c.obs(2 * steps);
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); h.word(j); c.state(h); }
    }
    // what is set up once may be set up by whichever content comes first, but not again for every new content
    static void no_memory(mc::Ctx& c) {
        pristine<Sub>(0); std::string said; size_t times = 0, k = c.choose(Sub::n), steps = 0;
        for (size_t j = 0; j < Sub::n; j++) {
            std::vector<u64> r = in_fresh_process([&] {
                std::vector<size_t> first; for (size_t x = 0; x < Sub::n; x++) if (x != j) first.push_back((x + k) % Sub::n == j ? x : (x + k) % Sub::n);
                std::vector<u64> out{0}; out[0] = watched(first, j, c, [&](const char* op, const char*) { if (out.size() == 1) for (const char* p = op; *p; p++) out.push_back(u64(*p)); }); return out;
            }, Sub::name());
            steps += r[0];
            if (r.size() > 1) { times++; said = "content " + std::to_string(j) + ": "; for (size_t i = 1; i < r.size(); i++) said += char(r[i]); }
            c.beat();
        }
        c.log("%s: each content alone on another thread after all others: shared memory written for %zu of %zu", Sub::name(), times, Sub::n);
        MC_CHECK(times < 2, "%s: for %zu contents out of %zu the first use on another thread writes to data that all objects share (%s)", Sub::name(), times, Sub::n, said.c_str());
        c.obs(2 * steps);
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(k); c.state(h); }
    }
    // ---- op a on one object, then op b on another one: both as in a process that does nothing else
    struct Op { size_t k, kind; };                        // kind: 0 construct, 1 write and load, 2 copy, 3.. modification
    static std::vector<Op> ops() { std::vector<Op> v; size_t step = Sub::n * (3 + Sub::nmut) > size_t(mc::lvl(40, 90, 30, 60)) ? 2 : 1;
        for (size_t k = 0; k < Sub::n; k++) for (size_t x = 0; x < 3 + Sub::nmut; x++) { if ((x == 1 && !Sub::serial) || (x == 2 && !std::is_copy_constructible_v<S>)) continue; if (step == 2 && x && (k + x) % 3) continue; v.push_back({k, x}); } return v; }
    static std::string text(const Op& o) { return (o.kind == 0 ? std::string("construct") : o.kind == 1 ? std::string("write and load") : o.kind == 2 ? std::string("copy") : std::string(Sub::mname(o.kind - 3)) + " on") + " content " + std::to_string(o.k); }
    static std::unique_ptr<S> act(const Op& o) {
        std::unique_ptr<S> p(new S(Sub::make(o.k)));
        if (o.kind == 1) { if constexpr (Sub::serial) { std::istringstream is(image(*p)); auto len = Sub::extent(*p); p.reset(new S(Sub::load(is))); settle(*p, len, 0); } }
        else if (o.kind == 2) { if constexpr (std::is_copy_constructible_v<S>) p.reset(new S(static_cast<const S&>(*p))); }
        else if (o.kind > 2 && Sub::can(*p, o.kind - 3)) Sub::mutate(*p, o.kind - 3);
        return p;
    }
    template <class T> static auto settle(T& s, u64 n, int) -> decltype(s.len, void()) { s.len = n; }
    template <class T> static void settle(T&, u64, long) {}
    static const std::vector<u64>& alone(size_t i) {      // answers after operation i in a process that has done nothing else
        static const std::vector<Op> all = ops(); static std::vector<std::vector<u64>> memo(all.size());
        if (memo[i].empty()) memo[i] = in_fresh_process([&] { auto p = act(all[i]); return answers<Sub>(*p, all[i].k); }, Sub::name());
        return memo[i];
    }
    static void pairs(mc::Ctx& c) {
        static const std::vector<Op> all = ops();
        size_t x = c.choose(all.size()), y = c.choose(all.size()); bool other = c.flip();
        c.log("%s: %s, then%s %s", Sub::name(), text(all[x]).c_str(), other ? " on another thread" : "", text(all[y]).c_str());
        auto &wx = alone(x), &wy = alone(y);
        auto a = act(all[x]); std::unique_ptr<S> b;
        on_thread(other, [&] { b = act(all[y]); std::string d = difference<Sub>(*b, all[y].k, wy); MC_CHECK(d.empty(), "%s: %s after %s on another object%s: %s", Sub::name(), text(all[y]).c_str(), text(all[x]).c_str(), other ? " and another thread" : "", d.c_str()); });
        std::string d = difference<Sub>(*a, all[x].k, wx); MC_CHECK(d.empty(), "%s: %s, then %s on another object: the first one: %s", Sub::name(), text(all[x]).c_str(), text(all[y]).c_str(), d.c_str());
        if (c.flip()) { a.reset(); d = difference<Sub>(*b, all[y].k, wy); } else { b.reset(); d = difference<Sub>(*a, all[x].k, wx); }
        MC_CHECK(d.empty(), "%s: %s and %s, one of them destroyed: the other one: %s", Sub::name(), text(all[x]).c_str(), text(all[y]).c_str(), d.c_str());
        c.obs(wx.size() + wy.size());
        if (c.fresh()) { mc::H128 h = hash_str(Sub::name()); h.word(x); h.word(y); h.word(other); c.state(h); }
    }
};
#if !MC_ASAN
#define SCOPE_SHARED(Sub, id) static void sh_fn_##id(mc::Ctx& c) { Shared<Sub>::nothing_shared(c); } static mc::Reg sh_reg_##id("C35", "nothing_shared_" #id, 1, sh_fn_##id); \
    static void no_fn_##id(mc::Ctx& c) { Shared<Sub>::no_memory(c); } static mc::Reg no_reg_##id("C35", "no_memory_" #id, 1, no_fn_##id);
#else
#define SCOPE_SHARED(Sub, id)
#endif
#define SCOPE_PAIR(Sub, id) static void pa_fn_##id(mc::Ctx& c) { Shared<Sub>::pairs(c); } static mc::Reg pa_reg_##id("C35", "pairs_" #id, 1, pa_fn_##id);
