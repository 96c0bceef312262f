// C29: copies are independent values, moves carry the value over: all histories over two (three) objects.
#include "subjects.hpp"
using namespace subj;

template <class Sub> struct World {
    using S = typename Sub::S;
    struct Slot { std::unique_ptr<S> p; bool hollow = false; size_t k = 0; std::vector<size_t> muts; };
    static std::vector<u64>& expected(size_t k, const std::vector<size_t>& muts) {
        static std::map<std::vector<size_t>, std::vector<u64>> memo;
        std::vector<size_t> key(muts); key.push_back(k);
        auto& e = memo[key];
        if (e.empty()) {
            S s = Sub::make(k);
            for (size_t m : muts) if (Sub::can(s, m)) Sub::mutate(s, m);
            e.push_back(Sub::extent(s));
            for (auto& q : Sub::queries(k, e[0])) e.push_back(q.f(s));
        }
        return e;
    }
    static std::string recipe(const Slot& s) { std::string r = "content " + std::to_string(s.k); for (size_t m : s.muts) r += std::string(", ") + Sub::mname(m); return r; }
    static void check(mc::Ctx& c, std::vector<Slot>& w, const char* after) {
        for (size_t i = 0; i < w.size(); i++) if (w[i].p && !w[i].hollow) {
            c.note(std::string(Sub::name()) + ": reading object " + std::to_string(i) + " after " + after);
            auto& e = expected(w[i].k, w[i].muts);
            std::string d = difference<Sub>(*w[i].p, w[i].k, e);
            MC_CHECK(d.empty(), "%s: object %zu (%s) after %s: %s", Sub::name(), i, recipe(w[i]).c_str(), after, d.c_str());
            c.obs(e.size());
        }
    }
    static void run(mc::Ctx& c) {
        static const std::vector<size_t> some = [] { std::vector<size_t> v{0}; for (size_t i : {Sub::n / 2, Sub::n - 1, Sub::n - 2}) if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); v.resize(std::min<size_t>(v.size(), mc::thorough() ? 4 : 3)); return v; }();
        const size_t slots = mc::lvl(2, 3, 2, 2); std::vector<Slot> w(slots);
        for (size_t i = 0; i < slots; i++) {                // any start: absent or any of the contents
            size_t k = c.choose(some.size() + 1);
            if (k) { w[i].p.reset(new S(Sub::make(some[k - 1]))); w[i].k = some[k - 1]; }
            c.log("object %zu: %s", i, k ? recipe(w[i]).c_str() : "none");
        }
        int depth = c.depth(slots == 3 ? 2 : mc::lvl(3, 4, 2, 3));
        for (int step = 0; step < depth; step++) {
            struct Op { int kind; size_t i, j; }; std::vector<Op> ops; std::string name;
            auto live = [&](size_t i) { return w[i].p && !w[i].hollow; };
            for (size_t i = 0; i < slots; i++) {
                if (live(i)) for (size_t m = 0; m < Sub::nmut; m++) if (Sub::can(*w[i].p, m)) ops.push_back({0, i, m});
                for (size_t j = 0; j < slots; j++) if (live(j)) {
                    if (i != j) { ops.push_back({1, i, j}); ops.push_back({3, i, j}); }                 // construct i from j
                    if (std::is_copy_assignable_v<S> && w[i].p) ops.push_back({2, i, j});                // i = j, also i = i
                    if (std::is_move_assignable_v<S> && i != j && w[i].p) ops.push_back({4, i, j});
                    if (std::is_move_assignable_v<S> && i < j && live(i)) ops.push_back({7, i, j});
                }
                if (w[i].p) ops.push_back({5, i, 0});
                if (std::is_move_assignable_v<S> && w[i].p) ops.push_back({6, i, some.back()});
            }
            if (ops.empty()) return;
            Op o = ops[c.choose(ops.size())];
            auto& a = w[o.i]; char buf[120];
            auto& b = w[o.kind == 0 || o.kind >= 5 ? o.i : o.j];
            switch (o.kind) {
                case 0: snprintf(buf, sizeof buf, "object %zu: %s", o.i, Sub::mname(o.j)); break;
                case 1: snprintf(buf, sizeof buf, "object %zu constructed as a copy of object %zu", o.i, o.j); break;
                case 2: snprintf(buf, sizeof buf, "object %zu = object %zu", o.i, o.j); break;
                case 3: snprintf(buf, sizeof buf, "object %zu move-constructed from object %zu", o.i, o.j); break;
                case 4: snprintf(buf, sizeof buf, "object %zu = std::move(object %zu)", o.i, o.j); break;
                case 5: snprintf(buf, sizeof buf, "object %zu destroyed", o.i); break;
                case 6: snprintf(buf, sizeof buf, "object %zu = new object with content %zu", o.i, o.j); break;
                default: snprintf(buf, sizeof buf, "swap of objects %zu and %zu", o.i, o.j);
            }
            c.log("%s", buf); c.note(std::string(Sub::name()) + ": " + buf);
            auto same = [&](Slot& x, const Slot& y) { x.k = y.k; x.muts = y.muts; x.hollow = false; };
            if (o.kind == 0) { Sub::mutate(*a.p, o.j); a.muts.push_back(o.j); }
            if constexpr (std::is_copy_constructible_v<S>) if (o.kind == 1) { std::unique_ptr<S> q(new S(static_cast<const S&>(*b.p))); a.p = std::move(q); same(a, b); }
            if constexpr (std::is_copy_assignable_v<S>) if (o.kind == 2) { *a.p = static_cast<const S&>(*b.p); same(a, b); }
            if (o.kind == 3) { std::unique_ptr<S> q(new S(std::move(*b.p))); a.p = std::move(q); same(a, b); b.hollow = true; }
            if constexpr (std::is_move_assignable_v<S>) {
                if (o.kind == 4) { *a.p = std::move(*b.p); same(a, b); b.hollow = true; }
                if (o.kind == 6) { *a.p = Sub::make(o.j); a.k = o.j; a.muts.clear(); a.hollow = false; }
                if (o.kind == 7) { auto& z = w[o.j]; using std::swap; swap(*a.p, *z.p); std::swap(a.k, z.k); std::swap(a.muts, z.muts); }
            }
            if (o.kind == 5) { a.p.reset(); a.hollow = false; a.muts.clear(); }
            if (c.fresh()) {
                check(c, w, buf);
                mc::H128 h = hash_str(Sub::name()); for (auto& s : w) { h.word(s.p ? 1 + s.hollow : 0); h.word(s.k); h.seq(s.muts); } h.word(step); c.state(h);
            }
        }
    }
};
static_assert(std::is_copy_constructible_v<sim_ds::BitVector>);
#define SCOPE_VALUE(Sub, id) static void value_fn_##id(mc::Ctx& c) { World<Sub>::run(c); } static mc::Reg value_reg_##id("C29", "values_" #id, 4, value_fn_##id);
SUBJECTS_SERIAL(SCOPE_VALUE)
SUBJECTS_OTHER(SCOPE_VALUE)
