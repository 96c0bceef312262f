// C12: compact hash table against std::map; also run by C25.
#include "common.hpp"
#include <sim_ds/CHT.hpp>
using namespace h;
struct Identity {                      // collisions wherever the explorer wants them
    explicit Identity(unsigned = 64) {}
    u64 hash(u64 x) const { return x; }
    u64 ihash(u64 x) const { return x; }
};
struct Rotate {                        // another bijection of w bits: low bits become high bits
    unsigned w;
    explicit Rotate(unsigned w_ = 64) : w(w_) {}
    u64 hash(u64 x) const { return w < 2 ? x : ((x << 1) | (x >> (w - 1))) & mask(w); }
    u64 ihash(u64 x) const { return w < 2 ? x : ((x >> 1) | (x << (w - 1))) & mask(w); }
};
using Map = std::map<u64, u64>;
template <class T> static void compare(mc::Ctx& c, const T& t, const Map& m, const std::vector<u64>& probes) {
    MC_CHECK(t.size() == m.size(), "size() = %zu, want %zu", t.size(), m.size());
    for (auto k : probes) {
        auto [f, v] = t.get(k); auto it = m.find(k);
        MC_CHECK(f == (it != m.end()), "get(%llu) reports %s, but the key is %s", ull(k), f ? "present" : "absent", f ? "absent" : "present");
        if (f) MC_CHECK(v == it->second, "get(%llu) = %llu, want %llu", ull(k), ull(v), ull(it->second));
    }
    c.obs(probes.size() + 1);
}
static std::vector<u64> all_keys(unsigned bits) { std::vector<u64> v; for (u64 k = 0; k < (u64(1) << bits); k++) v.push_back(k); return v; }

// ---- every state reachable by any history of set and erase over a set of keys
template <class T> static void closure(mc::Ctx& c, unsigned key_bits, size_t buckets, const std::vector<u64>& keys, std::vector<u64> vals, unsigned vw, const std::vector<size_t>& reserves, size_t limit) {
    struct Node { T t; Map m; uint32_t parent; int op; };
    std::vector<Node> nodes; nodes.reserve(1024);
    std::unordered_set<mc::H128, mc::H128Hash> seen;
    auto probes = all_keys(key_bits);
    auto opname = [&](int op) {
        size_t o = size_t(op), K = keys.size(), V = vals.size();
        if (o < K * V) return "set(" + std::to_string(keys[o / V]) + "," + std::to_string(vals[o % V]) + ")";
        o -= K * V; if (o < K) return "erase(" + std::to_string(keys[o]) + ")";
        return "reserve(" + std::to_string(reserves[o - K]) + ")";
    };
    auto path = [&](uint32_t n) { std::string s; for (; nodes[n].parent != ~0u; n = nodes[n].parent) s = opname(nodes[n].op) + " " + s; return s; };
    auto add = [&](const T& t, const Map& m, uint32_t parent, int op) {
        auto h = mc::image(t); for (auto [k, v] : m) { h.word(k); h.word(v); }
        if (!seen.insert(h).second) return;
        h.word(key_bits); h.word(buckets); c.state(h);
        nodes.push_back({t, m, parent, op});
    };
    { T t(key_bits, buckets); if (vw) t.set_value_width(vw); compare(c, t, {}, probes); add(t, {}, ~0u, -1); }
    u64 trans = 0; size_t nops = keys.size() * vals.size() + keys.size() + reserves.size(), K = keys.size(), V = vals.size();
    for (uint32_t n = 0; n < nodes.size(); n++) {
        if (nodes.size() > limit) throw std::logic_error("closure larger than planned");
        for (size_t op = 0; op < nops; op++) {
            T t = nodes[n].t; Map m = nodes[n].m;
            c.beat();
            if (c.replay) c.note(path(n) + opname(int(op)));
            if (op < K * V) { t.set(keys[op / V], vals[op % V]); m[keys[op / V]] = vals[op % V]; }
            else if (op < K * V + K) { t.erase(keys[op - K * V]); m.erase(keys[op - K * V]); }
            else t.reserve(reserves[op - K * V - K]);
            trans++;
            try { compare(c, t, m, probes); } catch (mc::Violation& v) {
                mc::fail("key width %u, %zu buckets, after %s%s: %s", key_bits, buckets, path(n).c_str(), opname(int(op)).c_str(), v.msg.c_str());
            }
            add(t, m, n, int(op));
        }
    }
    c.st->edges += trans;
    if (!c.explain) return;
    c.log("key width %u, %zu buckets, %zu keys: %zu states, %llu transitions", key_bits, buckets, keys.size(), nodes.size(), ull(trans));
}
static std::vector<u64> key_set(unsigned which, unsigned key_bits, size_t b, size_t n) {
    std::vector<u64> v; u64 top = u64(1) << key_bits;
    for (u64 i = 0; v.size() < n && i < top; i++) {
        u64 k = which == 0 ? (b - 1 + i * b) % top + (i * b >= top ? i * b / top : 0)      // all homes at the last bucket
              : which == 1 ? i                                                            // neighbouring homes
              : which == 2 ? (i / 2 * b + (b - 2 + i % 2)) % top                            // two last buckets alternating
              : (i * 5 + 3) % top;                                                         // scattered
        k %= top;
        if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k);
    }
    return v;
}
template <class T> static void closures(mc::Ctx& c, unsigned vw) {
    unsigned kb = c.of<unsigned>({3, 4, 5, 1, 0}); size_t b = c.of<size_t>({8, 4, 2, 1, 16});
    if (kb == 5 && MC_ASAN) throw mc::Prune{};
    unsigned which = c.choose(4); bool res = c.flip();
    bool two = c.flip();                   // two values per key, or one value and more keys
    size_t n = std::min<size_t>(size_t(1) << kb, size_t(res ? mc::lvl(3, 4, 3, 3) : mc::lvl(4, 5, 3, 4)) + (two ? 0 : mc::lvl(2, 3, 1, 1)));
    if (!two) vw = vw == 1 ? 2 : vw;
    auto keys = key_set(which, kb, b, n);
    closure<T>(c, kb, b, keys, !two ? std::vector<u64>{2} : vw == 1 ? std::vector<u64>{0, 1} : std::vector<u64>{1, mask(vw ? vw : 7)}, vw, res ? std::vector<size_t>{1, 3, 9} : std::vector<size_t>{}, 4000000);
}
MC_SCOPE("C12", reach_identity_50, 16) { closures<sim_ds::CHT<7, 50, Identity>>(c, 0); }
MC_SCOPE("C12", reach_identity_99, 16) { closures<sim_ds::CHT<7, 99, Identity>>(c, 0); }
MC_SCOPE("C12", reach_identity_90, 16) { closures<sim_ds::CHT<0, 90, Identity>>(c, 1); }
MC_SCOPE("C12", reach_identity_1, 16) { closures<sim_ds::CHT<7, 1, Identity>>(c, 0); }
MC_SCOPE("C12", reach_rotate_75, 16) { closures<sim_ds::CHT<0, 75, Rotate>>(c, 7); }
MC_SCOPE("C12", reach_splitmix_90, 16) { closures<sim_ds::CHT<7, 90>>(c, 0); }

// ---- histories with copies, to a depth
template <class T> static void histories(mc::Ctx& c, unsigned kb, size_t b, const std::vector<u64>& keys) {
    std::vector<T> t; std::vector<Map> m; t.emplace_back(kb, b); m.emplace_back();
    auto probes = all_keys(std::min(kb, 6u));
    int depth = c.depth(mc::lvl(5, 6, 4, 5));
    for (int d = 0; d < depth; d++) {
        size_t w = t.size() > 1 ? c.choose(2) : 0;
        switch (c.choose(4)) {
        case 0: { u64 k = c.pick(keys), v = u64(d + 1); c.log("t%zu.set(%llu,%llu)", w, ull(k), ull(v)); t[w].set(k, v); m[w][k] = v; break; }
        case 1: { u64 k = c.pick(keys); c.log("t%zu.erase(%llu)", w, ull(k)); t[w].erase(k); m[w].erase(k); break; }
        case 2: { size_t n = c.of<size_t>({0, 2, 20}); c.log("t%zu.reserve(%zu)", w, n); t[w].reserve(n); break; }
        case 3: if (t.size() == 1) { c.log("t1 = copy of t0"); T x = t[0]; t.push_back(x); m.push_back(m[0]); } else { c.log("t%zu = t%zu", w, 1 - w); t[w] = t[1 - w]; m[w] = m[1 - w]; } break;
        }
        if (c.fresh()) for (size_t i = 0; i < t.size(); i++) compare(c, t[i], m[i], probes);
        auto h = t.size() == 1 ? mc::image(t[0]) : mc::image(t[0], t[1]);
        for (auto& x : m) { h.word(x.size()); for (auto [k, v] : x) { h.word(k); h.word(v); } }
        c.visit(h, depth - d - 1);
    }
}
MC_SCOPE("C12", histories_identity, 16) { histories<sim_ds::CHT<7, 80, Identity>>(c, 5, 4, {3, 7, 2, 11, 15}); }
MC_SCOPE("C12", histories_splitmix, 16) { histories<sim_ds::CHT<7>>(c, 6, 4, {0, 1, 33, 63}); }

// ---- large tables: insertion orders, erasures, growth, re-insertion, through every key width
template <class T> static void large(mc::Ctx& c, unsigned kb, size_t b, unsigned vw, size_t n, unsigned kind, size_t width) {
    T t(kb, b); if (vw) t.set_value_width(vw);
    Map m; u64 top = mask(kb); mc::H128 tr;
    auto key = [&](size_t i) -> u64 {
        switch (kind) {
        case 0: return u64(i) & top; case 1: return top - (u64(i) & top); case 2: return (u64(i) << (kb > 12 ? kb - 12 : 0)) & top;
        case 3: return (0x9E3779B97F4A7C15ull * (i + 1)) & top; default: return (u64(i) * 64 + 63) & top;       // same low bits
        }
    };
    auto val = [&](size_t i, u64 r) { return (0xD1B54A32D192ED03ull * (i + 1) + r) & mask(unsigned(width)); };
    auto check = [&](const char* when) {
        MC_CHECK(t.size() == m.size(), "%s: size() = %zu, want %zu", when, t.size(), m.size());
        for (size_t i = 0; i < n + 5; i++) for (u64 k : {key(i), key(i) ^ 1, key(i) ^ (kb ? u64(1) << (kb - 1) : 0)}) {
            k &= top;
            auto [f, v] = t.get(k); auto it = m.find(k);
            MC_CHECK(f == (it != m.end()) && (!f || v == it->second), "%s (%u-bit keys, %zu buckets at first, %zu keys): get(%llu) = (%d,%llu), want (%d,%llu)", when, kb, b, n, ull(k), int(f), ull(v), int(it != m.end()), ull(it != m.end() ? it->second : 0));
            tr.word(f ? v : ~v);
        }
        c.obs(3 * n);
    };
    auto set = [&](size_t i, u64 r) { u64 k = key(i); u64 v = val(i, r); t.set(k, v); m[k] = v; };
    auto erase = [&](size_t i) { u64 k = key(i); t.erase(k); m.erase(k); };
    for (size_t i = 0; i < n; i++) { set(i, 0); if ((i & (i + 1)) == 0) check("while filling"), c.beat(); }
    check("filled");
    for (size_t i = 0; i < n; i += 2) erase(i);
    check("every second erased"); c.beat();
    T copy = t; Map mcopy = m;
    for (size_t i = 0; i < n; i += 3) set(i, 1);
    check("some set again"); c.beat();
    for (size_t i = n; i-- > 0;) { erase(i); if ((i & (i + 1)) == 0) check("while emptying"); }
    check("emptied"); c.beat();
    for (size_t r = 0; r < 3; r++) { for (size_t i = 0; i < n; i++) { set(i, r); if (i >= 2) erase(i - 2); } check("sliding window"); c.beat(); }
    t.reserve(2 * n + 1); check("reserved");
    for (size_t i = 0; i < n; i++) set(n - 1 - i, 7);
    check("filled again");
    std::swap(t, copy); std::swap(m, mcopy); check("copy made in between");
    c.transcript(tr);
    c.log("%u-bit keys of kind %u, %zu buckets at first, %zu keys", kb, kind, b, n);
    c.state(mc::hash_words({kb, b, vw, n, kind}));
}
MC_SCOPE("C12 C25", every_key_width, 16) {
    unsigned kb = c.choose(64), kind = c.choose(4); size_t b = c.of<size_t>({1, 2, 8, 64});
    large<sim_ds::CHT<5>>(c, kb, b, 0, std::min<size_t>(mc::lvl(60, 120, 30, 60), kb < 10 ? (size_t(1) << kb) : 1000), kind, 5);
}
MC_SCOPE("C12", every_value_width, 16) {
    unsigned w = 1 + c.choose(64); size_t b = c.of<size_t>({1, 8, 32});
    large<sim_ds::CHT<0, 80>>(c, 20, b, w, mc::lvl(70, 150, 30, 70), 3, w);
}
template <unsigned L, class H> static void loads(mc::Ctx& c) {
    size_t b = c.of<size_t>({1, 8, 64}); unsigned kind = c.choose(5); size_t n = c.of<size_t>({1, 2, 5, 17, 64, 100, 250});
    if (!mc::thorough() && (MC_ASAN || L < 20) && n > 64) throw mc::Prune{};
    large<sim_ds::CHT<64, L, H>>(c, 24, b, 0, n, kind, 64);
}
MC_SCOPE("C12", every_load, 16) {
    switch (c.choose(14)) {
    case 0: loads<1, Identity>(c); break; case 1: loads<2, sim_ds::SplitMixHash>(c); break; case 2: loads<10, Identity>(c); break; case 3: loads<25, sim_ds::SplitMixHash>(c); break;
    case 4: loads<33, Identity>(c); break; case 5: loads<49, Identity>(c); break; case 6: loads<50, Identity>(c); break; case 7: loads<66, Rotate>(c); break;
    case 8: loads<75, Identity>(c); break; case 9: loads<80, Rotate>(c); break; case 10: loads<90, Identity>(c); break; case 11: loads<95, sim_ds::SplitMixHash>(c); break;
    case 12: loads<99, Identity>(c); break; case 13: loads<98, sim_ds::SplitMixHash>(c); break;
    }
}
MC_SCOPE("C12", beyond_16_bits, 8) {               // more buckets and keys than 16 bits count
    if (MC_ASAN) throw mc::Prune{};
    unsigned k = c.choose(6); size_t b = c.of<size_t>({1, 65536, 131072}); size_t n = mc::lvl(70000, 140000);
    if (!mc::thorough() && b == 65536 && k % 2) throw mc::Prune{};
    switch (k) {
    case 0: large<sim_ds::CHT<7>>(c, 20, b, 0, n, 0, 7); break;
    case 1: large<sim_ds::CHT<64, 90>>(c, 40, b, 0, n, 3, 64); break;
    case 2: large<sim_ds::CHT<16, 80, Identity>>(c, 17, b, 0, n, 4, 16); break;
    case 3: large<sim_ds::CHT<33, 50>>(c, 33, b, 0, n, 3, 33); break;
    case 4: large<sim_ds::CHT<0, 95>>(c, 63, b, 17, n, 1, 17); break;
    case 5: large<sim_ds::CHT<1, 99>>(c, 18, b, 0, n, 3, 1); break;
    }
}
