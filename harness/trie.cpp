// C16: Trie against a std::map, and its traversals against the set of paths.
#include "common.hpp"
#include <sim_ds/string_util/graph_util.hpp>
using namespace h;
using sim_ds::graph_util::Trie;
using sim_ds::graph_util::kRootIndex;

template <class Item> Item item_of(unsigned k) {
    if constexpr (std::is_same_v<Item, std::string>) return "item number " + std::to_string(k) + (k % 3 ? " with a text that is allocated" : "");
    else return Item(k * 37 + 1);
}
using Q = std::vector<std::string>;
template <class T> static void traversals(mc::Ctx& c, const T& t, const std::set<std::string>& keys) {
    std::set<std::string> paths{""}; std::set<std::string> ends;
    for (auto k : keys) { k += '\0'; ends.insert(k); for (size_t i = 1; i <= k.size(); i++) paths.insert(k.substr(0, i)); }
    MC_CHECK(t.size() == paths.size(), "size() = %zu nodes, want %zu", t.size(), paths.size());
    std::vector<std::string> pre(paths.begin(), paths.end()), lev = pre;       // byte order of std::string is unsigned
    std::stable_sort(lev.begin(), lev.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
    std::map<std::string, const void*> at;
    using Node = typename T::node_type;
    std::set<size_t> items;
    for (int bfs = 0; bfs < 2; bfs++) {
        auto& want = bfs ? lev : pre; size_t i = 0; std::set<const void*> seen;
        auto visit = [&](const Node& n, size_t depth) {
            const char* w = bfs ? "bfs" : "dfs";
            MC_CHECK(i < want.size(), "%s visits more than %zu nodes", w, want.size());
            auto& p = want[i++];
            MC_CHECK(depth == p.size(), "%s: visit %zu has depth %zu, want %zu (path %s)", w, i - 1, depth, p.size(), show_str(p).c_str());
            MC_CHECK(seen.insert(&n).second, "%s visits a node twice (path %s)", w, show_str(p).c_str());
            MC_CHECK(n.terminal() == (ends.count(p) > 0), "%s: terminal() of path %s = %d", w, show_str(p).c_str(), int(n.terminal()));
            std::string lab, want_lab;
            n.for_each_edge([&](uint8_t ch, auto target) {
                lab += char(ch);
                MC_CHECK(n.target(ch) == target, "edge %u of %s: target() is another node", ch, show_str(p).c_str());
            });
            for (auto it = paths.upper_bound(p); it != paths.end() && it->compare(0, p.size(), p) == 0; ++it) if (it->size() == p.size() + 1) want_lab += it->back();
            MC_CHECK(lab == want_lab, "%s: path %s has the edges %s, want %s", w, show_str(p).c_str(), show_str(lab).c_str(), show_str(want_lab).c_str());
            for (unsigned b = 0; b < 256; b += 1 + (lab.size() == 0) * 50) if (lab.find(char(b)) == lab.npos) MC_CHECK(n.target(uint8_t(b)) == kRootIndex, "path %s has an edge %u", show_str(p).c_str(), b);
            if (bfs) MC_CHECK(at[p] == &n, "bfs and dfs disagree about path %s", show_str(p).c_str()); else at[p] = &n;
            if (!bfs && n.terminal()) MC_CHECK(size_t(n.item_index()) < keys.size() && items.insert(size_t(n.item_index())).second, "item_index of %s is %llu, used or too large", show_str(p).c_str(), ull(n.item_index()));
        };
        if (bfs) t.bfs(visit); else t.dfs(visit);
        MC_CHECK(i == want.size(), "%s visits %zu nodes, want %zu", bfs ? "bfs" : "dfs", i, want.size());
    }
    MC_CHECK(&t.root() == at[""], "root() is not the node visited first");
    std::set<const void*> byid; for (size_t i = 0; i < t.size(); i++) byid.insert(&t.node(i));
    for (auto& [p, a] : at) MC_CHECK(byid.count(a), "node of path %s is not among node(0..size()-1)", show_str(p).c_str());
    c.obs(paths.size() * 3);
}
template <class T> static void lookups(mc::Ctx& c, T& t, const std::map<std::string, typename T::item_type>& m, const Q& qs) {
    for (auto& q : qs) {
        auto* r = t.traverse(q); auto it = m.find(q);
        MC_CHECK((r != nullptr) == (it != m.end()), "traverse(%s) = %s", show_str(q).c_str(), r ? "an item, but the key was never inserted" : "null, but the key was inserted");
        if (r) MC_CHECK(*r == it->second, "traverse(%s) yields another item", show_str(q).c_str());
    }
    c.obs(qs.size());
}
template <class T> static void insert(mc::Ctx& c, T& t, std::map<std::string, typename T::item_type>& m, const std::string& k, unsigned no) {
    auto v = item_of<typename T::item_type>(no);
    c.log("insert(%s, item %u)", show_str(k).c_str(), no);
    auto* r = t.insert(k, v); m[k] = v;
    MC_CHECK(r && *r == v, "insert(%s) returns a pointer to something else", show_str(k).c_str());
    auto* s = t.traverse(k);
    MC_CHECK(r == s, "insert(%s) returns another address than traverse", show_str(k).c_str());
}
static Q words(const std::string& al, size_t len) {
    Q r{""}; size_t b = 0;
    for (size_t l = 0; l < len; l++) { size_t e = r.size(); for (; b < e; b++) for (char x : al) r.push_back(r[b] + x); }
    return r;
}
template <class M> static std::set<std::string> keys_of(const M& m) { std::set<std::string> k; for (auto& p : m) k.insert(p.first); return k; }

template <class T> static void histories(mc::Ctx& c) {
    static const Q pool{"", std::string(1, 0), "a", "ab", std::string("a\0", 2), std::string("a\0b", 3), "\xff", "a\xff", "b"};
    static const Q qs = words(std::string("\0a\xff" "b", 4), 3);
    int d = c.depth(mc::lvl(5, 6, 4, 5));
    T t; std::map<std::string, typename T::item_type> m;
    if (c.fresh()) { lookups(c, t, m, qs); traversals(c, t, {}); }
    for (int i = 0; i < d; i++) {
        insert(c, t, m, pool[c.choose(pool.size())], unsigned(i));
        if (!c.fresh()) continue;
        std::string s; for (auto& p : m) s += p.first + "|";
        mc::H128 hh = hash_str(s);
        c.state(hh);
        lookups(c, t, m, qs); traversals(c, t, keys_of(m));
    }
}
MC_SCOPE("C16", histories_size_t, 16) { histories<Trie<int>>(c); }
MC_SCOPE("C16", histories_u32_string, 16) { histories<Trie<std::string, uint32_t>>(c); }
MC_SCOPE("C16", histories_u8, 16) { histories<Trie<u64, uint8_t>>(c); }

template <class T> static void key_set(mc::Ctx& c, const Q& all, const Q& qs, size_t split) {   // the subset is chosen bit by bit
    Q ks; unsigned order = c.choose(3);
    for (size_t i = 0; i < split; i++) if (c.flip()) ks.push_back(all[i]);
    if (order == 1) std::reverse(ks.begin(), ks.end());
    if (order == 2) for (size_t i = 0; i + 1 < ks.size(); i += 2) std::swap(ks[i], ks[i + 1]);
    T t; std::map<std::string, typename T::item_type> m;
    for (size_t i = 0; i < ks.size(); i++) insert(c, t, m, ks[i], unsigned(i));
    lookups(c, t, m, qs); traversals(c, t, keys_of(m));
    c.state(hash_str([&] { std::string s; for (auto& p : m) s += p.first + "|"; return s; }()));
}
MC_SCOPE("C16", every_key_set_u16, 16) {
    static const Q all = words(std::string("\0a\xff", 3), 2), qs = words(std::string("\0a\xff", 3), 4);
    key_set<Trie<int, uint16_t>>(c, all, qs, mc::lvl(12, 13, 9, 12));
}
MC_SCOPE("C16", every_key_set_int, 16) {
    static const Q all = words("xy", 3), qs = words(std::string("xy\0", 3), 4);
    key_set<Trie<std::string, int>>(c, all, qs, mc::lvl(12, 15, 9, 12));
}
MC_SCOPE("C16", every_branching, 8) {               // every first byte next to every other, three continuations
    unsigned a = c.choose(256), b = MC_ASAN ? unsigned(a ^ (1u << c.choose(8))) : unsigned(c.choose(256)), k = c.choose(3);
    Trie<uint16_t, uint32_t> t; std::map<std::string, uint16_t> m;
    std::string A(1, char(a)), B(1, char(b));
    Q ks = k == 0 ? Q{A, B} : k == 1 ? Q{A + B, B + A, B} : Q{A + A + B, A + B, A};
    for (size_t i = 0; i < ks.size(); i++) insert(c, t, m, ks[i], unsigned(i));
    std::string N(1, 0);
    lookups(c, t, m, {"", A, B, A + B, B + A, A + A, B + B, A + A + B, A + B + A, A + N, B + N, A + B + N, N, N + A, A + N + B, std::string(1, char(a ^ 128)), std::string(1, char(a + 1))});
    traversals(c, t, keys_of(m));
}
template <class T> static void fill(mc::Ctx& c, size_t nodes, unsigned kind) {        // as many nodes as asked for
    T t; std::map<std::string, typename T::item_type> m; size_t have = 1; unsigned i = 0;
    if (kind == 0) {                                   // one chain
        std::string k; for (size_t j = 0; j + 2 < nodes; j++) k += char(j * 7 + 3);
        insert(c, t, m, k, 5);
        lookups(c, t, m, {"", k, k.substr(k.empty() ? 0 : 1), k.substr(0, k.size() ? k.size() - 1 : 0), k + 'x', k + '\0'});
    } else if (kind == 1) {                            // a star of one-byte keys, then of two-byte keys
        for (; have + 2 <= nodes && i < 256; i++, have += 2) insert(c, t, m, std::string(1, char(255 - i)), i);
        for (unsigned j = 0; have + 1 <= nodes && i < 1u << 20; j++, i++) { std::string k{char(255 - j % 128), char(j / 128 + 1)}; if (m.count(k)) continue; if (have + 2 > nodes) break; insert(c, t, m, k, i); have += 2; }
    } else {                                           // numbers in base 3
        for (;; i++) {
            std::string k; for (unsigned v = i; v; v /= 3) k += "a\xc3z"[v % 3];
            std::string p; size_t add = 0; std::string kk = k + '\0';
            size_t common = 0; for (auto& e : m) { std::string ee = e.first + '\0'; size_t x = 0; while (x < ee.size() && x < kk.size() && ee[x] == kk[x]) x++; common = std::max(common, x); }
            add = kk.size() - common;
            if (have + add > nodes) break;
            insert(c, t, m, k, i); have += add;
        }
    }
    Q qs; for (auto& e : m) { qs.push_back(e.first); qs.push_back(e.first + 'q'); qs.push_back(e.first + '\0'); if (e.first.size()) qs.push_back(e.first.substr(0, e.first.size() - 1)); }
    lookups(c, t, m, qs);
    traversals(c, t, keys_of(m));
    c.state(mc::hash_words({nodes, kind, t.size()}));
}
MC_SCOPE("C16", capacity_u8, 16) { size_t n = 2 + c.choose(255); unsigned k = c.choose(3); c.log("%zu nodes, kind %u", n, k); fill<Trie<int, uint8_t>>(c, n, k); }
MC_SCOPE("C16", large, 4) {
    unsigned k = c.choose(3); size_t n = c.of<size_t>({300, 1000, 2048, size_t(mc::lvl(4000, 20000, 2000, 4000))});
    if (k == 2) n = std::min<size_t>(n, 2048);
    c.log("%zu nodes, kind %u", n, k);
    fill<Trie<int, uint16_t>>(c, n, k);
    fill<Trie<std::string, uint32_t>>(c, n, k);
}
MC_SCOPE("C16", capacity_u16, 1) { unsigned k = c.choose(2); if (MC_ASAN && k == 1) throw mc::Prune{}; c.log("65536 nodes, kind %u", k); fill<Trie<int, uint16_t>>(c, k ? 40000 : mc::lvl(3000, 8000, 2000, 4000), k); }
MC_SCOPE("C16", from_any_node, 2) {                 // dfs from an inner node visits its subtree with depths counted from the given one
    size_t d0 = c.choose(3); unsigned which = c.choose(4);
    Trie<int> t; std::map<std::string, int> m; Q ks{"ab", "ac", "a", "bcd", "b"};
    for (unsigned i = 0; i < ks.size(); i++) insert(c, t, m, ks[i], i);
    static const char* starts[] = {"", "a", "b", "bc"};
    std::string p = starts[which]; size_t id = kRootIndex; for (char ch : p) id = t.node(id).target(uint8_t(ch));
    std::vector<std::string> want; { std::set<std::string> paths; for (auto k : ks) { k += '\0'; for (size_t i = 0; i <= k.size(); i++) if (k.substr(0, i).compare(0, p.size(), p) == 0) paths.insert(k.substr(0, i)); } want.assign(paths.begin(), paths.end()); }
    size_t i = 0;
    t.dfs(id, d0, [&](const auto&, size_t depth) { MC_CHECK(i < want.size() && depth == want[i].size() - p.size() + d0, "dfs from %s: visit %zu has depth %zu", p.c_str(), i, depth); i++; });
    MC_CHECK(i == want.size(), "dfs from %s visits %zu nodes, want %zu", p.c_str(), i, want.size());
}
// ---- more nodes, items and levels than 16 bits count
template <class T> static void beyond(mc::Ctx& c, size_t keys, unsigned kind) {
    T t; std::map<std::string, typename T::item_type> m;
    for (size_t i = 0; i < keys; i++) {
        size_t v = kind == 1 ? keys - 1 - i : i; std::string k;
        if (kind == 2) { for (; v; v /= 10) k += char('0' + v % 10); } else k = {char(v >> 16), char(v >> 8), char(v)};
        auto it = item_of<typename T::item_type>(unsigned(i));
        auto* r = t.insert(k, it); m[k] = it;
        MC_CHECK(r && *r == it && r == t.traverse(k), "insert number %zu (%s) returns a pointer to something else", i, show_str(k).c_str());
        if (i % 4096 == 0) c.beat();
    }
    Q qs; size_t no = 0; for (auto& e : m) { qs.push_back(e.first); if (no++ % 16 == 0) { qs.push_back(e.first + 'q'); qs.push_back(e.first + '\0'); if (e.first.size()) qs.push_back(e.first.substr(0, e.first.size() - 1)); } }
    lookups(c, t, m, qs); c.beat();
    traversals(c, t, keys_of(m));
    c.state(mc::hash_words({keys, kind, t.size()}));
}
template <class T> static void deep(mc::Ctx& c, size_t len) {           // two keys that share a path longer than 16 bits count
    T t; std::map<std::string, typename T::item_type> m; std::string k; for (size_t i = 0; i < len; i++) k += char(i * 7 + (i >> 8));
    insert(c, t, m, k, 1); insert(c, t, m, k + "x", 2); insert(c, t, m, k.substr(0, len - 5) + "\xff\xfe", 3);
    lookups(c, t, m, {k, k + "x", k + "y", k.substr(1), k.substr(0, len - 1), k.substr(0, len - 5) + "\xff\xfe", k.substr(0, len - 5), k + k, ""});
    size_t total = len + 1 + 1 + 2 + 3, i = 0, last = 0, ends = 0;
    MC_CHECK(t.size() == total, "size() = %zu nodes, want %zu", t.size(), total);
    t.bfs([&](const auto& n, size_t d) { MC_CHECK(d == last || d == last + 1, "bfs: depth %zu after %zu", d, last); last = d; i++; ends += n.terminal(); });
    MC_CHECK(i == total && last == len + 2 && ends == 3, "bfs visits %zu nodes down to depth %zu with %zu ends, want %zu, %zu and 3", i, last, ends, total, len + 2);
    std::vector<size_t> at(len + 3); i = ends = 0; size_t prev = 0;
    t.dfs([&](const auto& n, size_t d) { MC_CHECK(d < at.size() && (i == 0 ? d == 0 : d <= prev + 1 && d), "dfs: depth %zu after %zu", d, prev); at[d]++; prev = d; i++; ends += n.terminal(); });
    MC_CHECK(i == total && ends == 3, "dfs visits %zu nodes with %zu ends", i, ends);
    for (size_t d = 0; d < at.size(); d++) { size_t w = d <= len - 5 ? 1 : d <= len - 3 ? 2 : d == len - 2 ? 2 : d == len + 1 ? 2 : 1; MC_CHECK(at[d] == w, "dfs visits %zu nodes of depth %zu, want %zu", at[d], d, w); }
    c.obs(2 * total); c.state(mc::hash_words({len}));
}
MC_SCOPE("C16", beyond_16_bits, 8) {
    if (MC_ASAN) throw mc::Prune{};
    unsigned k = c.choose(4), type = c.choose(3); 
    c.log("kind %u, index type %u", k, type);
    if (k == 3) { size_t n = c.of<size_t>({65533, 65536, 70000, 200000}); if (type == 0) deep<Trie<int>>(c, n); else if (type == 1) deep<Trie<std::string, uint32_t>>(c, n); else deep<Trie<int, int>>(c, n); return; }
    size_t n = c.of<size_t>({66000, size_t(mc::lvl(70000, 140000))});
    if (n == 66000 && type != 1) throw mc::Prune{};
    if (type == 0) beyond<Trie<uint16_t>>(c, n, k); else if (type == 1) beyond<Trie<int, uint32_t>>(c, n, k); else beyond<Trie<u64, int>>(c, n, k);
}
MC_SCOPE("C16", full_u16, 2) {                          // exactly as many nodes as a 16-bit index numbers
    if (MC_ASAN) throw mc::Prune{};
    size_t less = c.choose(3); unsigned k = c.choose(2);
    Trie<int, uint16_t> t; std::map<std::string, int> m; size_t have = 1, i = 0, want = 65536 - less;
    for (; have < want; i++) {                          // 1 + 256 + ... : a new second byte costs one level less than a new first one
        size_t v = k ? 60000 - i : i; std::string s{char((v >> 8) + 1), char(v)};
        size_t add = 2 + (m.empty() || std::none_of(m.lower_bound(s.substr(0, 1)), m.end(), [n = 0, &s](auto& e) mutable { return n++ == 0 && e.first[0] == s[0]; }));
        if (m.count(s)) continue;
        if (have + add > want) { if (have + 1 == want && !m.count("")) { t.insert("", 7); m[""] = 7; have++; } break; }
        t.insert(s, int(i)); m[s] = int(i); have += add;
    }
    MC_CHECK(t.size() == have, "size() = %zu nodes, want %zu", t.size(), have);
    c.log("%zu nodes", have);
    Q qs; for (auto& e : m) { qs.push_back(e.first); qs.push_back(e.first + 'q'); }
    lookups(c, t, m, qs); c.beat(); traversals(c, t, keys_of(m));
}
