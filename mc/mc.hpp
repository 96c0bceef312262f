// Bounded exhaustive explorer (stateless model checking of the real code).
//
// A *scope* is a function body(Ctx&) that builds real objects of the library, takes every decision through
// ctx.choose(n) and compares the objects with a reference model.  The engine executes the body once per complete
// choice sequence, in depth-first order, until the choice tree is exhausted; nothing is sampled.  Crashes,
// sanitizer aborts, escaped exceptions and hangs of a worker are violations of the case it was executing.
// Every violation is confirmed by replaying its choice sequence alone before it is reported.
#pragma once
#include <cassert>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#else
#define MC_ASAN 0
#endif

namespace mc {

// ---------------------------------------------------------------- hashing
struct H128 {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
    void word(uint64_t w) {
        a ^= w; a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29;
        b += w ^ (a << 1); b *= 0x9FB21C651E98DF25ull; b ^= b >> 28; b *= 0xD6E8FEB86659FD93ull; b ^= b >> 32;
    }
    void bytes(const void* p, size_t n) {
        auto* q = static_cast<const unsigned char*>(p);
        word(n);
        while (n >= 8) { uint64_t w; memcpy(&w, q, 8); word(w); q += 8; n -= 8; }
        if (n) { uint64_t w = 0; memcpy(&w, q, n); word(w); }
    }
    template <class V> void seq(const V& v) { word(v.size()); for (auto&& x : v) word(uint64_t(x)); }
};
struct H128Hash { size_t operator()(const H128& h) const { return h.a ^ (h.b * 3); } };
template <class V> H128 hash_seq(const V& v) { H128 h; h.seq(v); return h; }
inline H128 hash_words(std::initializer_list<uint64_t> l) { H128 h; for (auto x : l) h.word(x); return h; }

// ---------------------------------------------------------------- memory image of a cloned object (fast build only)
extern bool g_arena_on;
struct Arena { char* base; size_t used, cap; };
extern Arena g_arena;
void* arena_alloc(size_t n, size_t align);
// heap blocks allocated while tracking is on and not freed since (what a call left behind)
struct Track { bool on = false, any = false; size_t n = 0; struct { void* p; size_t n; } b[8192]; };
extern Track g_track;
// memory accounting and injected allocation failures (harnesses that define MC_FAULTS before including this file)
struct Mem {
    bool on = false, sums = false, tripped = false; uint64_t allocs = 0, fail_at = 0; size_t live = 0, blocks = 0, total = 0, peak = 0;
    struct E { void* p; size_t n; }; static constexpr size_t kCap = 1 << 17; E* tab = nullptr; size_t filled = 0;
    static size_t slot(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 47; }
    bool refuse() { if (!on) return false; if (++allocs != fail_at) return false; tripped = true; return true; }
    void add(void* p, size_t n) {
        if (sums) total += n;                // bytes allocated only, no table of blocks
        if (!on) return;
        total += n; blocks++; live += n; if (live > peak) peak = live;
        if (!tab) { tab = static_cast<E*>(mmap(nullptr, kCap * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
        if (++filled > kCap / 2) { rehash(); if (++filled > kCap / 2) abort(); }
        size_t i = slot(p); while (tab[i].p && tab[i].p != reinterpret_cast<void*>(1)) i = (i + 1) & (kCap - 1);
        tab[i] = {p, n};
    }
    void rehash() { E* old = tab; tab = static_cast<E*>(mmap(nullptr, kCap * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); filled = 0;
        for (size_t k = 0; k < kCap; k++) if (reinterpret_cast<uintptr_t>(old[k].p) > 1) { size_t i = slot(old[k].p); while (tab[i].p) i = (i + 1) & (kCap - 1); tab[i] = old[k]; filled++; }
        munmap(old, kCap * sizeof(E)); }
    void sub(void* p) {
        if (!blocks) return;
        for (size_t i = slot(p); tab[i].p; i = (i + 1) & (kCap - 1)) if (tab[i].p == p) { live -= tab[i].n; blocks--; tab[i].p = reinterpret_cast<void*>(1); return; }
    }
};
extern Mem g_mem;
inline bool in_arena(const void* p) {
    return p >= static_cast<const void*>(g_arena.base) && p < static_cast<const void*>(g_arena.base + g_arena.cap);
}

// ---------------------------------------------------------------- failures
struct Violation { std::string msg; };
struct Prune {};
[[noreturn]] inline void fail(const char* fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Violation{buf};
}
#define MC_CHECK(cond, ...) do { if (__builtin_expect(!(cond), 0)) ::mc::fail(__VA_ARGS__); } while (0)
typedef unsigned long long ull;

constexpr uint32_t kMaxChoices = 1u << 14;
struct Slot {                          // one per worker, in shared memory
    volatile uint64_t beat;
    volatile int32_t task;             // index of the task being executed, -1 none
    volatile uint32_t len;             // choices of the execution in progress
    uint32_t ch[kMaxChoices];
    volatile int32_t status;           // 0 running, 1 finished, 2 violation
    uint32_t vlen;
    char msg[4096];
    char note[2048];                   // what a replayed case was about to do
};
struct TaskStat {
    uint64_t execs, edges, obs, pruned, maxlen, done, tr;
    double secs;
    uint32_t nsamples;
    struct { uint32_t len; uint32_t ch[192]; } sample[3];
};
struct Shared {
    std::atomic<uint64_t> distinct, saturated;
    uint64_t tab_mask;
};
extern Shared* g_sh;
extern std::atomic<uint64_t>* g_tab;
extern int g_tier;                     // 0 quick, 1 thorough
extern bool g_quiet_prune;

inline bool thorough() { return g_tier == 1; }
extern std::string g_prop;
// does the run decide property p (scopes shared by several properties check only what belongs to the one decided)
inline bool deciding(const char* p) { return g_prop.empty() || g_prop == p || g_prop == "C25"; }
// bound by build and tier
inline int lvl(int quick, int thorough_, int asan_quick = -1, int asan_thorough = -1) {
    if (MC_ASAN) {
        int q = asan_quick >= 0 ? asan_quick : quick;
        return g_tier ? (asan_thorough >= 0 ? asan_thorough : q) : q;
    }
    return g_tier ? thorough_ : quick;
}

class Ctx {
public:
    struct Ch { uint32_t cur, n; };
    std::vector<Ch> stack;
    size_t pos = 0;
    ptrdiff_t changed = -1;
    bool replay = false, explain = false;
    uint32_t shard = 0, nshards = 1;
    int scope_id = 0;
    int depth_cap = 1 << 30;
    Slot* slot = nullptr;
    TaskStat* st = nullptr;
    std::unordered_map<H128, uint32_t, H128Hash> visited;

    // ---- decisions
    size_t choose(size_t n) {
        if (n == 0) throw Prune{};
        if (n == 1) return 0;
        size_t c;
        if (pos < stack.size()) {
            c = stack[pos].cur;
            if (stack[pos].n != n) {
                if (replay) { if (c >= n) throw std::logic_error("mc: replay divergence"); stack[pos].n = n; }
                else throw std::logic_error("mc: nondeterministic choice arity");
            }
        } else {
            if (pos >= kMaxChoices) throw std::logic_error("mc: too many choices");
            stack.push_back({0, uint32_t(n)});
            c = 0;
        }
        slot->ch[pos] = uint32_t(c);
        ++pos;
        slot->len = uint32_t(pos);
        slot->beat = slot->beat + 1;
        if (pos == 2 && nshards > 1 && !replay &&
            (uint64_t(stack[0].cur) * 7919 + stack[1].cur) % nshards != shard) { off_shard = true; throw Prune{}; }
        if (fresh()) st->edges++;
        return c;
    }
    // inclusive range
    long range(long lo, long hi) { return hi < lo ? (choose(0), 0) : lo + long(choose(size_t(hi - lo + 1))); }
    bool flip() { return choose(2); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
    template <class T> T of(std::initializer_list<T> v) { return *(v.begin() + choose(v.size())); }
    // true where no earlier execution has been (its checks have not run yet)
    bool fresh() const { return ptrdiff_t(pos) > changed; }
    int depth(int d) const { return std::min(d, depth_cap); }

    // ---- accounting
    void beat() { slot->beat = slot->beat + 1; }
    void obs(uint64_t n) { if (fresh()) st->obs += n; }
    // order-independent digest of everything observed, compared between builds
    void transcript(const H128& h) { if (fresh()) st->tr += h.a ^ (h.b * 3); }
    void state(H128 h) {               // a distinct state / configuration was reached
        if (!fresh() || replay) return;
        h.word(uint64_t(scope_id) + 1);
        uint64_t k = h.a ^ (h.b >> 7); if (!k) k = 1;
        if (g_sh->saturated.load(std::memory_order_relaxed)) return;
        for (uint64_t i = k & g_sh->tab_mask, probes = 0;; i = (i + 1) & g_sh->tab_mask) {
            uint64_t cur = g_tab[i].load(std::memory_order_relaxed);
            if (cur == k) return;
            if (cur == 0) {
                if (g_tab[i].compare_exchange_strong(cur, k)) {
                    if (g_sh->distinct.fetch_add(1) > g_sh->tab_mask / 4 * 3) g_sh->saturated = 1;
                    return;
                }
                if (cur == k) return;
            }
            if (++probes > 4096) { g_sh->saturated = 1; return; }
        }
    }
    // state matching: abandon this branch if the same state was already explored with at least as many steps left
    void visit(H128 h, uint32_t remaining) {
        state(h);
        if (MC_ASAN || replay || !fresh()) return;
        auto [it, ins] = visited.try_emplace(h, remaining);
        if (!ins) {
            if (it->second >= remaining) throw Prune{};
            it->second = remaining;
        }
    }
    // ---- narration, only produced when a case is explained
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!explain) return;
        char buf[1024];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf - 1, fmt, ap); va_end(ap);
        size_t n = strlen(buf); buf[n] = '\n';
        ssize_t r = write(2, buf, n + 1); (void)r;      // unbuffered: survives a crash of the case
    }
    bool off_shard = false;
    void note(const std::string& s) { if (replay) snprintf(slot->note, sizeof slot->note, "%s", s.c_str()); }
};

// hash of the bytes reachable from clones of the given objects, built in a zeroed arena at a fixed address
template <class... O> H128 image(const O&... objs) {
    H128 h;
#if !MC_ASAN
    memset(g_arena.base, 0, g_arena.used);
    g_arena.used = 0;
    g_arena_on = true;
    try { (void)std::initializer_list<int>{(new (arena_alloc(sizeof(O), 64)) O(objs), 0)...}; }
    catch (...) { g_arena_on = false; throw; }
    g_arena_on = false;
    h.bytes(g_arena.base, g_arena.used);
#else
    (void)std::initializer_list<int>{((void)objs, 0)...};
#endif
    return h;
}

struct Scope { const char* prop; const char* name; int shards; void (*fn)(Ctx&); };
inline std::vector<Scope>& scopes() { static std::vector<Scope> v; return v; }
struct Reg { Reg(const char* p, const char* n, int s, void (*f)(Ctx&)) { scopes().push_back({p, n, s, f}); } };
// props: space separated property ids
#define MC_SCOPE(props, name, shards) \
    static void mc_scope_##name(::mc::Ctx& c); \
    static ::mc::Reg mc_reg_##name(props, #name, shards, mc_scope_##name); \
    static void mc_scope_##name([[maybe_unused]] ::mc::Ctx& c)

// swallow everything the library prints
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Mute {
    std::streambuf* old; NullBuf nb;
    Mute() : old(std::cout.rdbuf(&nb)) {}
    ~Mute() { std::cout.rdbuf(old); }
};

} // namespace mc

// =================================================================== engine (one translation unit per harness)
#ifdef MC_MAIN
#if MC_ASAN && defined(MC_FAULTS)
void* operator new(size_t n) { if (mc::g_mem.refuse()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc::g_mem.refuse() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#if !MC_ASAN
extern "C" {
int __real_posix_memalign(void** p, size_t a, size_t n);
void __real_free(void* p);
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
    if (mc::g_arena_on) { *p = mc::arena_alloc(n, a); return 0; }
    if (mc::g_mem.refuse()) return ENOMEM;
    int r = __real_posix_memalign(p, a, n);
    if (!r && mc::g_track.on && mc::g_track.n < 8192) mc::g_track.b[mc::g_track.n++] = {*p, n};
    if (!r) mc::g_mem.add(*p, n);
    return r;
}
void __wrap_free(void* p);
}
static void mc_free(void* p);
extern "C" void __wrap_free(void* p) { mc_free(p); }
static void* mc_new(size_t n, size_t a) {
    if (mc::g_arena_on) return mc::arena_alloc(n, a);
    if (mc::g_mem.refuse()) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (mc::g_track.on && mc::g_track.n < 8192) mc::g_track.b[mc::g_track.n++] = {p, n};
    mc::g_mem.add(p, n);
    return p;
}
static void mc_free(void* p) {
    if (!p || mc::in_arena(p)) return;
    mc::g_mem.sub(p);
    if (mc::g_track.any) for (size_t i = mc::g_track.n; i-- > 0;) if (mc::g_track.b[i].p == p) { mc::g_track.b[i] = mc::g_track.b[--mc::g_track.n]; break; }
    __real_free(p);
}
void* operator new(size_t n) { return mc_new(n, 16); }
void* operator new[](size_t n) { return mc_new(n, 16); }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, size_t) noexcept { mc_free(p); }
void operator delete[](void* p, size_t) noexcept { mc_free(p); }
#endif

namespace mc {
bool g_arena_on = false;
Arena g_arena{nullptr, 0, 0};
Track g_track;
Mem g_mem;
Shared* g_sh; std::atomic<uint64_t>* g_tab; int g_tier = 0;
std::string g_prop;

void* arena_alloc(size_t n, size_t align) {
    size_t u = (g_arena.used + align - 1) & ~(align - 1);
    if (u + n + 16 > g_arena.cap) throw std::bad_alloc();
    g_arena.used = u + n;
    return g_arena.base + u;
}

struct Task { int scope, shard; };
static std::vector<Task> g_tasks;
static Slot* g_slots; static TaskStat* g_stats;
static std::string g_variant, g_replay_dir, g_harness, g_trace_dir;
static long long g_locate = -1;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shm(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(4); }
    return p;
}

// one execution; returns true if it ended normally or pruned; throws nothing, a violation is put into the slot
static bool run_once(Ctx& c, void (*fn)(Ctx&)) {
    g_mem.on = false; g_mem.fail_at = 0;
    c.pos = 0; c.slot->len = 0; c.off_shard = false;
    try {
        fn(c);
        if (c.nshards > 1 && !c.replay && c.pos < 2 && c.shard != 0) return true;
        if (!c.replay) c.st->execs++;
        return true;
    } catch (Prune&) {
        if (!c.off_shard && !c.replay) c.st->pruned++;
        return true;
    } catch (Violation& v) {
        g_mem.on = false;
        if (g_prop == "C25" && !c.replay) {          // the answer is wrong: what counts here is whether every build gives the same one
            H128 h; h.bytes(v.msg.data(), v.msg.size());
            for (size_t i = 0; i < c.pos; i++) h.word(c.stack[i].cur);
            c.st->tr += h.a ^ (h.b * 3); c.st->execs++;
            return true;
        }
        snprintf(c.slot->msg, sizeof c.slot->msg, "%s", v.msg.c_str());
    } catch (std::exception& e) {
        snprintf(c.slot->msg, sizeof c.slot->msg, "unexpected exception: %s", e.what());
    } catch (const char* s) {
        snprintf(c.slot->msg, sizeof c.slot->msg, "unexpected exception: %s", s);
    } catch (...) {
        snprintf(c.slot->msg, sizeof c.slot->msg, "unexpected exception");
    }
    g_arena_on = false;
    c.slot->vlen = c.slot->len;
    c.slot->status = 2;
    return false;
}

static bool explore(Slot* slot, int task, int depth_cap, double deadline = 0) {
    const Task t = g_tasks[task];
    const Scope& s = scopes()[t.scope];
    Ctx c;
    c.slot = slot; c.st = &g_stats[task]; c.scope_id = t.scope;
    c.shard = t.shard; c.nshards = s.shards; c.depth_cap = depth_cap;
    double t0 = now();
    uint64_t next_sample = 1;
    FILE* trace = g_trace_dir.empty() ? nullptr : fopen((g_trace_dir + "/" + s.name + "-" + std::to_string(t.shard)).c_str(), "wb");
    for (long long no = 0;; no++) {
        slot->beat = slot->beat + 1;
        uint64_t tr0 = c.st->tr;
        c.st->maxlen = std::max<uint64_t>(c.st->maxlen, c.pos);
        uint64_t before = c.st->execs;
        if (!run_once(c, s.fn)) { if (trace) fclose(trace); return false; }
        if (trace) { uint64_t d = c.st->tr - tr0; fwrite(&d, 8, 1, trace); }
        if (no == g_locate) return true;
        if (c.st->execs != before && c.st->execs >= next_sample && c.st->nsamples < 3 && c.pos <= 192) {
            auto& sm = c.st->sample[c.st->nsamples++];
            sm.len = c.pos;
            for (size_t i = 0; i < c.pos; i++) sm.ch[i] = slot->ch[i];
            next_sample = next_sample * 61 + 7;
        }
        c.st->maxlen = std::max<uint64_t>(c.st->maxlen, c.pos);
        c.stack.resize(c.pos);
        while (!c.stack.empty() && c.stack.back().cur + 1 >= c.stack.back().n) c.stack.pop_back();
        if (c.stack.empty()) break;
        c.stack.back().cur++;
        c.changed = ptrdiff_t(c.stack.size()) - 1;
        if (deadline > 0 && now() > deadline) break;
    }
    if (trace) fclose(trace);
    c.st->secs += now() - t0;
    c.st->done = 1;
    return true;
}

static void child_limits() {
#if !MC_ASAN
    rlimit r{12ull << 30, 12ull << 30};
    setrlimit(RLIMIT_AS, &r);
#endif
    rlimit z{0, 0};
    setrlimit(RLIMIT_CORE, &z);
}

struct Outcome { int kind; std::string msg, text; };   // 0 ok, 1 check failed, 2 crash, 3 hang
static std::string slurp(int fd, double until, bool& timeout) {
    std::string s; char b[4096]; timeout = false;
    for (;;) {
        double left = until - now();
        if (left <= 0) { timeout = true; return s; }
        pollfd p{fd, POLLIN, 0};
        int r = poll(&p, 1, int(std::min(left, 1.0) * 1000) + 1);
        if (r > 0) { ssize_t n = read(fd, b, sizeof b); if (n <= 0) return s; if (s.size() < (1u << 20)) s.append(b, n); }
    }
}

// run one choice sequence in a fresh process
static Outcome replay_one(int scope, const std::vector<uint32_t>& ch, bool explain, double limit) {
    int pf[2]; if (pipe(pf)) exit(4);
    Slot* slot = &g_slots[63];
    slot->status = 0; slot->msg[0] = 0; slot->note[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        close(pf[0]);
        child_limits();
        dup2(pf[1], 2);
        TaskStat dummy{};
        Ctx c; c.slot = slot; c.st = &dummy; c.scope_id = scope; c.replay = true; c.explain = explain;
        for (auto x : ch) c.stack.push_back({x, 0xffffffffu});
        int rc;
        { Mute m; rc = run_once(c, scopes()[scope].fn) ? 0 : 7; }
        c.log("observations: %016llx", ull(dummy.tr));
        _exit(rc);
    }
    close(pf[1]);
    bool to; std::string out = slurp(pf[0], now() + limit, to);
    close(pf[0]);
    Outcome o{0, "", out};
    if (to) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); o.kind = 3; o.msg = "does not terminate"; if (slot->note[0]) o.msg += std::string(" at: ") + slot->note; return o; }
    int stt; waitpid(pid, &stt, 0);
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return o;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 7) { o.kind = 1; o.msg = slot->msg; return o; }
    o.kind = 2;
    if (WIFSIGNALED(stt)) o.msg = std::string("crash: ") + strsignal(WTERMSIG(stt));
    else o.msg = "crash: exit status " + std::to_string(WEXITSTATUS(stt));
    auto p = out.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = out.find("runtime error:");
    if (p == std::string::npos) p = out.find("Assertion");
    if (p != std::string::npos) o.msg += " (" + out.substr(p, out.find('\n', p) - p) + ")";
    if (slot->note[0]) o.msg += std::string(" at: ") + slot->note;
    return o;
}

// run a whole task in a fresh process (used when the violation depends on the executions before it, and for shortening)
static bool rerun_task(int task, int depth_cap, double limit, std::vector<uint32_t>& ch, std::string& msg) {
    Slot* slot = &g_slots[62];
    slot->status = 0; slot->task = task; slot->len = 0; slot->msg[0] = 0;
    TaskStat keep = g_stats[task];
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        child_limits();
        int n = open("/dev/null", O_WRONLY); dup2(n, 2);
        Mute m;
        _exit(explore(slot, task, depth_cap, now() + limit) ? 0 : 7);
    }
    double until = now() + limit; int stt = 0; bool dead = false, to = false;
    while (now() < until) { if (waitpid(pid, &stt, WNOHANG) == pid) { dead = true; break; } usleep(5000); }
    if (!dead) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &stt, 0); to = true; }
    g_stats[task] = keep;
    if (to) return false;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return false;
    ch.assign(slot->ch, slot->ch + slot->len);
    msg = slot->status == 2 ? slot->msg : "crash";
    return true;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

static int engine_main(int argc, char** argv) {
    std::string prop, stats_file, replay_file, only;
    int jobs = 8, shard_only = -1; double hang = 25;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = g_prop = nx(); else if (a == "--tier") g_tier = nx() == "thorough";
        else if (a == "--stats") stats_file = nx(); else if (a == "--replay") replay_file = nx();
        else if (a == "--only") only = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--hang") hang = atof(nx().c_str()); else if (a == "--variant") g_variant = nx();
        else if (a == "--trace-dir") g_trace_dir = nx(); else if (a == "--shard") shard_only = atoi(nx().c_str()); else if (a == "--locate") g_locate = atoll(nx().c_str());
        else if (a == "--cex-dir") g_replay_dir = nx(); else if (a == "--harness") g_harness = nx();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 4; }
    }
    jobs = std::max(1, std::min(jobs, 60));
#if !MC_ASAN
    mallopt(M_PERTURB, 0x5A);
    g_arena.cap = 64u << 20;
    g_arena.base = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000ull), g_arena.cap, PROT_READ | PROT_WRITE,
                                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_arena.used = 0;
#endif
    g_slots = static_cast<Slot*>(shm(sizeof(Slot) * 64));
    g_sh = static_cast<Shared*>(shm(sizeof(Shared)));
    g_sh->tab_mask = (1ull << (g_tier ? 28 : 25)) - 1;
    g_tab = static_cast<std::atomic<uint64_t>*>(shm((g_sh->tab_mask + 1) * 8));
    auto& sc = scopes();

    if (!replay_file.empty()) {
        FILE* f = fopen(replay_file.c_str(), "r");
        if (!f) { perror("replay"); return 4; }
        char line[65536]; std::string scope; std::vector<uint32_t> ch;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "scope ", 6)) { scope = line + 6; while (!scope.empty() && scope.back() <= ' ') scope.pop_back(); }
            if (!strncmp(line, "choices", 7)) { char* p = line + 7; char* e; for (;;) { auto v = strtoul(p, &e, 10); if (e == p) break; ch.push_back(uint32_t(v)); p = e; } }
        }
        fclose(f);
        for (size_t i = 0; i < sc.size(); i++) if (scope == sc[i].name) {
            auto o = replay_one(int(i), ch, true, 120);
            printf("%s", o.text.c_str());
            if (o.kind) { printf("REPRODUCED scope=%s: %s\n", sc[i].name, o.msg.c_str()); return 1; }
            printf("scope=%s: no violation\n", sc[i].name);
            return 0;
        }
        fprintf(stderr, "unknown scope %s\n", scope.c_str());
        return 4;
    }

    for (size_t i = 0; i < sc.size(); i++) {
        bool take = prop.empty();
        std::istringstream is(sc[i].prop); std::string w;
        while (is >> w) take |= w == prop;
        if (!only.empty()) take &= only == sc[i].name;
        if (take) for (int k = 0; k < sc[i].shards; k++) if (shard_only < 0 || k == shard_only) g_tasks.push_back({int(i), k});
    }
    if (g_tasks.empty()) { fprintf(stderr, "no scope for %s\n", prop.c_str()); return 4; }
    // interleave shards of different scopes, big ones (more shards) first
    std::stable_sort(g_tasks.begin(), g_tasks.end(), [&](const Task& a, const Task& b) { return sc[a.scope].shards > sc[b.scope].shards; });
    g_stats = static_cast<TaskStat*>(shm(sizeof(TaskStat) * g_tasks.size()));
    double t0 = now();
    if (g_locate >= 0) {                   // the choices of one execution of one task
        g_slots[0].task = 0;
        { Mute m; explore(&g_slots[0], 0, 1 << 30); }
        printf("choices");
        for (uint32_t i = 0; i < g_slots[0].len; i++) printf(" %u", g_slots[0].ch[i]);
        printf("\n");
        return 0;
    }

    struct W { pid_t pid = 0; uint64_t beat = 0; double since = 0; };
    std::vector<W> ws(std::min<size_t>(jobs, g_tasks.size()));
    size_t next_task = 0;
    auto spawn = [&](size_t i) {
        Slot* slot = &g_slots[i];
        slot->status = 0; slot->task = int(next_task++); slot->len = 0;
        fflush(nullptr);
        pid_t pid = fork();                // one process per task: nothing an earlier task left behind is seen
        if (pid == 0) {
            setpgid(0, 0);
            child_limits();
            int n = open("/dev/null", O_WRONLY); dup2(n, 2);
            Mute m;
            _exit(explore(slot, slot->task, 1 << 30) ? (slot->status = 1, 0) : 7);
        }
        ws[i].pid = pid; ws[i].beat = slot->beat; ws[i].since = now();
    };
    for (size_t i = 0; i < ws.size(); i++) spawn(i);
    bool bad = false, was_hang = false; int btask = -1; std::vector<uint32_t> bch; std::string bmsg;
    size_t alive = ws.size();
    while (alive && !bad) {
        usleep(700);
        for (size_t i = 0; i < ws.size() && !bad; i++) {
            if (!ws[i].pid) continue;
            Slot* slot = &g_slots[i];
            int stt;
            if (waitpid(ws[i].pid, &stt, WNOHANG) == ws[i].pid) {
                ws[i].pid = 0;
                if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && slot->status == 1) {
                    if (next_task < g_tasks.size()) spawn(i); else alive--;
                    continue;
                }
                bad = true; btask = slot->task;
                bch.assign(slot->ch, slot->ch + slot->len);
                bmsg = slot->status == 2 ? slot->msg : "crash";
            } else if (slot->beat != ws[i].beat) { ws[i].beat = slot->beat; ws[i].since = now(); }
            else if (now() - ws[i].since > hang) {
                bad = was_hang = true; btask = slot->task;
                bch.assign(slot->ch, slot->ch + slot->len);
                bmsg = "does not terminate";
            }
        }
    }
    for (auto& w : ws) if (w.pid) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); }
    double wall = now() - t0;

    int rc = 0; std::string cex; Outcome fin{0, "", ""}; std::string kind = "choices"; int fscope = -1;
    if (bad && btask < 0) { fprintf(stderr, "worker died outside a task\n"); return 4; }
    if (bad) {
        fscope = g_tasks[btask].scope;
        double lim = was_hang ? 60 : 60;
        fin = replay_one(fscope, bch, false, lim);
        bool confirmed = fin.kind != 0;
        if (!confirmed && !was_hang) {
            std::vector<uint32_t> c2; std::string m2;
            if (rerun_task(btask, 1 << 30, 300, c2, m2) && c2 == bch) { confirmed = true; kind = "task"; fin.kind = 1; fin.msg = m2; }
        }
        if (!confirmed) {
            fprintf(stderr, "mc: unconfirmed failure in scope %s: %s\n", sc[fscope].name, bmsg.c_str());
            printf("UNCONFIRMED scope=%s %s\n", sc[fscope].name, bmsg.c_str());
            rc = was_hang ? 5 : 6;
        } else {
            if (kind == "choices" && fin.kind != 3) {      // shortest history first: iterate the depth bound
                for (int d = 1; d <= 6; d++) {
                    std::vector<uint32_t> c2; std::string m2;
                    if (!rerun_task(btask, d, 10, c2, m2)) continue;
                    auto o2 = replay_one(fscope, c2, false, 30);
                    if (o2.kind && c2.size() <= bch.size()) { bch = c2; fin = o2; }
                    break;
                }
            }
            Outcome ex = replay_one(fscope, bch, true, 60);
            std::string name = g_replay_dir + "/" + (prop.empty() ? "all" : prop) + "-" + sc[fscope].name + "-" + (g_variant.empty() ? "v" : g_variant) + ".cex";
            FILE* f = fopen(name.c_str(), "w");
            if (f) {
                fprintf(f, "harness %s\nvariant %s\nproperty %s\ntier %s\nscope %s\nshard %d\nmode %s\n", g_harness.c_str(), g_variant.c_str(),
                        prop.c_str(), g_tier ? "thorough" : "quick", sc[fscope].name, g_tasks[btask].shard, kind.c_str());
                fprintf(f, "choices");
                for (auto x : bch) fprintf(f, " %u", x);
                fprintf(f, "\nviolation %s\n--- case\n%s\n", fin.msg.c_str(), ex.text.c_str());
                fclose(f);
            }
            cex = name;
            printf("CEX %s scope=%s %s\n", name.c_str(), sc[fscope].name, fin.msg.c_str());
            rc = 1;
        }
    }
    if (!stats_file.empty()) {
        FILE* f = fopen(stats_file.c_str(), "w");
        if (!f) { perror("stats"); return 4; }
        fprintf(f, "{\"variant\":%s,\"wall\":%.3f,\"states\":%llu,\"states_saturated\":%s,\"rc\":%d,\"cex\":%s,\"msg\":%s,\"scopes\":[", jstr(g_variant).c_str(), wall,
                ull(g_sh->distinct.load()), g_sh->saturated.load() ? "true" : "false", rc, jstr(cex).c_str(), jstr(fin.msg).c_str());
        bool first = true;
        for (size_t i = 0; i < sc.size(); i++) {
            TaskStat a{}; bool any = false, done = true; int smp = -1;
            for (size_t t = 0; t < g_tasks.size(); t++) if (g_tasks[t].scope == int(i)) {
                any = true; auto& s = g_stats[t];
                a.execs += s.execs; a.edges += s.edges; a.obs += s.obs; a.pruned += s.pruned; a.tr += s.tr; a.secs += s.secs;
                a.maxlen = std::max(a.maxlen, s.maxlen); done &= s.done != 0;
                if (s.nsamples) smp = int(t);
            }
            if (!any) continue;
            std::string samples;
            if (!bad && smp >= 0) {
                auto& s = g_stats[smp];
                auto& sm = s.sample[s.nsamples - 1];
                auto o = replay_one(int(i), std::vector<uint32_t>(sm.ch, sm.ch + sm.len), true, 60);
                std::string tx = o.text.substr(0, 600);
                if (o.kind) tx += " [replay: " + o.msg + "]";
                samples = tx;
            }
            fprintf(f, "%s{\"scope\":%s,\"execs\":%llu,\"edges\":%llu,\"obs\":%llu,\"pruned\":%llu,\"max_choices\":%llu,\"secs\":%.3f,\"complete\":%s,\"transcript\":\"%016llx\",\"sample\":%s}",
                    first ? "" : ",", jstr(sc[i].name).c_str(), ull(a.execs), ull(a.edges), ull(a.obs), ull(a.pruned), ull(a.maxlen), a.secs, done ? "true" : "false", ull(a.tr), jstr(samples).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return rc;
}
} // namespace mc

int main(int argc, char** argv) {
    if (!getenv("MC_NOASLR")) {        // identical addresses in every run and replay
        setenv("MC_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    return mc::engine_main(argc, argv);
}
#endif
