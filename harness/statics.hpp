// Watching the program's own static memory, and answers of a fresh process.  Used by C28 (constq) and C35 (shared).
#pragma once
#include "subjects.hpp"
#include <link.h>
using namespace subj;

namespace {
struct Seg { const char* p; size_t n; };
std::vector<Seg> segments(bool with_tls = true) {       // writable sections of the executable
    std::vector<Seg> r; static bool tls; tls = with_tls;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* out) {
        if (i->dlpi_name[0]) return 0;                  // the main program only: the library is header-only
        for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) static_cast<std::vector<Seg>*>(out)->push_back({reinterpret_cast<const char*>(i->dlpi_addr + p.p_vaddr), p.p_memsz}); }
        if (tls && i->dlpi_tls_data) for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_TLS) static_cast<std::vector<Seg>*>(out)->push_back({static_cast<const char*>(i->dlpi_tls_data), p.p_memsz}); }
        return 1;
    }, &r);
    return r;
}
// objects of the C++ library that the linker placed into this program (stream objects): not the library under test
bool ours(const char* p) {
    auto in = [&](const void* o, size_t n) { return p >= static_cast<const char*>(o) && p < static_cast<const char*>(o) + n; };
    return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) || in(&std::cin, sizeof std::cin) ||
           in(&mc::g_track, sizeof mc::g_track) || in(&mc::g_arena, sizeof mc::g_arena) || in(&mc::g_arena_on, sizeof mc::g_arena_on);
}
bool g_locked = false;
}
static std::vector<char> g_before;
static void snapshot(const std::vector<Seg>& s, std::vector<char>& v) { size_t n = 0; for (auto& x : s) n += x.n; if (v.size() < n) v.resize(n); n = 0; for (auto& x : s) { memcpy(v.data() + n, x.p, x.n); n += x.n; } }
static bool changed(const std::vector<Seg>& s, const std::vector<char>& v) {
    size_t n = 0;
    for (auto& x : s) {
        if (memcmp(v.data() + n, x.p, x.n)) for (size_t i = 0; i < x.n; i++) if (v[n + i] != x.p[i]) {
            const char* q = x.p + i;
            if (!ours(q) && !(q >= reinterpret_cast<const char*>(&g_before) && q < reinterpret_cast<const char*>(&g_before + 1)) && q != reinterpret_cast<const char*>(&g_locked)) return true;
        }
        n += x.n;
    }
    return false;
}

// what f returns in a process that has done nothing before
template <class F> static std::vector<u64> in_fresh_process(F f, const char* name) {
    int pf[2]; if (pipe(pf)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        std::vector<u64> a = f();
        size_t n = a.size() * 8; const char* p = reinterpret_cast<const char*>(a.data());
        while (n) { ssize_t w = write(pf[1], p, n); if (w <= 0) break; p += w; n -= w; }
        _exit(0);
    }
    close(pf[1]);
    std::vector<char> b; char buf[4096]; ssize_t r;
    while ((r = read(pf[0], buf, sizeof buf)) > 0) b.insert(b.end(), buf, buf + r);
    close(pf[0]); int st; waitpid(pid, &st, 0);
    std::vector<u64> v(b.size() / 8); if (v.size()) memcpy(v.data(), b.data(), v.size() * 8);
    if (st || v.empty()) mc::fail("%s: cannot be used in a fresh process (status %d)", name, st);
    return v;
}
// the answers of content k in such a process
template <class Sub> static const std::vector<u64>& pristine(size_t k) {
    static std::vector<std::vector<u64>> memo;
    if (memo.empty()) { std::vector<std::vector<u64>> m; for (size_t i = 0; i < Sub::n; i++) m.push_back(in_fresh_process([&] { auto s = Sub::make(i); return answers<Sub>(s, i); }, (std::string(Sub::name()) + " content " + std::to_string(i)).c_str())); memo = std::move(m); }
    return memo[k];
}
