// Shared harness support: reporting protocol, RNG, fault attribution.
#pragma once
#include <gmpxx.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <setjmp.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <mutex>

typedef uint64_t u64;

struct Rng {
    u64 s[2];
    static u64 mix(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    explicit Rng(u64 seed = 1) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x1234567); }
    u64 next() { u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(int num, int den) { return (int)below(den) < num; }
};

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace rep {
// Heap in use, where the sanitizer counts it
inline size_t live() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
inline std::map<std::string, u64> &viols() { static std::map<std::string, u64> m; return m; }
inline std::map<std::string, u64> &stats() { static std::map<std::string, u64> m; return m; }
inline std::unordered_set<u64> &distinct() { static std::unordered_set<u64> s; return s; }
inline std::mutex &mu() { static std::mutex m; return m; }
inline char *cur() { static char buf[2048]; return buf; }
inline int &samples() { static int n = 0; return n; }

// What is being executed: a crash, an abort or a sanitizer report is attributed to it.
inline void op(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(cur(), 2048, fmt, ap); va_end(ap); }

inline void viol(const std::string &key, const char *fmt, ...) {
    std::lock_guard<std::mutex> g(mu());
    u64 &n = viols()[key];
    n++;
    if (n > 1) return;
    char buf[6000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
    printf("VIOL\t%s\t%s\n", key.c_str(), buf);
    fflush(stdout);
}
inline void stat(const char *k, u64 n = 1) { std::lock_guard<std::mutex> g(mu()); stats()[k] += n; }
inline void seen(u64 h) { std::lock_guard<std::mutex> g(mu()); if (distinct().size() < 2000000) distinct().insert(h); }
inline void sample(const char *fmt, ...) {
    if (samples() >= 6) return;
    samples()++;
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    printf("SAMPLE\t%s\n", buf);
}
inline void done() {
    for (auto &kv : stats()) printf("STAT\t%s\t%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    printf("STAT\tdistinct\t%llu\n", (unsigned long long)distinct().size());
    for (auto &kv : viols()) printf("VCOUNT\t%s\t%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    printf("DONE\n");
    fflush(stdout);
}

inline sigjmp_buf &jb() { static sigjmp_buf b; return b; }
inline volatile sig_atomic_t &armed() { static volatile sig_atomic_t a = 0; return a; }   // 1: an abort is an expected outcome
inline void onsig(int sig) {
    if (armed() && sig == SIGABRT) { armed() = 0; siglongjmp(jb(), 2); }
    char line[2600];
    int n = snprintf(line, sizeof line, "\nFAULT\tsignal %d\t%s\n", sig, cur());
    if (n > 0) { ssize_t w = write(1, line, n); (void)w; }
    signal(sig, SIG_DFL);
    raise(sig);
}
inline void install() {
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
    for (int s : sigs) sigaction(s, &sa, nullptr);
}
}  // namespace rep

#define V_STR2(x) #x
#define V_STR(x) V_STR2(x)
inline u64 hash_str(const char *s) { u64 h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
inline u64 hcomb(u64 a, u64 b) { return Rng::mix(a * 31 + b); }
