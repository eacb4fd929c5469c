// Fault injection over the catalogue of calls: the k-th request for memory, a thread, a descriptor or a mapping made inside a call
// is refused, for every k. Included by mem_main.cpp. The calls run in a child process, because a refusal inside a worker thread
// rightly ends the program; the supervisor then starts another child that goes on with the next k.
#pragma once
#include <atomic>
#include <new>
#include <dlfcn.h>
#include <omp.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
enum Fk { F_MEM, F_THREAD, F_SYS, N_FK };
static const char *const FKN[] = {"memory", "a thread", "a system call"};
struct Shared {
    u64 it, idx; int kind; long k; std::atomic<int> armed, fired, onCaller; char name[200];
    u64 injected, refused, ended, answered, again; std::atomic<unsigned char> seen[1 << 16];
};
static Shared *sh_;
static std::atomic<long> fkCount[N_FK], fkAt[N_FK];
static long callerTid;
// true: refuse this request
static bool refuse(Fk f) {
    if (!sh_ || !sh_->armed.load(std::memory_order_relaxed)) return false;
    long n = fkCount[f].fetch_add(1, std::memory_order_relaxed);
    if (n != fkAt[f].load(std::memory_order_relaxed)) return false;
    sh_->onCaller = syscall(SYS_gettid) == callerTid; sh_->fired = 1; Armed::refused() = true;
    return true;
}
static void *obtain(size_t n, bool thr) {
    void *p = refuse(F_MEM) ? nullptr : malloc(n ? n : 1);
    if (!p && thr) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return obtain(n, true); }
void *operator new[](size_t n) { return obtain(n, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return obtain(n, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return obtain(n, false); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
// direct requests of the library's own objects (the linker's --wrap)
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_open(const char *, int, ...); int __real_fstat(int, struct stat *); void *__real_mmap(void *, size_t, int, int, int, off_t); ssize_t __real_read(int, void *, size_t); FILE *__real_fopen(const char *, const char *);
void *__wrap_malloc(size_t n) { if (refuse(F_MEM)) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if (refuse(F_MEM)) { errno = ENOMEM; return nullptr; } return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if (refuse(F_MEM)) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
int __wrap_open(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (refuse(F_SYS)) { errno = EMFILE; return -1; } return __real_open(p, fl, m); }
int __wrap_fstat(int fd, struct stat *b) { if (refuse(F_SYS)) { errno = EIO; return -1; } return __real_fstat(fd, b); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (refuse(F_SYS)) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, pr, fl, fd, o); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (refuse(F_SYS)) { errno = EIO; return -1; } return __real_read(fd, b, n); }
FILE *__wrap_fopen(const char *p, const char *m) { if (refuse(F_SYS)) { errno = EMFILE; return nullptr; } return __real_fopen(p, m); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (refuse(F_THREAD)) return EAGAIN;
    return real(t, a, f, x);
}
}
static void armHook(bool on) {
    if (on) { callerTid = syscall(SYS_gettid); for (auto &c : fkCount) c = 0; Armed::refused() = false; sh_->fired = 0; sh_->onCaller = 0; sh_->armed = 1; }
    else sh_->armed = 0;
}
static void arm(int kind, long k) { for (int f = 0; f < N_FK; f++) fkAt[f] = f == kind ? k : -1; }

// The pool everybody shares comes into being with its first use: a refusal there has to leave a second use possible.
static void firstUse() {
    for (int f = 0; f < F_SYS; f++) for (long k = 0; k < 200; k++) {
        fflush(stdout); sh_->fired = 0;
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (!p) {
            alarm(20); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); signal(SIGABRT, SIG_DFL);
            auto use = [] { std::atomic<long> sum(0); ThreadPool::defaultPool().parallelFor(0, 1000, [&](int b, int e, int) { for (int i = b; i < e; i++) sum += i; }); return long(sum); };
            int st = 0; arm(f, k); armHook(true);
            try { if (use() != 499500) st = 40; } catch (std::exception &) { st = sh_->fired ? 0 : 41; } catch (...) { st = 42; }
            armHook(false);
            try { if (!st && use() != 499500) st = 43; } catch (...) { st = 44; }
            _exit(st);
        }
        int st = 0; waitpid(p, &st, 0); sh_->armed = 0;
        if (!sh_->fired) break;
        sh_->injected++; sh_->seen[(f * 997 + k * 31 + 5) & 0xffff] = 1;
        if (st) rep::viol("first use of the shared pool", "the first use of the shared pool, refused %s (request number %ld), does not end in a standard exception that leaves the pool usable (status 0x%x)", FKN[f], k, st), k = 200;
    }
}

// Runs children until one gets through the catalogue.
static void faultSupervisor() {
    sh_ = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh_ == MAP_FAILED) { perror("mmap"); exit(3); }
    sh_->k = -1;
    firstUse();
    for (u64 gen = 0;; gen++) {
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (!p) { signal(SIGABRT, SIG_DFL); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); return; }
        int st = 0; waitpid(p, &st, 0); sh_->armed = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { rep::stat("children", gen + 1); break; }
        if (gen > 20000 || sh_->k < 0) { printf("child failed before the first injection, status %x\n", st); exit(3); }
        bool worker = sh_->fired && !sh_->onCaller, ended = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
        // libgomp ends the program itself when it gets no thread
        bool omp = sh_->fired && sh_->kind == F_THREAD && WIFEXITED(st) && WEXITSTATUS(st) == 1;
        if ((ended && worker) || omp) sh_->ended++;
        else rep::viol(Str(sh_->name) + "/" + (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "never ends" : "crash"), "%s: refusing it %s (request number %ld) %s (status 0x%x)", sh_->name, FKN[sh_->kind], sh_->k, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "makes it never end" : "crashes the program", st);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { if (++sh_->again > 6) break; }
    }
    rep::stat("requests refused", sh_->injected); rep::stat("calls that threw", sh_->refused); rep::stat("calls that answered all the same", sh_->answered); rep::stat("programs ended by a worker", sh_->ended);
    rep::stat("evaluations", sh_->injected);
    u64 d = 0; for (auto &c : sh_->seen) if (c) rep::seen(++d);
    rep::done();
    exit(0);
}
static std::atomic<int> inside, started;
// A loop whose pieces are slow, so that one that outlives the call is seen.
static void slowPool() {
    for (int block = 0; block < 2; block++) add(block ? "slow parallel block" : "slow parallel loop", [block](Case &c) {
        static ThreadPool pool(4); int hits = 0; bool late = false; std::atomic<int> n(0); inside = 0;
        auto piece = [&](int, int, int) { inside++; started++; usleep(3000); n++; inside--; };
        try { c.run([&] { if (block) pool.parallelBlock([&](int i, int m) { piece(0, 0, 0); }); else pool.parallelFor(0, 4, piece); }); }
        catch (...) { int s = started; late = inside != 0; usleep(8000); late |= s != started; if (late) rep::viol(c.name + "/outlives", "%s: pieces were still running after the call had been refused", c.name.c_str()); throw; }
        hits = n; c.rec(hits); }, 3);
    add("parallel loop whose pieces allocate", [](Case &c) {
        static ThreadPool pool(3); std::atomic<int> n(0); bool late = false; inside = 0; int hits;
        auto piece = [&](int b, int e, int k) { inside++; started++; if (k < 2) usleep(1000); std::vector<int> v(e - b, 1); for (int x : v) n += x; inside--; };
        try { c.run([&] { pool.parallelFor(0, 40, piece); }); }
        catch (...) { int s = started; late = inside > 1; usleep(4000); late |= s != started; if (late) rep::viol(c.name + "/outlives", "%s: pieces were still running after the call had been refused", c.name.c_str()); throw; }
        hits = n; c.rec(hits); }, 3);
    add("thread pool of many", [](Case &c) { int hits = 0; c.run([&] { ThreadPool p(9); std::atomic<int> n(0); p.parallelFor(0, 30, [&](int b, int e, int) { n += e - b; }); hits = n; }); c.rec(hits); }, 3);
}
static void fault(u64 seed, u64 count, const Str &only) {
    Armed::hook() = armHook;
    std::vector<Str> done;
    u64 it0 = sh_->k < 0 ? 0 : sh_->it, idx0 = sh_->k < 0 ? 0 : sh_->idx;
    bool resume = sh_->k >= 0;
    for (u64 it = it0; it < count; it++) for (u64 idx = it == it0 ? idx0 : 0; idx < cat.size(); idx++) {
        Entry &e = cat[idx];
        if (it % e.weight || (!only.empty() && e.name.find(only) == Str::npos)) { resume = false; continue; }
        Rng at(seed * 7919 + it * 131071 + hash_str(e.name.c_str()));
        auto call = [&](std::vector<Str> &out) { rng = at; Case c(PLAIN, e.name); e.body(c); out = c.results; };
        std::vector<Str> want, got;
        alarm(40); arm(-1, -1); call(want); call(want);
        long n[N_FK]; for (int f = 0; f < N_FK; f++) n[f] = fkCount[f];
        auto key = [&](const char *w) { return e.name + "/" + w; };
        for (int f = resume ? sh_->kind : 0; f < N_FK; f++) {
            Rng pick(seed + it * 977 + idx * 31 + f); std::vector<long> ks;
            for (long k = 0; k < n[f]; k++) if (n[f] <= 14 || k < 6 || k >= n[f] - 2 || pick.below(n[f]) < 8) ks.push_back(k);
            for (long k : ks) {
                if (resume) { if (k <= sh_->k) continue; }
                sh_->it = it; sh_->idx = idx; sh_->kind = f; sh_->k = k; snprintf(sh_->name, sizeof sh_->name, "%s", e.name.c_str());
                alarm(40); arm(f, k);
                int grown[4] = {0, 0, 0, 0}, rounds = 0; bool threw = false;
                for (int r = 0; r < 5; r++) {
                    size_t h0 = heap(), m0 = mapped(); int d0 = entries("/proc/self/fd"), t0 = entries("/proc/self/task"), o0 = omp_get_max_threads();
                    bool thrown = false, foreign = false;
                    try { call(got); } catch (std::exception &) { thrown = true; } catch (...) { foreign = thrown = true; }
                    sh_->armed = 0;
                    if (!sh_->fired) break;
                    if (!r) { sh_->injected++; (thrown ? sh_->refused : sh_->answered)++; u64 h = hcomb(hash_str(e.name.c_str()), f * 2 + thrown); sh_->seen[(h ^ (k < 30 ? k * 2654435761u : 7)) & 0xffff] = 1; }
                    if (!r && (hash_str(e.name.c_str()) + k + seed) % 41 == 0) rep::sample("%s, request %ld of %ld for %s refused: %s", e.name.c_str(), k, n[f], FKN[f], thrown ? "exception" : "same answer");
                    if (foreign) rep::viol(key("exception"), "%s: refusing it %s (request %ld of %ld) ends in an exception that is no standard one", e.name.c_str(), FKN[f], k, n[f]);
                    if (!thrown && got != want) rep::viol(key("wrong answer"), "%s: refused %s (request %ld of %ld) it gives another answer instead of an exception", e.name.c_str(), FKN[f], k, n[f]);
                    threw |= thrown; rounds++;
                    if (omp_get_max_threads() != o0) rep::viol(key("thread limit"), "%s: refused %s (request %ld of %ld) it leaves the caller's limit of threads at %d instead of %d", e.name.c_str(), FKN[f], k, n[f], omp_get_max_threads(), o0);
                    size_t h1 = heap(), m1 = mapped(); int d1 = entries("/proc/self/fd"), t1 = entries("/proc/self/task");
                    for (int t = 0; t1 > t0 && t < 200; t++) { usleep(3000); t1 = entries("/proc/self/task"); }
                    grown[0] += h1 > h0; grown[1] += d1 > d0; grown[2] += t1 > t0; grown[3] += m1 > m0;
                    if (!(h1 > h0 || d1 > d0 || t1 > t0 || m1 > m0)) break;
                }
                static const char *const what[] = {"memory", "descriptors", "threads", "mappings"};
                if (rounds == 5) for (int w = 0; w < 4; w++) if (grown[w] == 5) rep::viol(key(what[w]), "%s: each time it is refused %s (request %ld of %ld) it leaves %s behind", e.name.c_str(), FKN[f], k, n[f], what[w]);
                arm(-1, -1);
                if (threw) { call(got); if (got != want) rep::viol(key("afterwards"), "%s: after it was refused %s (request %ld of %ld) the same call gives another answer", e.name.c_str(), FKN[f], k, n[f]); }
            }
            resume = false;
        }
        resume = false;
    }
    alarm(0);
    sh_->k = 0;
}
