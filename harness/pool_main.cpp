// The thread pool: every piece of work exactly once, finished before the call returns, teardown always ends.
#include <stdexcept>
#include <memory>
#include <thread>
#include "pool_size.h"
#include "misc.hpp"
#include "common.h"
#ifdef CONTROLLED
#include "ctl_sched.h"
#define POINT() sched::point()
#else
#define POINT() do { if (jitter) { thread_local u64 z = 88172645463325252ull ^ (u64)&z; z ^= z << 13; z ^= z >> 7; z ^= z << 17; if (z % 7 == 0) std::this_thread::yield(); else if (z % 31 == 0) for (volatile int i = 0; i < (int)(z % 3000); i++); } } while (0)
#endif
typedef std::string Str;
typedef unsigned long long ull;
static u64 seedv = 1, count_ = 100;
static Rng rng(1);
static bool jitter = true;
static char where[600];

// Monitors count without ordering anything: the only synchronisation ThreadSanitizer may see is the pool's own.
struct Cnt {
    std::atomic<int> v{0};
    Cnt &operator=(int x) { v.store(x, std::memory_order_relaxed); return *this; }
    operator int() const { return v.load(std::memory_order_relaxed); }
    int fetch_add(int d) { return v.fetch_add(d, std::memory_order_relaxed); }
    void operator++(int) { fetch_add(1); }
    void operator--(int) { fetch_add(-1); }
};
// What one call was supposed to do and what it did
struct Call {
    int begin, end, nThreads; bool block;
    std::vector<Cnt> hits, byWorker, active; std::vector<std::pair<int, int>> range;
    std::vector<int> plain, out;            // ordinary memory: written by the caller before, by the pieces during, read by the caller after
    Cnt started, finished, returned;
    Call(int b, int e, int n, bool blk) : begin(b), end(e), nThreads(n), block(blk), hits(e > b ? e - b : 0), byWorker(n), active(n), range(n), plain(e > b ? e - b : 0), out(e > b ? e - b : 0) {
        for (auto &h : hits) h = 0; for (auto &h : byWorker) h = 0; for (auto &h : active) h = 0; for (size_t i = 0; i < plain.size(); i++) plain[i] = (int)i * 3 + 1; }
};
static void enter(Call &c, int k, const char *op) {
    if (c.returned) rep::viol(Str(op) + "/late", "%s: a piece runs after the call has returned (%s)", op, where);
    if (k < 0 || k >= c.nThreads) { rep::viol(Str(op) + "/worker", "%s: worker number %d of %d (%s)", op, k, c.nThreads, where); return; }
    if (c.active[k].fetch_add(1)) rep::viol(Str(op) + "/worker", "%s: two pieces run at once as worker %d (%s)", op, k, where);
    if (c.byWorker[k].fetch_add(1)) rep::viol(Str(op) + "/worker", "%s: worker number %d is given to two pieces (%s)", op, k, where);
    c.started++;
}
static void leave(Call &c, int k) { if (k >= 0 && k < c.nThreads) c.active[k]--; c.finished++; }

static void doFor(ThreadPool &p, int begin, int end, const std::function<void()> &inner = nullptr) {
    int n = (int)p.getThreadCount();
    auto c = std::make_shared<Call>(begin, end, n, false); Call *cp = c.get();
    p.parallelFor(begin, end, [=](int b, int e, int k) {
        auto hold = c; Call &c = *cp; enter(c, k, "parallelFor");
        POINT();
        if (b >= e || b < begin || e > end) rep::viol("parallelFor/range", "a piece [%d,%d) of [%d,%d) (%s)", b, e, begin, end, where);
        else {
            if (k >= 0 && k < n) c.range[k] = {b, e};
            for (int i = b; i < e; i++) { c.hits[i - begin]++; c.out[i - begin] = c.plain[i - begin] + 7; if (i % 5 == 0) POINT(); }
        }
        if (inner) inner();
        POINT();
        leave(c, k);
    });
    c->returned = 1;
    rep::stat("evaluations"); rep::stat("parallelFor calls"); rep::stat("pieces", c->started);
    int len = end > begin ? end - begin : 0, want = len < n ? len : n;
    if (c->finished != want || c->started != want) rep::viol("parallelFor/complete", "range [%d,%d), %d threads: %d pieces started and %d finished when the call returned, expected %d (%s)", begin, end, n, (int)c->started, (int)c->finished, want, where);
    int lo = 1 << 30, hi = 0;
    for (int k = 0; k < n; k++) if (c->byWorker[k]) { int s = c->range[k].second - c->range[k].first; if (s < lo) lo = s; if (s > hi) hi = s; }
    if (want && hi - lo > 1) rep::viol("parallelFor/balance", "range of %d over %d threads: pieces from %d to %d long (%s)", len, n, lo, hi, where);
    for (int i = 0; i < len; i++) if (c->hits[i] != 1 || c->out[i] != i * 3 + 8) { rep::viol("parallelFor/once", "range [%d,%d), %d threads: index %d visited %d times (%s)", begin, end, n, begin + i, (int)c->hits[i], where); break; }
}
static void doBlock(ThreadPool &p) {
    int n = (int)p.getThreadCount();
    auto c = std::make_shared<Call>(0, n, n, true); Call *cp = c.get();
    p.parallelBlock([=](int k, int total) {
        auto hold = c; Call &c = *cp; enter(c, k, "parallelBlock");
        POINT();
        if (total != n) rep::viol("parallelBlock/count", "told of %d threads, the pool has %d (%s)", total, n, where);
        if (k >= 0 && k < n) { c.hits[k]++; c.out[k] = c.plain[k] + 7; }
        POINT();
        leave(c, k);
    });
    c->returned = 1;
    rep::stat("evaluations"); rep::stat("parallelBlock calls"); rep::stat("pieces", c->started);
    if (c->finished != n) rep::viol("parallelBlock/complete", "%d threads: %d pieces finished when the call returned (%s)", n, (int)c->finished, where);
    for (int i = 0; i < n; i++) if (c->hits[i] != 1 || c->out[i] != i * 3 + 8) { rep::viol("parallelBlock/once", "%d threads: number %d ran %d times (%s)", n, i, (int)c->hits[i], where); break; }
}
static int bound(int hi) { return (int)rng.below(hi); }
static void ops(ThreadPool &p, int maxLen) {
    int n = bound(7);
    for (int i = 0; i < n; i++) {
        int k = bound(8);
        if (k < 2) doBlock(p);
        else { int b = bound(3) ? 0 : bound(50) - 25, len = bound(6) == 0 ? 0 : bound(3) == 0 ? (int)p.getThreadCount() + bound(3) - 1 : bound(maxLen); if (bound(30) == 0) len = -bound(5); doFor(p, b, b + len); }
    }
}
// The division on its own, where the pool offers it.
template <class P> static auto shares(int n, int t, int) -> decltype(std::vector<int>(P::divideWork(n, t))) { return P::divideWork(n, t); }
template <class P> static std::vector<int> shares(int, int, long) { return {}; }
static void divide() {
    if (shares<ThreadPool>(5, 2, 0).empty()) return;
    for (int n = 1; n < 80; n++) for (int t = 1; t < 20; t++) {
        rep::op("divideWork %d %d", n, t);
        auto v = shares<ThreadPool>(n, t, 0); rep::stat("evaluations"); rep::seen(hcomb(n, t * 1000));
        long s = 0; int lo = 1 << 30, hi = 0; for (int x : v) { s += x; lo = std::min(lo, x); hi = std::max(hi, x); }
        if (s != n || lo < 1 || hi - lo > 1 || (int)v.size() != std::min(n, t)) rep::viol("divideWork/shares", "%d elements over %d threads: %d shares, sum %ld, from %d to %d", n, t, (int)v.size(), s, lo, hi);
    }
    for (int i = 0; i < 400; i++) {
        int n = 1 + (int)(rng.next() % 2147483000u), t = 1 + bound(300);
        auto v = shares<ThreadPool>(n, t, 0); long s = 0; int lo = 0x7fffffff, hi = 0; for (int x : v) { s += x; lo = std::min(lo, x); hi = std::max(hi, x); }
        rep::stat("evaluations");
        if (s != n || lo < 1 || hi - lo > 1 || (int)v.size() != std::min(n, t)) rep::viol("divideWork/shares", "%d elements over %d threads: %d shares, sum %ld, from %d to %d", n, t, (int)v.size(), s, lo, hi);
    }
}
static int least = 1;   // threads a pool has at least
static void scenario(int maxThreads, int maxLen, bool shared) {
    int n = least + bound(maxThreads);
    if (shared) {      // two client threads, one pool
        ThreadPool p(n);
        std::thread other([&] { doFor(p, 0, 2 + (n * 7) % 11); doBlock(p); doFor(p, 3, 3 + n); });
        doFor(p, 0, 1 + n); doBlock(p); doFor(p, -2, 9);
        other.join();
        return;
    }
    if (bound(10) == 0) {
        poolSize() = n; ThreadPool p;
        if (p.getThreadCount() != (unsigned)n) rep::viol("ThreadPool/size", "a default pool on %d processors has %u threads", n, p.getThreadCount());
        ops(p, maxLen);
    } else if (bound(6) == 0) {   // two pools, one working inside the other's pieces
        ThreadPool p(n), q(1 + bound(3));
        std::mutex m;
        doFor(p, 0, 1 + bound(6), [&] { std::lock_guard<std::mutex> g(m); doFor(q, 0, 3); });
        ops(p, maxLen); ops(q, maxLen);
    } else {
        ThreadPool p(n);
        if (p.getThreadCount() != (unsigned)n) rep::viol("ThreadPool/size", "a pool made for %d threads says it has %u", n, p.getThreadCount());
        ops(p, maxLen);
    }
}
#ifdef CONTROLLED
static void dead(const char *s) { rep::viol("ThreadPool/deadlock", "nobody can go on: %s(%s, after %llu scheduling steps)", s, where, (ull)sched::steps()); rep::stat("evaluations"); rep::done(); _exit(0); }
#endif
int main(int argc, char **argv) {
    bool shared = false; int maxT = 5;
    for (int i = 1; i + 1 < argc; i += 2) {
        Str k = argv[i], v = argv[i + 1];
        if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count_ = strtoull(v.c_str(), 0, 10);
        else if (k == "--shared") shared = v == "1"; else if (k == "--threads") maxT = atoi(v.c_str()); else if (k == "--least") least = atoi(v.c_str());
    }
    rep::install();
    rng = Rng(seedv * 1000003 + 11);
    divide();
#ifdef CONTROLLED
    sched::onDeadlock = dead;
#endif
    for (u64 i = 0; i < count_; i++) {
        u64 s = rng.next();
        snprintf(where, sizeof where, "scenario %llu of seed %llu", (ull)i, (ull)seedv);
        rep::op("%s", where);
#ifdef CONTROLLED
        sched::start(s, (int)(i % 3), i % 4 == 1);
        scenario(maxT, 14, shared);
        rep::seen(sched::trace()); rep::stat("scheduling steps", sched::steps()); rep::stat("context switches", sched::switches());
        sched::stop();
#else
        jitter = i % 3 != 0;
        scenario(maxT, i % 10 == 0 ? 3000 : 40, shared);
        rep::seen(hcomb(i, seedv));
#endif
    }
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
