#include "ctl_sched.h"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <vector>
#include <string>
#include <atomic>

namespace {
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct T { int id; sem_t sem; St st; void *on; bool timed, timedOut; uint64_t prio; pthread_t h; void *(*fn)(void *); void *arg; bool detached; };
bool active = false;
std::vector<T *> all;
std::map<void *, std::pair<T *, int>> owner;
uint64_t rs[2], hash_, steps_, switches_;
int strat; bool spur;
std::vector<uint64_t> change;       // PCT: steps at which the running thread's priority drops
thread_local T *me = nullptr;
std::atomic<uint64_t> progress{0};
std::atomic<bool> watching{false};

uint64_t rnd() { uint64_t a = rs[0], b = rs[1]; rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rs[1] + b; }
uint64_t below(uint64_t n) { return rnd() % n; }

template <class F> F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); _exit(3); } return f; }
void semwait(sem_t *s) { while (sem_wait(s) && errno == EINTR); }

std::string state() {
    std::string s; const char *N[] = {"runnable", "waiting for a mutex", "waiting on a condition", "joining", "finished"};
    for (T *t : all) { char b[120]; snprintf(b, sizeof b, "thread %d %s; ", t->id, N[t->st]); s += b; }
    return s;
}
// Choose who goes on. The caller has set its own state.
void next(bool yielding = false) {
    progress.fetch_add(1, std::memory_order_relaxed);
    steps_++;
    std::vector<T *> run;
    for (T *t : all) if (t->st == RUN) run.push_back(t);
    if (run.empty()) { for (T *t : all) if (t->st == COND && t->timed) { t->st = RUN; t->timedOut = true; run.push_back(t); break; } }
    if (run.empty()) {
        std::string s = state();
        active = false;
        if (sched::onDeadlock) sched::onDeadlock(s.c_str());
        _exit(3);
    }
    if (spur && below(12) == 0) { std::vector<T *> w; for (T *t : all) if (t->st == COND) w.push_back(t); if (w.size()) { T *t = w[below(w.size())]; t->st = RUN; run.push_back(t); } }
    T *c = run[0];
    if (strat == 2) {
        for (uint64_t x : change) if (x == steps_) me->prio = below(1000);
        if (yielding) me->prio = below(1000);
        for (T *t : run) if (t->prio > c->prio) c = t;
    } else if (strat == 1 && me->st == RUN && !yielding && below(8)) c = me;
    else c = run[below(run.size())];
    hash_ = (hash_ ^ (uint64_t)(c->id + 1)) * 0x9E3779B97F4A7C15ull; hash_ ^= hash_ >> 29;
    if (c == me) return;
    switches_++;
    T *self = me;
    bool dead = self->st == DONE;
    sem_post(&c->sem);
    if (!dead) semwait(&self->sem);
}
void lock_(void *m, bool recursive) {
    while (true) {
        auto it = owner.find(m);
        if (it == owner.end()) { owner[m] = {me, 1}; return; }
        if (recursive && it->second.first == me) { it->second.second++; return; }
        me->st = MUTEX; me->on = m; next();
    }
}
void unlock_(void *m) {
    auto it = owner.find(m);
    if (it == owner.end() || it->second.first != me) { active = false; if (sched::onDeadlock) sched::onDeadlock("a mutex is unlocked by a thread that does not hold it"); return; }
    if (--it->second.second) return;
    owner.erase(it);
    for (T *t : all) if (t->st == MUTEX && t->on == m) t->st = RUN;
}
int wait_(void *c, pthread_mutex_t *m, bool timed) {
    next();                                   // between the test of the condition and the wait
    unlock_(m);
    me->st = COND; me->on = c; me->timed = timed; me->timedOut = false;
    next();
    lock_(m, false);
    return me->timedOut ? ETIMEDOUT : 0;
}
void *tramp(void *p) {
    T *t = (T *)p;
    semwait(&t->sem);
    me = t;
    void *r = t->fn(t->arg);
    t->st = DONE;
    for (T *o : all) if (o->st == JOIN && o->on == (void *)t) o->st = RUN;
    next();
    me = nullptr;
    return r;
}
void *watch(void *) {
    uint64_t last = ~0ull; int idle = 0;
    while (true) {
        struct timespec ts = {1, 0};
        real<int (*)(const timespec *, timespec *)>("nanosleep")(&ts, nullptr);
        uint64_t p = progress.load();
        idle = watching.load() && p == last ? idle + 1 : 0;
        last = p;
        if (idle >= 30) { printf("\nUNSUPPORTED a thread computes or waits outside the scheduler's sight\n"); fflush(stdout); _exit(4); }
    }
}
}  // namespace

namespace sched {
void (*onDeadlock)(const char *) = nullptr;
void start(uint64_t seed, int strategy, bool spurious) {
    static bool w = false;
    if (!w) { w = true; pthread_t h; real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(&h, nullptr, watch, nullptr); }
    rs[0] = seed * 0x9E3779B97F4A7C15ull + 1; rs[1] = seed ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 8; i++) rnd();
    strat = strategy; spur = spurious; hash_ = 1; steps_ = switches_ = 0; owner.clear();
    change.clear(); for (uint64_t i = 0, d = below(4); i < d; i++) change.push_back(1 + below(120));
    for (T *t : all) { sem_destroy(&t->sem); delete t; }
    all.clear();
    T *t = new T(); t->id = 0; sem_init(&t->sem, 0, 0); t->st = RUN; t->prio = below(1000); all.push_back(t);
    me = t; active = true; watching = true;
}
void stop() { active = false; me = nullptr; watching = false; }
void point() { if (active && me) next(); }
uint64_t trace() { return hash_; }
uint64_t steps() { return steps_; }
uint64_t switches() { return switches_; }
}

#define ON (active && me)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!ON) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return f(m); } next(); lock_(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ON) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return f(m); }
    next(true); auto it = owner.find(m);
    if (it == owner.end()) { owner[m] = {me, 1}; return 0; }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && it->second.first == me) { it->second.second++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!ON) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return f(m); } unlock_(m); next(); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ON) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return f(c, m); } return wait_(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!ON) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait"); return f(c, m, t); } return wait_(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!ON) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait"); return f(c, m, k, t); } return wait_(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!ON) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); return f(c); }
    next(); std::vector<T *> w; for (T *t : all) if (t->st == COND && t->on == c) w.push_back(t);
    if (w.size()) w[below(w.size())]->st = RUN;
    next(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!ON) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); return f(c); }
    next(); for (T *t : all) if (t->st == COND && t->on == c) t->st = RUN;
    next(); return 0;
}
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!ON) return f(h, a, fn, arg);
    T *t = new T(); t->id = (int)all.size(); sem_init(&t->sem, 0, 0); t->st = RUN; t->prio = below(1000); t->fn = fn; t->arg = arg;
    int r = f(h, a, tramp, t);
    if (r) { delete t; return r; }
    t->h = *h; all.push_back(t);
    next();
    return 0;
}
int pthread_join(pthread_t h, void **res) {
    static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!ON) return f(h, res);
    next();
    T *t = nullptr; for (T *x : all) if (pthread_equal(x->h, h) && x->id) t = x;
    if (t) while (t->st != DONE) { me->st = JOIN; me->on = t; next(); }
    return f(h, res);
}
int sched_yield(void) { if (!ON) { static auto f = real<int (*)(void)>("sched_yield"); return f(); } next(true); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!ON) { static auto f = real<int (*)(const timespec *, timespec *)>("nanosleep"); return f(a, b); } next(true); return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) { if (!ON) { static auto f = real<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep"); return f(k, fl, a, b); } next(true); return 0; }
int usleep(useconds_t u) { if (!ON) { static auto f = real<int (*)(useconds_t)>("usleep"); return f(u); } next(true); return 0; }
}
