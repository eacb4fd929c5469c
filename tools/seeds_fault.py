# ---- planted bugs for refused resources (development aid; see mkseed.py)
REFUSE = '''
#include <new>
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <exception>
// the calling thread's request number `left` (counted from now) is refused
static thread_local long left = -1, tleft = -1;
void *operator new(size_t n) { if (left >= 0 && left-- == 0) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (tleft >= 0 && tleft-- == 0) return 11;
    return real(t, a, f, x);
}
// f once per request it makes, with that request refused; how often it was refused
template <class F> static int each(F f, bool thr = false) {
    for (int k = 0; k < 2000; k++) { (thr ? tleft : left) = k; f(); bool fired = (thr ? tleft : left) < 0; left = tleft = -1; if (!fired) return k; }
    return 2000;
}
static size_t heap() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
'''

SC("Y01-unstorable-piece-dropped", "C27",
   [("c/misc.hpp", "            task = func;\n", "            try {\n                task = func;\n            } catch (const std::bad_alloc &) {\n                task = nullptr;\n            }\n")],
   "no memory for the copy of a piece that is handed to a worker", "the piece is dropped and the call ends as if it had run",
   'comp gen "" "misc.cpp"', POOL + REFUSE + '''
int main() { ThreadPool p(4); each([&] { std::atomic<int> n(0); bool ok = true; try { p.parallelFor(0, 100, [&](int b, int e, int) { n += e - b; }); } catch (std::exception &) { ok = false; } left = left < 0 ? -1 : left; chk("all indices or an exception", !ok || n == 100); }); return done(); }''', ())

SC("Y02-fewer-workers-than-counted", "C27",
   [("c/misc.hpp", "    std::vector<ThreadWorker> workers;\n\n", "    std::deque<ThreadWorker> workers;\n\n"),
    ("c/misc.hpp", "        std::vector<ThreadWorker> &workers;\n", "        std::deque<ThreadWorker> &workers;\n"),
    ("c/misc.hpp", "        Pending(std::vector<ThreadWorker> &_workers)", "        Pending(std::deque<ThreadWorker> &_workers)"),
    ("c/misc.hpp", "        nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads),\n        workers(nThreads-1)\n    { }", "        nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads)\n    {\n        try {\n            while (workers.size() + 1 < nThreads) workers.emplace_back();\n        } catch (const std::system_error &) {\n            // go on with the workers there are\n        }\n    }"),
    ("c/misc.hpp", "#include <vector>\n", "#include <vector>\n#include <deque>\n#include <system_error>\n")],
   "the system refuses one of the pool's threads", "the pool goes on handing pieces to workers that do not exist",
   'comp gen "" "misc.cpp"', POOL + REFUSE + '''
int main() { alarm(100); each([&] { std::atomic<int> n(0); bool ok = true; try { ThreadPool p(6); p.parallelFor(0, 100, [&](int b, int e, int) { n += e - b; }); } catch (std::exception &) { ok = false; } chk("all indices or an exception", !ok || n == 100); }, true); return done(); }''', ())

SC("Y03-digits-not-owned", "C27",
   [("c/msm.cpp", "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);", "    int32_t *slicedScalars = new int32_t[nSlices];"),
    ("c/msm.cpp", "            chunks[j] = t;\n        }\n    });\n", "            chunks[j] = t;\n        }\n    });\n\n    delete[] slicedScalars;\n")],
   "no memory for handing a piece of the computation to a worker", "the table of digits is never given back",
   'comp gen "" ' + TSRC, CURVE + REFUSE + '''
int main() {
    std::vector<Q> P = pts(1009, 1, 1); TC &c = curve(1, 1, P[1]); int n = 20000; std::vector<Pa> b(n, aff(P[5])); std::vector<uint8_t> s(2 * n, 0x35);
    Pt r; c.multiMulByScalarMSM(r, b.data(), s.data(), 2, n); size_t h = heap(); int leaked = 0;
    each([&] { size_t h0 = heap(); try { Pt q; c.multiMulByScalarMSM(q, b.data(), s.data(), 2, n); } catch (std::exception &) {} if (heap() > h0 + 100000) leaked++; });
    chk("what a refused computation leaves behind", leaked == 0); return done();
}''')

SC("Y04-shared-pool-marked-made", "C27",
   [("c/misc.hpp", "        static ThreadPool pool;\n\n        return pool;\n", "        static std::mutex making;\n        static bool made = false;\n        alignas(ThreadPool) static char room[sizeof(ThreadPool)];\n\n        std::lock_guard<std::mutex> lock(making);\n        if (!made) {\n            made = true;\n            new (room) ThreadPool();    // never destroyed: others may still use it at exit\n        }\n        return *reinterpret_cast<ThreadPool *>(room);\n"),
    ("c/misc.hpp", "#include <vector>\n", "#include <vector>\n#include <new>\n")],
   "a thread or memory is refused during the very first use of the shared pool", "every later use takes the pool for made and works on raw memory",
   'comp gen "" "misc.cpp"', POOL + REFUSE + '''
#include <sys/wait.h>
int main() {
    for (int thr = 0; thr < 2; thr++) {
        pid_t p = fork();
        if (!p) { alarm(60); (thr ? tleft : left) = 0; std::atomic<int> n(0); auto use = [&] { n = 0; ThreadPool::defaultPool().parallelFor(0, 1000, [&](int b, int e, int) { n += e - b; }); }; try { use(); } catch (std::exception &) {} left = tleft = -1; use(); _exit(n == 1000 ? 0 : 1); }
        int st = 0; waitpid(p, &st, 0); chk("second use", st == 0);
    }
    return done();
}''', ())

SC("Y05-copy-falls-back-to-mapping", "C27",
   [("c/binfile_utils.cpp", "        addr = malloc(sb.st_size);\n", "        if ((addr = malloc(sb.st_size)) == NULL) addr = addrmm;     // no room for a copy: read the mapping\n")],
   "no memory for the copy of a container that is read from a file", "the mapping is unmapped while it is in use, and freed as if it were heap",
   'comp gen "" "binfile_utils.cpp" -fopenmp -Wl,--wrap=malloc -I"$here"', '''#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include "binfile_utils.hpp"
extern "C" void *__real_malloc(size_t); static bool deny; extern "C" void *__wrap_malloc(size_t n) { return deny ? nullptr : __real_malloc(n); }
int main() {
    std::string s("abcd\\1\\0\\0\\0\\0\\0\\0\\0", 12); std::string f = "/tmp/demo-" + std::to_string(getpid()); FILE *o = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o);
    int thrown = 0; deny = true; try { BinFileUtils::BinFile b(f, "abcd", 1); } catch (std::exception &) { thrown = 1; } deny = false; unlink(f.c_str());
    return thrown ? 0 : 1;
}''', ("stub/thread_utils.hpp",))

SC("Y06-thread-limit-set-by-hand", "C27",
   [("c/multiexp.cpp", ("    ThreadLimit threadLimit (nThreads);\n", 0), "    const int threadsBefore = omp_get_max_threads();\n    omp_set_num_threads(nThreads);\n"),
    ("c/multiexp.cpp", "    bases = _bases;\n    scalars = _scalars;\n    scalarSize = _scalarSize;\n    n = _n;\n\n    if (n==0) {\n        g.copy(r, g.zero());\n        return;\n    }\n    if (n==1) {\n        g.mulByScalar(r, bases[0], scalars, scalarSize);\n        return;\n    }\n",
     "    bases = _bases;\n    scalars = _scalars;\n    scalarSize = _scalarSize;\n    n = _n;\n\n    if (n<=1) {\n#ifdef _OPENMP\n        omp_set_num_threads(threadsBefore);\n#endif\n        if (n==0) g.copy(r, g.zero());\n        else g.mulByScalar(r, bases[0], scalars, scalarSize);\n        return;\n    }\n"),
    ("c/multiexp.cpp", ("    accsOwner.reset();\n", 0), "    accsOwner.reset();\n#ifdef _OPENMP\n    omp_set_num_threads(threadsBefore);\n#endif\n")],
   "no memory for the tables of a multiexponentiation with its own number of threads", "the caller's limit of threads stays at the multiexponentiation's",
   'OMP_NUM_THREADS=2 comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + REFUSE + '''
#include <omp.h>
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); int n = 50; std::vector<Pa> b(n, aff(PS[3])); std::vector<uint8_t> s(2 * n, 0x71);
    int before = omp_get_max_threads(); each([&] { Pt r; try { c.multiMulByScalar(r, b.data(), s.data(), 2, n, 5); } catch (std::exception &) {} chk("limit of threads", omp_get_max_threads() == before); omp_set_num_threads(before); });
    return done();
}''')

SC("Y07-division-remembered-too-early", "C27",
   [("c/misc.hpp", "    static std::vector<int> divideWork(int elementCount, int threadCount) {\n        assert(elementCount > 0);\n        assert(threadCount > 0);\n\n        if (elementCount <= threadCount) {\n            return std::vector<int>(elementCount, 1);\n        }\n",
     "    static std::vector<int> divideWork(int elementCount, int threadCount) {\n        assert(elementCount > 0);\n        assert(threadCount > 0);\n\n        // the stages of a transform divide the same range again and again\n        static thread_local int lastCount = 0, lastThreads = 0;\n        static thread_local std::vector<int> last;\n\n        if (elementCount == lastCount && threadCount == lastThreads) {\n            return last;\n        }\n        lastCount = elementCount;\n        lastThreads = threadCount;\n\n        return last = division(elementCount, threadCount);\n    }\n\n    static std::vector<int> division(int elementCount, int threadCount) {\n        if (elementCount <= threadCount) {\n            return std::vector<int>(elementCount, 1);\n        }\n")],
   "no memory for dividing a range, and the same range divided again", "the retried call uses the division of another range",
   'comp gen "" "misc.cpp"', POOL + REFUSE + '''
int main() {
    ThreadPool p(3); auto use = [&](int m) { std::vector<std::atomic<int>> h(200); for (auto &x : h) x = 0; p.parallelFor(0, m, [&](int b, int e, int) { for (int i = b; i < e; i++) if (i < 200) h[i]++; }); bool ok = true; for (int i = 0; i < 200; i++) ok &= h[i] == (i < m); return ok; };
    for (int m : {30, 7, 2}) { chk("loop", use(m)); for (int k = 0; k < 3; k++) { bool thrown = false; std::vector<std::atomic<int>> room(1); long at = k; left = at; try { p.parallelFor(0, m + 20, [&](int, int, int) {}); } catch (std::exception &) { thrown = true; } left = -1; chk("loop afterwards", use(m + 20)); chk("loop", use(m)); } }
    return done();
}''', ())

SC("Y08-part-list-cut", "C27",
   [("c/splitparstr.cpp", "            removePars(accS);\n            res.push_back(accS);\n            accS.clear();\n", "            removePars(accS);\n            try {\n                res.push_back(accS);\n            } catch (std::exception &) {\n                return res;     // as much as there is room for\n            }\n            accS.clear();\n")],
   "no memory for one of the parts of a text", "the list of parts ends early instead of the call failing",
   'comp gen "" "splitparstr.cpp"', PARSE + REFUSE + '''
int main() { each([&] { try { std::string s = "abcdefghijklmnopqrstuvwxyz,2,(3,4),abcdefghijklmnopqrstuvwxyz0123456789"; if (splitParStr(s).size() != 4) bad++; } catch (std::exception &) {} }); return done(); }''', ())
