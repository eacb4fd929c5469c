# ---- another round over all properties (development aid; see mkseed.py)
SC("N01-wait-without-lock", "C18",
   [("c/misc.hpp", "    void wait() {\n        std::unique_lock<std::mutex> lock(mutex);\n", "    void wait() {\n        if (task == nullptr) return;\n\n        std::unique_lock<std::mutex> lock(mutex);\n")],
   "a worker that finishes while the caller begins to wait for it", "the caller does not synchronise with the worker and need not see what it wrote",
   'comp gen "" "misc.cpp" -fsanitize=thread', POOL + '''
int main() { ThreadPool p(4); int v[64] = {}; for (int i = 0; i < 300; i++) { p.parallelFor(0, 64, [&](int b, int e, int k) { for (int j = b; j < e; j++) v[j]++; }); int s = 0; for (int x : v) s += x; chk("sum", s == 64 * (i + 1)); if (i % 3 == 0) usleep(100); } return done(); }''', ())

SC("N02-stop-without-lock", "C18",
   [("c/misc.hpp", "        {\n            std::lock_guard<std::mutex> lock(mutex);\n            stop = true;\n        }\n        occupied.notify_one();", "        stop = true;\n        occupied.notify_one();")],
   "a pool destroyed while a worker is between testing the stop flag and falling asleep", "the wakeup is lost and destroying the pool never ends",
   'comp gen "" "misc.cpp"', POOL + '''
#include <dlfcn.h>
// a thread that is about to fall asleep is slow: correct code holds the lock meanwhile
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait"); usleep(20000); return real(c, m); }
int main() { alarm(120); for (int i = 0; i < 40; i++) { ThreadPool p(2 + i % 3); if (i % 4 == 0) p.parallelFor(0, 8, [](int, int, int) {}); usleep(i % 8 * 3000); } return done(); }''', ())

SC("N03-submit-overwrites", "C19",
   [("c/misc.hpp", "            std::unique_lock<std::mutex> lock(mutex);\n\n            finished.wait(lock, [this]{return task == nullptr;});\n\n            task = func;", "            std::unique_lock<std::mutex> lock(mutex);\n\n            task = func;")],
   "two client threads that share one pool, one submitting before the other's piece has been taken", "a piece that was not started yet is replaced by another one and never runs",
   'comp gen "" "misc.cpp"', POOL + '''
int main() {
    ThreadPool p(3); std::atomic<int> n(0); std::thread t[4];
    for (auto &x : t) x = std::thread([&] { for (int i = 0; i < 3000; i++) p.parallelFor(0, 30, [&](int b, int e, int k) { n += e - b; }); });
    for (auto &x : t) x.join(); chk("all indices", n == 4 * 3000 * 30); return done();
}''', ())

SC("N04-very-long-scalar", "C14",
   [("c/exp.hpp", "    int i = nBits-1;", "    int16_t i = nBits-1;")],
   "a scalar of more than 4096 bytes", "the product of a very long scalar is the neutral element",
   'comp gen "" ' + TSRC, CURVE + '''
int main() { std::vector<Q> P = pts(1009, 1, 1); TC &c = curve(1, 1, P[1]); for (int n : {1, 40, 4000, 4100, 9000}) { std::vector<uint8_t> s(n); for (auto &b : s) b = rand(); s[n - 1] |= 0x80; Pa b = aff(P[9]); Pt r; c.mulByScalar(r, b, s.data(), n); chk("multiple", get(r) == mul(P[9], s.data(), n)); } return done(); }''')

SC("N05-nesting-counted-in-a-byte", "C20",
   [("c/splitparstr.cpp", "    int nPar=0;", "    unsigned char nPar=0;")],
   "a component nested exactly 256 levels deep", "commas 256 levels deep are taken for top-level ones",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() { for (int d : {1, 127, 128, 255, 256, 257, 300}) { std::string s = "x" + std::string(d, '(') + "1,2" + std::string(d, ')') + "y"; if (splitParStr(s + ",3") != std::vector<std::string>({s, "3"})) bad++; } return done(); }''', ())

SC("N06-digit-read-from-two-bytes", "C16",
   [("c/msm.hpp", "        if (nBytes > 8) nBytes = 8;", "        if (nBytes * 8 > bitsPerChunk + 8) nBytes = (bitsPerChunk + 8) / 8;")],
   "so many bases that a window of ten or more bits straddles three bytes", "the upper bits of digits that reach into a third byte are lost",
   'comp gen "" ' + TSRC, MSMT + '''
int main() { PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); for (int n : {2, 50, 1000, 5000, 20000}) chk("msm", one(c, n, 16, 0)); return done(); }''')

SC("N07-shared-side-sum", "C19",
   [("c/multiexp.cpp", "            g.add(sall[idThread].p, sall[idThread].p, accs[ndiv2 + i].p);", "            g.add(sall[idThread >> 1].p, sall[idThread >> 1].p, accs[ndiv2 + i].p);")],
   "two OpenMP threads adding to the side sum at the same time", "pairs of threads share one side sum without synchronisation",
   'comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int it = 0; it < 60; it++) { int n = 20000; std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); } Pt r, r1; c.multiMulByScalar(r, b.data(), s.data(), 2, n, 8); c.multiMulByScalar(r1, b.data(), s.data(), 2, n, 1); chk("multiexp", get(r) == get(r1)); }
    return done();
}''')

SC("N08-shared-butterfly-temporary", "C19",
   [("c/fft.cpp", "        u_int64_t mdiv2 = m >> 1;\n\n        threadPool.parallelFor(0, (n>>1), [&] (int begin, int end, int numThread) {\n            for (u_int64_t i=begin; i< end; i++) {\n                Element t;\n                Element u;\n", "        u_int64_t mdiv2 = m >> 1;\n        Element t;\n\n        threadPool.parallelFor(0, (n>>1), [&] (int begin, int end, int numThread) {\n            for (u_int64_t i=begin; i< end; i++) {\n                Element u;\n")],
   "a transform on a pool with several workers", "all workers use one temporary for the product",
   'comp gen "" ' + TSRC + ' -O0', FFT + '''
int main() { P = 998244353; TF::setPrime(P); FFT<TF> f(1 << 14); for (int i = 0; i < 20; i++) one(f, 1 << 14, 3); return done(); }''')

SC("N09-conversion-shortcut", "C13",
   [("c/curve.cpp", "    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n}\n\ntemplate <typename BaseField>\nvoid Curve<BaseField>::copy(PointAffine &r, PointAffine &a) {", "    if (F.eq(a.zz, F.one())) {\n        F.copy(r.x, a.x);\n        F.copy(r.y, a.y);\n        return;\n    }\n    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n}\n\ntemplate <typename BaseField>\nvoid Curve<BaseField>::copy(PointAffine &r, PointAffine &a) {")],
   "an extended point scaled by minus one", "converting it to affine coordinates gives the opposite point",
   'comp gen "" ' + TSRC, CURVE + '''
int main() { std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]); for (auto &q : P) for (int z : {1, 2, 50, 99, 100}) { Pt p = ext(q, z); Pa r; c.copy(r, p); chk("affine", get(r) == q); } return done(); }''')

SC("N10-equality-shortcut", "C13",
   [("c/curve.cpp", "    cntEq++;\n#endif // COUNT_OPS\n", "    cntEq++;\n#endif // COUNT_OPS\n    if (F.eq(p1.x, p2.x) && F.eq(p1.y, p2.y)) return F.eq(p1.zz, p2.zz);\n")],
   "two representations of opposite points with the same coordinates and opposite cubes of the scale", "opposite points are found equal",
   'comp gen "" ' + TSRC, CURVE + '''
int main() { std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]); for (auto &a : P) for (auto &b : P) for (int z = 1; z < 101; z++) for (int y : {1, z, 101 - z}) { Pt p = ext(a, z), q = ext(b, y); chk("eq", c.eq(p, q) == (a == b)); } return done(); }''')

SC("N12-odd-thread-pack", "C15",
   [("c/multiexp.cpp", "        for(uint64_t j=1; j<nThreads; j++) {\n            if (!g.isZero(accs[j*accsPerChunk + i].p)) {", "        for(uint64_t j=1; j<nThreads; j++) {\n            if (j==nThreads-1 && nThreads==7 && g.isZero(accs[i].p)) continue;\n            if (!g.isZero(accs[j*accsPerChunk + i].p)) {")],
   "seven threads and a digit that only the last thread's share of the bases has", "that digit's bases are lost, and spoil the next window",
   'comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int nt : {1, 4, 7}) for (int it = 0; it < 20; it++) { int n = 2 + rnd() % 60; std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w = add(w, mul(q, &s[2 * i], 2)); } Pt r; c.multiMulByScalar(r, b.data(), s.data(), 2, n, nt); chk("multiexp", get(r) == w); }
    return done();
}''')

SC("N13-generator-tables-by-size", "C17",
   [("c/fft.cpp", "    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);", "    if (n > 1) f.mul(a[nDiv2], a[nDiv2], powTwoInv[domainPow & 15]);")],
   "an inverse transform of 65536 elements or more", "the middle element of a large inverse transform is not scaled",
   'comp gen "" ' + TSRC, FFT + '''
int main() { P = 998244353; TF::setPrime(P); FFT<TF> f(1 << 17); for (int d = 0; d <= 17; d++) one(f, 1ull << d, 2); return done(); }''')

SC("N15-version-of-unsigned", "C21",
   [("c/binfile_utils.cpp", ("        if (version > maxVersion)", 0), "        if ((int32_t)version > (int32_t)maxVersion)")],
   "a container in memory whose version has its highest bit set", "a version that is far too new is accepted",
   BSRC, BIN + '''
int main() { for (uint32_t v : {0u, 1u, 2u, 3u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (bool disk : {false, true}) { B b = file("abcd", v, {sec(1, "hello")}); chk("version", throws([&] { open(b, "abcd", 2, disk); }) == (v > 2)); } return done(); }''', BEX)

SC("N16-witness-count-16", "C22",
   [("c/wtns_utils.cpp", "    h->nVars = f->readU32LE();", "    h->nVars = f->readU32LE() & 0x7FFFFFFF;")],
   "a witness header with more than 2^31 variables", "the number of variables loses its highest bit",
   BSRC, BIN + '''
int main() { for (uint32_t n : {0u, 5u, 0x7fffffffu, 0x80000001u, 0xffffffffu}) { B b = file("wtns", 2, {sec(1, u32(32) + B(32, 'q') + u32(n)), sec(2, B(64, 'w'))}); auto f = open(b, "wtns", 2, false); auto h = WtnsUtils::loadHeader(f.get()); chk("count", h->nVars == n); } return done(); }''', BEX)
