# ---- amounts of work (C26): planted bugs (development aid; see mkseed.py)
WORK = '''#include <stdexcept>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <atomic>
#include <vector>
#include <gmp.h>
#include "misc.hpp"
#include "splitparstr.hpp"
#include "curve.hpp"
#include "fft.hpp"
static int bad = 0; static uint64_t seed = 5;
static uint64_t rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
static void chk(const char *w, uint64_t v, uint64_t lim) { if (v > lim && ++bad < 10) printf("%s: %llu, more than %llu\\n", w, (unsigned long long)v, (unsigned long long)lim); }
static int done() { if (bad) printf("%d times too much\\n", bad); return bad ? 1 : 0; }
static const uint64_t M = (1ull << 61) - 1;
// integers modulo 2^61-1 as a group that counts
struct G { struct Point { uint64_t v; }; struct PointAffine { uint64_t v; }; std::atomic<uint64_t> ops{0}, dbls{0}; Point z = {0};
    static uint64_t plus(uint64_t a, uint64_t b) { uint64_t s = a + b; return s >= M ? s - M : s; }
    Point &zero() { return z; }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { ops++; r.v = plus(a.v, b.v); }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { ops++; r.v = plus(a.v, b.v ? M - b.v : 0); }
    template <class R, class A> void dbl(R &r, A &a) { ops++; dbls++; r.v = plus(a.v, a.v); }
    template <class R, class A> void neg(R &r, A &a) { r.v = a.v ? M - a.v : 0; }
    template <class R, class A> void copy(R &r, A &a) { r.v = a.v; }
    template <class A> bool isZero(A &a) { return a.v == 0; }
    template <class A> void mulByScalar(Point &r, A &b, uint8_t *s, unsigned n) { nafMulByScalar<G, A, Point>(*this, r, b, s, n); } };
static G g;
struct D { };
static std::vector<G::PointAffine> bases(uint64_t n) { std::vector<G::PointAffine> b(n); for (auto &p : b) p.v = 1 + rnd() % (M - 1); return b; }
static std::vector<uint8_t> scalars(uint64_t n) { std::vector<uint8_t> s(n); for (auto &x : s) x = rnd() | 1; return s; }
struct CF { static const uint64_t P = 998244353; struct Element { uint64_t v; }; static std::atomic<uint64_t> muls; static CF field; Element fz = {0}, fo = {1}, fn = {P - 1};
    const Element &zero() { return fz; } const Element &one() { return fo; } const Element &negOne() { return fn; } CF() {} CF(const CF &) {} CF &operator=(const CF &) { return *this; }
    void copy(Element &r, const Element &a) { r = a; } void add(Element &r, const Element &a, const Element &b) { r.v = (a.v + b.v) % P; } void sub(Element &r, const Element &a, const Element &b) { r.v = (a.v + P - b.v) % P; }
    void mul(Element &r, const Element &a, const Element &b) { muls++; r.v = a.v * b.v % P; } int eq(const Element &a, const Element &b) { return a.v == b.v; }
    void square(Element &r, const Element &a) { mul(r, a, a); }
    void fromMpz(Element &r, const mpz_t m) { r.v = mpz_fdiv_ui(m, P); } void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); } std::string toString(const Element &a, uint32_t = 10) { return std::to_string(a.v); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { Element x = fo, y = b; int i = n * 8 - 1; while (i >= 0 && !(s[i >> 3] >> (i & 7) & 1)) i--; for (; i >= 0; i--) { mul(x, x, x); if (s[i >> 3] >> (i & 7) & 1) mul(x, x, y); } r = x; } };
std::atomic<uint64_t> CF::muls{0}; CF CF::field;
'''
WD = 'comp gen "" "misc.cpp naf.cpp splitparstr.cpp" -O2'
SC("W01-cost-model-16-bits", "C26",
   [("c/msm.hpp", "                * (nPoints + ((uint64_t)1 << bitsPerChunk) + bitsPerChunk + 1);", "                * ((nPoints & 0xFFFF) + ((uint64_t)1 << bitsPerChunk) + bitsPerChunk + 1);")],
   "more than 65535 points, the low 16 bits of their number being small", "the window is chosen for the wrong number of points: several times the group operations",
   WD, WORK + '''
int main() { for (uint64_t n : {1000, 65540}) { auto b = bases(n); auto s = scalars(n * 16); G::Point r; g.ops = 0; MSM<G, D> m(g); m.run(r, b.data(), s.data(), 16, n); chk("group operations", g.ops, n * 30 + 5000); } return done(); }''')

SC("W02-window-shrinks-with-columns", "C26",
   [("c/multiexp.cpp", "    bitsPerChunk = log2((uint32_t)(n / PME2_PACK_FACTOR));\n    if (bitsPerChunk > PME2_MAX_CHUNK_SIZE_BITS)", "    bitsPerChunk = log2((uint32_t)(n / (PME2_PACK_FACTOR << nx)));\n    if (bitsPerChunk > PME2_MAX_CHUNK_SIZE_BITS)")],
   "a multiexponentiation with four or more columns of given lengths", "the window shrinks with every column: several times the group operations",
   WD, WORK + '''
int main() { for (uint64_t nx = 1; nx < 6; nx++) { uint64_t n = 4000; auto b = bases(n); auto s = scalars(n * 16); std::vector<uint64_t> x(nx, n); G::Point r; g.ops = 0; ParallelMultiexp<G> m(g); m.multiexp(r, b.data(), s.data(), 16, n, nx, x.data(), 1); chk("group operations", g.ops, 95000); } return done(); }''')

SC("W03-leading-zeros-doubled", "C26",
   [("c/exp.hpp", "    while ((i>=0)&&(naf[i] == 0)) i--;", "    while ((i>=64)&&(naf[i] == 0)) i--;")],
   "a scalar far shorter than 64 bits", "the neutral element is doubled for every leading zero below bit 64",
   WD, WORK + '''
int main() { for (int k = 0; k < 200; k++) { uint8_t s[32] = {}; memcpy(s, &k, 4); G::PointAffine b = {7}; G::Point r; g.dbls = 0; nafMulByScalar<G, G::PointAffine, G::Point>(g, r, b, s, 32); chk("doublings", g.dbls, 10); if (r.v != 7u * k) bad++; } return done(); }''')

SC("W04-inverse-scales-in-steps", "C26",
   [("c/fft.cpp", "            f.mul(a[i], a[r], powTwoInv[domainPow]);\n            f.mul(a[r], tmp, powTwoInv[domainPow]);", "            f.copy(a[i], a[r]);\n            f.copy(a[r], tmp);\n            for (u_int64_t k=0; k<domainPow; k++) {\n                f.mul(a[i], a[i], powTwoInv[1]);\n                f.mul(a[r], a[r], powTwoInv[1]);\n            }")],
   "an inverse transform of many elements", "every coefficient is halved as often as the transform has levels: three times the multiplications",
   WD, WORK + '''
int main() { FFT<CF> f(4096); std::vector<CF::Element> a(4096); for (auto &e : a) e.v = rnd() % CF::P; for (int lg = 0; lg < 13; lg++) { CF::muls = 0; f.ifft(a.data(), 1ull << lg); chk("multiplications", CF::muls, (1ull << lg) / 2 * lg + (2ull << lg) + 4); } return done(); }''')

SC("W05-roots-by-powers", "C26",
   [("c/fft.cpp", "            f.mul(roots[i], roots[i-1], roots[1]);", "            if (i % 8) f.mul(roots[i], roots[i-1], roots[1]);\n            else f.exp(roots[i], roots[1], (uint8_t *)(&i), sizeof(i));")],
   "a transform object for many elements", "every eighth root is computed as a power from scratch",
   WD, WORK + '''
int main() { for (uint64_t n : {2, 64, 4096, 65536}) { CF::muls = 0; FFT<CF> f(n); chk("multiplications", CF::muls, n + n / 2 + 200 * ThreadPool::defaultPool().getThreadCount() + 64); } return done(); }''')

SC("W06-rest-to-the-last", "C26",
   [("c/misc.hpp", "        for (int i = 0; i < elementRest; i++) {\n            jobs[i] += 1;\n        }", "        jobs[threadCount - 1] += elementRest;")],
   "a loop whose number of indices is not a multiple of the number of workers", "one worker gets the whole rest: up to twice the work of the others",
   WD, WORK + '''
int main() { for (unsigned t : {2, 3, 5, 8}) for (int n : {7, 15, 16, 39}) { ThreadPool p(t); std::vector<std::atomic<int>> c(t); for (auto &x : c) x = 0; p.parallelFor(0, n, [&](int b, int e, int w) { c[w] += e - b; }); int mx = 0; for (auto &x : c) mx = std::max(mx, x.load()); chk("indices of one worker", mx, (n + t - 1) / t); } return done(); }''')

SC("W07-chunks-weighted-alone", "C26",
   [("c/msm.cpp", "    for (int j = nChunks - 2; j >= 0; j--) {\n        for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);\n        }\n        g.add(r, r, chunks[j]);\n    }", "    for (int i = 0; i < bitsPerChunk*(nChunks - 1); i++) g.dbl(r, r);\n\n    for (int j = nChunks - 2; j >= 0; j--) {\n        for (int i = 0; i < bitsPerChunk*j; i++) {\n            g.dbl(chunks[j], chunks[j]);\n        }\n        g.add(r, r, chunks[j]);\n    }")],
   "few points with long scalars", "every window's sum is doubled from its own position: the doublings grow with the square of the scalar's length",
   WD, WORK + '''
int main() { for (uint64_t n : {2, 10, 100}) for (uint64_t z : {1, 8, 32, 64}) { auto b = bases(n); auto s = scalars(n * z); G::Point r; g.dbls = 0; MSM<G, D> m(g); m.run(r, b.data(), s.data(), z, n); chk("doublings", g.dbls, 8 * z + 2); } return done(); }''')

SC("W08-window-choice-stops-early", "C26",
   [("c/msm.hpp", "                minAdds = curAdds;\n                bitsPerChunk = k;\n            }", "                minAdds = curAdds;\n                bitsPerChunk = k;\n            } else {\n                break;\n            }")],
   "a scalar length for which one more bit does not save a window but two more do", "the search for the window stops at the first one that is no better",
   WD, WORK + '''
int main() { for (uint64_t n : {500, 3000, 20000}) for (uint64_t z : {1, 2, 3, 4}) { double best = 1e30; for (int w = 3; w <= 16; w++) best = std::min(best, (8 * z / w + 1.0) * (n + (1 << w) + w + 1)); auto b = bases(n); auto s = scalars(n * z); G::Point r; g.ops = 0; MSM<G, D> m(g); m.run(r, b.data(), s.data(), z, n); chk("group operations", g.ops, best + 300); } return done(); }''')

SC("W09-counter-in-special-case", "C26",
   [("c/curve.cpp", ("    cntDblMixed++;", 0), "    if (!isZero(p1)) cntDblMixed++;")],
   "counting operations, the neutral element being doubled", "doubling the affine neutral element is not counted",
   WD + ' -DCOUNT_OPS', '#define COUNT_OPS\n' + CURVE.replace("#define COUNT_OPS", "") + '''
int main() { std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]); c.resetCounters(); int n = 0; for (auto &q : P) { Pa a = aff(q); Pt r; c.dbl(r, a); n++; } chk("counter", c.cntDblMixed == n); return done(); }''')
