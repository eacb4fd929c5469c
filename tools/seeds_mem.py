# ---- memory, resources, definedness (C23-C25): planted bugs (development aid; see mkseed.py)
MEMT = '''
#include <sys/mman.h>
#include <malloc.h>
#include <csignal>
#include <unistd.h>
// n bytes that end where an inaccessible page begins; ro: and cannot be written
static void *tail(const void *src, size_t n, bool ro = false) {
    size_t c = (n + 4095) / 4096 * 4096 + 4096; char *b = (char *)mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *p = b + c - 4096 - n; memcpy(p, src, n); mprotect(b + c - 4096, 4096, PROT_NONE); if (ro) mprotect(b, c - 4096, PROT_READ); return p;
}
static size_t used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
template <class F> static bool grows(F f) { f(); f(); size_t w[5]; for (int k = 0; k < 5; k++) { for (int i = 0; i < 20; i++) f(); w[k] = used(); } for (int k = 1; k < 5; k++) if (w[k] <= w[k - 1]) return false; return true; }
// heap memory starts out filled with something
static void perturb(int v) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_PERTURB, v); }
static void dirty(int v) { volatile char b[20000]; for (int i = 0; i < 20000; i++) b[i] = v; }
'''
SC("M01-sub-negates-in-place", "C23",
   [("c/curve.hpp", "void sub(Point &p3, Point &p1, PointAffine &p2) { PointAffine tmp; neg(tmp, p2); add(p3, p1, tmp); }", "void sub(Point &p3, Point &p1, PointAffine &p2) { neg(p2, p2); add(p3, p1, p2); neg(p2, p2); }")],
   "the affine point to subtract lies in memory that cannot be written (or is shared with another thread)", "subtracting an affine point from an extended one writes to its operand and restores it",
   'comp gen "" ' + TSRC, CURVE + MEMT + '''
int main() {
    std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]); Pa a = aff(P[3]); Pa *b = (Pa *)tail(&a, sizeof a, true);
    for (auto &q : P) { Pt p = ext(q, 3), r; c.sub(r, p, *b); chk("sub", get(r) == add(q, neg(P[3]))); }
    return done();
}''')

SC("M02-exp-reads-two-bytes", "C23",
   [("c/f12field.cpp", "#define BIT_IS_SET(s, p) (s[p>>3] & (1 << (p & 0x7)))", "#define BIT_IS_SET(s, p) ((*(uint16_t *)(s + (p>>3)) >> (p & 0x7)) & 1)")],
   "the exponent's last byte is the last readable one", "exponentiation in the 12th-degree extension reads one byte past the exponent",
   'comp gen "Fq=$BN_Q Fr=$BN_R" "misc.cpp naf.cpp splitparstr.cpp alt_bn128.cpp"', '''#include <stdexcept>
#include <cstdio>
#include <cstring>
#include "alt_bn128.hpp"
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
''' + MEMT + '''
int main() {
    using namespace AltBn128; typedef decltype(F12.one()) Ref; typedef std::remove_reference<Ref>::type E; E a = F12.one(), r, w = F12.one(); F2.fromString(a.x.y, "3,4");
    uint8_t k[3] = {5, 0, 0}; for (int i = 0; i < 5; i++) F12.mul(w, w, a);
    for (int n = 1; n <= 3; n++) { F12.exp(r, a, (uint8_t *)tail(k, n, true), n); chk("exp", F12.eq(r, w)); }
    return done();
}''')

SC("M03-lengths-clamped", "C23",
   [("c/multiexp.cpp", "    bitsPerChunk = log2((uint32_t)(n / PME2_PACK_FACTOR));\n    if (bitsPerChunk > PME2_MAX_CHUNK_SIZE_BITS)", "    for (uint64_t i = 0; i < nx; i++) if (x[i] > n / nx + 1) x[i] = n / nx + 1;\n    bitsPerChunk = log2((uint32_t)(n / PME2_PACK_FACTOR));\n    if (bitsPerChunk > PME2_MAX_CHUNK_SIZE_BITS)")],
   "a multiexponentiation with lengths, one of which is larger than the number of rows", "the caller's list of lengths is changed",
   'comp gen "" ' + TSRC, MEXP + '''
int main() {
    PS = pts(101, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int nx = 1; nx < 5; nx++) for (uint64_t big : {0, 3, 8, 1000}) { Pa b[8]; uint8_t s[8]; for (int i = 0; i < 8; i++) { b[i] = aff(PS[i + 2]); s[i] = i + 1; } uint64_t x[5], y[5]; for (int i = 0; i < nx; i++) x[i] = y[i] = i ? 2 : big; Pt r; c.multiMulByScalar(r, b, s, 1, 8, nx, x); chk("lengths", !memcmp(x, y, nx * 8)); }
    return done();
}''')

SC("M04-affine-written-back", "C23",
   [("c/curve.cpp", "    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n}\n\ntemplate <typename BaseField>\nvoid Curve<BaseField>::copy(PointAffine &r, PointAffine &a)", "    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n    if (!F.eq(a.zz, F.one())) copy(a, r); // the next conversion is cheaper\n}\n\ntemplate <typename BaseField>\nvoid Curve<BaseField>::copy(PointAffine &r, PointAffine &a)")],
   "conversion of a point whose denominators are not one", "converting a point to affine coordinates rewrites the point (the value stays)",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]);
    for (auto &q : P) for (int z = 1; z < 4; z++) { Pt p = ext(q, z), o = p; Pa r; c.copy(r, p); chk("value", get(r) == q); chk("operand", !memcmp(&p, &o, sizeof p)); std::string s = c.toString(p); chk("operand", !memcmp(&p, &o, sizeof p)); }
    return done();
}''')

SC("M05-transform-touches-next", "C23",
   [("c/fft.cpp", "    f.mul(a[0], a[0], powTwoInv[domainPow]);\n    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);", "    f.mul(a[0], a[0], powTwoInv[domainPow]);\n    u_int64_t half = (n + 1) >> 1;\n    f.mul(a[half], a[half], powTwoInv[domainPow]);")],
   "an inverse transform of a single element", "the element after the vector is read and rewritten (multiplied by one)",
   'comp gen "" ' + TSRC, FFT + MEMT + '''
int main() { P = 998244353; TF::setPrime(P); FFT<TF> f(1 << 5); for (int d = 0; d <= 5; d++) { std::vector<TE> v(1 << d); for (auto &e : v) e.v = rnd() % P; TE *a = (TE *)tail(v.data(), v.size() * sizeof(TE)); f.fft(a, 1 << d); f.ifft(a, 1 << d); chk("round trip", !memcmp(a, v.data(), v.size() * sizeof(TE))); } return done(); }''')

SC("M06-msm-negates-bases", "C23",
   [("c/msm.cpp", "                    g.sub(buckets[-bucketIndex-1], buckets[-bucketIndex-1], _bases[i]);", "                    g.neg(_bases[i], _bases[i]);\n                    g.add(buckets[-bucketIndex-1], buckets[-bucketIndex-1], _bases[i]);\n                    g.neg(_bases[i], _bases[i]);")],
   "a scalar with a negative signed digit, and bases that cannot be written or that two workers use at the same time", "multi-scalar multiplication writes to the bases while it runs",
   'comp gen "" ' + TSRC, MEXP + MEMT + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int n = 2; n < 30; n++) { std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w = add(w, mul(q, &s[2 * i], 2)); } Pt r; c.multiMulByScalarMSM(r, (Pa *)tail(b.data(), n * sizeof(Pa), true), s.data(), 2, n); chk("msm", get(r) == w); }
    return done();
}''')

SC("M09-zero-scalar-returns", "C24",
   [("c/exp.hpp", "    while ((i>=0)&&(naf[i] == 0)) i--;\n", "    while ((i>=0)&&(naf[i] == 0)) i--;\n    if (i < 0) return;\n")],
   "a scalar of zero", "multiplying by zero leaves the recoded scalar behind",
   'comp gen "" ' + TSRC, CURVE + MEMT + '''
int main() {
    std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]);
    for (int k = 0; k < 4; k++) { uint8_t s[8] = {(uint8_t)k}; Pa a = aff(P[3]); Pt b = ext(P[3], 2), r; chk("affine", !grows([&] { c.mulByScalar(r, a, s, 8); })); chk("extended", !grows([&] { c.mulByScalar(r, b, s, 8); })); }
    return done();
}''')

SC("M10-tables-before-refusal", "C24",
   [("c/fft.cpp", "    if (s<domainPow) {", "    roots = new Element[1LL << s];\n    if (s<domainPow) {"),
    ("c/fft.cpp", "rootsOwner(new Element[nRoots])", "rootsOwner(roots)")],
   "a declared size the field does not support", "the refused transform object leaves its table of roots behind",
   'comp gen "" ' + TSRC, FFT + MEMT + '''
int main() { for (uint64_t p : {17, 97, 998244353}) { P = p; TF::setPrime(P); for (int m = 1; m < 30; m += 2) chk("heap", !grows([&] { try { FFT<TF> f(1ull << (m > 12 ? 28 + m / 10 : m)); } catch (std::exception &) {} })); if (p == 17) continue; } return done(); }''')

SC("M11-mapping-rounded", "C24",
   [("c/binfile_utils.cpp", ("        munmap(addrmm, sb.st_size);", 1), "        munmap(addrmm, sb.st_size & ~(off_t)4095);")],
   "a file whose size is not a multiple of the page size", "the last page of the file stays mapped after the container was opened",
   BSRC, BIN + '''
static int maps() { FILE *f = fopen("/proc/self/maps", "r"); char l[500]; int n = 0; while (fgets(l, sizeof l, f)) if (strstr(l, "/demo")) n++; fclose(f); return n; }
int main() { for (int n : {1, 100, 5000, 9000}) { B b = file("abcd", 1, {sec(1, B(n, 'x'))}); open(b, "abcd", 1, true); int m = maps(); for (int i = 0; i < 30; i++) open(b, "abcd", 1, true); chk("mappings", maps() == m); } return done(); }''', BEX)

SC("M12-empty-witness-prime", "C24",
   [("c/wtns_utils.cpp", "    mpz_clear(prime);", "    if (nVars > 0) mpz_clear(prime);")],
   "a witness file that announces no variables", "the decoded prime is never released",
   BSRC, BIN + MEMT + '''
int main() { for (int nv = 0; nv < 3; nv++) { B b = file("wtns", 2, {sec(1, u32(32) + B(32, 'p') + u32(nv)), sec(2, B(32 * nv, 'v'))}); chk("heap", !grows([&] { auto f = open(b, "wtns", 2, false); auto h = WtnsUtils::loadHeader(f.get()); })); } return done(); }''', BEX)

SC("M13-accumulator-zero", "C25",
   [("c/multiexp.cpp", "    for (uint64_t i=0; i<nThreads*accsPerChunk; i++) {\n        g.copy(accs[i].p, g.zero());", "    for (uint64_t i=0; i<nThreads*accsPerChunk; i++) {\n        if (i % accsPerChunk || i == 0) g.copy(accs[i].p, g.zero());")],
   "at least two threads; the table lies in memory that was used before", "the accumulators of digit zero of all threads but the first are examined without ever having been written",
   'comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + MEMT + '''
// digit zero never contributes: only whether its accumulators were written can be observed
struct G { struct Point { uint64_t v, tag; }; struct PointAffine { uint64_t v; }; Point z = {0, 0x600d}; int bad = 0;
    Point &zero() { return z; } void use(Point &p) { if (p.tag != 0x600d && (p.tag || p.v)) bad++; }   // all zero bytes: cleared as a whole
    bool isZero(Point &p) { use(p); return p.v == 0; } bool isZero(PointAffine &p) { return p.v == 0; }
    void copy(Point &r, Point &a) { use(a); r = a; } void add(Point &r, Point &a, Point &b) { use(a); use(b); r.v = a.v + b.v; r.tag = 0x600d; } void add(Point &r, Point &a, PointAffine &b) { use(a); r.v = a.v + b.v; r.tag = 0x600d; }
    void dbl(Point &r, Point &a) { add(r, a, a); } void mulByScalar(Point &r, PointAffine &b, uint8_t *s, unsigned n) { r = z; for (int i = n - 1; i >= 0; i--) r.v = r.v * 256 + s[i] * b.v; } };
int main() {
    perturb(0x33);
    for (int nt = 1; nt < 5; nt++) { G g; G::PointAffine b[40]; uint8_t s[80]; uint64_t w = 0; for (int i = 0; i < 40; i++) { b[i].v = rnd(); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w += b[i].v * (s[2 * i] + 256 * s[2 * i + 1]); }
        ParallelMultiexp<G> pm(g); G::Point r; pm.multiexp(r, b, s, 2, 40, nt); chk("sum", r.v == w); chk("unwritten memory", g.bad == 0); }
    return done();
}''')

SC("M14-neutral-partly-written", "C25",
   [("c/curve.cpp", "    cntDbl++;\n#endif // COUNT_OPS\n\n\n    if (isZero(p1)) {\n        copy(p3, p1);", "    cntDbl++;\n#endif // COUNT_OPS\n\n\n    if (isZero(p1)) {\n        F.copy(p3.zz, p1.zz);")],
   "doubling the neutral element into another object", "three of the four coordinates of the result are never written",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]);
    for (auto &q : P) for (int z = 1; z < 4; z++) { Pt p = ext(q, z), r, s; memset(&r, 0x11, sizeof r); memset(&s, 0x55, sizeof s); c.dbl(r, p); c.dbl(s, p); chk("complete", !memcmp(&r, &s, sizeof r)); }
    return done();
}''')

SC("M15-single-inverse-factor", "C25",
   [("c/fft.cpp", "    f.copy(powTwoInv[0], f.one());\n", "")],
   "an inverse transform of one element, in a process that has used its heap before", "the result is multiplied by whatever the memory held",
   'comp gen "" ' + TSRC, FFT + MEMT + '''
int main() { P = 998244353; TF::setPrime(P); for (int v : {0x11, 0xfe, 0x55}) { perturb(v); for (int m = 0; m < 6; m++) { FFT<TF> f(1 << m); for (int d = 0; d <= m; d++) one(f, 1 << d, 4); } } return done(); }''')

SC("M17-buckets-first-chunk", "C25",
   [("c/msm.cpp", "            for (int i = 0; i < nBuckets; i++) {\n                g.copy(buckets[i], g.zero());", "            for (int i = 0; i < nBuckets && (j > begin || numThread > 0); i++) {\n                g.copy(buckets[i], g.zero());")],
   "heap memory that was used before", "the first worker's first window starts from leftover memory",
   'comp gen "" ' + TSRC, MSMT + MEMT + '''
int main() { PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); for (int v : {0x33, 0xfe, 0x71}) { perturb(v); for (int n = 2; n < 40; n++) chk("msm", one(c, n, 4, 0)); } return done(); }''')

SC("M18-extension-minus-one", "C25",
   [("c/f2field.cpp", "    F.copy(fNegOne.b, F.zero());\n", "")],
   "an extension field object that lives in used heap or stack memory", "half of the constant -1 is leftover memory",
   'comp gen "" ' + TSRC, TOWER + MEMT + '''
#include <memory>
int main() { TF::setPrime(7); for (int v : {0x33, 0xfe}) { perturb(v); std::unique_ptr<T2> f(new T2("-1")); chk("one", f->one().a.v == 1 && f->one().b.v == 0); chk("zero", f->zero().a.v == 0 && f->zero().b.v == 0); E2 s; f->add(s, f->one(), f->negOne()); chk("-1", f->isZero(s)); } return done(); }''')

SC("M19-affine-neutral-half", "C13",
   [("c/curve.cpp", "    if (isZero(a)) {\n        F.copy(r.x, F.zero());\n        F.copy(r.y, F.zero());\n        return;\n    }\n    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n    F.neg(r.y, r.y);", "    F.neg(r.y, a.y);\n    if (isZero(a)) {\n        F.copy(r.x, F.zero());\n        return;\n    }\n    F.div(r.x, a.x, a.zz);\n    F.div(r.y, r.y, a.zzz);")],
   "negating the neutral element from extended into affine coordinates", "the result is not the neutral element but a point made of leftover coordinates",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    std::vector<Q> P = pts(101, 1, 1); TC &c = curve(1, 1, P[1]);
    for (auto &q : P) for (int z = 1; z < 4; z++) { Pt p = ext(q, z); Pa r; memset(&r, 0x11, sizeof r); c.neg(r, p); chk("neg", get(r) == neg(q)); }
    return done();
}''')
