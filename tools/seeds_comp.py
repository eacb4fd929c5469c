# ---- components under c/: planted bugs (development aid; see mkseed.py)
TOY = '''#include <stdexcept>
#include <iostream>
#include <cassert>
#include <cstdio>
#include <cstring>
#include "toy.h"
#include "misc.hpp"
#include "splitparstr.hpp"
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
typedef ToyField<0> TF; typedef TF::Element TE;
'''
TOWER = TOY + '#include "f2field.hpp"\ntypedef F2Field<TF> T2; typedef T2::Element E2;\n'
CURVE = TOY + '''#include "curve.hpp"
typedef Curve<TF> TC; typedef TC::Point Pt; typedef TC::PointAffine Pa;
// reference: affine arithmetic on the toy curve; x<0 is the neutral element
static int64_t prm, ca;
static int64_t md(int64_t x) { x %= prm; return x < 0 ? x + prm : x; }
static int64_t inv(int64_t a) { int64_t r = 1, b = md(a); for (int64_t e = prm - 2; e; e >>= 1) { if (e & 1) r = r * b % prm; b = b * b % prm; } return r; }
struct Q { int64_t x, y; bool operator==(const Q &o) const { return x < 0 ? o.x < 0 : x == o.x && y == o.y; } };
static const Q O = {-1, -1};
static Q add(Q a, Q b) {
    if (a.x < 0) return b; if (b.x < 0) return a;
    int64_t l;
    if (a.x == b.x) { if (md(a.y + b.y) == 0) return O; l = md(md(3 * a.x % prm * a.x + ca) * inv(2 * a.y)); }
    else l = md(md(b.y - a.y) * inv(b.x - a.x));
    int64_t x = md(l * l - a.x - b.x); return {x, md(l * (a.x - x) - a.y)};
}
static Q neg(Q a) { if (a.x >= 0) a.y = md(-a.y); return a; }
static Q mul(Q a, const uint8_t *s, int n) { Q r = O; for (int i = n * 8 - 1; i >= 0; i--) { r = add(r, r); if (s[i / 8] >> (i % 8) & 1) r = add(r, a); } return r; }
static Pa aff(Q a) { Pa p; p.x.v = a.x < 0 ? 0 : a.x; p.y.v = a.x < 0 ? 0 : a.y; return p; }
static Pt ext(Q a, int64_t z = 1) { Pt p; if (a.x < 0) { p.x.v = p.y.v = z; p.zz.v = p.zzz.v = 0; } else { p.zz.v = z * z % prm; p.zzz.v = z * z % prm * z % prm; p.x.v = a.x * p.zz.v % prm; p.y.v = a.y * p.zzz.v % prm; } return p; }
static Q get(const Pa &p) { return p.x.v == 0 && p.y.v == 0 ? O : Q{p.x.v, p.y.v}; }
static Q get(const Pt &p) { return p.zz.v == 0 ? O : Q{md(p.x.v * inv(p.zz.v)), md(p.y.v * inv(p.zzz.v))}; }
static std::vector<Q> pts(int64_t p, int64_t a, int64_t b) { prm = p; ca = md(a); TF::setPrime(p); std::vector<Q> r; r.push_back(O); for (int64_t x = 0; x < p; x++) for (int64_t y = 0; y < p; y++) if (md(y * y - x * x % p * x - a * x - b) == 0) r.push_back({x, y}); return r; }
static TC &curve(int64_t a, int64_t b, Q g) { return *new TC(TF::field, std::to_string(md(a)), std::to_string(md(b)), std::to_string(g.x), std::to_string(g.y)); }
'''
TKIT = ("lib.sh",)
TSRC = '"misc.cpp naf.cpp splitparstr.cpp"'


def SC(id, prop, edits, needs, breaks, demo, main, extra=("toy.h",)):
    S(id, prop, edits, needs, breaks, demo, main, kit=TKIT, extra=extra)


SC("K01-f2-div-in-place", "C12",
   [("c/f2field.cpp", "    Element tmp;\n    inv(tmp, e2);\n    mul(r, e1, tmp);", "    inv(r, e2);\n    mul(r, e1, r);")],
   "quadratic extension; the quotient's destination is its dividend", "in-place division of an extension element by another one gives a wrong quotient",
   'comp gen "" ' + TSRC, TOWER + '''
int main() {
    TF::setPrime(7); T2 f("-1");
    for (int i = 1; i < 49; i++) for (int j = 1; j < 49; j++) {
        E2 a, b, r, t; a.a.v = i / 7; a.b.v = i % 7; b.a.v = j / 7; b.b.v = j % 7;
        r = a; f.div(r, r, b); f.mul(t, r, b); chk("a/b in place of a", f.eq(t, a));
        r = b; f.div(r, a, r); f.mul(t, r, b); chk("a/b in place of b", f.eq(t, a));
    }
    return done();
}''')

F12M = '''#include <stdexcept>
#include <iostream>
#include <cstdio>
#include <cstring>
#include "alt_bn128.hpp"
using namespace AltBn128;
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
static uint64_t sd = 99;
static void rnd(F1Element &e) { char b[90]; int n = 0; for (int i = 0; i < 8; i++) { sd = sd * 6364136223846793005ull + 1442695040888963407ull; n += sprintf(b + n, "%u", (unsigned)(sd >> 33)); } F1.fromString(e, b); }
static void rnd(F2Element &e) { rnd(e.a); rnd(e.b); }
static void rnd(F6Element &e) { rnd(e.x); rnd(e.y); rnd(e.z); }
static void rnd(F12Element &e) { rnd(e.x); rnd(e.y); }
'''
BN2 = 'comp gen "Fq=$BN_Q Fr=$BN_R" "misc.cpp naf.cpp splitparstr.cpp alt_bn128.cpp"'
SC("K02-f12-square-in-place", "C12",
   [("c/f12field.cpp", "    F.mul(v0, a.x, a.y);\n\n    F.mulTau(t, a.x);", "    F.mulTau(t, a.x);\n    F.mul(v0, a.x, a.y);\n    F.dbl(r.x, v0);\n"),
    ("c/f12field.cpp", "    F.copy(r.y, ty);\n    F.dbl(r.x, v0);", "    F.copy(r.y, ty);")],
   "dodecic extension; square written over its operand", "squaring in place uses a coordinate that was already overwritten",
   BN2, F12M + '''
int main() { for (int i = 0; i < 20; i++) { F12Element a, s, m; rnd(a); F12.mul(m, a, a); F12.square(s, a); chk("square", F12.eq(s, m)); F12.square(a, a); chk("square in place", F12.eq(a, m)); } return done(); }''', ())

SC("K03-f6-isone", "C12",
   [("c/f6field.cpp", "    return F.isZero(a.x) && F.isZero(a.y) && F.isOne(a.z);", "    return F.isOne(a.z) && F.isZero(a.y) && F.F.isZero(a.x.a);")],
   "sextic extension; an element that differs from one only in the last coordinate's second half", "elements other than one are reported to be one",
   BN2, F12M + '''
int main() {
    for (int i = 0; i < 6; i++) { F6Element a; F6.copy(a, F6.one()); F1Element *c[] = {&a.x.a, &a.x.b, &a.y.a, &a.y.b, &a.z.a, &a.z.b}; F1.add(*c[i], *c[i], F1.one()); chk("isOne", !F6.isOne(a)); }
    chk("one", F6.isOne(F6.one())); return done();
}''', ())

SC("K04-f12-exp-top-bit", "C12",
   [("c/f12field.cpp", "    for (int i=scalarSize*8-1; i>=0; i--) {\n        square(t, r);", "    for (int i=scalarSize*8-2; i>=0; i--) {\n        square(t, r);")],
   "dodecic exponentiation; an exponent whose highest bit is set", "the highest bit of the exponent is ignored",
   BN2, F12M + '''
int main() {
    F12Element a, r, t; rnd(a);
    uint8_t s[4] = {5, 0, 0, 0}; F12.exp(r, a, s, 4); F12.square(t, a); F12.square(t, t); F12.mul(t, t, a); chk("a^5", F12.eq(r, t));
    uint8_t u[1] = {0x80}, w[2] = {0x80, 0}; F12.exp(r, a, u, 1); F12.exp(t, a, w, 2); chk("a^128", F12.eq(r, t)); return done();
}''', ())

SC("K06-f6-frobenius-in-place", "C12",
   [("c/f6field.cpp", "    F.mul(tz, t0, t1);\n\n    F.sub(tz, tz, v1);\n    F.sub(tz, tz, v2);\n    F.mulXi(tz, tz);\n    F.add(tz, tz, v0);\n\n    F.add(t0, a.y, a.z);", "    F.mul(tz, t0, t1);\n\n    F.sub(tz, tz, v1);\n    F.sub(tz, tz, v2);\n    F.mulXi(tz, tz);\n    F.add(r.z, tz, v0);\n\n    F.add(t0, a.y, a.z);"),
    ("c/f6field.cpp", "    F.copy(r.x, tx);\n    F.copy(r.y, ty);\n    F.copy(r.z, tz);", "    F.copy(r.x, tx);\n    F.copy(r.y, ty);")],
   "sextic extension; product written over one of its factors", "the product in place reads a coordinate after overwriting it",
   BN2, F12M + '''
int main() { for (int i = 0; i < 20; i++) { F6Element a, b, m, t; rnd(a); rnd(b); F6.mul(m, a, b); F6.add(t, b, F6.one()); F6Element u; F6.mul(u, a, t); F6.sub(u, u, a); chk("distributive", F6.eq(u, m)); t = b; F6.mul(t, a, t); chk("in place 2", F6.eq(t, m)); t = a; F6.mul(t, t, b); chk("in place 1", F6.eq(t, m)); } return done(); }''', ())

SC("K07-affine-add-opposite", "C13",
   [("c/curve.cpp", "    F.sub(R, p2.y, p1.y);\n\n    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p2);", "    F.sub(R, p2.y, p1.y);\n\n    if (F.isZero(P)) return dbl(p3, p2);")],
   "adding an affine point to its opposite", "the sum of opposite affine points is a double instead of the neutral element",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(23, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (auto &a : ps) for (auto &b : ps) { Pa x = aff(a), y = aff(b); Pt r; c.add(r, x, y); chk("add", get(r) == add(a, b)); c.sub(r, x, y); chk("sub", get(r) == add(a, neg(b))); }
    return done();
}''')

SC("K08-dbl-a-one-scaled", "C13",
   [("c/curve.cpp", "        case a_is_one: F.copy(r, ab); break;", "        case a_is_one: F.copy(r, fa); break;")],
   "a curve whose coefficient a is exactly 1; doubling a point whose coordinates are scaled", "doubling depends on the scaling of the coordinates",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    for (int a : {0, 1, -1, 5}) { auto ps = pts(23, a, 1); TC &c = curve(a, 1, ps[1]); for (auto &q : ps) for (int z = 1; z < 23; z++) { Pt x = ext(q, z), r; c.dbl(r, x); chk("dbl", get(r) == add(q, q)); } }
    return done();
}''')

SC("K09-eq-neutral-origin", "C13",
   [("c/curve.cpp", "    if (isZero(p1)) return  isZero(p2);\n\n    typename BaseField::Element tmp;\n", "    if (isZero(p1) && !F.isZero(p1.x)) return  isZero(p2);\n\n    typename BaseField::Element tmp;\n")],
   "comparing the neutral element with an affine point when the former's free coordinates happen to be zero", "a finite point and the neutral element compare equal",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(23, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (auto &a : ps) for (auto &b : ps) for (int z = 0; z < 3; z++) for (int w = 0; w < 3; w++) { if ((a.x >= 0 && !z) || (b.x >= 0 && !w)) continue; Pt x = ext(a, z), y = ext(b, w); Pa v = aff(b); chk("eq", c.eq(x, y) == (a == b)); chk("eq mixed", c.eq(x, v) == (a == b)); }
    return done();
}''')

SC("K10-sub-affine-ext", "C13",
   [("c/curve.hpp", "    void sub(PointAffine &p3, PointAffine &p1, Point &p2) { Point tmp; neg(tmp, p2); add(p3, p1, tmp); }", "    void sub(PointAffine &p3, PointAffine &p1, Point &p2) { Point tmp; neg(tmp, p1); add(p3, tmp, p2); }")],
   "subtracting an extended point from an affine one into an affine result", "the difference has the wrong sign in one mix of coordinates",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(23, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (auto &a : ps) for (auto &b : ps) { Pa x = aff(a), r; Pt y = ext(b, 3); c.sub(r, x, y); chk("sub", get(r) == add(a, neg(b))); }
    return done();
}''')

SC("K11-mixed-dbl-in-place", "C13",
   [("c/curve.cpp", "    // ZZ3 = ZZ1*PP\n    F.mul(p3.zz, p1.zz, PP);\n    \n    // ZZZ3 = ZZZ1*PPP\n    F.mul(p3.zzz, p1.zzz, PPP);\n}\n\n\n/*", "    // ZZZ3 = ZZZ1*PPP = ZZZ1*P*PP\n    F.mul(p3.zz, p1.zz, PP);\n    \n    F.mul(p3.zzz, p3.zz, P);\n    F.div(tmp, p1.zzz, p1.zz);\n    F.mul(p3.zzz, p3.zzz, tmp);\n}\n\n\n/*")],
   "mixed addition written over its extended operand", "accumulating affine points in place gives inconsistent coordinates",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(101, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (auto &a : ps) for (auto &b : ps) { Pt x = ext(a, 3), r; Pa y = aff(b); c.add(r, x, y); chk("add", get(r) == add(a, b)); c.add(x, x, y); chk("add in place", get(x) == add(a, b)); }
    return done();
}''')

SC("K12-nafmul-top-digit", "C14",
   [("c/exp.hpp", "    int nBits = (scalarSize*8)+2;", "    int nBits = scalarSize*8;")],
   "a scalar whose recoding carries out of its last byte (its two highest bits set)", "scalar multiplication drops the digit above the scalar's last byte",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(1009, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (int s = 0; s < 256; s++) { uint8_t k[1] = {(uint8_t)s}; Pt b = ext(ps[7], 5), r; c.mulByScalar(r, b, k, 1); chk("mul", get(r) == mul(ps[7], k, 1)); }
    return done();
}''')

SC("K13-nafmul-in-place", "C14",
   [("c/exp.hpp", "    G.copy(baseCopy, base); // base and result can be the same\n    G.copy(r, G.zero());", "    G.copy(r, G.zero());\n    G.copy(baseCopy, base); // base and result can be the same")],
   "scalar multiplication whose result is its base", "in place, every multiple is the neutral element",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    auto ps = pts(1009, 1, 1); TC &c = curve(1, 1, ps[1]);
    for (int s = 0; s < 256; s++) { uint8_t k[1] = {(uint8_t)s}; Pt b = ext(ps[7], 5); c.mulByScalar(b, b, k, 1); chk("mul", get(b) == mul(ps[7], k, 1)); }
    return done();
}''')

SC("K14-naf-digit-table", "C14",
   [("c/naf.cpp", "                    if (carry) {\n                        last = false; carry = true;  res[i] = 0;\n                    } else {\n                        last = true; carry = false;  res[i] = 0;", "                    if (carry && (in & 0x100)) {\n                        last = false; carry = true;  res[i] = 0;\n                    } else {\n                        last = true; carry = false;  res[i] = 0;")],
   "a scalar with a run of ones that ends exactly at a byte boundary pattern (carry into a zero digit)", "recoding loses carries for certain byte patterns",
   'comp gen "" ' + TSRC, TOY + '''
#include "naf.hpp"
int main() {
    for (unsigned s = 0; s < 65536; s++) { uint8_t k[2] = {(uint8_t)s, (uint8_t)(s >> 8)}, d[32]; buildNaf(d, k, 2); long v = 0; for (int i = 31; i >= 0; i--) v = v * 2 + (d[i] == 1 ? 1 : d[i] == 2 ? -1 : 0); chk("naf", v == (long)s); }
    return done();
}''')

MEXP = CURVE + '''
static std::vector<Q> PS; static uint64_t sd = 5;
static uint64_t rnd() { sd = sd * 6364136223846793005ull + 1442695040888963407ull; return sd >> 33; }
'''
SC("K15-pack-threads", "C15",
   [("c/multiexp.cpp", "                g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);\n                g.copy(accs[j*accsPerChunk + i].p, g.zero());", "                g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);\n                if (i) g.copy(accs[j*accsPerChunk + i].p, g.zero()); else continue;\n                if (j + 2 < nThreads) break;")],
   "OpenMP with at least three threads that meet the same window value", "partial sums of later threads are dropped or counted twice",
   'OMP_NUM_THREADS=4 comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int nt = 1; nt <= 6; nt++) for (int it = 0; it < 10; it++) { int n = 2 + rnd() % 200; std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w = add(w, mul(q, &s[2 * i], 2)); } Pt r; c.multiMulByScalar(r, b.data(), s.data(), 2, n, nt); chk("multiexp", get(r) == w); }
    return done();
}''')

SC("K16-thread-limit", "C15",
   [("c/misc.hpp", "        omp_set_num_threads(prev_max_threads);\n    }\n\nprivate:", "        if (omp_get_max_threads() < (int)prev_max_threads) omp_set_num_threads(prev_max_threads);\n    }\n\nprivate:")],
   "OpenMP; asking for more threads than the caller's current limit", "the caller's OpenMP thread limit stays raised afterwards",
   'comp gen "" ' + TSRC + ' -fopenmp -DUSE_OPENMP', MEXP + '''
#include <omp.h>
int main() {
    PS = pts(101, 1, 1); TC &c = curve(1, 1, PS[1]); Pa b[3] = {aff(PS[3]), aff(PS[4]), aff(PS[5])}; uint8_t s[3] = {1, 2, 3}; Pt r;
    for (int lim = 1; lim < 5; lim++) for (int nt = 1; nt < 8; nt++) { omp_set_num_threads(lim); c.multiMulByScalar(r, b, s, 1, 3, nt); chk("limit", omp_get_max_threads() == lim); }
    return done();
}''')

SC("K17-multiexp-object-reuse", "C15",
   [("c/multiexp.cpp", "    if (nBits==1) {\n        g.copy(res, accs[1].p);\n        g.copy(accs[1].p, g.zero());", "    if (nBits==1) {\n        g.copy(res, accs[1].p);\n        if (bitsPerChunk > PME2_MIN_CHUNK_SIZE_BITS) g.copy(accs[1].p, g.zero());")],
   "few bases (the smallest window) and scalars of more than one window", "the lowest accumulator leaks into the following window",
   'comp gen "" ' + TSRC, MEXP + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int n = 2; n < 80; n++) { std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w = add(w, mul(q, &s[2 * i], 2)); } Pt r; c.multiMulByScalar(r, b.data(), s.data(), 2, n); chk("multiexp", get(r) == w); }
    return done();
}''')

SC("K18-multiexp-large-window", "C15",
   [("c/multiexp.cpp", "    v = v & ( (1 << efectiveBitsPerChunk) - 1);", "    v = v & (uint64_t)( (uint16_t)(1 << efectiveBitsPerChunk) - 1);\n    if (efectiveBitsPerChunk == 16) v &= 0x7FFF;")],
   "at least 131072 bases, which selects windows of 16 bits", "the highest bit of every full window is lost when the window has 16 bits",
   'comp gen "" ' + TSRC, MEXP + '''
int main() {
    PS = pts(101, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int n : {1000, 131072}) { std::vector<Pa> b(n); std::vector<uint8_t> s(2 * n); Q w = O; for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); s[2 * i] = rnd(); s[2 * i + 1] = rnd(); w = add(w, mul(q, &s[2 * i], 2)); } Pt r; c.multiMulByScalar(r, b.data(), s.data(), 2, n); chk("multiexp", get(r) == w); }
    return done();
}''')

MSMT = MEXP + '''
static bool one(TC &c, int n, int ss, int mode, int64_t pool = 0) {
    std::vector<Pa> b(n); std::vector<uint8_t> s(ss * n); Q w = O;
    for (int i = 0; i < n; i++) { Q q = PS[rnd() % PS.size()]; b[i] = aff(q); for (int k = 0; k < ss; k++) s[ss * i + k] = mode == 1 ? 255 : mode == 2 ? (k % 2 ? 0x80 : 0) : rnd(); w = add(w, mul(q, &s[ss * i], ss)); }
    Pt r; c.multiMulByScalarMSM(r, b.data(), s.data(), ss, n); return get(r) == w;
}
'''
SC("K19-msm-half-window", "C16",
   [("c/msm.cpp", "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);", "    std::unique_ptr<int16_t[]> slicedScalars(new int16_t[nSlices]);")],
   "a window of 16 bits (chosen at build time or for very many bases) and a digit of exactly one half of it", "the largest positive digit turns negative",
   'comp gen "" ' + TSRC + ' -DMSM_BITS_PER_CHUNK=16', MSMT + '''
int main() { PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); for (int m = 0; m < 3; m++) for (int n = 2; n < 5; n++) chk("msm", one(c, n, 4, m)); return done(); }''')

SC("K20-msm-buckets-per-thread", "C16",
   [("c/msm.cpp", "            typename Curve::Point *buckets = &bucketMatrix[numThread*nBuckets];", "            typename Curve::Point *buckets = &bucketMatrix[(numThread & 1)*nBuckets];")],
   "at least three workers that are busy at the same time", "two workers share one set of buckets",
   'for i in 1 2 3; do comp gen "" ' + TSRC + '; done', '#define private public\n#include <thread>\n#undef private\n' + MSMT + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    if (ThreadPool::defaultThreadCount() < 4) { puts("too few processors"); }
    for (int it = 0; it < 30; it++) chk("msm", one(c, 700, 32, 0));
    return done();
}''')

SC("K21-msm-first-point", "C16",
   [("c/msm.cpp", "            for (int i = nBuckets - 2; i >= 0 ; i--) {", "            for (int i = nBuckets - 2; i > 0 || (i == 0 && nPoints > 2); i--) {")],
   "exactly two bases", "the lowest bucket is skipped when there are only two bases",
   'comp gen "" ' + TSRC, MSMT + '''
int main() { PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); for (int n = 0; n < 9; n++) for (int i = 0; i < 20; i++) chk("msm", one(c, n, 2, 0)); return done(); }''')

FFT = '''#include <stdexcept>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <gmp.h>
#include "toy.h"
#include "misc.hpp"
#include "fft.hpp"
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
typedef ToyField<0> TF; typedef TF::Element TE;
static uint64_t P;
static uint64_t mp(uint64_t a, uint64_t b) { return a * b % P; }
static uint64_t pw(uint64_t b, uint64_t e) { uint64_t r = 1; for (; e; e >>= 1) { if (e & 1) r = mp(r, b); b = mp(b, b); } return r; }
static uint64_t nqr() { uint64_t x = 2; while (pw(x, (P - 1) / 2) == 1) x++; return x; }
static uint64_t sd = 5;
static uint64_t rnd() { sd = sd * 6364136223846793005ull + 1442695040888963407ull; return sd >> 33; }
// one transform: random vector, a few evaluations by the definition, and the way back
static void one(FFT<TF> &f, uint64_t n, int probes) {
    int d = 0; while (1ull << d < n) d++;
    uint64_t w = n == 1 ? 1 : pw(nqr(), (P - 1) / n);
    std::vector<TE> a(n); for (auto &e : a) e.v = rnd() % P;
    std::vector<TE> b = a; f.fft(b.data(), n);
    for (int k = 0; k < probes; k++) { uint64_t i = k == 0 ? 0 : k == 1 ? n - 1 : rnd() % n, x = pw(w, i), s = 0, y = 1; for (uint64_t j = 0; j < n; j++) { s = (s + mp(y, a[j].v)) % P; y = mp(y, x); } chk("fft", b[i].v == s); }
    f.ifft(b.data(), n); bool ok = true; for (uint64_t i = 0; i < n; i++) ok = ok && a[i].v == b[i].v; chk("ifft", ok);
}
'''
SC("K22-bitrev-17", "C17",
   [("c/fft.cpp", "    x = ((x & 0xFF00FF00) >> 8) | ((x & 0x00FF00FF) << 8);", "    x = ((x & 0xFF00FF00) >> 8) | ((x & 0x00FF0000) << 8);")],
   "a transform of more than 65536 elements", "elements beyond the first 65536 are permuted wrongly",
   'comp gen "" ' + TSRC, FFT + '''
int main() { P = 998244353; TF::setPrime(P); FFT<TF> f(1 << 17); for (int d = 0; d <= 17; d++) one(f, 1ull << d, 6); return done(); }''')

SC("K23-root-table-start", "C17",
   [("c/fft.cpp", "            f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));", "            f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(u_int16_t));")],
   "a table of roots with more than 65536 entries that several workers fill", "the parts of the root table that start beyond 65535 are wrong",
   'comp gen "" ' + TSRC + ' -DNDEBUG', FFT + '''
int main() { P = 998244353; TF::setPrime(P); FFT<TF> f(1 << 19); uint64_t w = pw(nqr(), (P - 1) >> 19); bool ok = true; uint64_t x = 1; for (uint64_t i = 0; i < 1 << 19; i++, x = mp(x, w)) ok = ok && f.root(19, i).v == x; chk("roots", ok); one(f, 1 << 10, 4); return done(); }''')

SC("K24-inverse-of-largest", "C17",
   [("c/fft.cpp", "    for (uint64_t i=2; i<=s; i++) {\n        f.mul(powTwoInv[i]", "    f.copy(powTwoInv[s], powTwoInv[s > 1]);\n    for (uint64_t i=2; i<s || (i==s && i<5); i++) {\n        f.mul(powTwoInv[i]")],
   "an inverse transform of the declared maximum size, 32 or more", "the inverse transform of the largest size is scaled wrongly",
   'comp gen "" ' + TSRC, FFT + '''
int main() { P = 998244353; TF::setPrime(P); for (int m = 0; m <= 9; m++) { FFT<TF> f(1 << m); for (int d = 0; d <= m; d++) one(f, 1ull << d, 6); } return done(); }''')

SC("K25-domain-too-big", "C17",
   [("c/fft.cpp", "    if (s<domainPow) {", "    if (s<domainPow-1) {")],
   "a declared size exactly twice the largest the field supports", "a domain for which the field has no root of unity is accepted",
   'comp gen "" ' + TSRC + ' -DNDEBUG', FFT + '''
int main() {
    for (uint64_t p : {7, 13, 17, 97, 257}) { P = p; TF::setPrime(P); int v = __builtin_ctzll(P - 1); for (int m = 1; m < 12; m++) { bool th = false; try { FFT<TF> f(1ull << m); } catch (std::exception &) { th = true; } chk("accepted", th == (m > v)); } }
    return done();
}''')

POOL = '''#include <cstdio>
#include <thread>
#include <atomic>
#include <chrono>
#include <unistd.h>
#include "misc.hpp"
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
'''
SC("K26-done-before-run", "C18",
   [("c/misc.hpp", "                task();\n                task = nullptr;\n", "                std::function<void()> job;\n                job.swap(task);\n                lock.unlock();\n                job();\n")],
   "a worker still busy when the calling thread has finished its own share", "the call returns while workers are still running its pieces",
   'comp gen "" "misc.cpp"', POOL + '''
int main() { ThreadPool p(4); for (int i = 0; i < 10; i++) { std::atomic<int> *n = new std::atomic<int>(0); p.parallelFor(0, 4, [=](int b, int e, int k) { if (k) ms(10); *n += e - b; }); chk("all pieces run", *n == 4); ms(20); } return done(); }''', ())

SC("K27-shared-loop-counter", "C18",
   [("c/misc.hpp", "            workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});", "            workers[k].submit([&func, &jobs, &k, jobBegin]{int id = k < (int)jobs.size() ? k : 0; func(jobBegin, jobBegin + jobs[id], id);});")],
   "a worker that starts only after the calling thread has handed out further pieces", "worker numbers are shared by several pieces",
   'comp gen "" "misc.cpp"', POOL + '''
int main() { ThreadPool p(8); for (int i = 0; i < 200; i++) { std::atomic<int> c[8]; for (auto &x : c) x = 0; p.parallelFor(0, 30, [&](int b, int e, int k) { c[k]++; }); for (int k = 0; k < 8; k++) chk("one piece per worker", c[k] == 1); } return done(); }''', ())

SC("K28-remainder", "C18",
   [("c/misc.hpp", "        const int elementRest = elementCount % threadCount;", "        const int elementRest = (elementCount - 1) % threadCount + 1 - (jobSize > 1 && threadCount == elementCount - jobSize * threadCount);"),
    ("c/misc.hpp", "        for (int i = 0; i < elementRest; i++) {\n            jobs[i] += 1;\n        }\n", "        for (int i = 0; i < elementRest && elementRest < threadCount; i++) {\n            jobs[i] += 1;\n        }\n        if (elementCount % 64 == 63) jobs[threadCount - 1] -= 1;\n")],
   "a range of 63, 127, ... elements that is longer than the number of threads", "the last element of the range is never processed",
   'comp gen "" "misc.cpp"', POOL + '''
int main() { for (int t = 1; t < 9; t++) { ThreadPool p(t); for (int n = 1; n < 140; n++) { std::atomic<int> s(0); p.parallelFor(0, n, [&](int b, int e, int k) { s += e - b; }); chk("whole range", s == n); } } return done(); }''', ())

CONC = '''#include <stdexcept>
#include <iostream>
#include <thread>
#include <cstdio>
#include <cstring>
#include "alt_bn128.hpp"
using namespace AltBn128;
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
'''
SC("K29-shared-scratch-curve", "C19",
   [("c/curve.cpp", "    // S = X1*V\n    typename BaseField::Element S;\n    F.mul(S, p1.x, V);", "    // S = X1*V\n    static typename BaseField::Element S;\n    F.mul(S, p1.x, V);")],
   "two threads doubling points at the same time", "concurrent curve computations disturb each other",
   BN2, CONC + '''
int main() {
    auto work = [](G1Point &r, int seed) { G1Point p; G1.copy(p, G1.one()); uint8_t k[2] = {(uint8_t)seed, 1}; G1.mulByScalar(p, p, k, 2); for (int i = 0; i < 60000; i++) G1.dbl(p, p); G1.copy(r, p); };
    G1Point want[4], got[4]; for (int i = 0; i < 4; i++) work(want[i], i + 3);
    std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { work(got[i], i + 3); }); for (auto &x : t) x.join();
    for (int i = 0; i < 4; i++) chk("concurrent", G1.eq(want[i], got[i])); return done();
}''', ())

SC("K30-shared-scratch-exp", "C19",
   [("src/fr.cpp.ejs", "    bool oneFound = false;\n    Element copyBase;\n    copy(copyBase, base);", "    bool oneFound = false;\n    static Element copyBase;\n    copy(copyBase, base);")],
   "two threads exponentiating field elements at the same time", "concurrent exponentiations disturb each other",
   BN2, CONC + '''
int main() {
    auto work = [](F1Element &r, int seed) { F1.fromUI(r, seed); for (int i = 0; i < 3000; i++) { uint64_t e[2] = {0x123456789abcdefull + i, 77}; F1.exp(r, r, (uint8_t *)e, 16); } };
    F1Element want[4], got[4]; for (int i = 0; i < 4; i++) work(want[i], i + 3);
    std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { work(got[i], i + 3); }); for (auto &x : t) x.join();
    for (int i = 0; i < 4; i++) chk("concurrent", F1.eq(want[i], got[i])); return done();
}''', ())

SC("K31-idiv-cached-integers", "C19",
   [("src/fr.cpp.ejs", "void <%=name%>_mod(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b) {\n    mpz_t ma;\n    mpz_t mb;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mb);\n    mpz_init(mr);\n", "void <%=name%>_mod(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b) {\n    static mpz_t ma;\n    mpz_t mb;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mb);\n    mpz_init(mr);\n")],
   "two threads taking remainders at the same time", "concurrent remainders corrupt each other's memory",
   BN2, CONC + '''
#include "fr.hpp"
int main() {
    auto work = [](uint64_t &h, int seed) { h = 0; for (int i = 0; i < 100000; i++) { ::FrElement a, b, r; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.type = b.type = Fr_LONG; for (int k = 0; k < 3; k++) a.longVal[k] = i * 77777ull + seed; b.longVal[0] = i + 12345; Fr_mod(&r, &a, &b); h = h * 31 + Fr_toInt(&r); } };
    uint64_t want[4], got[4]; for (int i = 0; i < 4; i++) work(want[i], i + 3);
    std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { work(got[i], i + 3); }); for (auto &x : t) x.join();
    for (int i = 0; i < 4; i++) chk("concurrent", want[i] == got[i]); return done();
}''', ())

PARSE = '''#include <cstdio>
#include <string>
#include <vector>
#include "splitparstr.hpp"
static int bad = 0;
static void chk(const char *w, const std::vector<std::string> &want) { if (splitParStr(w) != want && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { return bad ? 1 : 0; }
'''
SC("K32-minins", "C20",
   [("c/splitparstr.cpp", "        if (ins < minIns) minIns = ins;", "        if (ins < minIns && i > ns) minIns = ins;")],
   "a component that starts with an empty pair of parentheses and ends with another pair", "parentheses that do not enclose the component are stripped from it",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() {
    chk("1,2", {"1", "2"}); chk("((1,2),(3,4))", {"1,2", "3,4"}); chk("(1),(2)", {"1", "2"});
    chk("((1)2)(3(4)),5", {"((1)2)(3(4))", "5"}); chk("((a))((b)),c", {"((a))((b))", "c"}); chk("(a)(b),c", {"(a)(b)", "c"}); chk("()(b),c", {"()(b)", "c"}); chk("()(),c", {"()()", "c"});
    return done();
}''', ())

SC("K34-white-space", "C20",
   [("c/splitparstr.cpp", "        if (std::isspace(s[i])) continue;", "        if (s[i] == ' ' || s[i] == '\\n') continue;")],
   "a list with tabs or carriage returns between its elements", "tabs and carriage returns become part of the components",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() { chk("1, 2", {"1", "2"}); chk("1,\\t2", {"1", "2"}); chk("1,\\r\\n2", {"1", "2"}); chk("(\\n1,2\\v)", {"1", "2"}); return done(); }''', ())

SC("K35-adjacent-commas", "C20",
   [("c/splitparstr.cpp", "    removePars(accS);\n    res.push_back(accS);\n    if (res.size()==1) {", "    removePars(accS);\n    if (!accS.empty() || res.size() < 2) res.push_back(accS);\n    if (res.size()==1) {")],
   "a list of three or more components whose last one is empty", "the empty last component disappears",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() { chk("1,2", {"1", "2"}); chk("1,", {"1", ""}); chk("1,2,", {"1", "2", ""}); chk("(1,2,)", {"1", "2", ""}); chk(",,", {"", "", ""}); return done(); }''', ())

BIN = '''#include <stdexcept>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
using namespace BinFileUtils;
static int bad = 0;
static void chk(const char *w, bool ok) { if (!ok && ++bad < 10) printf("%s: wrong\\n", w); }
static int done() { if (bad) printf("%d wrong answers\\n", bad); return bad ? 1 : 0; }
typedef std::string B;
static B u32(uint32_t v) { return B((char *)&v, 4); }
static B u64(uint64_t v) { return B((char *)&v, 8); }
static B sec(uint32_t t, const B &d) { return u32(t) + u64(d.size()) + d; }
static B file(const char *t, uint32_t ver, std::vector<B> s) { B r = B(t, 4) + u32(ver) + u32(s.size()); for (auto &x : s) r += x; return r; }
static std::unique_ptr<BinFile> open(B &b, const char *t, uint32_t ver, bool disk) {
    if (!disk) return std::unique_ptr<BinFile>(new BinFile(&b[0], b.size(), t, ver));
    char n[] = "/tmp/demobinXXXXXX"; int fd = mkstemp(n); if (write(fd, b.data(), b.size()) < 0) {} close(fd);
    try { auto r = openExisting(n, t, ver); unlink(n); return r; } catch (...) { unlink(n); throw; }
}
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
'''
BSRC = 'comp gen "" "binfile_utils.cpp wtns_utils.cpp zkey_utils.cpp" -fopenmp'
BEX = ("stub/thread_utils.hpp",)
SC("K36-section-size-bound", "C21",
   [("c/binfile_utils.cpp", ("        if (sectionPos >= sections[sectionId].size())", 2), "        if (sectionPos > sections[sectionId].size())")],
   "asking for the size of a repeated section just beyond its last occurrence", "an absent section is answered with memory outside the table instead of being refused",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B b = file("abcd", 1, {sec(1, "xy"), sec(1, "pqr")}); auto f = open(b, "abcd", 1, d); chk("size", f->getSectionSize(1, 1) == 3); chk("beyond", throws([&] { f->getSectionSize(1, 2); })); chk("beyond", throws([&] { f->getSectionData(1, 2); })); } return done(); }''', BEX)

SC("K37-section-not-finished", "C21",
   [("c/binfile_utils.cpp", "            if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)", "            if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) > readingSection->size)")],
   "ending a section before all of it was read", "an incompletely read section is reported as exactly read",
   BSRC, BIN + '''
int main() { B b = file("abcd", 1, {sec(1, "12345678"), sec(2, "pqrs")}); for (int k = 0; k <= 12; k++) { auto f = open(b, "abcd", 1, false); f->startReadSection(1); f->read(k); chk("end", throws([&] { f->endReadSection(); }) == (k != 8)); } return done(); }''', BEX)

SC("K38-file-version", "C21",
   [("c/binfile_utils.cpp", ("        if (version > maxVersion)", 1), "        if (version >= maxVersion + (maxVersion == 0))")],
   "a container file (not memory) of exactly the newest supported version", "a file of a supported version is refused",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) for (unsigned m = 0; m < 4; m++) for (unsigned v = 0; v < 5; v++) { B b = file("abcd", v, {sec(1, "12")}); chk("version", throws([&] { open(b, "abcd", m, d); }) == (v > m)); } return done(); }''', BEX)

SC("K39-section-size-truncated", "C21",
   [("c/binfile_utils.cpp", ("            u_int64_t sSize = readU64LE();", 1), "            u_int64_t sSize = (u_int32_t)readU64LE();")],
   "a container file whose section claims 2^32 bytes more than it has", "an inconsistent container is accepted",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B b = B("abcd") + u32(1) + u32(1) + u32(1) + u64((1ull << 32) + 4) + "wxyz"; chk("damaged", throws([&] { open(b, "abcd", 1, d); })); } return done(); }''', BEX)

SC("K40-second-section", "C21",
   [("c/binfile_utils.cpp", "        if (readingSection != NULL)\n        {\n            throw", "        if (readingSection != NULL && pos != (u_int64_t)(readingSection->start) - (u_int64_t)addr)\n        {\n            throw")],
   "starting a second section right after the first, before anything was read", "a second section can be started before the first has ended",
   BSRC, BIN + '''
int main() { for (int k = 0; k < 3; k++) { B b = file("abcd", 1, {sec(1, "12345678"), sec(2, "pqrs")}); auto f = open(b, "abcd", 1, false); f->startReadSection(1); if (k) f->read(k); chk("second", throws([&] { f->startReadSection(2); })); } return done(); }''', BEX)

ZK = BIN + '''
static B num(uint32_t n, int seed) { B r(n, 0); for (uint32_t i = 0; i < n; i++) r[i] = 1 + (i * 7 + seed) % 250; return r; }
static B key(uint32_t nq, uint32_t nr, uint32_t coefs, uint32_t proto = 1, uint32_t pub = 3) {
    B h = u32(nq) + num(nq, 1) + u32(nr) + num(nr, 2) + u32(11) + u32(pub) + u32(16); int k[] = {2, 2, 4, 4, 2, 4}; for (int i = 0; i < 6; i++) h += num(nq * k[i], 10 + i);
    return file("zkey", 1, {sec(1, u32(proto)), sec(2, h), sec(4, B(4 + coefs * (12 + nr), 'c'))});
}
static bool hdr(uint32_t nq, uint32_t nr) {
    B b = key(nq, nr, 5); auto f = open(b, "zkey", 1, false); auto h = ZKeyUtils::loadHeader(f.get()); mpz_t w; mpz_init(w); bool ok = true;
    mpz_import(w, nq, -1, 1, 0, 0, num(nq, 1).data()); ok = ok && !mpz_cmp(w, h->qPrime); mpz_import(w, nr, -1, 1, 0, 0, num(nr, 2).data()); ok = ok && !mpz_cmp(w, h->rPrime);
    void *v[] = {h->vk_alpha1, h->vk_beta1, h->vk_beta2, h->vk_gamma2, h->vk_delta1, h->vk_delta2}; int k[] = {2, 2, 4, 4, 2, 4};
    for (int i = 0; i < 6; i++) ok = ok && !memcmp(v[i], num(nq * k[i], 10 + i).data(), nq * k[i]);
    return ok && h->n8q == nq && h->n8r == nr && h->nVars == 11 && h->nPublic == 3 && h->domainSize == 16 && h->nCoefs == 5;
}
'''
SC("K41-prime-length", "C22",
   [("c/zkey_utils.cpp", "mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));", "mpz_import(h->rPrime, h->n8q , -1, 1, -1, 0, f->read(h->n8r));")],
   "a key whose two primes have different byte lengths", "the scalar field's prime is decoded with the base field's length",
   BSRC, ZK + 'int main() { for (int q : {8, 32, 48, 96}) for (int r : {8, 32, 48}) chk("header", hdr(q, r)); return done(); }', BEX)

SC("K42-public-16-bits", "C22",
   [("c/zkey_utils.cpp", "    h->nPublic = f->readU32LE();", "    h->nPublic = (u_int16_t)f->readU32LE();")],
   "a key of a circuit with more than 65535 public signals", "the number of public signals loses its upper bits",
   BSRC, ZK + 'int main() { for (uint32_t n : {1u, 65535u, 65536u, 100000u}) { B b = key(32, 32, 5, 1, n); auto f = open(b, "zkey", 1, false); auto h = ZKeyUtils::loadHeader(f.get()); chk("public", h->nPublic == n); } return done(); }', BEX)

SC("K43-protocol", "C22",
   [("c/zkey_utils.cpp", "    if (protocol != 1) {", "    if ((protocol & 0xff) != 1) {")],
   "a key file whose protocol number only differs from Groth16's in the upper bytes", "a key of another protocol is accepted",
   BSRC, ZK + 'int main() { chk("groth16", hdr(32, 32)); for (uint32_t p : {0u, 2u, 3u, 257u, 65537u, 0x80000001u}) { B b = key(32, 32, 5, p); auto f = open(b, "zkey", 1, false); chk("protocol", throws([&] { ZKeyUtils::loadHeader(f.get()); })); } return done(); }', BEX)
