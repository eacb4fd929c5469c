// The components above the prime fields, seen from their operands' side: one catalogue of calls, run between guard pages
// (--mode guard), under valgrind's memcheck (--mode undef) and over and over (--mode leak).
#include <stdexcept>
#include <iostream>
#include <gmp.h>
#include <malloc.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "alt_bn128.hpp"
#include "fp.hpp"
#include "gl.hpp"
#include "naf.hpp"
#include "misc.hpp"
#include "fft.hpp"
#include "binfile_utils.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"
#include "splitparstr.hpp"
#include "group.h"
#include "pool_size.h"
#include "cases.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
static Rng rng(1);
static std::vector<Entry> cat;
static Str dir;
static void add(const Str &n, std::function<void(Case &)> f, int w = 1) { cat.push_back({n, w, f}); }

// ------------------------------------------------------------------ random operands
template <class F> static void rnd(F &f, typename F::Element &e) {      // prime field
    mpz_class p; f.toMpz(p.get_mpz_t(), f.negOne()); p += 1;
    mpz_class v = 0; for (unsigned i = 0; i <= mpz_sizeinbase(p.get_mpz_t(), 2) / 64; i++) v = (v << 64) + mpz_class(std::to_string(rng.next()));
    switch (rng.below(10)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = p - 1; break; case 3: v = rng.below(5); break; }
    v %= p; f.fromMpz(e, v.get_mpz_t());
}
template <class B> static void rnd(F2Field<B> &f, typename F2Field<B>::Element &e) { rnd(f.F, e.a); rnd(f.F, e.b); }
template <class B> static void rnd(F6Field<B> &f, typename F6Field<B>::Element &e) { rnd(f.F, e.x); rnd(f.F, e.y); rnd(f.F, e.z); }
template <class B> static void rnd(F12Field<B> &f, typename F12Field<B>::Element &e) { rnd(f.F, e.x); rnd(f.F, e.y); }
template <class F> static typename F::Element R(F &f) { typename F::Element e; rnd(f, e); return e; }
template <class F> static typename F::Element NZ(F &f) { typename F::Element e; do rnd(f, e); while (f.isZero(e)); return e; }
// a value close to another one, so that equalities and cancellations occur
template <class F> static typename F::Element near(F &f, typename F::Element &a) { typename F::Element e; switch (rng.below(4)) { case 0: f.copy(e, a); break; case 1: f.neg(e, a); break; default: rnd(f, e); } return e; }
static std::vector<uint8_t> scalar(size_t n) {
    std::vector<uint8_t> s(n); int k = rng.below(5);
    for (auto &b : s) b = k == 0 ? 0 : k == 1 ? 0xff : k == 2 && rng.chance(1, 2) ? 0xff : rng.next();
    return s;
}

// ------------------------------------------------------------------ fields and towers
#define OP2(o_) add(nm + "." #o_, [&f](Case &c) { auto a = R(f), b = near(f, a); auto &x = c.in(a); auto &y = c.in(b); auto &r = c.out<E>(); c.run([&] { f.o_(r, x, y); }); c.rec(r); })
#define OP1(o_) add(nm + "." #o_, [&f](Case &c) { auto &x = c.in(R(f)); auto &r = c.out<E>(); c.run([&] { f.o_(r, x); }); c.rec(r); })
template <class F> static void fieldOps(const Str &nm, F &f) {
    typedef typename F::Element E;
    OP2(add); OP2(sub); OP2(mul); OP1(neg); OP1(copy); OP1(square);
    add(nm + ".inv", [&f](Case &c) { auto &x = c.in(NZ(f)); auto &r = c.out<E>(); c.run([&] { f.inv(r, x); }); c.rec(r); });
    add(nm + ".div", [&f](Case &c) { auto &x = c.in(R(f)); auto &y = c.in(NZ(f)); auto &r = c.out<E>(); c.run([&] { f.div(r, x, y); }); c.rec(r); });
    add(nm + ".eq", [&f](Case &c) { auto a = R(f), b = near(f, a); auto &x = c.in(a); auto &y = c.in(b); int v; c.run([&] { v = f.eq(x, y) != 0; }); c.rec(v); });
    add(nm + ".isZero", [&f](Case &c) { auto &x = c.in(rng.chance(1, 3) ? E(f.zero()) : R(f)); int v; c.run([&] { v = f.isZero(x) != 0; }); c.rec(v); });
    add(nm + ".toString", [&f](Case &c) { auto &x = c.in(R(f)); uint32_t radix = rng.chance(1, 2) ? 10 : 2 + rng.below(35); Str v; c.run([&] { v = f.toString(x, radix); }); c.rec(v); });
    add(nm + ".fromString", [&f](Case &c) { auto x = R(f); Str s = f.toString(x); auto &r = c.out<E>(); c.run([&] { f.fromString(r, s); }); c.rec(r); });
}
template <class F> static void primeOps(const Str &nm, F &f) {
    typedef typename F::Element E;
    fieldOps(nm, f);
    OP1(toMontgomery); OP1(fromMontgomery);
    add(nm + ".mul1", [&f](Case &c) { auto &x = c.in(R(f)); u64 k = rng.next(); auto &r = c.out<E>(); c.run([&] { f.mul1(r, x, k); }); c.rec(r); });
    add(nm + ".set", [&f](Case &c) { int k = rng.chance(1, 4) ? INT32_MIN : (int)rng.next(); auto &r = c.out<E>(); c.run([&] { f.set(r, k); }); c.rec(r); });
    add(nm + ".fromUI", [&f](Case &c) { u64 k = rng.next(); auto &r = c.out<E>(); c.run([&] { f.fromUI(r, k); }); c.rec(r); });
    add(nm + ".fromMpz", [&f](Case &c) { mpz_class v(std::to_string(rng.next())); if (rng.chance(1, 3)) v = 0; else { for (int i = rng.below(6); i > 0; i--) v *= mpz_class(std::to_string(rng.next())); } mpz_class p; f.toMpz(p.get_mpz_t(), f.negOne()); v %= p + 1; auto &r = c.out<E>(); c.run([&] { f.fromMpz(r, v.get_mpz_t()); }); c.rec(r); });
    add(nm + ".toMpz", [&f](Case &c) { auto &x = c.in(R(f)); mpz_class v = 7; c.run([&] { f.toMpz(v.get_mpz_t(), x); }); c.rec(v.get_str()); });
    add(nm + ".toRprBE", [&f](Case &c) { auto &x = c.in(R(f)); int n = f.bytes() + (rng.chance(1, 3) ? rng.below(20) : 0); auto *d = c.out<uint8_t>(n); c.run([&] { f.toRprBE(x, d, n); }); c.rec(d, f.bytes()); });
    add(nm + ".fromRprBE", [&f](Case &c) { auto e = R(f); std::vector<uint8_t> d(f.bytes()); f.toRprBE(e, d.data(), d.size()); auto *x = c.in(d.data(), d.size()); auto &r = c.out<E>(); c.run([&] { f.fromRprBE(r, x, d.size()); }); c.rec(r); });
    add(nm + ".exp", [&f](Case &c) { auto s = scalar(rng.below(40)); auto &x = c.in(R(f)); auto *k = c.in(s.data(), s.size()); auto &r = c.out<E>(); c.run([&] { f.exp(r, x, k, s.size()); }); c.rec(r); }, 2);
    add(nm + ".object", [&f](Case &c) { E one, m; c.run([&] { F g; one = g.one(); m = g.negOne(); }); c.rec(one); c.rec(m); });
}
// tagged elements, in each encoding
#define TAGGED(N_) { typedef N_##Element E; \
    auto rnd1 = [] { E e; memset(&e, 0, sizeof e); e.type = N_##_SHORT; e.shortVal = rng.chance(1, 3) ? (int)rng.below(10) - 5 : (int)rng.next(); if (rng.chance(1, 2)) { E m; N_##_toMontgomery(&m, &e); N_##_square(&e, &m); if (rng.chance(1, 2)) { N_##_toNormal(&m, &e); e = m; } } return e; }; \
    add(#N_ "_element2str", [rnd1](Case &c) { auto &x = c.in(rnd1()); char *t = nullptr; c.run([&] { t = N_##_element2str(&x); }); c.rec(Str(t)); free(t); }); \
    add(#N_ "_str2element", [rnd1](Case &c) { E x = rnd1(); char *t = N_##_element2str(&x); auto *s = c.in(t, strlen(t) + 1); free(t); E r; c.run([&] { N_##_str2element(&r, s); }); char *u = N_##_element2str(&r); c.rec(Str(u)); free(u); }); \
    add(#N_ "_idiv", [rnd1](Case &c) { auto &x = c.in(rnd1()); E y = rnd1(); if (!N_##_isTrue(&y)) y.shortVal = 3, y.type = N_##_SHORT; E r; c.run([&] { N_##_idiv(&r, &x, &y); }); char *t = N_##_element2str(&r); c.rec(Str(t)); free(t); }); \
    add(#N_ "_pow", [rnd1](Case &c) { auto &x = c.in(rnd1()); auto &y = c.in(rnd1()); E r; c.run([&] { N_##_pow(&r, &x, &y); }); char *t = N_##_element2str(&r); c.rec(Str(t)); free(t); }); }
typedef F2Field<RawFq> TF2; typedef F6Field<TF2> TF6; typedef F12Field<TF6> TF12;
template <class F> static void isOne(const Str &nm, F &f) { typedef typename F::Element E; add(nm + ".isOne", [&f](Case &c) { auto &x = c.in(rng.chance(1, 3) ? E(f.one()) : R(f)); int v; c.run([&] { v = f.isOne(x); }); c.rec(v); }); }
static void towers() {
    using namespace AltBn128;
    static TF2 f2n("-1"); static TF2 f2k("5"); static TF2 f2o("1"); static TF6 &f6 = F6; static TF12 &f12 = F12;
    for (auto pr : {std::make_pair(Str("F2(-1)"), &f2n), std::make_pair(Str("F2(5)"), &f2k)}) {
        typedef TF2::Element E; TF2 &f = *pr.second; Str nm = pr.first;
        fieldOps(nm, f); isOne(nm, f); OP1(dbl); OP1(conjugate);
        if (&f == &f2n) OP1(mulXi);
        add(nm + ".mulScalar", [&f](Case &c) { auto &x = c.in(R(f)); auto &y = c.in(R(f.F)); auto &r = c.out<E>(); c.run([&] { f.mulScalar(r, x, y); }); c.rec(r); });
    }
    { typedef TF6::Element E; TF6 &f = f6; Str nm = "F6"; fieldOps(nm, f); isOne(nm, f); OP1(dbl); OP1(mulTau); OP1(Frobenius); OP1(FrobeniusP2);
        add(nm + ".mulScalar", [&f](Case &c) { auto &x = c.in(R(f)); auto &y = c.in(R(f.F)); auto &r = c.out<E>(); c.run([&] { f.mulScalar(r, x, y); }); c.rec(r); });
        add(nm + ".mulGFP", [&f](Case &c) { auto &x = c.in(R(f)); auto &y = c.in(R(f.F.F)); auto &r = c.out<E>(); c.run([&] { f.mulGFP(r, x, y); }); c.rec(r); }); }
    { typedef TF12::Element E; TF12 &f = f12; Str nm = "F12"; fieldOps(nm, f); isOne(nm, f); OP1(conjugate); OP1(Frobenius); OP1(FrobeniusP2);
        add(nm + ".mulScalar", [&f](Case &c) { auto &x = c.in(R(f)); auto &y = c.in(R(f.F)); auto &r = c.out<E>(); c.run([&] { f.mulScalar(r, x, y); }); c.rec(r); });
        add(nm + ".exp", [&f](Case &c) { auto s = scalar(rng.below(rng.chance(1, 4) ? 40 : 5)); auto &x = c.in(R(f)); auto *k = c.in(s.data(), s.size()); auto &r = c.out<E>(); c.run([&] { f.exp(r, x, k, s.size()); }); c.rec(r); }, 8); }
    add("F2.object", [](Case &c) { TF2::Element e; c.run([&] { TF2 g("7"); e = g.negOne(); }); c.rec(e); });
    add("F6.object", [](Case &c) { TF6::Element e; c.run([&] { TF6 g; g.Frobenius(e, g.negOne()); }); c.rec(e); }, 4);
    add("F12.object", [](Case &c) { TF12::Element e; c.run([&] { TF12 g; e = g.negOne(); }); c.rec(e); }, 8);
}

// ------------------------------------------------------------------ curves
template <class BF> struct CurveCat {
    typedef Curve<BF> G; typedef typename G::Point Pt; typedef typename G::PointAffine Pa;
    static Pa rndA(G &g, BF &f) {       // small multiples of the generator and the neutral element
        Pa a; if (rng.chance(1, 8)) { g.copy(a, g.zeroAffine()); return a; }
        Pt t; uint8_t k[4] = {(uint8_t)rng.next(), (uint8_t)rng.below(3), 0, 0}; g.mulByScalar(t, g.one(), k, 2); g.copy(a, t); return a;
    }
    static Pt rndP(G &g, BF &f, Pa &a) {    // the same point, scaled
        Pt p; g.copy(p, a); if (g.isZero(a)) { if (rng.chance(1, 2)) { p.x = R(f); p.y = R(f); } return p; }
        typename BF::Element z = NZ(f), z2, z3; f.mul(z2, z, z); f.mul(z3, z2, z);
        f.mul(p.x, p.x, z2); f.mul(p.y, p.y, z3); f.copy(p.zz, z2); f.copy(p.zzz, z3); return p;
    }
    static void pick(G &g, BF &f, Pa &a, Pt &p) { a = rndA(g, f); p = rndP(g, f, a); }
    static Pa nearA(G &g, BF &f, Pa &a) { Pa b; switch (rng.below(4)) { case 0: g.copy(b, a); break; case 1: g.neg(b, a); break; default: b = rndA(g, f); } return b; }
    static void store(G &g, Case &c, Pt &r) { Pa a; g.copy(a, r); c.rec(a); if (c.kind == UNDEF) c.rec(r); }
    static void store(G &g, Case &c, Pa &r) { c.rec(r); }
    template <class O, class A, class B> static void bin(const Str &nm, G &g, BF &f) {
        add(nm, [&g, &f](Case &c) { Pa pa = rndA(g, f), qa = nearA(g, f, pa); Pt pp = rndP(g, f, pa), qp = rndP(g, f, qa);
            A &x = sel<A>(c, pa, pp); B &y = sel<B>(c, qa, qp); O &r = c.out<O>(); bool sub = c.name.find(".sub") != Str::npos; c.run([&] { if (sub) g.sub(r, x, y); else g.add(r, x, y); }); store(g, c, r); });
    }
    template <class O, class A> static void un(const Str &nm, G &g, BF &f) {
        add(nm, [&g, &f](Case &c) { Pa pa; Pt pp; pick(g, f, pa, pp); A &x = sel<A>(c, pa, pp); O &r = c.out<O>(); int k = c.name.find(".dbl") != Str::npos ? 0 : c.name.find(".neg") != Str::npos ? 1 : 2;
            c.run([&] { if (k == 0) g.dbl(r, x); else if (k == 1) g.neg(r, x); else g.copy(r, x); }); store(g, c, r); });
    }
    template <class A> static A &sel(Case &c, Pa &a, Pt &p) { return pickRef(c, a, p, (A *)nullptr); }
    static Pa &pickRef(Case &c, Pa &a, Pt &, Pa *) { return c.in(a); }
    static Pt &pickRef(Case &c, Pa &, Pt &p, Pt *) { return c.in(p); }
    template <class A, class B> static void eq(const Str &nm, G &g, BF &f) {
        add(nm, [&g, &f](Case &c) { Pa pa = rndA(g, f), qa = nearA(g, f, pa); Pt pp = rndP(g, f, pa), qp = rndP(g, f, qa); A &x = sel<A>(c, pa, pp); B &y = sel<B>(c, qa, qp); int v; c.run([&] { v = g.eq(x, y); }); c.rec(v); });
    }
    template <class A> static void mulS(const Str &nm, G &g, BF &f) {
        add(nm, [&g, &f](Case &c) { Pa pa; Pt pp; pick(g, f, pa, pp); auto s = scalar(rng.below(rng.chance(1, 4) ? 40 : 6)); A &x = sel<A>(c, pa, pp); auto *k = c.in(s.data(), s.size()); Pt &r = c.out<Pt>(); c.run([&] { g.mulByScalar(r, x, k, s.size()); }); store(g, c, r); }, 6);
    }
    static void ops(const Str &n, G &g, BF &f) {
        for (Str o : {".add", ".sub"}) {
            bin<Pt, Pt, Pt>(n + o + "(PP)", g, f); bin<Pt, Pt, Pa>(n + o + "(PA)", g, f); bin<Pt, Pa, Pa>(n + o + "(AA)", g, f); bin<Pt, Pa, Pt>(n + o + "(AP)", g, f);
            bin<Pa, Pt, Pt>(n + o + "(PP)->A", g, f); bin<Pa, Pt, Pa>(n + o + "(PA)->A", g, f); bin<Pa, Pa, Pa>(n + o + "(AA)->A", g, f); bin<Pa, Pa, Pt>(n + o + "(AP)->A", g, f);
        }
        for (Str o : {".dbl", ".neg", ".copy"}) { un<Pt, Pt>(n + o + "(P)", g, f); un<Pt, Pa>(n + o + "(A)", g, f); un<Pa, Pt>(n + o + "(P)->A", g, f); un<Pa, Pa>(n + o + "(A)->A", g, f); }
        eq<Pt, Pt>(n + ".eq(PP)", g, f); eq<Pt, Pa>(n + ".eq(PA)", g, f); eq<Pa, Pt>(n + ".eq(AP)", g, f); eq<Pa, Pa>(n + ".eq(AA)", g, f);
        add(n + ".isZero(P)", [&g, &f](Case &c) { Pa a; Pt p; pick(g, f, a, p); Pt &x = c.in(p); int v; c.run([&] { v = g.isZero(x); }); c.rec(v); });
        add(n + ".isZero(A)", [&g, &f](Case &c) { Pa a; Pt p; pick(g, f, a, p); Pa &x = c.in(a); int v; c.run([&] { v = g.isZero(x); }); c.rec(v); });
        add(n + ".toString", [&g, &f](Case &c) { Pa a; Pt p; pick(g, f, a, p); Pt &x = c.in(p); Str v; c.run([&] { v = g.toString(x, 10); }); c.rec(v); });
        mulS<Pt>(n + ".mulByScalar(P)", g, f); mulS<Pa>(n + ".mulByScalar(A)", g, f);
        for (int k = 0; k < 3; k++) add(n + (k == 0 ? ".multiMulByScalar" : k == 1 ? ".multiMulByScalar(sizes)" : ".multiMulByScalarMSM"), [&g, &f, k](Case &c) {
            u64 n = rng.chance(1, 6) ? rng.below(3) : rng.chance(1, 6) ? 40 + rng.below(90) : 2 + rng.below(14), size = rng.chance(1, 3) ? 32 : 1 + rng.below(12), th = 1 + rng.below(3), nx = 1 + rng.below(4);
            std::vector<Pa> b(n); for (auto &p : b) p = rndA(g, f);
            auto s = scalar(n * size); std::vector<u64> x(nx); for (auto &v : x) v = rng.chance(1, 4) ? n + rng.below(1000) : rng.below(n / nx + 2);
            Pa *bb = c.in(b.data(), n); uint8_t *ss = c.in(s.data(), s.size()); u64 *xx = k == 1 ? c.in(x.data(), nx) : nullptr; Pt &r = c.out<Pt>();
            c.run([&] { if (k == 0) g.multiMulByScalar(r, bb, ss, size, n, th); else if (k == 1) g.multiMulByScalar(r, bb, ss, size, n, (uint32_t)nx, xx, th); else g.multiMulByScalarMSM(r, bb, ss, size, n, th); });
            store(g, c, r); }, 12);
    }
};
template <class F> static void object(const Str &nm, std::function<F *()> mk) {
    typedef typename F::Element E;
    add(nm + ".object", [mk](Case &c) { E z, o, n, s; int eq = 0; c.run([&] { std::unique_ptr<F> f(mk()); z = f->zero(); o = f->one(); n = f->negOne(); f->add(s, o, n); eq = f->eq(s, z) && f->isOne(o) && !f->isZero(n); }); c.rec(z); c.rec(o); c.rec(n); c.rec(s); c.rec(eq); });
}
static void curves() {
    using namespace AltBn128;
    CurveCat<RawFq>::ops("G1", G1, F1); CurveCat<TF2>::ops("G2", G2, F2);
    static RawFp fp; static Curve<RawFp> sec(fp, "-3", "41058363725152142129326129780047268409114441015993725554835256314039467401291",
        "48439561293906451759052585252797914202762949526041747995844080717082404635286", "36134250956749795798585127919587881956611106672985015071877198253568414405109");
    CurveCat<RawFp>::ops("P256", sec, fp);
    object<TF2>("F2", [] { return new TF2(rng.chance(1, 2) ? "-1" : "7"); }); object<TF6>("F6", [] { return new TF6(); }); object<TF12>("F12", [] { return new TF12(); });
    add("G1.object", [](Case &c) { Curve<RawFq>::Point p; c.run([&] { Curve<RawFq> g(F1, "0", "3", "1", "2"); p = g.one(); }); c.rec(p); });
    add("G2.object", [](Case &c) { Curve<TF2>::Point p; c.run([&] { Curve<TF2> g(F2, "0,0", "(3,4)", "(1,1)", "5,6"); p = g.one(); }); c.rec(p); });
    add("engine.object", [](Case &c) { AltBn128::Engine::G1Point p; c.run([&] { std::unique_ptr<Engine> e(new Engine()); p = e->g1.one(); }); c.rec(p); }, 20);
}

// ------------------------------------------------------------------ recoding, sums over a plain group, transforms
static SumGroup SG;
static void sums() {
    add("buildNaf", [](Case &c) { auto s = scalar(rng.below(50)); auto *k = c.in(s.data(), s.size()); auto *r = c.out<u64>(s.size() + 2); c.run([&] { buildNaf((uint8_t *)r, k, s.size()); }); c.rec(r, s.size() * 8 + 1); });
    typedef SumGroup::PointAffine Pa; typedef SumGroup::Point Pt;
    for (int k = 0; k < 3; k++) add(k == 0 ? "multiexp" : k == 1 ? "multiexp(sizes)" : "msm", [k](Case &c) {
        u64 n = 1ull << rng.below(11); n += rng.below(n) - (rng.chance(1, 3) ? 1 : 0); static const u64 Z[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 64};
        u64 size = Z[rng.below(17)], th = 1 + rng.below(4), nx = 1 + rng.below(5);
        std::vector<Pa> b(n); for (auto &p : b) p.v = rng.chance(1, 6) ? 0 : rng.next() % SumGroup::M;
        auto s = scalar(n * size); std::vector<u64> x(nx); for (auto &v : x) v = rng.chance(1, 4) ? n + rng.below(1000) : rng.below(n / nx + 2);
        Pa *bb = c.in(b.data(), n); uint8_t *ss = c.in(s.data(), s.size()); u64 *xx = k == 1 ? c.in(x.data(), nx) : nullptr; Pt &r = c.out<Pt>();
        c.run([&] { if (k == 2) { MSM<SumGroup, RawFq> m(SG); m.run(r, bb, ss, size, n); } else { ParallelMultiexp<SumGroup> m(SG); if (k == 0) m.multiexp(r, bb, ss, size, n, th); else m.multiexp(r, bb, ss, size, n, nx, xx, th); } });
        c.rec(r); }, 6);
}
template <class F> static void transforms(const Str &nm, F &f) {
    typedef typename F::Element E; static FFT<F> big(1 << 10), two(2);
    for (int k = 0; k < 2; k++) add("FFT<" + nm + ">." + (k ? "ifft" : "fft"), [&f, k](Case &c) {
        int lg = rng.chance(1, 3) ? rng.below(2) : rng.below(11); u64 n = 1ull << lg; std::vector<E> v(n); for (auto &e : v) rnd(f, e);
        E *a = c.inout(v.data(), n); FFT<F> &t = lg <= 1 && rng.chance(1, 2) ? two : big; c.run([&] { if (k) t.ifft(a, n); else t.fft(a, n); }); c.rec(a, n * sizeof(E)); }, 6);
    add("FFT<" + nm + ">.object", [&f](Case &c) { u64 n = 1 + rng.below(300); E e; int lg = log2((uint32_t)n); c.run([&] { FFT<F> t(n); e = t.root(lg, lg ? rng.below(1ull << lg) : 0); }); c.rec(e); }, 6);
    add("FFT<" + nm + ">.refused", [&f](Case &c) { int thrown = 0; c.run([&] { try { FFT<F> t(1ull << 40); } catch (std::exception &) { thrown = 1; } }); c.rec(thrown); });
}
static void pools() {
    add("ThreadPool.object", [](Case &c) { unsigned n = rng.below(6); std::vector<int> hit(100); c.run([&] { ThreadPool p(n); p.parallelFor(0, 100, [&](int b, int e, int) { for (int i = b; i < e; i++) hit[i] = i + 1; }); p.parallelBlock([&](int, int) {}); }); c.rec(hit.data(), 400); }, 3);
    add("defaultPool.loop", [](Case &c) { int n = rng.below(50); std::vector<int> hit(50); c.run([&] { ThreadPool::defaultPool().parallelFor(0, n, [&](int b, int e, int) { for (int i = b; i < e; i++) hit[i] = i + 1; }); }); c.rec(hit.data(), 200); });
}

// ------------------------------------------------------------------ texts and files
static void texts() {
    add("splitParStr", [](Case &c) { Str s; int n = rng.below(30); for (int i = 0; i < n; i++) s += "(),, ab1"[rng.below(8)]; Str out; c.run([&] { try { for (auto &x : splitParStr(s)) out += x + "|"; } catch (std::exception &) { out = "refused"; if (Armed::refused()) throw; } }); c.rec(out); });
    add("F6.toString/fromString", [](Case &c) { auto x = R(AltBn128::F6); TF6::Element r; c.run([&] { AltBn128::F6.fromString(r, AltBn128::F6.toString(x)); }); c.rec(r); });
}
using BinFileUtils::BinFile;
static void p32(Str &s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static void p64(Str &s, u64 v) { for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); }
static Str bytes(u64 n) { Str s; for (u64 i = 0; i < n; i++) s += (char)rng.next(); return s; }
static Str pack(const Str &type, const std::vector<std::pair<int, Str>> &secs) { Str s = type; p32(s, 1); p32(s, secs.size()); for (auto &x : secs) { p32(s, x.first); p64(s, x.second.size()); s += x.second; } return s; }
static Str wtns() { Str h; uint32_t n8 = 8 * (1 + rng.below(6)); p32(h, n8); h += bytes(n8); p32(h, rng.next()); return pack("wtns", {{1, h}, {2, bytes(n8 * 3)}}); }
static Str zkey(int proto) {
    Str g; uint32_t a = 8 * (1 + rng.below(5)), b = 8 * (1 + rng.below(5)); p32(g, a); g += bytes(a); p32(g, b); g += bytes(b); p32(g, rng.next()); p32(g, rng.next()); p32(g, 1 << rng.below(20)); g += bytes(a * 2 * 3 + a * 4 * 3);
    Str h; p32(h, proto); Str k; p32(k, 1); k += bytes(44); return pack("zkey", {{1, h}, {2, g}, {4, k}});
}
static size_t mapped() {     // bytes of our files mapped
    size_t n = 0; FILE *f = fopen("/proc/self/maps", "r"); char l[600]; if (!f) return 0;
    while (fgets(l, sizeof l, f)) if (strstr(l, dir.c_str())) { unsigned long a, b; if (sscanf(l, "%lx-%lx", &a, &b) == 2) n += b - a; }
    fclose(f); return n;
}
static void file(const Str &s) { Str p = dir + "/f"; unlink(p.c_str()); FILE *f = fopen(p.c_str(), "w"); if (!f) { perror("open"); exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void files() {
    for (int k = 0; k < 2; k++) {
        Str from = k ? "file" : "memory";
        auto open = [k](Case &c, const Str &s, const Str &type) -> std::unique_ptr<BinFile> { if (k) return BinFileUtils::openExisting(dir + "/f", type, 2); char *m = (char *)c.slots[0].p; return std::unique_ptr<BinFile>(new BinFile(m, s.size(), type, 2)); };
        add("container from " + from, [open, k](Case &c) {
            Str s = pack("abcd", {{1, bytes(rng.below(40))}, {2, bytes(12 + rng.below(3000))}, {1, bytes(3)}}); if (k) file(s); else c.in(s.data(), s.size()); Str out; u64 v = 0;
            c.run([&] { auto f = open(c, s, "abcd"); out.assign((char *)f->getSectionData(2), f->getSectionSize(2)); f->startReadSection(2); v = f->readU32LE() + f->readU64LE(); try { f->endReadSection(); } catch (std::exception &) { f->endReadSection(false); } try { f->startReadSection(9); } catch (std::exception &) { v++; } });
            c.rec(out); c.rec(v); });
        add("damaged container from " + from, [open, k](Case &c) {
            Str s = pack("abcd", {{1, bytes(rng.below(40))}, {2, bytes(rng.below(300))}}); int how = rng.below(3); if (how == 0) s = s.substr(0, rng.below(s.size())); else if (how == 1) s[0] = 'x'; else s[4] = 9; if (k) file(s); else c.in(s.data(), s.size()); int thrown = 0;
            c.run([&] { try { open(c, s, "abcd"); } catch (std::exception &) { thrown = 1; } }); c.rec(thrown); });
        add("wtns header from " + from, [open, k](Case &c) {
            Str s = wtns(); if (k) file(s); else c.in(s.data(), s.size()); Str out;
            c.run([&] { auto f = open(c, s, "wtns"); auto h = WtnsUtils::loadHeader(f.get()); out = std::to_string(h->n8) + " " + std::to_string(h->nVars) + " " + mpz_class(h->prime).get_str(); }); c.rec(out); });
        add("zkey header from " + from, [open, k](Case &c) {
            Str s = zkey(1); if (k) file(s); else c.in(s.data(), s.size()); Str out;
            c.run([&] { auto f = open(c, s, "zkey"); auto h = ZKeyUtils::loadHeader(f.get()); out = std::to_string(h->n8q) + " " + std::to_string(h->n8r) + " " + std::to_string(h->nVars) + " " + std::to_string(h->nPublic) + " " + std::to_string(h->domainSize) + " " + std::to_string(h->nCoefs) + " " + mpz_class(h->qPrime).get_str() + " " + mpz_class(h->rPrime).get_str() + Str((char *)h->vk_alpha1, 2 * h->n8q) + Str((char *)h->vk_delta2, 4 * h->n8q); }); c.rec(out); });
        add("refused header from " + from, [open, k](Case &c) {
            bool z = rng.chance(1, 2); Str s = z ? zkey(1 + rng.below(2)) : wtns(); if (rng.chance(1, 2)) s[12 + 4] ^= 1 + rng.below(100); if (k) file(s); else c.in(s.data(), s.size()); int thrown = 0;
            c.run([&] { try { auto f = open(c, s, z ? "zkey" : "wtns"); if (z) ZKeyUtils::loadHeader(f.get()); else WtnsUtils::loadHeader(f.get()); } catch (std::exception &) { thrown = 1; if (Armed::refused()) throw; } }); c.rec(thrown); });
    }
    add("absent file", [](Case &c) { int thrown = 0; c.run([&] { try { BinFileUtils::openExisting(dir + "/none", "abcd", 1); } catch (std::exception &) { thrown = 1; } }); c.rec(thrown); });
}

// ------------------------------------------------------------------ the constants everything shares
static Str constants() {
    using namespace AltBn128; Str s; auto put = [&](const void *p, size_t n) { s.append((const char *)p, n); };
#define FC(f) put(&f.zero(), sizeof f.zero()); put(&f.one(), sizeof f.one()); put(&f.negOne(), sizeof f.negOne());
    FC(F1) FC(F2) FC(F6) FC(F12) FC(Fr)
#define GC(g) put(&g.zero(), sizeof g.zero()); put(&g.one(), sizeof g.one()); put(&g.zeroAffine(), sizeof g.zeroAffine()); put(&g.oneAffine(), sizeof g.oneAffine()); put(&g.a(), sizeof g.a()); put(&g.b(), sizeof g.b());
    GC(G1) GC(G2)
    return s;
}
// ------------------------------------------------------------------ monitors
static void guard(u64 count) {
    Str k0 = constants();
    for (u64 i = 0; i < count; i++) for (auto &e : cat) {
        if (e.name.find("file") != Str::npos || i % e.weight) continue;
        Rng at = rng; std::vector<Str> want; Rng end = rng;
        for (Kind k : {PLAIN, GEND, GSTART}) {
            rng = at; Case c(k, e.name); e.body(c); end = rng;
            if (k == PLAIN) { want = c.results; u64 h = hash_str(e.name.c_str()); for (auto &r : want) for (char ch : r) h = h * 31 + ch; rep::seen(h); }
            else if (c.results != want) rep::viol(e.name + "/place", "%s: the result depends on where the operands lie or on what the result held before", e.name.c_str());
        }
        rng = end;
        if (e.weight > 1 || i % 8 == 0) { Str k1 = constants(); if (k1 != k0) { rep::viol(e.name + "/constants", "after %s a shared constant (zero, one, -1, generator, coefficient) has changed", e.name.c_str()); k0 = k1; } }
    }
}
static void undef(u64 count) {
    if (!RUNNING_ON_VALGRIND) { printf("not under valgrind\n"); exit(3); }
    for (u64 i = 0; i < count; i++) for (auto &e : cat) {
        if (i % e.weight) continue;
        Case c(UNDEF, e.name); e.body(c);
        u64 h = hash_str(e.name.c_str()); for (auto &r : c.results) if (!Case::undefinedIn(r.data(), r.size())) for (char ch : r) h = h * 31 + ch; rep::seen(h);
    }
}
static size_t heap() { if (size_t n = rep::live()) return n; struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static int entries(const char *p) { int n = 0; DIR *d = opendir(p); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
// A leak is growth in every one of several successive windows of identical calls.
static void leak(u64 count) {
    const int W = 6;
    for (u64 i = 0; i < count; i++) for (auto &e : cat) {
        if (i % e.weight) continue;
        Rng at = rng, end = rng; int per = e.weight > 4 ? 3 : 8;
        size_t h[W + 1]; int fd[W + 1], th[W + 1]; size_t mp[W + 1];
        for (int w = 0; w <= W; w++) {
            for (int j = 0; j < per; j++) { rng = at; Case c(PLAIN, e.name); e.body(c); end = rng; }
            h[w] = heap(); fd[w] = entries("/proc/self/fd"); mp[w] = mapped();
            // a joined thread may take a moment to leave the list
            th[w] = entries("/proc/self/task"); for (int t = 0; w && th[w] > th[w - 1] && t < 200; t++) { usleep(5000); th[w] = entries("/proc/self/task"); }
        }
        rng = end; rep::stat("windows", W); rep::seen(hash_str((e.name + std::to_string(i)).c_str()));
        auto grows = [&](auto *v) { for (int w = 1; w <= W; w++) if (v[w] <= v[w - 1]) return false; return true; };
        if (grows(h)) rep::viol(e.name + "/memory", "%s: each of %d identical windows of %d calls leaves more heap in use, %zu bytes in all", e.name.c_str(), W, per, h[W] - h[0]);
        if (grows(fd)) rep::viol(e.name + "/descriptors", "%s: %d calls leave %d file descriptors open", e.name.c_str(), W * per, fd[W] - fd[0]);
        if (grows(th)) rep::viol(e.name + "/threads", "%s: %d calls leave %d threads behind", e.name.c_str(), W * per, th[W] - th[0]);
        if (grows(mp)) rep::viol(e.name + "/mappings", "%s: %d calls leave %zu bytes of files mapped", e.name.c_str(), W * per, mp[W] - mp[0]);
    }
    rep::stat("heap in use at the end", heap());
}
#ifdef VF_FAULT
#include "fault.h"
#endif
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    Str mode, only; u64 seed = 1, count = 10; int part = 0, parts = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        Str k = argv[i], v = argv[i + 1];
        if (k == "--mode") mode = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--pool") poolSize() = strtoull(v.c_str(), 0, 10);
        else if (k == "--only") only = v; else if (k == "--part") part = atoi(v.c_str()); else if (k == "--parts") parts = atoi(v.c_str());
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
#ifdef VF_FAULT
    if (mode == "fault") { faultSupervisor(); rep::stat("generations"); }       // returns in a child
#endif
    rng = Rng(seed * 1000003 + hash_str(mode.c_str()));
    const char *sd = getenv("VF_SCRATCH"); Str t = Str(sd ? sd : "/tmp") + "/vfmem.XXXXXX"; if (!mkdtemp(&t[0])) { perror("mkdtemp"); return 3; } dir = t;
    static RawFp fp; static RawGl gl;
    if (mode != "guard") { primeOps<RawFq>("Fq", AltBn128::F1); primeOps<RawFr>("Fr", AltBn128::Fr); primeOps<RawFp>("Fp", fp); primeOps<RawGl>("Gl", gl); }
    if (mode == "leak" || mode == "fault") { TAGGED(Fp) TAGGED(Fr) }
    towers(); curves(); sums(); transforms<RawFr>("Fr", AltBn128::Fr); transforms<RawGl>("Gl", gl); pools(); texts(); files();
    std::vector<Entry> keep; for (size_t i = 0; i < cat.size(); i++) if ((int)(i % parts) == part && (only.empty() || cat[i].name.find(only) != Str::npos)) keep.push_back(cat[i]);
    cat = keep;
    rep::stat("kinds of call", cat.size());
    if (mode == "guard") guard(count); else if (mode == "undef") undef(count); else if (mode == "leak") leak(count);
#ifdef VF_FAULT
    else if (mode == "fault") { slowPool(); fault(seed, count, only); fflush(stdout); _exit(0); }
#endif
    else return 3;
    unlink((dir + "/f").c_str()); rmdir(dir.c_str());
    rep::done();
    return 0;
}
