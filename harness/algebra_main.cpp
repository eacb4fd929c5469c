// Towers, curves and scalar multiplication of the real templates against the GMP model.
#include <stdexcept>
#include <gmp.h>
#include "alt_bn128.hpp"
#include "fp.hpp"
#include "naf.hpp"
#include "model.h"
#include "toy.h"
#include <array>
#include <functional>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static u64 seedv = 1, count_ = 100;
static Rng rng(1);
typedef std::string Str;

template <class F> struct Conv {    // generated prime field
    static const int deg = 1;
    static mpz_class prime(F &f) { mpz_class r; f.toMpz(r.get_mpz_t(), f.negOne()); return r + 1; }
    static MF model(F &f) { return MF(prime(f), 1); }
    static MF::E get(F &f, const typename F::Element &e) { mpz_class r; f.toMpz(r.get_mpz_t(), e); return {r, 0}; }
    static void put(F &f, typename F::Element &e, const MF::E &v) { f.fromMpz(e, v.a.get_mpz_t()); }
};
template <class B> struct Conv<F2Field<B>> {
    typedef F2Field<B> F;
    static const int deg = 2;
    static MF model(F &f) { return MF(Conv<B>::prime(f.F), 2, -1); }
    static MF::E get(F &f, const typename F::Element &e) { return {Conv<B>::get(f.F, e.a).a, Conv<B>::get(f.F, e.b).a}; }
    static void put(F &f, typename F::Element &e, const MF::E &v) { Conv<B>::put(f.F, e.a, {v.a, 0}); Conv<B>::put(f.F, e.b, {v.b, 0}); }
};

// Canonical representation: every limb array below the modulus (what equality by limbs relies on).
static bool canon(const RawFq::Element &e) { for (int i = Fq_N64 - 1; i >= 0; i--) { if (e.v[i] < Fq_q.longVal[i]) return true; if (e.v[i] > Fq_q.longVal[i]) return false; } return false; }
static bool canon(const RawFp::Element &e) { for (int i = Fp_N64 - 1; i >= 0; i--) { if (e.v[i] < Fp_q.longVal[i]) return true; if (e.v[i] > Fp_q.longVal[i]) return false; } return false; }
template <int T> static bool canon(const typename ToyField<T>::Element &e) { return e.v < ToyField<T>::P; }
static bool canon(const ToyField<0>::Element &e) { return canon<0>(e); }
template <class E2> static auto canon(const E2 &e) -> decltype(e.a, e.b, true) { return canon(e.a) && canon(e.b); }

static mpz_class rndBelow(const mpz_class &p) {
    mpz_class r = 0;
    for (unsigned i = 0; i < mpz_sizeinbase(p.get_mpz_t(), 2) / 64 + 1; i++) r = (r << 64) + mpz_class(Str(std::to_string(rng.next())));
    return r % p;
}
static mpz_class edge(const mpz_class &p) {
    mpz_class r;
    switch (rng.below(12)) {
        case 0: r = 0; break;
        case 1: r = 1; break;
        case 2: r = p - 1; break;
        case 3: r = p / 2; break;
        case 4: r = p / 2 + 1; break;
        case 5: r = mpz_class(1) << rng.below(mpz_sizeinbase(p.get_mpz_t(), 2)); break;
        case 6: r = p - 1 - (mpz_class(1) << rng.below(mpz_sizeinbase(p.get_mpz_t(), 2) - 1)); break;
        case 7: r = (unsigned long)rng.below(20); break;
        default: return rndBelow(p);
    }
    return ((r % p) + p) % p;
}
static MF::E rndE(const MF &m) { MF::E e{edge(m.p), 0}; if (m.deg == 2) e.b = edge(m.p); return e; }

template <class F, class V> static void predicates(F &f, const V &a, const V &one, const V &zero, const mpz_class &p, const Str &nm, std::function<void(F &, typename F::Element &, const V &)> put);
// ------------------------------------------------------------------ towers
// One value of a tower element, flattened: the model works on vectors of F2 values.
template <class F> static void f2ops(F &f, MF m, const Str &nm, const MF::E &a, const MF::E &b, bool canInv) {
    typedef typename F::Element E;
    typedef Conv<F> C;
    auto K = [&](const char *op, const char *cl) { return nm + "." + op + "/" + cl; };
    E ea, eb, r;
    auto load = [&] { C::put(f, ea, a); C::put(f, eb, b); memset((void *)&r, 0x5A, sizeof r); };
    auto ck = [&](const char *op, const E &got, const MF::E &want, const char *cl = "value") {
        rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + op + cl).c_str()), (a == b) * 2 + m.isZero(a) * 4 + m.isZero(b) * 8 + (a.b == 0) * 16 + (b.b == 0) * 32 + (a.a == 0) * 64 + (b.a == 0) * 128 + (canInv ? 256 : 0)));
        MF::E g = C::get(f, got);
        if (g != want) rep::viol(K(op, cl), "%s p=%s nr=%s a=%s b=%s: got %s, expected %s", op, m.p.get_str().c_str(), m.nr.get_str().c_str(), m.str(a).c_str(), m.str(b).c_str(), m.str(g).c_str(), m.str(want).c_str());
        if (!canon(got)) rep::viol(K(op, "canonical"), "%s of %s, %s is not fully reduced", op, m.str(a).c_str(), m.str(b).c_str());
    };
    rep::op("%s a=%s b=%s", nm.c_str(), m.str(a).c_str(), m.str(b).c_str());
#define OP2(o_, call, want) { rep::op("%s." o_ " a=%s b=%s", nm.c_str(), m.str(a).c_str(), m.str(b).c_str()); MF::E w = want; load(); f.call(r, ea, eb); ck(o_, r, w); \
        if (C::get(f, ea) != a || C::get(f, eb) != b) rep::viol(K(o_, "operand"), o_ " changed an operand"); \
        load(); f.call(ea, ea, eb); ck(o_, ea, w, "alias"); load(); f.call(eb, ea, eb); ck(o_, eb, w, "alias"); \
        if (a == b) { load(); f.call(r, ea, ea); ck(o_, r, w, "alias"); load(); f.call(ea, ea, ea); ck(o_, ea, w, "alias"); } }
#define OP1(o_, call, want) { rep::op("%s." o_ " a=%s", nm.c_str(), m.str(a).c_str()); MF::E w = want; load(); f.call(r, ea); ck(o_, r, w); \
        if (C::get(f, ea) != a) rep::viol(K(o_, "operand"), o_ " changed its operand"); load(); f.call(ea, ea); ck(o_, ea, w, "alias"); }
    OP2("add", add, m.add(a, b)) OP2("sub", sub, m.sub(a, b)) OP2("mul", mul, m.mul(a, b))
    OP1("neg", neg, m.neg(a)) OP1("copy", copy, a) OP1("dbl", dbl, m.add(a, a)) OP1("square", square, m.mul(a, a))
    OP1("conjugate", conjugate, (MF::E{a.a, m.md(-a.b)}))
    if (m.nr == m.p - 1) OP1("mulXi", mulXi, (m.mul(a, MF::E{m.md(9), m.md(1)})))
    if (canInv && m.invertible(a)) OP1("inv", inv, m.inv(a))
    if (canInv && m.invertible(b)) OP2("div", div, m.mul(a, m.inv(b)))
    {   // scalar from the base field
        typename F::BaseElement sc; Conv<typename F::Base>::put(f.F, sc, {b.a, 0});
        load(); f.mulScalar(r, ea, sc); ck("mulScalar", r, m.mul(a, {b.a, 0}));
        load(); f.mulScalar(ea, ea, sc); ck("mulScalar", ea, m.mul(a, {b.a, 0}), "alias");
    }
    load();
    rep::stat("evaluations", 3);
    if ((bool)f.eq(ea, eb) != (a == b)) rep::viol(K("eq", "value"), "eq(%s, %s) is %d", m.str(a).c_str(), m.str(b).c_str(), (int)f.eq(ea, eb));
    if ((bool)f.isZero(ea) != m.isZero(a)) rep::viol(K("isZero", "value"), "isZero(%s)", m.str(a).c_str());
    if ((bool)f.isOne(ea) != (a == m.one())) rep::viol(K("isOne", "value"), "isOne(%s)", m.str(a).c_str());
    if (rng.chance(1, 4)) predicates<F, MF::E>(f, a, m.one(), m.zero(), m.p, nm, [](F &f, E &e, const MF::E &v) { C::put(f, e, v); });
    for (uint32_t radix : {10u, 16u, 2u}) {
        Str s = f.toString(ea, radix), w = "(" + a.a.get_str(radix) + "," + a.b.get_str(radix) + ")";
        rep::stat("evaluations");
        if (s != w) rep::viol(K("toString", "value"), "toString(%s, %u) is %s", m.str(a).c_str(), radix, s.c_str());
    }
    Str s = m.str(a); if (rng.chance(1, 2)) s = " ( " + a.a.get_str() + " , " + a.b.get_str() + ") "; else if (rng.chance(1, 2)) s = a.a.get_str() + "," + a.b.get_str();
    rep::op("%s.fromString %s", nm.c_str(), s.c_str());
    f.fromString(r, s); ck("fromString", r, a);
}

struct M6 { std::array<MF::E, 3> c; bool operator==(const M6 &o) const { return c == o.c; } };   // c[0] + c[1] t + c[2] t^2, t^3 = 9+u
struct M12 { std::array<M6, 2> c; bool operator==(const M12 &o) const { return c == o.c; } };    // c[0] + c[1] w, w^2 = t
static std::vector<mpz_class *> coords(MF::E &v) { return {&v.a, &v.b}; }
static std::vector<mpz_class *> coords(M6 &v) { std::vector<mpz_class *> r; for (auto &c : v.c) for (auto x : coords(c)) r.push_back(x); return r; }
static std::vector<mpz_class *> coords(M12 &v) { std::vector<mpz_class *> r; for (auto &c : v.c) for (auto x : coords(c)) r.push_back(x); return r; }
// A value that is closely related to another: equal, opposite, or different in few coordinates.
template <class V> static V near(const V &a, const mpz_class &p) {
    V r = a; auto c = coords(r);
    switch (rng.below(4)) {
        case 0: break;
        case 1: for (auto x : c) *x = (p - *x) % p; break;
        case 2: for (auto x : c) if (rng.chance(1, 2)) *x = (p - *x) % p; break;
        default: { mpz_class *x = c[rng.below(c.size())]; *x = (*x + 1 + edge(p - 1)) % p; }
    }
    if (rng.chance(1, 4)) std::swap(*c[rng.below(c.size())], *c[rng.below(c.size())]);
    return r;
}
// Zero test, one test and equality on values that differ from a given one in a single coordinate only.
template <class F, class V> static void predicates(F &f, const V &a, const V &one, const V &zero, const mpz_class &p, const Str &nm, std::function<void(F &, typename F::Element &, const V &)> put) {
    typename F::Element ea, eb;
    V base[] = {a, one, zero};
    for (auto &v : base) {
        put(f, ea, v);
        for (size_t i = 0; i < coords(const_cast<V &>(v)).size(); i++) {
            V w = v; mpz_class *x = coords(w)[i];
            switch (rng.below(4)) { case 0: *x = (*x + 1) % p; break; case 1: *x = (*x + p - 1) % p; break; case 2: *x = (p - *x) % p; break; default: *x = edge(p); }
            put(f, eb, w); rep::stat("evaluations", 4);
            rep::seen(hcomb(hash_str((nm + "pred").c_str()), i * 4 + (w == v) * 2 + (w == one)));
            if ((bool)f.eq(ea, eb) != (v == w) || (bool)f.eq(eb, ea) != (v == w)) rep::viol(nm + ".eq/near", "equality of two values that differ in coordinate %zu only, %s", i, x->get_str().c_str());
            if ((bool)f.isZero(eb) != (w == zero)) rep::viol(nm + ".isZero/near", "isZero of a value with coordinate %zu equal to %s", i, x->get_str().c_str());
            if ((bool)f.isOne(eb) != (w == one)) rep::viol(nm + ".isOne/near", "isOne of a value whose coordinate %zu is %s", i, x->get_str().c_str());
        }
    }
}
struct MT {
    MF m; MF::E xi;
    MT(const mpz_class &p) : m(p, 2, -1) { xi = {m.md(9), 1}; }
    M6 z6() const { return {{m.zero(), m.zero(), m.zero()}}; }
    M6 one6() const { return {{m.one(), m.zero(), m.zero()}}; }
    M6 add(const M6 &a, const M6 &b) const { M6 r; for (int i = 0; i < 3; i++) r.c[i] = m.add(a.c[i], b.c[i]); return r; }
    M6 sub(const M6 &a, const M6 &b) const { M6 r; for (int i = 0; i < 3; i++) r.c[i] = m.sub(a.c[i], b.c[i]); return r; }
    M6 mul(const M6 &a, const M6 &b) const {
        MF::E w[5]; for (auto &x : w) x = m.zero();
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[i + j] = m.add(w[i + j], m.mul(a.c[i], b.c[j]));
        return {{m.add(w[0], m.mul(xi, w[3])), m.add(w[1], m.mul(xi, w[4])), w[2]}};
    }
    M6 tau(const M6 &a) const { return {{m.mul(xi, a.c[2]), a.c[0], a.c[1]}}; }
    M6 scale(const M6 &a, const MF::E &s) const { M6 r; for (int i = 0; i < 3; i++) r.c[i] = m.mul(a.c[i], s); return r; }
    M12 one12() const { return {{one6(), z6()}}; }
    M12 add(const M12 &a, const M12 &b) const { return {{add(a.c[0], b.c[0]), add(a.c[1], b.c[1])}}; }
    M12 sub(const M12 &a, const M12 &b) const { return {{sub(a.c[0], b.c[0]), sub(a.c[1], b.c[1])}}; }
    M12 mul(const M12 &a, const M12 &b) const {
        return {{add(mul(a.c[0], b.c[0]), tau(mul(a.c[1], b.c[1]))), add(mul(a.c[0], b.c[1]), mul(a.c[1], b.c[0]))}};
    }
    M6 up6(const M6 &v, mpz_class) const { return v; }
    template <class V> V pow(V x, mpz_class e, V r) const { while (e > 0) { if (mpz_odd_p(e.get_mpz_t())) r = mul(r, x); x = mul(x, x); e >>= 1; } return r; }
    bool isZero(const M6 &a) const { return a == z6(); }
    Str str(const M6 &a) const { return "(" + m.str(a.c[2]) + "," + m.str(a.c[1]) + "," + m.str(a.c[0]) + ")"; }
    Str str(const M12 &a) const { return "(" + str(a.c[1]) + "," + str(a.c[0]) + ")"; }
    Str strR(const M6 &a, int R) const { auto f = [&](const MF::E &e) { return "(" + e.a.get_str(R) + "," + e.b.get_str(R) + ")"; }; return "(" + f(a.c[2]) + "," + f(a.c[1]) + "," + f(a.c[0]) + ")"; }
};
typedef F2Field<RawFq> TF2; typedef F6Field<TF2> TF6; typedef F12Field<TF6> TF12;
static M6 get6(TF6 &f, const TF6::Element &e) { return {{Conv<TF2>::get(f.F, e.z), Conv<TF2>::get(f.F, e.y), Conv<TF2>::get(f.F, e.x)}}; }
static void put6(TF6 &f, TF6::Element &e, const M6 &v) { Conv<TF2>::put(f.F, e.z, v.c[0]); Conv<TF2>::put(f.F, e.y, v.c[1]); Conv<TF2>::put(f.F, e.x, v.c[2]); }
static M12 get12(TF12 &f, const TF12::Element &e) { return {{get6(f.F, e.y), get6(f.F, e.x)}}; }
static void put12(TF12 &f, TF12::Element &e, const M12 &v) { put6(f.F, e.y, v.c[0]); put6(f.F, e.x, v.c[1]); }
static bool canon6(const TF6::Element &e) { return canon(e.x) && canon(e.y) && canon(e.z); }
static bool canon12(const TF12::Element &e) { return canon6(e.x) && canon6(e.y); }
static M6 rnd6(const MT &t) { M6 r; int sparse = rng.below(4); for (auto &c : r.c) c = (sparse == 0 && rng.chance(1, 2)) ? t.m.zero() : rndE(t.m); return r; }

template <class F, class V, class E> static void towerOps(F &f, const MT &t, const Str &nm, const V &a, const V &b, const V &one, const mpz_class &p,
        std::function<V(F &, const E &)> get, std::function<void(F &, E &, const V &)> put, std::function<bool(const E &)> cn, bool frob) {
    auto K = [&](const char *op, const char *cl) { return nm + "." + op + "/" + cl; };
    E ea, eb, r;
    auto load = [&] { put(f, ea, a); put(f, eb, b); memset((void *)&r, 0x5A, sizeof r); };
    V zero = t.sub(one, one);
    auto ck = [&](const char *op, const E &got, const V &want, const char *cl = "value") {
        rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + op + cl).c_str()), (a == b) * 2 + (a == zero) * 4 + (b == zero) * 8 + (a == one) * 16 + (b == one) * 32));
        V g = get(f, got);
        if (!(g == want)) rep::viol(K(op, cl), "%s a=%s b=%s: got %s, expected %s", op, t.str(a).c_str(), t.str(b).c_str(), t.str(g).c_str(), t.str(want).c_str());
        if (!cn(got)) rep::viol(K(op, "canonical"), "%s a=%s is not fully reduced", op, t.str(a).c_str());
    };
#define TOP2(o_, call, want) { rep::op("%s." o_ " a=%s b=%s", nm.c_str(), t.str(a).c_str(), t.str(b).c_str()); V w = want; load(); f.call(r, ea, eb); ck(o_, r, w); \
        if (!(get(f, ea) == a) || !(get(f, eb) == b)) rep::viol(K(o_, "operand"), o_ " changed an operand"); \
        load(); f.call(ea, ea, eb); ck(o_, ea, w, "alias"); load(); f.call(eb, ea, eb); ck(o_, eb, w, "alias"); \
        if (a == b) { load(); f.call(r, ea, ea); ck(o_, r, w, "alias"); load(); f.call(ea, ea, ea); ck(o_, ea, w, "alias"); } }
#define TOP1(o_, call, want) { rep::op("%s." o_ " a=%s", nm.c_str(), t.str(a).c_str()); V w = want; load(); f.call(r, ea); ck(o_, r, w); \
        if (!(get(f, ea) == a)) rep::viol(K(o_, "operand"), o_ " changed its operand"); load(); f.call(ea, ea); ck(o_, ea, w, "alias"); }
    TOP2("add", add, t.add(a, b)) TOP2("sub", sub, t.sub(a, b)) TOP2("mul", mul, t.mul(a, b))
    TOP1("neg", neg, t.sub(zero, a)) TOP1("copy", copy, a) TOP1("square", square, t.mul(a, a))
    // inverse and quotient are checked by multiplying back in the model
    if (!(a == zero)) {
        for (int al = 0; al < 2; al++) {
            rep::op("%s.inv a=%s", nm.c_str(), t.str(a).c_str());
            load(); if (al) f.inv(ea, ea); else f.inv(r, ea);
            V g = get(f, al ? ea : r); rep::stat("evaluations");
            if (!(t.mul(g, a) == one)) rep::viol(K("inv", al ? "alias" : "value"), "inv(%s) is %s", t.str(a).c_str(), t.str(g).c_str());
        }
    }
    if (!(b == zero)) {
        for (int al = 0; al < 3; al++) {
            rep::op("%s.div a=%s b=%s", nm.c_str(), t.str(a).c_str(), t.str(b).c_str());
            load(); if (al == 1) f.div(ea, ea, eb); else if (al == 2) f.div(eb, ea, eb); else f.div(r, ea, eb);
            V g = get(f, al == 1 ? ea : al == 2 ? eb : r); rep::stat("evaluations");
            if (!(t.mul(g, b) == a)) rep::viol(K("div", al ? "alias" : "value"), "div(%s, %s) is %s", t.str(a).c_str(), t.str(b).c_str(), t.str(g).c_str());
        }
    }
    if (frob) {
        V fa = t.pow(a, p, one), ffa = t.pow(fa, p, one);
        TOP1("Frobenius", Frobenius, fa) TOP1("FrobeniusP2", FrobeniusP2, ffa)
    }
    load(); rep::stat("evaluations", 3);
    if ((bool)f.eq(ea, eb) != (a == b)) rep::viol(K("eq", "value"), "eq(%s, %s)", t.str(a).c_str(), t.str(b).c_str());
    put(f, eb, a); if (!f.eq(ea, eb)) rep::viol(K("eq", "value"), "eq of equal %s", t.str(a).c_str());
    if ((bool)f.isZero(ea) != (a == zero)) rep::viol(K("isZero", "value"), "isZero(%s)", t.str(a).c_str());
    if ((bool)f.isOne(ea) != (a == one)) rep::viol(K("isOne", "value"), "isOne(%s)", t.str(a).c_str());
    predicates<F, V>(f, a, one, zero, p, nm, put);
    if (f.toString(ea) != t.str(a)) rep::viol(K("toString", "value"), "toString(%s) is %s", t.str(a).c_str(), f.toString(ea).c_str());
    Str s = t.str(a);
    if (rng.chance(1, 2)) { Str u; for (char c : s) { u += c; if ((c == ',' || c == '(') && rng.chance(1, 3)) u += ' '; } s = " " + u + " "; }
    if (rng.chance(1, 3)) { size_t i = s.find('('), j = s.rfind(')'); s = s.substr(i + 1, j - i - 1); }
    rep::op("%s.fromString %s", nm.c_str(), s.c_str());
    f.fromString(r, s); ck("fromString", r, a);
}

static void modeTower() {
    TF2 f2("-1"); TF6 f6; TF12 f12;
    mpz_class p = Conv<RawFq>::prime(f2.F);
    MT t(p);
    // every pair over several small fields, for every non-residue choice
    for (uint32_t q : {3u, 5u, 7u, 11u, 13u}) {
        ToyField<0>::setPrime(q);
        for (uint32_t nr = 0; nr < q; nr++) {
            ToyField<0>::Element e; e.v = nr;
            F2Field<ToyField<0>> f(e), fs(Str(std::to_string(nr)));
            MF m(mpz_class(q), 2, mpz_class(nr));
            bool field = true;
            for (uint32_t x = 0; x < q; x++) if (x * x % q == nr) field = false;
            u64 tot = (u64)q * q * q * q, step = q <= 5 ? 1 : tot / (count_ * 12) + 1;
            for (u64 k = step > 1 ? rng.below(step) : 0; k < tot; k += step > 1 ? 1 + rng.below(2 * step) : 1) {
                MF::E a{mpz_class((unsigned long)(k % q)), mpz_class((unsigned long)(k / q % q))}, b{mpz_class((unsigned long)(k / q / q % q)), mpz_class((unsigned long)(k / q / q / q))};
                f2ops(rng.chance(1, 2) ? f : fs, m, field ? "F2small" : "F2ring", a, b, true);
            }
        }
    }
    // several extensions of one field, alive at once and used in turns
    for (u64 it = 0; it < count_ / 20 + 3; it++) {
        const uint32_t qs[] = {3, 5, 7, 11, 13, 101, 65537}; uint32_t q = qs[rng.below(7)]; ToyField<0>::setPrime(q);
        std::vector<std::unique_ptr<F2Field<ToyField<0>>>> fs; std::vector<uint32_t> nrs;
        for (int k = 0; k < 4; k++) { uint32_t nr = k == 0 ? q - 1 : k == 1 ? rng.below(q) : 2 + rng.below(q - 2); ToyField<0>::Element e; e.v = nr; nrs.push_back(nr); fs.emplace_back(new F2Field<ToyField<0>>(e)); }
        auto el = [&] { return MF::E{mpz_class((unsigned long)rng.below(q)), mpz_class((unsigned long)rng.below(q))}; };
        for (int k = 0; k < 30; k++) { int i = rng.below(4); if (!fs[i]) continue; MF m(mpz_class(q), 2, mpz_class(nrs[i])); rep::stat("extensions in turns"); f2ops(*fs[i], m, "F2 in turns", el(), el(), true); if (k == 20) fs[rng.below(4)].reset(); }
    }
    {
        std::vector<std::unique_ptr<TF2>> fs; std::vector<mpz_class> nrs;
        for (int k = 0; k < 4; k++) { mpz_class nr = k == 0 ? mpz_class(p - 1) : k == 1 ? edge(p) : rndBelow(p); RawFq::Element e; f2.F.fromMpz(e, nr.get_mpz_t()); nrs.push_back(nr); fs.emplace_back(new TF2(e)); }
        for (u64 k = 0; k < count_; k++) { int i = rng.below(4); MF m(p, 2, nrs[i]); rep::stat("extensions in turns"); f2ops(*fs[i], m, "F2 in turns", rndE(m), rndE(m), true); }
    }
    // BN254
    for (u64 i = 0; i < count_ * 2; i++) {
        MF m(p, 2, -1);
        MF::E a = rndE(m), b = rng.chance(1, 4) ? near(a, p) : rndE(m);
        f2ops(f2, m, "F2", a, b, true);
        mpz_class nr = edge(p);
        if (i % 3 == 0) {
            RawFq::Element e; f2.F.fromMpz(e, nr.get_mpz_t());
            TF2 g(e); MF mm(p, 2, nr);
            f2ops(g, mm, "F2nr", a, b, true);
        }
    }
    for (u64 i = 0; i < count_ / 2; i++) {
        M6 a = i == 0 ? t.z6() : i == 1 ? t.one6() : rnd6(t), b = rng.chance(1, 4) ? near(a, p) : i == 2 ? t.z6() : i == 3 ? t.one6() : rnd6(t);
        towerOps<TF6, M6, TF6::Element>(f6, t, "F6", a, b, t.one6(), p, get6, put6, canon6, i % 3 == 0);
        TF6::Element e, r; TF2::Element s; RawFq::Element sf;
        MF::E sc = rndE(t.m);
        for (int al = 0; al < 2; al++) {
            const char *cl = al ? "alias" : "value";
            auto go = [&](const char *op, const M6 &w) { M6 g = get6(f6, al ? e : r); rep::stat("evaluations"); if (!(g == w)) rep::viol(Str("F6.") + op + "/" + cl, "%s a=%s s=%s: got %s, expected %s", op, t.str(a).c_str(), t.m.str(sc).c_str(), t.str(g).c_str(), t.str(w).c_str()); };
            put6(f6, e, a); f6.mulTau(al ? e : r, e); go("mulTau", t.tau(a));
            put6(f6, e, a); f6.dbl(al ? e : r, e); go("dbl", t.add(a, a));
            put6(f6, e, a); Conv<TF2>::put(f2, s, sc); f6.mulScalar(al ? e : r, e, s); go("mulScalar", t.scale(a, sc));
            put6(f6, e, a); f2.F.fromMpz(sf, sc.a.get_mpz_t()); f6.mulGFP(al ? e : r, e, sf); go("mulGFP", t.scale(a, {sc.a, 0}));
        }
        for (uint32_t R : {2u, 16u}) { put6(f6, e, a); rep::stat("evaluations"); if (f6.toString(e, R) != t.strR(a, R)) rep::viol("F6.toString/value", "radix %u of %s", R, t.str(a).c_str()); }
    }
    for (u64 i = 0; i < count_ / 4; i++) {
        M12 a{{rnd6(t), rnd6(t)}}, b{{rnd6(t), rnd6(t)}};
        if (i == 0) a = {{t.z6(), t.z6()}}; if (i == 1) b = {{t.z6(), t.z6()}}; if (i == 2) a = t.one12(); if (i == 3) b = t.one12();
        if (rng.chance(1, 8)) a.c[rng.below(2)] = t.z6();
        if (rng.chance(1, 4)) b = near(a, p);
        towerOps<TF12, M12, TF12::Element>(f12, t, "F12", a, b, t.one12(), p, get12, put12, canon12, i % 3 == 0);
        TF12::Element e, r; TF6::Element s6;
        for (int al = 0; al < 2; al++) {
            const char *cl = al ? "alias" : "value";
            auto go = [&](const char *op, const M12 &w) { M12 g = get12(f12, al ? e : r); rep::stat("evaluations"); if (!(g == w)) rep::viol(Str("F12.") + op + "/" + cl, "%s a=%s b=%s: got %s, expected %s", op, t.str(a).c_str(), t.str(b).c_str(), t.str(g).c_str(), t.str(w).c_str()); };
            put12(f12, e, a); f12.conjugate(al ? e : r, e); go("conjugate", {{a.c[0], t.sub(t.z6(), a.c[1])}});
            put12(f12, e, a); put6(f12.F, s6, b.c[0]); f12.mulScalar(al ? e : r, e, s6); go("mulScalar", {{t.mul(a.c[0], b.c[0]), t.mul(a.c[1], b.c[0])}});
            uint8_t sc[40]; unsigned n = rng.below(i % 8 == 0 ? 40 : 6); mpz_class x = 0;
            int kind = rng.below(4);
            for (unsigned k = 0; k < n; k++) sc[k] = kind == 0 ? 0xff : kind == 1 ? 0 : rng.next();
            for (int k = (int)n - 1; k >= 0; k--) x = (x << 8) + sc[k];
            uint8_t *hs = new uint8_t[n]; memcpy(hs, sc, n);
            rep::op("F12.exp size %u", n);
            put12(f12, e, a); f12.exp(al ? e : r, e, hs, n); go("exp", t.pow(a, x, t.one12()));
            delete[] hs;
        }
    }
    // long exponents: x^(p^12) = x, so the model needs a short one only
    {
        mpz_class ord; mpz_pow_ui(ord.get_mpz_t(), p.get_mpz_t(), 12); ord -= 1;
        for (unsigned n : {128u, 255u, 256u, 257u, 300u, 4095u + (unsigned)rng.below(5)}) {
            M12 a{{rnd6(t), rnd6(t)}}; if (a == M12{{t.z6(), t.z6()}}) continue;
            uint8_t *hs = new uint8_t[n]; memset(hs, 0, n);
            for (unsigned k = 0; k < n; k++) if (k + 2 >= n || n < 400 || rng.chance(1, 50)) hs[k] = rng.next();
            hs[n - 1] |= 0x80;
            mpz_class x; mpz_import(x.get_mpz_t(), n, -1, 1, 0, 0, hs);
            TF12::Element e, r; bool al = rng.chance(1, 2);
            rep::op("F12.exp size %u", n); rep::stat("evaluations"); rep::stat("exponents of hundreds or thousands of bytes");
            put12(f12, e, a); f12.exp(al ? e : r, e, hs, n);
            M12 w = t.pow(a, x % ord, t.one12());
            if (!(get12(f12, al ? e : r) == w)) rep::viol(Str("F12.exp/") + (al ? "alias" : "value"), "%u-byte exponent 0x%s of %s: got %s, expected %s", n, x.get_str(16).c_str(), t.str(a).c_str(), t.str(get12(f12, al ? e : r)).c_str(), t.str(w).c_str());
            delete[] hs;
        }
    }
    // constants
    auto cst = [&](const char *n, bool ok) { rep::stat("evaluations"); if (!ok) rep::viol(Str(n) + "/const", "%s is wrong", n); };
    cst("F2.zero", Conv<TF2>::get(f2, f2.zero()) == t.m.zero()); cst("F2.one", Conv<TF2>::get(f2, f2.one()) == t.m.one()); cst("F2.negOne", Conv<TF2>::get(f2, f2.negOne()) == t.m.neg(t.m.one()));
    cst("F6.zero", get6(f6, f6.zero()) == t.z6()); cst("F6.one", get6(f6, f6.one()) == t.one6()); cst("F6.negOne", get6(f6, f6.negOne()) == t.sub(t.z6(), t.one6()));
    M12 z12{{t.z6(), t.z6()}};
    cst("F12.zero", get12(f12, f12.zero()) == z12); cst("F12.one", get12(f12, f12.one()) == t.one12()); cst("F12.negOne", get12(f12, f12.negOne()) == t.sub(z12, t.one12()));
}

// ------------------------------------------------------------------ curves
template <class BF> struct CurveTest {
    typedef Curve<BF> G; typedef typename G::Point Pt; typedef typename G::PointAffine Pa;
    BF &f; MF m; MCurve mc; G g; Str nm; MF::E g0x, g0y;
    CurveTest(BF &f_, const MF &m_, const MF::E &a, const MF::E &b, const MF::E &gx, const MF::E &gy, const Str &n, bool strings) : f(f_), m(m_), mc{m_, a, b},
        g(strings ? G(f_, m_.str(a), m_.str(b), m_.str(gx), m_.str(gy)) : mk(f_, a, b, gx, gy)), nm(n), g0x(gx), g0y(gy) {}
    static G mk(BF &f, const MF::E &a, const MF::E &b, const MF::E &gx, const MF::E &gy) {
        typename BF::Element ea, eb, x, y; Conv<BF>::put(f, ea, a); Conv<BF>::put(f, eb, b); Conv<BF>::put(f, x, gx); Conv<BF>::put(f, y, gy);
        return G(f, ea, eb, x, y);
    }
    MF::E get(const typename BF::Element &e) { return Conv<BF>::get(f, e); }
    void put(typename BF::Element &e, const MF::E &v) { Conv<BF>::put(f, e, v); }
    // load a model point: any scaling of the extended form; the neutral element with arbitrary x, y
    void loadP(Pt &r, const MCurve::P &p) {
        if (p.z) { if (rng.chance(1, 2)) { g.copy(r, g.zero()); return; } put(r.x, rndE(m)); put(r.y, rndE(m)); put(r.zz, m.zero()); put(r.zzz, m.zero()); return; }
        MF::E z = m.one();
        if (rng.chance(3, 4)) { do z = rndE(m); while (!m.invertible(z)); }
        MF::E z2 = m.mul(z, z), z3 = m.mul(z2, z);
        put(r.x, m.mul(p.x, z2)); put(r.y, m.mul(p.y, z3)); put(r.zz, z2); put(r.zzz, z3);
    }
    void loadA(Pa &r, const MCurve::P &p) { put(r.x, p.z ? m.zero() : p.x); put(r.y, p.z ? m.zero() : p.y); }
    MCurve::P getP(const Pt &r, bool &wf) {
        MF::E zz = get(r.zz), zzz = get(r.zzz);
        wf = m.mul(zz, m.mul(zz, zz)) == m.mul(zzz, zzz);
        if (m.isZero(zz)) return mc.zero();
        if (m.isZero(zzz)) { wf = false; return mc.zero(); }
        return {false, m.mul(get(r.x), m.inv(zz)), m.mul(get(r.y), m.inv(zzz))};
    }
    MCurve::P getA(const Pa &r) { MF::E x = get(r.x), y = get(r.y); if (m.isZero(x) && m.isZero(y)) return mc.zero(); return {false, x, y}; }
    Str where(const MCurve::P &p, const MCurve::P &q) { return "y^2=x^3+" + m.str(mc.a) + "x+" + m.str(mc.b) + " mod " + m.p.get_str() + ", P=" + mc.str(p) + " Q=" + mc.str(q); }
    void ckP(const char *op, const Pt &r, const MCurve::P &want, const MCurve::P &p, const MCurve::P &q, const char *cl = "value") {
        rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + op + cl).c_str()), p.z * 2 + q.z * 4 + mc.eq(p, q) * 8 + mc.eq(p, mc.neg(q)) * 16 + (!p.z && m.isZero(p.y)) * 32));
        bool wf; MCurve::P got = getP(r, wf);
        if (!mc.eq(got, want)) rep::viol(nm + "." + op + "/" + cl, "%s on %s: got %s, expected %s", op, where(p, q).c_str(), mc.str(got).c_str(), mc.str(want).c_str());
        if (!wf) rep::viol(nm + "." + op + "/form", "%s on %s: zz^3 != zzz^2", op, where(p, q).c_str());
        if (!canon(r.x) || !canon(r.y) || !canon(r.zz) || !canon(r.zzz)) rep::viol(nm + "." + op + "/canonical", "%s on %s: coordinates not reduced", op, where(p, q).c_str());
    }
    void ckA(const char *op, const Pa &r, const MCurve::P &want, const MCurve::P &p, const MCurve::P &q, const char *cl = "value") {
        rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + op + cl + "A").c_str()), p.z * 2 + q.z * 4 + mc.eq(p, q) * 8 + mc.eq(p, mc.neg(q)) * 16));
        MCurve::P got = getA(r);
        if (!mc.eq(got, want)) rep::viol(nm + "." + op + "/" + cl, "%s on %s: got %s, expected %s", op, where(p, q).c_str(), mc.str(got).c_str(), mc.str(want).c_str());
        if (!canon(r.x) || !canon(r.y)) rep::viol(nm + "." + op + "/canonical", "%s: coordinates not reduced", op);
    }
    void pairOps(const MCurve::P &p, const MCurve::P &q) {
        Pt P, Q, R; Pa p1, q1, r1;
        auto load = [&] { loadP(P, p); loadP(Q, q); loadA(p1, p); loadA(q1, q); memset((void *)&R, 0x5A, sizeof R); memset((void *)&r1, 0x5A, sizeof r1); };
        MCurve::P s = mc.add(p, q), d = mc.add(p, mc.neg(q));
        rep::op("%s.add/sub %s", nm.c_str(), where(p, q).c_str());
        auto same = [&](const char *op) { bool w; if (!mc.eq(getP(P, w), p) || !mc.eq(getP(Q, w), q) || !mc.eq(getA(p1), p) || !mc.eq(getA(q1), q)) rep::viol(nm + "." + op + "/operand", "%s changed an operand, %s", op, where(p, q).c_str()); };
        load(); g.add(R, P, Q); ckP("add(PP)", R, s, p, q); same("add");
        load(); g.add(R, P, q1); ckP("add(PA)", R, s, p, q); same("add");
        load(); g.add(R, p1, q1); ckP("add(AA)", R, s, p, q); same("add");
        load(); g.add(R, p1, Q); ckP("add(AP)", R, s, p, q); same("add");
        load(); g.add(r1, P, Q); ckA("add(PP)->A", r1, s, p, q);
        load(); g.add(r1, P, q1); ckA("add(PA)->A", r1, s, p, q);
        load(); g.add(r1, p1, q1); ckA("add(AA)->A", r1, s, p, q);
        load(); g.add(r1, p1, Q); ckA("add(AP)->A", r1, s, p, q);
        load(); g.sub(R, P, Q); ckP("sub(PP)", R, d, p, q); same("sub");
        load(); g.sub(R, P, q1); ckP("sub(PA)", R, d, p, q); same("sub");
        load(); g.sub(R, p1, q1); ckP("sub(AA)", R, d, p, q); same("sub");
        load(); g.sub(R, p1, Q); ckP("sub(AP)", R, d, p, q); same("sub");
        load(); g.sub(r1, P, Q); ckA("sub(PP)->A", r1, d, p, q);
        load(); g.sub(r1, P, q1); ckA("sub(PA)->A", r1, d, p, q);
        load(); g.sub(r1, p1, q1); ckA("sub(AA)->A", r1, d, p, q);
        load(); g.sub(r1, p1, Q); ckA("sub(AP)->A", r1, d, p, q);
        // in place
        load(); g.add(P, P, Q); ckP("add(PP)", P, s, p, q, "alias"); load(); g.add(Q, P, Q); ckP("add(PP)", Q, s, p, q, "alias");
        load(); g.add(P, P, q1); ckP("add(PA)", P, s, p, q, "alias"); load(); g.add(Q, p1, Q); ckP("add(AP)", Q, s, p, q, "alias");
        load(); g.sub(P, P, Q); ckP("sub(PP)", P, d, p, q, "alias"); load(); g.sub(Q, P, Q); ckP("sub(PP)", Q, d, p, q, "alias");
        load(); g.sub(P, P, q1); ckP("sub(PA)", P, d, p, q, "alias"); load(); g.sub(Q, p1, Q); ckP("sub(AP)", Q, d, p, q, "alias");
        load(); g.add(p1, p1, q1); ckA("add(AA)->A", p1, s, p, q, "alias"); load(); g.add(q1, p1, q1); ckA("add(AA)->A", q1, s, p, q, "alias");
        load(); g.sub(p1, p1, q1); ckA("sub(AA)->A", p1, d, p, q, "alias"); load(); g.sub(q1, p1, q1); ckA("sub(AA)->A", q1, d, p, q, "alias");
        load(); g.add(p1, p1, Q); ckA("add(AP)->A", p1, s, p, q, "alias"); load(); g.sub(q1, P, q1); ckA("sub(PA)->A", q1, d, p, q, "alias");
        bool e = mc.eq(p, q);
        rep::op("%s.eq %s", nm.c_str(), where(p, q).c_str());
        load();
        auto cb = [&](const char *op, bool got, bool want) { rep::stat("evaluations"); if (got != want) rep::viol(nm + "." + op + "/value", "%s on %s is %d", op, where(p, q).c_str(), got); };
        cb("eq(PP)", g.eq(P, Q), e); cb("eq(PA)", g.eq(P, q1), e); cb("eq(AP)", g.eq(p1, Q), e); cb("eq(AA)", g.eq(p1, q1), e); same("eq");
        if (e) {
            MCurve::P t = mc.add(p, p);
            load(); g.add(R, P, P); ckP("add(PP)", R, t, p, p, "alias"); load(); g.add(P, P, P); ckP("add(PP)", P, t, p, p, "alias");
            load(); g.add(R, p1, p1); ckP("add(AA)", R, t, p, p, "alias"); load(); g.add(p1, p1, p1); ckA("add(AA)->A", p1, t, p, p, "alias");
            load(); g.sub(R, P, P); ckP("sub(PP)", R, mc.zero(), p, p, "alias"); load(); g.sub(P, P, P); ckP("sub(PP)", P, mc.zero(), p, p, "alias");
        }
    }
    void oneOps(const MCurve::P &p) {
        Pt P, R; Pa a, r;
        auto load = [&] { loadP(P, p); loadA(a, p); memset((void *)&R, 0x5A, sizeof R); memset((void *)&r, 0x5A, sizeof r); };
        MCurve::P d = mc.add(p, p), n = mc.neg(p);
        rep::op("%s.dbl/neg/copy %s", nm.c_str(), where(p, p).c_str());
        load(); g.dbl(R, P); ckP("dbl(P)", R, d, p, p); load(); g.dbl(R, a); ckP("dbl(A)", R, d, p, p);
        load(); g.dbl(r, P); ckA("dbl(P)->A", r, d, p, p); load(); g.dbl(r, a); ckA("dbl(A)->A", r, d, p, p);
        load(); g.dbl(P, P); ckP("dbl(P)", P, d, p, p, "alias"); load(); g.dbl(a, a); ckA("dbl(A)->A", a, d, p, p, "alias");
        load(); g.neg(R, P); ckP("neg(P)", R, n, p, p); load(); g.neg(R, a); ckP("neg(A)", R, n, p, p);
        load(); g.neg(r, P); ckA("neg(P)->A", r, n, p, p); load(); g.neg(r, a); ckA("neg(A)->A", r, n, p, p);
        load(); g.neg(P, P); ckP("neg(P)", P, n, p, p, "alias"); load(); g.neg(a, a); ckA("neg(A)->A", a, n, p, p, "alias");
        load(); g.copy(R, P); ckP("copy(P)", R, p, p, p); load(); g.copy(R, a); ckP("copy(A)", R, p, p, p);
        load(); g.copy(r, P); ckA("copy(P)->A", r, p, p, p); load(); g.copy(r, a); ckA("copy(A)->A", r, p, p, p);
        load(); rep::stat("evaluations", 2);
        if (g.isZero(P) != p.z) rep::viol(nm + ".isZero(P)/value", "isZero of %s", mc.str(p).c_str());
        if (g.isZero(a) != p.z) rep::viol(nm + ".isZero(A)/value", "isZero of %s", mc.str(p).c_str());
        for (int R_ : {10, 16}) {
            auto s = [&](const MF::E &e) { return m.deg == 1 ? e.a.get_str(R_) : "(" + e.a.get_str(R_) + "," + e.b.get_str(R_) + ")"; };
            Str w = p.z ? "(" + s(m.zero()) + "," + s(m.zero()) + ")" : "(" + s(p.x) + "," + s(p.y) + ")";
            Str got = g.toString(P, R_); rep::stat("evaluations");
            if (got != w) rep::viol(nm + ".toString/value", "toString(%s) is %s", mc.str(p).c_str(), got.c_str());
        }
    }
    void consts(const MF::E &gx, const MF::E &gy) {
        MCurve::P o{false, gx, gy}; bool wf;
        rep::stat("evaluations", 6);
        if (!mc.eq(getP(g.one(), wf), o) || !wf || !mc.eq(getA(g.oneAffine()), o)) rep::viol(nm + ".one/const", "one() is not the generator given");
        if (!g.isZero(g.zero()) || !g.isZero(g.zeroAffine())) rep::viol(nm + ".zero/const", "zero() is not the neutral element");
        if (get(g.a()) != mc.a || get(g.b()) != mc.b) rep::viol(nm + ".ab/const", "a() or b() differ from what was given");
    }
    // scalar multiplication against the model, with the scalar's bytes in an exact-size buffer
    void mulOps(const MCurve::P &p, const std::vector<uint8_t> &s, const MCurve::P &want) {
        Pt P, R; Pa a;
        uint8_t *hs = new uint8_t[s.size() ? s.size() : 1]; if (s.size()) memcpy(hs, s.data(), s.size());
        mpz_class k = 0; for (int i = (int)s.size() - 1; i >= 0; i--) k = (k << 8) + s[i];
        rep::op("%s.mulByScalar size %zu k=%s %s", nm.c_str(), s.size(), k.get_str(16).c_str(), mc.str(p).c_str());
        auto ck = [&](const char *op, const Pt &r, const char *cl) {
            bool wf; MCurve::P got = getP(r, wf);
            rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + op + cl).c_str()), s.size() * 8 + p.z * 2 + want.z));
            if (!mc.eq(got, want)) rep::viol(nm + "." + op + "/" + cl, "%s: %s times 0x%s (%zu bytes): got %s, expected %s", op, mc.str(p).c_str(), k.get_str(16).c_str(), s.size(), mc.str(got).c_str(), mc.str(want).c_str());
            if (!wf) rep::viol(nm + "." + op + "/form", "zz^3 != zzz^2");
        };
        loadP(P, p); g.mulByScalar(R, P, hs, s.size()); ck("mulByScalar(P)", R, "value");
        bool wf; if (!mc.eq(getP(P, wf), p)) rep::viol(nm + ".mulByScalar(P)/operand", "the base changed");
        loadA(a, p); g.mulByScalar(R, a, hs, s.size()); ck("mulByScalar(A)", R, "value");
        if (!mc.eq(getA(a), p)) rep::viol(nm + ".mulByScalar(A)/operand", "the base changed");
        loadP(P, p); g.mulByScalar(P, P, hs, s.size()); ck("mulByScalar(P)", P, "alias");
        if (s.size() && memcmp(hs, s.data(), s.size())) rep::viol(nm + ".mulByScalar/operand", "the scalar changed");
        delete[] hs;
    }
    // the same base and scalar objects in a row of calls, one byte or the base changed in between
    void mulHistory(MCurve::P p, std::vector<uint8_t> s, int rounds) {
        if (s.empty()) return;
        uint8_t *hs = new uint8_t[s.size()]; Pt P, R; Pa a;
        for (int r = 0; r < rounds; r++) {
            if (r) { if (rng.chance(2, 3)) s[rng.below(s.size())] ^= 1 << rng.below(8); else if (rng.chance(1, 2)) p = mc.neg(p); else p = mc.dbl(p); }
            memcpy(hs, s.data(), s.size()); mpz_class k = 0; for (int i = (int)s.size() - 1; i >= 0; i--) k = (k << 8) + s[i];
            MCurve::P want = mc.mul(p, k);
            bool aff = rng.chance(1, 2), wf; rep::stat("evaluations"); rep::stat("repeated calls");
            rep::op("%s.mulByScalar again, size %zu k=%s %s", nm.c_str(), s.size(), k.get_str(16).c_str(), mc.str(p).c_str());
            if (aff) { loadA(a, p); g.mulByScalar(R, a, hs, s.size()); } else { loadP(P, p); g.mulByScalar(R, P, hs, s.size()); }
            MCurve::P got = getP(R, wf);
            if (!mc.eq(got, want)) rep::viol(nm + (aff ? ".mulByScalar(A)/value" : ".mulByScalar(P)/value"), "call %d in a row: %s times 0x%s (%zu bytes): got %s, expected %s", r, mc.str(p).c_str(), k.get_str(16).c_str(), s.size(), mc.str(got).c_str(), mc.str(want).c_str());
        }
        delete[] hs;
    }
};

static MF::E rndNZ(const MF &m) { MF::E e; do e = rndE(m); while (!m.invertible(e)); return e; }
// A curve through a chosen point: pick a and the point, solve for b (b = 0 would put (0,0), the affine neutral element, on the curve).
static MCurve pickCurve(const MF &m, int kind, MCurve::P &g) {
    for (;;) {
        MCurve c{m, m.zero(), m.zero()};
        c.a = kind == 0 ? m.zero() : kind == 1 ? m.one() : kind == 2 ? m.neg(m.one()) : rndE(m);
        g = {false, rndE(m), kind == 4 ? m.zero() : rndE(m)};
        c.b = m.sub(m.mul(g.y, g.y), m.add(m.mul(m.mul(g.x, g.x), g.x), m.mul(c.a, g.x)));
        MF::E disc = m.add(m.mul(m.of(4), m.mul(m.mul(c.a, c.a), c.a)), m.mul(m.of(27), m.mul(c.b, c.b)));
        if (m.isZero(c.b) || !m.invertible(disc) || m.isZero(disc)) continue;
        return c;
    }
}
static std::vector<uint8_t> rndScalar(unsigned size) {
    std::vector<uint8_t> s(size);
    int kind = rng.below(9);
    for (auto &c : s) c = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? 0xaa : kind == 3 ? 0x55 : kind == 4 ? (rng.chance(1, 4) ? 0xff : 0) : rng.next();
    if (kind == 5 && size) { std::fill(s.begin(), s.end(), 0); unsigned b = rng.below(size * 8); s[b / 8] = 1 << (b % 8); }
    if (kind == 6 && size) { std::fill(s.begin(), s.end(), 0); unsigned b = rng.below(size * 8); for (unsigned i = 0; i <= b; i++) s[i / 8] |= 1 << (i % 8); }
    if (kind == 7 && size) { std::fill(s.begin(), s.end(), 0); s[0] = rng.below(20); }
    return s;
}
// sizes around the limits of narrow counters of bytes and bits
static unsigned longSize() { static const unsigned v[] = {128, 256, 512, 1024, 4096, 8192}; return v[rng.below(6)] + rng.below(7) - 3 + (rng.chance(1, 6) ? rng.below(12000) : 0); }
static mpz_class scalarOf(const std::vector<uint8_t> &s) { mpz_class k = 0; for (int i = (int)s.size() - 1; i >= 0; i--) k = (k << 8) + s[i]; return k; }

template <class BF> static void bigCurve(BF &f, const MF &m, const MF::E &a, const MF::E &b, const MCurve::P &G, const Str &nm, bool scalars, u64 n) {
    CurveTest<BF> t(f, m, a, b, G.x, G.y, nm, rng.chance(1, 2));
    t.consts(G.x, G.y);
    std::vector<MCurve::P> pts{t.mc.zero(), G, t.mc.neg(G), t.mc.dbl(G)};
    for (int i = 0; i < 12; i++) pts.push_back(t.mc.mul(G, rndBelow(m.p)));
    if (!scalars) {
        for (auto &p : pts) t.oneOps(p);
        for (u64 i = 0; i < n; i++) {
            MCurve::P p = pts[rng.below(pts.size())], q = rng.chance(1, 5) ? p : rng.chance(1, 5) ? t.mc.neg(p) : rng.chance(1, 8) ? t.mc.zero() : pts[rng.below(pts.size())];
            t.pairOps(p, q);
        }
    } else {
        for (u64 i = 0; i < n; i++) {
            auto s = rndScalar(i < 4 ? i : 1 + rng.below(i % 5 == 0 ? 70 : 33));
            MCurve::P p = pts[rng.below(pts.size())];
            t.mulOps(p, s, t.mc.mul(p, scalarOf(s)));
            if (i % 4 == 3) t.mulHistory(p, s, 4);
        }
    }
}
static const char *G2X[] = {"10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634"};
static const char *G2Y[] = {"8495653923123431417604973247489272438418190587263600148770280649306958101930", "4082367875863433681332203403145435568316851327593401208105741076214120093531"};
static const char *G2B[] = {"19485874751759354771024239261021720505790618469301721065564631296452457478373", "266929791119991161246907387137283842545076965332900288569378510910307636690"};
static MF::E e2(const char **s) { return {mpz_class(s[0]), mpz_class(s[1])}; }

static void curves(bool scalars) {
    RawFq fq; TF2 f2("-1"); RawFp fp;
    MF mq(Conv<RawFq>::prime(fq)), m2(mq.p, 2, -1), mp(Conv<RawFp>::prime(fp));
    bigCurve(fq, mq, mq.zero(), mq.of(3), {false, mq.of(1), mq.of(2)}, "G1", scalars, count_);
    bigCurve(f2, m2, m2.zero(), e2(G2B), {false, e2(G2X), e2(G2Y)}, "G2", scalars, count_ / 2);
    for (int k = 0; k < 5; k++) { MCurve::P g; MCurve c = pickCurve(mp, k, g); bigCurve(fp, mp, c.a, c.b, g, "Curve<Fp>", scalars, count_ / 6 + 4); }
    for (int k = 0; k < 5; k++) { MCurve::P g; MCurve c = pickCurve(m2, k, g); bigCurve(f2, m2, c.a, c.b, g, "Curve<F2>", scalars, count_ / 12 + 4); }
    // small curves, every point against every point
    u64 done = 0, longs = 0, budget = count_ * (scalars ? 40 : 120);
    std::vector<uint32_t> ps{5, 7, 11, 13, 17, 23};
    while (done < budget) {
        uint32_t q = ps[rng.below(ps.size())];
        ToyField<0>::setPrime(q);
        ToyField<0> f;
        MF m((mpz_class(q)));
        MCurve::P g; MCurve c = pickCurve(m, rng.below(6), g);
        std::vector<MCurve::P> pts{c.zero()};
        for (uint32_t x = 0; x < q; x++) for (uint32_t y = 0; y < q; y++) { MCurve::P p{false, m.of(x), m.of(y)}; if (c.on(p)) pts.push_back(p); }
        CurveTest<ToyField<0>> t(f, m, c.a, c.b, g.x, g.y, "Curve<small>", rng.chance(1, 2));
        t.consts(g.x, g.y);
        rep::stat("small curves", 1);
        if (!scalars) {
            for (auto &p : pts) { t.oneOps(p); for (auto &r : pts) { t.pairOps(p, r); done++; } }
        } else {
            for (auto &p : pts) {
                std::vector<MCurve::P> mult{c.zero()};
                for (int i = 1; i < 300; i++) mult.push_back(c.add(mult.back(), p));
                for (int i = 0; i < 256; i += 1 + rng.below(7)) { t.mulOps(p, {(uint8_t)i}, mult[i]); done++; }
                for (int i = 0; i < 10; i++) { auto s = rndScalar(1 + rng.below(40)); t.mulOps(p, s, c.mul(p, scalarOf(s))); done++; if (i == 9) t.mulHistory(p, s, 6); }
                if (done % 8 == 0 && longs < 12) {
                    auto s = rndScalar(longSize()); s.back() |= 0x40; int n = 1; while (!mult[n].z) n++;     // n: the order of p
                    mpz_class k = scalarOf(s) % n; t.mulOps(p, s, mult[k.get_ui()]); longs++; rep::stat("scalars of hundreds or thousands of bytes");
                }
            }
        }
    }
    // several curves over one field, alive at once and used in turns
    for (u64 it = 0; it < count_ / 40 + 3; it++) {
        uint32_t q = ps[2 + rng.below(4)]; ToyField<0>::setPrime(q); ToyField<0> f; MF m((mpz_class(q)));
        std::vector<std::unique_ptr<CurveTest<ToyField<0>>>> ts; std::vector<std::vector<MCurve::P>> pts;
        for (int k = 0; k < 4; k++) { MCurve::P g; MCurve c = pickCurve(m, k < 2 ? 5 : rng.below(6), g); pts.push_back({c.zero()}); for (uint32_t x = 0; x < q; x++) for (uint32_t y = 0; y < q; y++) { MCurve::P p{false, m.of(x), m.of(y)}; if (c.on(p)) pts[k].push_back(p); } ts.emplace_back(new CurveTest<ToyField<0>>(f, m, c.a, c.b, g.x, g.y, "Curve in turns", rng.chance(1, 2))); }
        for (int k = 0; k < 40; k++) { int i = rng.below(4); if (!ts[i]) continue; auto &t = *ts[i]; auto pick = [&] { return pts[i][rng.below(pts[i].size())]; }; rep::stat("curves in turns");
            if (scalars) { auto s = rndScalar(1 + rng.below(5)); auto p = pick(); t.mulOps(p, s, t.mc.mul(p, scalarOf(s))); } else { auto p = pick(); t.consts(t.g0x, t.g0y); t.oneOps(p); t.pairOps(p, rng.chance(1, 3) ? p : pick()); }
            if (k == 30) ts[rng.below(4)].reset(); }
    }
    // over a small quadratic extension
    for (u64 it = 0; it < count_ / 60 + 1; it++) {
        uint32_t q = rng.chance(1, 2) ? 7 : 11;
        ToyField<0>::setPrime(q);
        F2Field<ToyField<0>> f(Str("-1"));
        MF m(mpz_class(q), 2, -1);
        MCurve::P g; MCurve c = pickCurve(m, rng.below(6), g);
        std::vector<MCurve::P> pts{c.zero()};
        for (uint32_t k = 0; k < q * q * q * q; k++) { MCurve::P p{false, {mpz_class(k % q), mpz_class(k / q % q)}, {mpz_class(k / q / q % q), mpz_class(k / q / q / q)}}; if (c.on(p)) pts.push_back(p); }
        CurveTest<F2Field<ToyField<0>>> t(f, m, c.a, c.b, g.x, g.y, "Curve<smallF2>", rng.chance(1, 2));
        rep::stat("small curves", 1);
        for (auto &p : pts) {
            if (!scalars) { t.oneOps(p); for (int i = 0; i < 6; i++) t.pairOps(p, rng.chance(1, 3) ? p : rng.chance(1, 3) ? c.neg(p) : pts[rng.below(pts.size())]); }
            else { auto s = rndScalar(1 + rng.below(6)); t.mulOps(p, s, c.mul(p, scalarOf(s))); }
        }
    }
}

// ------------------------------------------------------------------ recoding
static void modeNaf() {
    for (u64 i = 0; i < count_ * 200; i++) {
        unsigned size = i < 700 ? (i < 256 ? 1 : 2) : 1 + rng.below(70);
        std::vector<uint8_t> s = i < 256 ? std::vector<uint8_t>{(uint8_t)i} : rndScalar(size);
        if (i == 300) { s.clear(); size = 0; }
        if (i > 700 && i % 400 == 7) { size = longSize(); s = rndScalar(size); }
        uint8_t *hs = (uint8_t *)malloc(s.size()); if (s.size()) memcpy(hs, s.data(), s.size());   // exact size: a read past either end is a report
        size_t outn = (size + 2) * 8;
        uint8_t *r = (uint8_t *)malloc(outn);
        for (int round = i > 700 && size && rng.chance(1, 8) ? 3 : 1; round--;) {
        memset(r, 0xEE, outn);
        mpz_class k = scalarOf(s);
        rep::op("buildNaf size %u 0x%s", size, k.get_str(16).c_str());
        buildNaf(r, hs, size);
        mpz_class v = 0, w = 1; bool prev = false; const char *bad = nullptr;
        for (size_t j = 0; j < outn; j++, w <<= 1) {
            if (r[j] > 2) bad = "digit outside {0,1,2}";
            if (r[j] && prev) bad = "two adjacent nonzero digits";
            prev = r[j] != 0;
            if (r[j] == 1) v += w; else if (r[j] == 2) v -= w;
            if (r[j] && j > size * 8) bad = "digit above the top bit";
        }
        rep::stat("evaluations"); rep::seen(hcomb(hash_str("naf"), hcomb(size, s.empty() ? 0 : s[0] + (s[size - 1] << 8))));
        if (v != k) rep::viol("buildNaf/value", "%u bytes 0x%s recodes to 0x%s", size, k.get_str(16).c_str(), v.get_str(16).c_str());
        if (bad) rep::viol("buildNaf/form", "%u bytes 0x%s: %s", size, k.get_str(16).c_str(), bad);
        if (s.size() && memcmp(hs, s.data(), s.size())) rep::viol("buildNaf/operand", "the scalar changed");
        if (round) { u64 at = rng.below(size); hs[at] = s[at] ^= 1 << rng.below(8); rep::stat("repeated calls"); }
        }
        free(hs); free(r);
    }
}

// ------------------------------------------------------------------ the BN254 engine objects
static void modeEngine() {
    using namespace AltBn128;
    mpz_class r = Conv<RawFr>::prime(Fr), p = Conv<RawFq>::prime(F1);
    MF mq(p), m2(p, 2, -1);
    auto ck = [&](const char *n, bool ok) { rep::op("engine %s", n); rep::stat("evaluations"); rep::seen(hash_str(n)); if (!ok) rep::viol(Str("engine/") + n, "%s does not hold", n); };
    ck("p", p == mpz_class("21888242871839275222246405745257275088696311157297823662689037894645226208583"));
    ck("r", r == mpz_class("21888242871839275222246405745257275088548364400416034343698204186575808495617"));
    auto g = [&](auto &G, auto &F, const MF &m, const MF::E &b, const MF::E &x, const MF::E &y, const char *nm) {
        typedef typename std::decay<decltype(F)>::type BF; typedef Conv<BF> C;
        MCurve c{m, m.zero(), b};
        MCurve::P o{false, x, y};
        auto K = [&](const char *s) { return Str(nm) + " " + s; };
        ck(K("generator given").c_str(), C::get(F, G.one().x) == x && C::get(F, G.one().y) == y && C::get(F, G.one().zz) == m.one() && C::get(F, G.one().zzz) == m.one());
        ck(K("affine generator").c_str(), C::get(F, G.oneAffine().x) == x && C::get(F, G.oneAffine().y) == y);
        ck(K("a is zero").c_str(), C::get(F, G.a()) == m.zero());
        ck(K("b").c_str(), C::get(F, G.b()) == b);
        ck(K("generator on the curve").c_str(), c.on({false, C::get(F, G.one().x), C::get(F, G.one().y)}));
        uint8_t s[32]; memset(s, 0, 32); size_t n; mpz_export(s, &n, -1, 1, 0, 0, r.get_mpz_t());
        typename std::decay<decltype(G)>::type::Point P, Q; G.mulByScalar(P, G.one(), s, 32);
        ck(K("generator has order r").c_str(), G.isZero(P));
        MCurve::P mr = c.mul(o, r - 1); s[0]--; 
        G.mulByScalar(P, G.one(), s, 32); G.neg(Q, G.one()); ck(K("(r-1) times the generator is its negative").c_str(), G.eq(P, Q) && c.eq(mr, c.neg(o)));
        G.add(P, P, G.one()); ck(K("sum to the neutral element").c_str(), G.isZero(P));
    };
    MF::E b1 = mq.of(3), b2 = e2(G2B);
    g(G1, F1, mq, b1, mq.of(1), mq.of(2), "G1"); g(G2, F2, m2, b2, e2(G2X), e2(G2Y), "G2");
    Engine &E = Engine::engine; Engine mine;
    g(E.g1, E.f1, mq, b1, mq.of(1), mq.of(2), "engine.g1"); g(E.g2, E.f2, m2, b2, e2(G2X), e2(G2Y), "engine.g2");
    g(mine.g1, mine.f1, mq, b1, mq.of(1), mq.of(2), "local engine g1"); g(mine.g2, mine.f2, m2, b2, e2(G2X), e2(G2Y), "local engine g2");
    MT t(p);
    for (TF12 *f : {&F12, &E.f12, &mine.f12}) {
        M12 a{{rnd6(t), rnd6(t)}}; TF12::Element e, x; put12(*f, e, a); f->square(x, e);
        ck("F12 of the engine multiplies", get12(*f, x) == t.mul(a, a));
        f->Frobenius(x, e); ck("F12 Frobenius of the engine", get12(*f, x) == t.pow(a, p, t.one12()));
    }
    ck("F6 one", get6(F6, F6.one()) == t.one6());
}

static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    Str mode;
    for (int i = 1; i + 1 < argc; i += 2) {
        Str k = argv[i], v = argv[i + 1];
        if (k == "--mode") mode = v; else if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count_ = strtoull(v.c_str(), 0, 10);
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
    rng = Rng(seedv * 1000003 + hash_str(mode.c_str()));
    if (mode == "tower") modeTower();
    else if (mode == "curve") curves(false);
    else if (mode == "scalar") { modeNaf(); curves(true); }
    else if (mode == "engine") for (u64 i = 0; i < count_ / 40 + 1; i++) modeEngine();
    else return 3;
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
