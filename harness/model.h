// Independent model: a prime field or a quadratic extension of one, over GMP integers, and affine curves on it.
#pragma once
#include "common.h"

struct MF {                       // Z_p, or Z_p[u]/(u^2 - nr) when deg == 2
    mpz_class p, nr; int deg;
    struct E { mpz_class a, b; bool operator==(const E &o) const { return a == o.a && b == o.b; } bool operator!=(const E &o) const { return !(*this == o); } };
    MF(mpz_class p_ = 7, int d = 1, mpz_class n = 0) : p(p_), nr(n), deg(d) { nr %= p; if (nr < 0) nr += p; }
    mpz_class md(const mpz_class &x) const { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t()); return r; }
    mpz_class minv(const mpz_class &x) const { mpz_class r; if (!mpz_invert(r.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t())) r = 0; return r; }
    E zero() const { return {0, 0}; }
    E one() const { return {1, 0}; }
    E of(const mpz_class &v) const { return {md(v), 0}; }
    bool isZero(const E &x) const { return x.a == 0 && x.b == 0; }
    E add(const E &x, const E &y) const { return {md(x.a + y.a), md(x.b + y.b)}; }
    E sub(const E &x, const E &y) const { return {md(x.a - y.a), md(x.b - y.b)}; }
    E neg(const E &x) const { return {md(-x.a), md(-x.b)}; }
    E mul(const E &x, const E &y) const {
        if (deg == 1) return {md(x.a * y.a), 0};
        return {md(x.a * y.a + nr * x.b * y.b), md(x.a * y.b + x.b * y.a)};
    }
    E inv(const E &x) const {
        if (deg == 1) return {minv(x.a), 0};
        mpz_class n = minv(md(x.a * x.a - nr * x.b * x.b));
        return {md(x.a * n), md(-x.b * n)};
    }
    bool invertible(const E &x) const { return deg == 1 ? x.a != 0 : md(x.a * x.a - nr * x.b * x.b) != 0; }
    E pow(E x, mpz_class e) const { E r = one(); while (e > 0) { if (mpz_odd_p(e.get_mpz_t())) r = mul(r, x); x = mul(x, x); e >>= 1; } return r; }
    std::string str(const E &x) const { return deg == 1 ? x.a.get_str() : "(" + x.a.get_str() + "," + x.b.get_str() + ")"; }
};

struct MCurve {
    MF f; MF::E a, b;
    struct P { bool z; MF::E x, y; };
    P zero() const { return {true, {0, 0}, {0, 0}}; }
    bool eq(const P &s, const P &t) const { return s.z == t.z && (s.z || (s.x == t.x && s.y == t.y)); }
    bool on(const P &s) const { return s.z || f.mul(s.y, s.y) == f.add(f.mul(f.mul(s.x, s.x), s.x), f.add(f.mul(a, s.x), b)); }
    P neg(const P &s) const { return s.z ? s : P{false, s.x, f.neg(s.y)}; }
    P dbl(const P &s) const { return add(s, s); }
    P add(const P &s, const P &t) const {
        if (s.z) return t;
        if (t.z) return s;
        MF::E l;
        if (s.x == t.x) {
            if (s.y != t.y || f.isZero(s.y)) return zero();
            l = f.mul(f.add(f.mul(f.of(3), f.mul(s.x, s.x)), a), f.inv(f.add(s.y, s.y)));
        } else l = f.mul(f.sub(t.y, s.y), f.inv(f.sub(t.x, s.x)));
        MF::E x = f.sub(f.sub(f.mul(l, l), s.x), t.x);
        return {false, x, f.sub(f.mul(l, f.sub(s.x, x)), s.y)};
    }
    P mul(P s, mpz_class k) const { P r = zero(); while (k > 0) { if (mpz_odd_p(k.get_mpz_t())) r = add(r, s); s = dbl(s); k >>= 1; } return r; }
    std::string str(const P &s) const { return s.z ? "O" : "(" + f.str(s.x) + "," + f.str(s.y) + ")"; }
};
