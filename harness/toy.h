// A prime field small enough to enumerate, with the interface of a generated field class.
#pragma once
#include <stdint.h>
#include <string>
#include <gmpxx.h>
template <int TAG> class ToyField {
public:
    static uint32_t P;
    struct Element { uint32_t v; };
    static ToyField field;
    Element fz, fo, fn;
    ToyField() { fz.v = 0; fo.v = 1; fn.v = P - 1; }
    static void setPrime(uint32_t p) { P = p; field = ToyField(); }
    const Element &zero() { return fz; }
    const Element &one() { return fo; }
    const Element &negOne() { return fn; }
    void copy(Element &r, const Element &a) { r.v = a.v; }
    void swap(Element &a, Element &b) { uint32_t t = a.v; a.v = b.v; b.v = t; }
    void add(Element &r, const Element &a, const Element &b) { r.v = (a.v + b.v) % P; }
    void sub(Element &r, const Element &a, const Element &b) { r.v = (a.v + P - b.v) % P; }
    void neg(Element &r, const Element &a) { r.v = (P - a.v) % P; }
    void mul(Element &r, const Element &a, const Element &b) { r.v = (uint64_t)a.v * b.v % P; }
    void square(Element &r, const Element &a) { mul(r, a, a); }
    Element add(const Element &a, const Element &b) { Element r; add(r, a, b); return r; }
    Element sub(const Element &a, const Element &b) { Element r; sub(r, a, b); return r; }
    Element mul(const Element &a, const Element &b) { Element r; mul(r, a, b); return r; }
    Element neg(const Element &a) { Element r; neg(r, a); return r; }
    Element square(const Element &a) { Element r; square(r, a); return r; }
    void inv(Element &r, const Element &a) { uint64_t x = 1, b = a.v; for (uint32_t e = P - 2; e; e >>= 1) { if (e & 1) x = x * b % P; b = b * b % P; } r.v = x; }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    int eq(const Element &a, const Element &b) { return a.v == b.v; }
    int isZero(const Element &a) { return a.v == 0; }
    void set(Element &r, int x) { r.v = ((int64_t)x % P + P) % P; }
    Element set(int x) { Element r; set(r, x); return r; }
    void fromUI(Element &r, unsigned long v) { r.v = v % P; }
    void fromMpz(Element &r, const mpz_t m) { mpz_class x(m); mpz_class y; mpz_fdiv_r_ui(y.get_mpz_t(), x.get_mpz_t(), P); r.v = y.get_ui(); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) { mpz_class x; mpz_set_str(x.get_mpz_t(), s.c_str(), radix); fromMpz(r, x.get_mpz_t()); }
    std::string toString(const Element &a, uint32_t radix = 10) { mpz_class x(a.v); return x.get_str(radix); }
    void exp(Element &r, const Element &base, uint8_t *s, unsigned n) {
        Element b = base, x = fo;
        for (int i = n * 8 - 1; i >= 0; i--) { mul(x, x, x); if (s[i >> 3] & (1 << (i & 7))) mul(x, x, b); }
        r = x;
    }
};
template <int TAG> uint32_t ToyField<TAG>::P = 7;
template <int TAG> ToyField<TAG> ToyField<TAG>::field;
