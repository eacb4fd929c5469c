#pragma once
#include "fr.hpp"
#include <gmpxx.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
typedef mpz_class Z;
static const int NL = Fr_N64;
static Z fromLimbs(const uint64_t *v, int n = NL) { Z r; mpz_import(r.get_mpz_t(), n, -1, 8, -1, 0, v); return r; }
static void toLimbs(uint64_t *v, const Z &x, int n = NL) { memset(v, 0, 8 * n); mpz_export(v, 0, -1, 8, -1, 0, x.get_mpz_t()); }
static Z P() { return fromLimbs(Fr_q.longVal); }
static Z md(const Z &a) { Z r = a % P(); if (r < 0) r += P(); return r; }
static Z Rm() { return md(Z(1) << (64 * NL)); }
static Z inv(const Z &a) { Z r, q = P(), b = md(a); mpz_invert(r.get_mpz_t(), b.get_mpz_t(), q.get_mpz_t()); return r; }
static Z powm(const Z &a, const Z &e) { Z r, q = P(); mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), q.get_mpz_t()); return r; }
static int bits() { return mpz_sizeinbase(P().get_mpz_t(), 2); }
// 's' short, 't' short with its Montgomery form, 'n' long, 'm' long Montgomery
static FrElement mk(const Z &x, char enc) {
    FrElement e; memset(&e, 0, sizeof e);
    Z v = md(x);
    if (enc == 's' || enc == 't') e.shortVal = (int32_t)mpz_get_si(x.get_mpz_t());
    if (enc == 'n') toLimbs(e.longVal, v);
    if (enc == 'm' || enc == 't') toLimbs(e.longVal, md(v * Rm()));
    e.type = enc == 's' ? 0 : enc == 't' ? 0x40000000u : enc == 'n' ? 0x80000000u : 0xC0000000u;
    return e;
}
static Z val(const FrElement &e) {
    if (!(e.type & 0x80000000u)) return md(Z((long)e.shortVal));
    Z v = fromLimbs(e.longVal);
    if (v >= P()) return Z(-1);       // not reduced: no valid element
    return (e.type & 0x40000000u) ? md(v * inv(Rm())) : v;
}
static Z sgn(const Z &x) { Z v = md(x); return v > (P() - 1) / 2 ? Z(v - P()) : v; }
static int failures = 0;
static void chk(const char *what, const Z &got, const Z &want) {
    if (got != want && ++failures < 10) printf("%s: got %s, expected %s\n", what, got.get_str().c_str(), want.get_str().c_str());
}
static void chk(const char *what, bool ok) { if (!ok && ++failures < 10) printf("%s: wrong\n", what); }
typedef void (*Op2)(PFrElement, PFrElement, PFrElement);
static Z run2(Op2 f, FrElement a, FrElement b) { FrElement r; memset(&r, 0x55, sizeof r); f(&r, &a, &b); return val(r); }
static int done() { if (failures) { printf("%d wrong answers\n", failures); return 1; } return 0; }
