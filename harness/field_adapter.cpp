// Binds one generated field (fr.hpp on the include path, name Fr) to the FieldApi table.
#include "fr.hpp"
#include "field_api.h"
#include <string.h>
#include <string>

#ifndef BACKEND_NAME
#error BACKEND_NAME
#endif
#define E2(n) [](void *r, void *a, void *b) { Fr_##n((PFrElement)r, (PFrElement)a, (PFrElement)b); }
#define E1(n) [](void *r, void *a) { Fr_##n((PFrElement)r, (PFrElement)a); }
typedef RawFr::Element RE;
static RawFr &F() { return RawFr::field; }
static inline RE &re(uint64_t *p) { return *(RE *)p; }
static inline const RE &re(const uint64_t *p) { return *(const RE *)p; }
static void put(uint64_t *r, const RE &v) { memcpy(r, v.v, sizeof(v.v)); }

// The address the call is made through, so that the x86 ABI monitor can call the entry point directly.
static FieldApi A;
extern "C" void *field_entry(const char *name) {
    struct { const char *n; void *p; } t[] = {
#define T(x) {#x, (void *)&Fr_##x},
        T(copy) T(copyn) T(add) T(sub) T(neg) T(mul) T(square) T(band) T(bor) T(bxor) T(bnot) T(shl) T(shr) T(eq) T(neq)
        T(lt) T(gt) T(leq) T(geq) T(land) T(lor) T(lnot) T(toNormal) T(toLongNormal) T(toMontgomery) T(isTrue) T(toInt)
        T(rawCopy) T(rawSwap) T(rawAdd) T(rawSub) T(rawNeg) T(rawMMul) T(rawMSquare) T(rawMMul1) T(rawToMontgomery)
        T(rawFromMontgomery) T(rawIsEq) T(rawIsZero) T(rawShl) T(rawShr)
        T(idiv) T(mod) T(div) T(inv) T(pow)
#undef T
    };
    for (auto &e : t) if (!strcmp(e.n, name)) return e.p;
    return nullptr;
}

extern "C" FieldApi *field_api() {
    static bool done = false;
    if (done) return &A;
    done = true;
    A.backend = BACKEND_NAME;
    A.n64 = Fr_N64; A.maxBits = RawFr::MaxBits; A.elementSize = sizeof(FrElement);
    A.qElem = &Fr_q; A.R2Elem = &Fr_R2; A.R3Elem = &Fr_R3;
    A.op2[O_ADD] = E2(add); A.op2[O_SUB] = E2(sub); A.op2[O_MUL] = E2(mul); A.op2[O_BAND] = E2(band); A.op2[O_BOR] = E2(bor);
    A.op2[O_BXOR] = E2(bxor); A.op2[O_SHL] = E2(shl); A.op2[O_SHR] = E2(shr); A.op2[O_EQ] = E2(eq); A.op2[O_NEQ] = E2(neq);
    A.op2[O_LT] = E2(lt); A.op2[O_GT] = E2(gt); A.op2[O_LEQ] = E2(leq); A.op2[O_GEQ] = E2(geq); A.op2[O_LAND] = E2(land);
    A.op2[O_LOR] = E2(lor); A.op2[O_IDIV] = E2(idiv); A.op2[O_MOD] = E2(mod); A.op2[O_DIV] = E2(div); A.op2[O_POW] = E2(pow);
    A.op1[U_NEG] = E1(neg); A.op1[U_SQUARE] = E1(square); A.op1[U_BNOT] = E1(bnot); A.op1[U_LNOT] = E1(lnot); A.op1[U_COPY] = E1(copy);
    A.op1[U_TONORMAL] = E1(toNormal); A.op1[U_TOLONGNORMAL] = E1(toLongNormal); A.op1[U_TOMONTGOMERY] = E1(toMontgomery); A.op1[U_INV] = E1(inv);
    A.copyn = [](void *r, void *a, int n) { Fr_copyn((PFrElement)r, (PFrElement)a, n); };
    A.isTrue = [](void *a) { return Fr_isTrue((PFrElement)a); };
    A.toInt = [](void *a) { return Fr_toInt((PFrElement)a); };
    A.str2element = [](void *r, const char *s) { Fr_str2element((PFrElement)r, s); };
    A.element2str = [](void *a) { return Fr_element2str((PFrElement)a); };
    A.raw2[R_ADD] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { Fr_rawAdd(r, a, b); };
    A.raw2[R_SUB] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { Fr_rawSub(r, a, b); };
    A.raw2[R_MMUL] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { Fr_rawMMul(r, a, b); };
    A.raw1[R_NEG] = [](uint64_t *r, const uint64_t *a) { Fr_rawNeg(r, a); };
    A.raw1[R_MSQUARE] = [](uint64_t *r, const uint64_t *a) { Fr_rawMSquare(r, a); };
    A.raw1[R_TOMONT] = [](uint64_t *r, const uint64_t *a) { Fr_rawToMontgomery(r, a); };
    A.raw1[R_FROMMONT] = [](uint64_t *r, const uint64_t *a) { Fr_rawFromMontgomery(r, a); };
    A.raw1[R_COPY] = [](uint64_t *r, const uint64_t *a) { Fr_rawCopy(r, a); };
    A.mmul1 = [](uint64_t *r, const uint64_t *a, uint64_t b) { Fr_rawMMul1(r, a, b); };
    A.swap = [](uint64_t *a, uint64_t *b) { Fr_rawSwap(a, b); };
    A.isEq = [](const uint64_t *a, const uint64_t *b) { return Fr_rawIsEq((uint64_t *)a, b); };
    A.isZero = [](const uint64_t *a) { return Fr_rawIsZero(a); };
    A.rawShl = [](uint64_t *r, uint64_t *a, uint64_t b) { Fr_rawShl(r, a, b); };
    A.rawShr = [](uint64_t *r, uint64_t *a, uint64_t b) { Fr_rawShr(r, a, b); };
    A.rf2[F_ADD] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { F().add(re(r), re(a), re(b)); };
    A.rf2[F_SUB] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { F().sub(re(r), re(a), re(b)); };
    A.rf2[F_MUL] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { F().mul(re(r), re(a), re(b)); };
    A.rf2[F_DIV] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { F().div(re(r), re(a), re(b)); };
    A.rf2[F_ADDV] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { put(r, F().add(re(a), re(b))); };
    A.rf2[F_SUBV] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { put(r, F().sub(re(a), re(b))); };
    A.rf2[F_MULV] = [](uint64_t *r, const uint64_t *a, const uint64_t *b) { put(r, F().mul(re(a), re(b))); };
    A.rf1[F_NEG] = [](uint64_t *r, const uint64_t *a) { F().neg(re(r), re(a)); };
    A.rf1[F_SQUARE] = [](uint64_t *r, const uint64_t *a) { F().square(re(r), re(a)); };
    A.rf1[F_INV] = [](uint64_t *r, const uint64_t *a) { F().inv(re(r), re(a)); };
    A.rf1[F_COPY] = [](uint64_t *r, const uint64_t *a) { F().copy(re(r), re(a)); };
    A.rf1[F_NEGV] = [](uint64_t *r, const uint64_t *a) { put(r, F().neg(re(a))); };
    A.rf1[F_SQUAREV] = [](uint64_t *r, const uint64_t *a) { put(r, F().square(re(a))); };
    A.rfSwap = [](uint64_t *a, uint64_t *b) { F().swap(re(a), re(b)); };
    A.rfMul1 = [](uint64_t *r, const uint64_t *a, uint64_t b) { F().mul1(re(r), re(a), b); };
    A.rfEq = [](const uint64_t *a, const uint64_t *b) { return F().eq(re(a), re(b)); };
    A.rfIsZero = [](const uint64_t *a) { return F().isZero(re(a)); };
    A.rfToMont = [](uint64_t *r, const uint64_t *a) { F().toMontgomery(re(r), re(a)); };
    A.rfFromMont = [](uint64_t *r, const uint64_t *a) { F().fromMontgomery(re(r), re(a)); };
    A.rfExp = [](uint64_t *r, const uint64_t *a, uint8_t *s, unsigned n) { F().exp(re(r), re(a), s, n); };
    A.rfSet = [](uint64_t *r, int v) { F().set(re(r), v); };
    A.rfSetV = [](uint64_t *r, int v) { put(r, F().set(v)); };
    A.rfIntOp = [](uint64_t *r, int w, int a, const uint64_t *b) {
        switch (w) {
            case 0: put(r, F().add(a, re(b))); break;
            case 1: put(r, F().sub(a, re(b))); break;
            case 2: put(r, F().mul(a, re(b))); break;
            case 3: put(r, F().add(re(b), a)); break;
            case 4: put(r, F().sub(re(b), a)); break;
            default: put(r, F().mul(re(b), a)); break;
        }
    };
    A.rfFromUI = [](uint64_t *r, unsigned long v) { F().fromUI(re(r), v); };
    A.rfFromString = [](uint64_t *r, const char *s, uint32_t radix) { F().fromString(re(r), s, radix); };
    A.rfToString = [](char *out, size_t cap, const uint64_t *a, uint32_t radix) {
        std::string s = F().toString(re(a), radix);
        snprintf(out, cap, "%s", s.c_str());
    };
    A.rfToMpz = [](mpz_t r, const uint64_t *a) { F().toMpz(r, re(a)); };
    A.rfFromMpz = [](uint64_t *r, const mpz_t a) { F().fromMpz(re(r), a); };
    A.rfToBE = [](const uint64_t *a, uint8_t *d, int n) { return F().toRprBE(re(a), d, n); };
    A.rfFromBE = [](uint64_t *r, const uint8_t *d, int n) { return F().fromRprBE(re(r), d, n); };
    A.rfConst = [](int i) { return i == 0 ? F().zero().v : i == 1 ? F().one().v : F().negOne().v; };
    A.rfBytes = []() { return F().bytes(); };
    // Helpers are optional: the driver defines HAVE_<name> for those the generated header declares.
#define X(n) [](uint64_t *r, uint64_t *a, uint64_t *b) { Fr_##n(r, a, b); }
#ifdef HAVE_rawAnd
    A.rawx[X_AND] = X(rawAnd);
#endif
#ifdef HAVE_rawOr
    A.rawx[X_OR] = X(rawOr);
#endif
#ifdef HAVE_rawXor
    A.rawx[X_XOR] = X(rawXor);
#endif
#ifdef HAVE_rawSubRegular
    A.rawx[X_SUBREG] = X(rawSubRegular);
#endif
#ifdef HAVE_rawNot
    A.rawNot = [](uint64_t *r, uint64_t *a) { Fr_rawNot(r, a); };
#endif
#ifdef HAVE_rawCmp
    A.rawCmp = [](uint64_t *a, uint64_t *b) { return Fr_rawCmp(a, b); };
#endif
#ifdef HAVE_rawZero
    A.rawZero = [](uint64_t *r) { Fr_rawZero(r); };
#endif
#ifdef HAVE_rawCopyS2L
    A.rawCopyS2L = [](uint64_t *r, int64_t v) { Fr_rawCopyS2L(r, v); };
#endif
#ifdef HAVE_rawAddLS
    A.rawAddLS = [](uint64_t *r, uint64_t *a, uint64_t b) { Fr_rawAddLS(r, a, b); };
#endif
#ifdef HAVE_rawSubSL
    A.rawSubSL = [](uint64_t *r, uint64_t a, uint64_t *b) { Fr_rawSubSL(r, a, b); };
#endif
#ifdef HAVE_rawSubLS
    A.rawSubLS = [](uint64_t *r, uint64_t *a, uint64_t b) { Fr_rawSubLS(r, a, b); };
#endif
#ifdef HAVE_rawNegLS
    A.rawNegLS = [](uint64_t *r, uint64_t *a, uint64_t b) { Fr_rawNegLS(r, a, b); };
#endif
    return &A;
}
