// Entry points of a generated field under valgrind's memcheck: the unused half of every operand and the whole of every
// result are memory nobody wrote; no decision may depend on them and the result has to be fully determined.
#include "cases.h"
#include "field_api.h"
typedef std::string Str;
static const FieldApi *A; static mpz_class q; static int N; static Rng rng(1);
enum { SHORT = 0, SMONT = 0x40000000, LONG = (int)0x80000000, LMONT = (int)0xC0000000 };
struct Elem { int32_t s; uint32_t t; uint64_t v[16]; };
static void limbs(uint64_t *d, const mpz_class &x) { memset(d, 0, N * 8); mpz_export(d, nullptr, -1, 8, 0, 0, x.get_mpz_t()); }
static mpz_class value() {
    mpz_class v = 0; for (int i = 0; i <= N; i++) v = (v << 64) + mpz_class(std::to_string(rng.next()));
    switch (rng.below(14)) {
        case 0: v = 0; break; case 1: v = 1; break; case 2: v = q - 1; break; case 3: v = q / 2; break; case 4: v = q / 2 + 1; break;
        case 5: v = mpz_class(1) << rng.below(A->maxBits); break; case 6: v = 0x7fffffff; break; case 7: v = 0x80000000u; break; case 8: v = q - 0x80000000u; break; case 9: case 10: v = rng.below(A->maxBits + 4); break; case 11: v = q - 1 - rng.below(300); break;
    }
    v %= q; return v;
}
static bool fits(const mpz_class &v) { return v <= 0x7fffffff || v >= q - 0x80000000u; }
// one operand; what its encoding leaves unused stays unwritten
static void put(unsigned char *p, const mpz_class &v, int enc) {
    Elem e; memset(&e, 0, sizeof e); e.t = enc;
    VALGRIND_MAKE_MEM_UNDEFINED(p, A->elementSize);
    uint64_t l[16]; limbs(l, v);
    if (enc == SHORT || enc == SMONT) { mpz_class s = v <= 0x7fffffff ? v : mpz_class(v - q); e.s = (int32_t)s.get_si(); memcpy(p, &e.s, 4); }
    memcpy(p + 4, &e.t, 4);
    if (enc == LONG) memcpy(p + 8, l, N * 8);
    if (enc == SMONT || enc == LMONT) { uint64_t m[16]; A->raw1[R_TOMONT](m, l); memcpy(p + 8, m, N * 8); }
}
static int enc(const mpz_class &v) { static const int E[] = {SHORT, SMONT, LONG, LMONT}; return E[fits(v) ? rng.below(4) : 2 + rng.below(2)]; }
static const char *en(int e) { return e == SHORT ? "short" : e == SMONT ? "short Montgomery" : e == LONG ? "long" : "long Montgomery"; }
static unsigned char *blk() { return (unsigned char *)malloc(A->elementSize); }
static unsigned e0;
static void start(const Str &op, const Str &with) { rep::op("%s %s", op.c_str(), with.c_str()); e0 = VALGRIND_COUNT_ERRORS; }
static void finish(const Str &op) {
    unsigned e1 = VALGRIND_COUNT_ERRORS; rep::stat("evaluations");
    if (e1 != e0) rep::viol(op + "/" + A->backend + "/undefined", "%s: a decision or an address depends on memory nobody wrote, or foreign memory was touched (q=%s)", rep::cur(), q.get_str().c_str());
    rep::seen(hash_str((Str(rep::cur()) + A->backend).c_str()));
}
static void raw(const Str &op, const void *p, size_t n) { rep::stat("results checked for definedness"); if (Case::undefinedIn(p, n)) rep::viol(op + "/" + A->backend + "/undefined result", "%s: part of the result is memory nobody wrote (q=%s)", rep::cur(), q.get_str().c_str()); }
static void elem(const Str &op, unsigned char *p) {
    if (Case::undefinedIn(p + 4, 4)) { raw(op, p + 4, 4); return; }
    uint32_t t; memcpy(&t, p + 4, 4);
    if (t & LONG) raw(op, p + 8, N * 8); else { raw(op, p, 4); if (t & SMONT) raw(op, p + 8, N * 8); }
}
int main(int argc, char **argv) {
    u64 seed = 1, count = 10;
    for (int i = 1; i + 1 < argc; i += 2) { Str k = argv[i], v = argv[i + 1]; if (k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--q") q = mpz_class(v); }
    rep::install();
    A = field_api(); N = A->n64; rng = Rng(seed * 77 + mpz_sizeinbase(q.get_mpz_t(), 2));
    if (!RUNNING_ON_VALGRIND) { printf("not under valgrind\n"); return 3; }
    for (u64 i = 0; i < count; i++) {
        for (int o = 0; o < N_OP2; o++) {
            if (!A->op2[o]) continue;
            mpz_class a = value(), b = rng.chance(1, 4) ? a : value(); Str nm = OP2_NAMES[o];
            if ((o == O_IDIV || o == O_MOD || o == O_DIV) && b == 0) b = 1;
            int ea = enc(a), eb = enc(b); unsigned char *x = blk(), *y = blk(), *r = blk(); put(x, a, ea); put(y, b, eb); VALGRIND_MAKE_MEM_UNDEFINED(r, A->elementSize);
            int al = rng.below(8); unsigned char *d = al == 0 ? x : al == 1 ? y : r;
            start(nm, Str(en(ea)) + ", " + en(eb) + (d == r ? "" : ", in place")); A->op2[o](d, x, y); finish(nm); elem(nm, d);
            free(x); free(y); free(r);
        }
        for (int o = 0; o < N_OP1; o++) {
            if (!A->op1[o]) continue;
            mpz_class a = value(); Str nm = OP1_NAMES[o]; if (o == U_INV && a == 0) a = 1;
            int ea = enc(a); unsigned char *x = blk(), *r = blk(); put(x, a, ea); VALGRIND_MAKE_MEM_UNDEFINED(r, A->elementSize);
            unsigned char *d = rng.chance(1, 6) ? x : r;
            start(nm, Str(en(ea)) + (d == r ? "" : ", in place")); A->op1[o](d, x); finish(nm); elem(nm, d);
            free(x); free(r);
        }
        {   mpz_class a = value(); int ea = enc(a); unsigned char *x = blk(); put(x, a, ea); int v;
            start("isTrue", en(ea)); v = A->isTrue(x); finish("isTrue"); raw("isTrue", &v, sizeof v);
            if (!fits(a)) { a = rng.chance(1, 2) ? mpz_class(rng.below(1u << 31)) : mpz_class(q - 1 - rng.below(1u << 31)); ea = enc(a); put(x, a, ea); }
            start("toInt", en(ea)); v = A->toInt(x); finish("toInt"); raw("toInt", &v, sizeof v);
            start("element2str", en(ea)); char *s = A->element2str(x); finish("element2str"); raw("element2str", s, strlen(s) + 1);
            VALGRIND_MAKE_MEM_UNDEFINED(x, A->elementSize); start("str2element", ""); A->str2element(x, s); finish("str2element"); elem("str2element", x);
            free(s); free(x);
        }
        {   mpz_class a = value(), b = value(); size_t sz = N * 8; uint64_t *x = (uint64_t *)malloc(sz), *y = (uint64_t *)malloc(sz), *r = (uint64_t *)malloc(sz);
            auto load = [&](const Str &nm) { limbs(x, a); limbs(y, b); VALGRIND_MAKE_MEM_UNDEFINED(r, sz); start(nm, "raw"); };
            auto fin = [&](const Str &nm) { finish(nm); raw(nm, r, sz); };
            for (int o = 0; o < N_RAW2; o++) if (A->raw2[o]) { load(RAW2_NAMES[o]); A->raw2[o](r, x, y); fin(RAW2_NAMES[o]); }
            for (int o = 0; o < N_RAW1; o++) if (A->raw1[o]) { load(RAW1_NAMES[o]); A->raw1[o](r, x); fin(RAW1_NAMES[o]); }
            load("rawMMul1"); A->mmul1(r, x, rng.next()); fin("rawMMul1");
            load("rawShl"); A->rawShl(r, x, rng.below(A->maxBits)); fin("rawShl"); load("rawShr"); A->rawShr(r, x, rng.below(A->maxBits)); fin("rawShr");
            int v; load("rawIsEq"); v = A->isEq(x, rng.chance(1, 2) ? x : y); finish("rawIsEq"); raw("rawIsEq", &v, 4); load("rawIsZero"); v = A->isZero(x); finish("rawIsZero"); raw("rawIsZero", &v, 4);
            for (int o = 0; o < N_RF2; o++) if (A->rf2[o]) { if (o == F_DIV && b == 0) b = 1; load(RF2_NAMES[o]); A->rf2[o](r, x, y); fin(RF2_NAMES[o]); }
            for (int o = 0; o < N_RF1; o++) if (A->rf1[o]) { if (o == F_INV && a == 0) a = 1; load(RF1_NAMES[o]); A->rf1[o](r, x); fin(RF1_NAMES[o]); }
            free(x); free(y); free(r);
        }
    }
    rep::done();
    return 0;
}
