// Field monitors: drives every published entry point of one generated field and judges each
// execution against an independent GMP model. One process per (prime, backend, mode).
#include "common.h"
#include "field_api.h"
#include <sys/mman.h>
#include <assert.h>
#include <functional>

extern "C" void *field_entry(const char *name);
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
// Linked in with the ARM64 interpreter only.
extern "C" int armvm_take_faults(char *buf, int cap) __attribute__((weak));
extern "C" unsigned long long armvm_steps() __attribute__((weak));
// x86 ABI probe (abi_probe.S): calls fn(a,b,c) with sentinel callee-saved registers, returns a mask of the ones not restored
extern "C" long abi_probe(void *fn, void *a, void *b, void *c, long *ret);

static FieldApi *A;
static mpz_class q, R, Rinv, halfq, MASK;
static int n64, bits, esz;
static u64 seedv = 1, count_ = 1000;
static std::string fieldName = "?";
static Rng rng;

enum Rep { SH = 0, SM = 1, LO = 2, LM = 3 };
static const char *const REPN[] = {"short", "short+mont", "long", "long mont"};
static const uint32_t REPT[] = {0x00000000u, 0x40000000u, 0x80000000u, 0xC0000000u};
#pragma pack(push, 1)
struct El { int32_t sv; uint32_t type; u64 v[16]; };   // view; only n64 limbs exist
#pragma pack(pop)

static void mpzToLimbs(u64 *r, const mpz_class &v) {
    for (int i = 0; i < n64; i++) r[i] = 0;
    mpz_export(r, nullptr, -1, 8, -1, 0, v.get_mpz_t());
}
static mpz_class limbsToMpz(const u64 *a) { mpz_class r; mpz_import(r.get_mpz_t(), n64, -1, 8, -1, 0, a); return r; }
static mpz_class md(const mpz_class &a) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t()); return r; }
static mpz_class sgn(const mpz_class &v) { return v > halfq ? mpz_class(v - q) : v; }
static const mpz_class I32MAX = (mpz_class(1) << 31) - 1, I32MIN = -(mpz_class(1) << 31);
static bool fitsShort(const mpz_class &v) { if (v <= I32MAX) return true; mpz_class d = v - q; return d >= I32MIN; }
static std::string S(const mpz_class &v) { return v.get_str(); }

// ---------- guarded memory ----------
struct Slot {
    unsigned char *page; size_t psz;
    void init() {
        psz = 4096;
        unsigned char *m = (unsigned char *)mmap(nullptr, psz * 3, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(3); }
        page = m + psz;
        mprotect(page, psz, PROT_READ | PROT_WRITE);
    }
    unsigned char *lo(size_t) { return page; }
    unsigned char *hi(size_t n) { return page + psz - n; }
};
static Slot slots[5];
static const unsigned char CAN = 0xC7;
struct Buf {      // an operand placed flush against a guard page, canaries on its other side
    Slot *s; unsigned char *p; size_t n;
    void place(int slot, size_t size, int where) {
        s = &slots[slot]; n = size;
        p = where == 0 ? s->hi(n) : where == 1 ? s->lo(n) : s->page + 2048 + 8 * (where % 16);
        memset(s->page, CAN, s->psz);
    }
    bool canaryOk() const {
        for (unsigned char *c = s->page; c < s->page + s->psz; c++) {
            if (n && c == p) { c += n - 1; continue; }
            if (*c != CAN) return false;
        }
        return true;
    }
    bool near(size_t w = 128) const {
        unsigned char *a = p - w < s->page ? s->page : p - w, *b = p + n + w > s->page + s->psz ? s->page + s->psz : p + n + w;
        for (unsigned char *c = a; c < p; c++) if (*c != CAN) return false;
        for (unsigned char *c = p + n; c < b; c++) if (*c != CAN) return false;
        return true;
    }
};

// ---------- values ----------
static std::vector<mpz_class> crit;
static mpz_class rndBelow(const mpz_class &n) {
    mpz_class r = 0;
    int w = (mpz_sizeinbase(n.get_mpz_t(), 2) + 63) / 64 + 1;
    for (int i = 0; i < w; i++) { r <<= 64; mpz_class t; u64 x = rng.next(); mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &x); r += t; }
    return r % n;
}
static mpz_class U(u64 x) { mpz_class t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &x); return t; }
static mpz_class rndPattern() {   // limb patterns
    mpz_class r = 0;
    for (int i = 0; i < n64; i++) {
        u64 x;
        switch (rng.below(7)) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 1; break; case 3: x = 1ull << 63; break; case 4: x = ~0ull - rng.below(3); break; case 5: x = 1ull << rng.below(64); break; default: x = rng.next(); }
        r = (r << 64) + U(x);
    }
    return md(r);
}
static mpz_class rndNearTop(const mpz_class &base) {   // same high limbs as base, other low ones
    int k = rng.below(n64) + 1;
    mpz_class m = (mpz_class(1) << (64 * k)) - 1;
    mpz_class r = (base & ~m) + rndBelow(m + 1);
    return md(r);
}
static mpz_class rndNarrow() {   // a value of any length: short ones leave the upper limbs zero, and borders of limbs come up often
    mpz_class x = rndPattern();
    int k = rng.chance(1, 2) ? 64 * (1 + (int)rng.below(n64)) - (int)rng.below(3) : 1 + (int)rng.below(bits);
    x &= (mpz_class(1) << k) - 1;
    return md(rng.chance(1, 4) ? mpz_class(-x) : x);
}
static mpz_class invOr0(const mpz_class &x) { mpz_class i; if (!mpz_invert(i.get_mpz_t(), x.get_mpz_t(), q.get_mpz_t())) i = 0; return i; }
static mpz_class rndImage() {    // some image of the value, or of its inverse, is structured
    mpz_class x = rng.chance(1, 4) ? crit[rng.below(crit.size())] : rng.chance(1, 2) ? rndPattern() : rndNarrow();
    if (rng.chance(1, 3)) x = invOr0(x);
    switch (rng.below(5)) { case 0: return x; case 1: return md(x * R); case 2: return md(x * R * R); default: return md(x * Rinv); }
}
static mpz_class rndVal() {
    switch (rng.below(14)) {
        case 0: case 1: case 2: return crit[rng.below(crit.size())];
        case 3: { mpz_class d = U(rng.below(1ull << (1 + rng.below(40)))); return md(rng.chance(1, 2) ? d : mpz_class(q - d)); }
        case 4: return md(crit[rng.below(crit.size())] + (long)rng.below(9) - 4);
        case 5: return rndPattern();
        case 6: return rndNearTop(halfq);
        case 7: return rndNearTop(q - 1);
        case 8: { mpz_class x = mpz_class(1) << rng.below(bits); return md(rng.chance(1, 2) ? mpz_class(x - 1) : x); }
        case 9: return md(rndPattern() * Rinv);      // Montgomery image has a special limb pattern
        case 10: return rndNarrow();
        case 11: return rndImage();
        default: return rndBelow(q);
    }
}
static mpz_class related(const mpz_class &a) {
    switch (rng.below(13)) {
        case 0: return a;
        case 1: return md(q - a);
        case 2: return md(q - a + (long)rng.below(5) - 2);
        case 3: return md(a + (long)rng.below(5) - 2);
        case 4: return rndNearTop(a);
        case 5: return md(a + halfq);
        case 6: case 7: {                            // some result (or its image) is structured
            mpz_class t = rndImage();
            switch (rng.below(5)) { case 0: return md(t - a); case 1: return md(a - t); case 2: return md(t * invOr0(a)); case 3: return md(t * R * invOr0(a)); default: return md(a * invOr0(t)); }
        }
        case 8: { mpz_class t = rndNarrow(); if (t == 0) return a; return md(a / t); }   // a structured quotient
        default: return rndVal();
    }
}
static mpz_class rndShort() {
    switch (rng.below(8)) {
        case 0: return md(mpz_class((long)rng.below(7) - 3));
        case 1: return md(I32MAX - (long)rng.below(3));
        case 2: return md(I32MIN + (long)rng.below(3));
        case 3: return md(mpz_class((long)(1ll << rng.below(31))));
        case 4: return md(mpz_class(-(long)(1ll << rng.below(32))));
        default: return md(mpz_class((long)(int32_t)rng.next()));
    }
}
static void initCrit() {
    auto add = [&](const mpz_class &v) { crit.push_back(md(v)); };
    mpz_class two31 = mpz_class(1) << 31, two32 = mpz_class(1) << 32, two63 = mpz_class(1) << 63, two64 = mpz_class(1) << 64;
    for (auto &b : {mpz_class(0), two31, two32, two63, two64, halfq, mpz_class(q), R, Rinv, mpz_class(R * R), mpz_class(q / 3), mpz_class(mpz_class(1) << bits), mpz_class(mpz_class(1) << (bits - 1))})
        for (int d = -2; d <= 2; d++) { add(b + d); add(-b + d); }
    for (int k = 0; k < bits; k += 8) { add(mpz_class(1) << k); add((mpz_class(1) << k) - 1); add(-(mpz_class(1) << k)); }
    for (int i = 1; i < n64; i++) { add((mpz_class(1) << (64 * i)) - 1); add(mpz_class(1) << (64 * i)); add((mpz_class(1) << (64 * i)) + 1); add(q - (mpz_class(1) << (64 * i))); add(q - (mpz_class(5) + (mpz_class(1) << (64 * i)))); }
    for (int d = 0; d < 4; d++) add(mpz_class(rng.next() & 0x7fffffff));
}

static void encode(unsigned char *p, const mpz_class &v, Rep r) {
    El *e = (El *)p;
    u64 l[16];
    for (int i = 0; i < n64; i++) l[i] = rng.next();           // whatever a representation does not define is arbitrary
    int32_t sv = (int32_t)rng.next();
    static u64 oldL[16]; static int32_t oldSv; static bool old = false;      // and often what an earlier element left there
    if (old && rng.chance(1, 3)) sv = oldSv;
    if (old && rng.chance(1, 4)) memcpy(l, oldL, sizeof l);
    if (r == SH || r == SM) { mpz_class t = v <= I32MAX ? v : mpz_class(v - q); sv = (int32_t)t.get_si(); }
    if (r == SM || r == LM) mpzToLimbs(l, md(v * R));
    if (r == LO) mpzToLimbs(l, v);
    if (!old || rng.chance(1, 3)) { memcpy(oldL, l, 8 * n64); oldSv = sv; old = true; }
    uint32_t ty = REPT[r];
    memcpy(p, &sv, 4); memcpy(p + 4, &ty, 4); memcpy(p + 8, l, 8 * n64);
    (void)e;
}
struct Dec { bool ok; std::string why; mpz_class v; int rep; };
static Dec decode(const unsigned char *p) {
    Dec d; d.ok = true; d.rep = -1;
    int32_t sv; uint32_t ty; u64 l[16];
    memcpy(&sv, p, 4); memcpy(&ty, p + 4, 4); memcpy(l, p + 8, 8 * n64);
    mpz_class lv = limbsToMpz(l);
    for (int i = 0; i < 4; i++) if (REPT[i] == ty) d.rep = i;
    if (d.rep < 0) { char b[64]; snprintf(b, 64, "type tag 0x%08x", ty); d.ok = false; d.why = b; return d; }
    if (d.rep == SH || d.rep == SM) d.v = md(mpz_class((long)sv));
    if (d.rep == SM && lv != md(d.v * R)) { d.ok = false; d.why = "short+mont limbs are not the Montgomery form of the short value"; }
    if (d.rep == LO || d.rep == LM) {
        if (lv >= q) { d.ok = false; d.why = "limbs not below q: " + S(lv); }
        d.v = d.rep == LO ? md(lv) : md(lv * Rinv);
    }
    return d;
}
static Rep rndRep(const mpz_class &v) { if (fitsShort(v)) return (Rep)rng.below(4); return rng.chance(1, 2) ? LO : LM; }

// ---------- model ----------
static mpz_class shiftRef(const mpz_class &a, const mpz_class &k, bool left);
static mpz_class binRed(const mpz_class &x) { mpz_class r = x & MASK; if (r >= q) r -= q; return r; }
static mpz_class shl0(const mpz_class &a, const mpz_class &k) { return k < bits ? binRed(a << k.get_ui()) : mpz_class(0); }
static mpz_class shr0(const mpz_class &a, const mpz_class &k) { return k < bits ? mpz_class(a >> k.get_ui()) : mpz_class(0); }
static mpz_class shiftRef(const mpz_class &a, const mpz_class &k, bool left) {
    if (k < bits) return left ? shl0(a, k) : shr0(a, k);
    mpz_class nk = q - k;
    if (nk < bits) return left ? shr0(a, nk) : shl0(a, nk);
    return 0;
}
static bool expect2(int op, const mpz_class &a, const mpz_class &b, mpz_class &r) {
    switch (op) {
        case O_ADD: r = md(a + b); return true;
        case O_SUB: r = md(a - b); return true;
        case O_MUL: r = md(a * b); return true;
        case O_BAND: r = binRed(a & b); return true;
        case O_BOR: r = binRed(a | b); return true;
        case O_BXOR: r = binRed(a ^ b); return true;
        case O_SHL: r = shiftRef(a, b, true); return true;
        case O_SHR: r = shiftRef(a, b, false); return true;
        case O_EQ: r = a == b; return true;
        case O_NEQ: r = a != b; return true;
        case O_LT: r = sgn(a) < sgn(b); return true;
        case O_GT: r = sgn(a) > sgn(b); return true;
        case O_LEQ: r = sgn(a) <= sgn(b); return true;
        case O_GEQ: r = sgn(a) >= sgn(b); return true;
        case O_LAND: r = a != 0 && b != 0; return true;
        case O_LOR: r = a != 0 || b != 0; return true;
        case O_IDIV: if (b == 0) return false; r = a / b; return true;
        case O_MOD: if (b == 0) return false; r = a % b; return true;
        case O_DIV: { if (b == 0) return false; mpz_class i; mpz_invert(i.get_mpz_t(), b.get_mpz_t(), q.get_mpz_t()); r = md(a * i); return true; }
        case O_POW: mpz_powm(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t(), q.get_mpz_t()); return true;
    }
    return false;
}
static bool expect1(int op, const mpz_class &a, mpz_class &r) {
    switch (op) {
        case U_NEG: r = md(-a); return true;
        case U_SQUARE: r = md(a * a); return true;
        case U_BNOT: r = binRed(MASK ^ a); return true;
        case U_LNOT: r = a == 0; return true;
        case U_COPY: case U_TONORMAL: case U_TOLONGNORMAL: case U_TOMONTGOMERY: r = a; return true;
        case U_INV: if (a == 0) return false; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t()); return true;
    }
    return false;
}
static const char *vclass(const mpz_class &v) {
    if (v == 0) return "0";
    if (v <= I32MAX) return "s+";
    if (fitsShort(v)) return "s-";
    if (v <= halfq) return "L+";
    return "L-";
}
static std::string key(const std::string &fn, const char *cls) { return fn + "/" + A->backend + "/" + cls; }

static void drainArm(const char *fn) {
    char b[600];
    if (armvm_take_faults && armvm_take_faults(b, sizeof b)) rep::viol(key(fn, "armabi"), "%s: %s", rep::cur(), b);
}
static bool mustBeShort(int op) { return op == O_EQ || op == O_NEQ || op == O_LT || op == O_GT || op == O_LEQ || op == O_GEQ || op == O_LAND || op == O_LOR; }

// What the call left allocated
#define BALANCED(fn, call) do { size_t live0 = rep::live(); call; if (rep::live() != live0) rep::viol(key(fn, "leak"), "%s: the heap holds %ld bytes more than before the call", rep::cur(), (long)(rep::live() - live0)); } while (0)
// Calls that follow a similar one: the same operands, the same but for a bit, a limb, a sign or the representation, at the same addresses.
static int depth_ = 0;
static int wh(int slot) { static int last[3]; if (depth_ && rng.chance(3, 4)) return last[slot]; return last[slot] = rng.below(4); }
static mpz_class nearTo(const mpz_class &a) {
    switch (rng.below(7)) {
        case 0: case 1: return a;
        case 2: return md(a ^ (mpz_class(1) << rng.below(bits)));
        case 3: { int k = 64 * (int)rng.below(n64); mpz_class m = ((mpz_class(1) << 64) - 1) << k; return md((a & (mpz_class(-1) ^ m)) + (U(rng.next()) << k)); }
        case 4: return md(-a);
        case 5: return md((md(a * R) ^ (mpz_class(1) << rng.below(bits))) * Rinv);
        default: return md(a + (long)rng.below(5) - 2);
    }
}
// One tagged binary operation. alias: 0 none, 1 r=a, 2 r=b, 3 a=b, 4 r=a=b. strict: also judge operand and memory integrity.
static void run2(int op, const mpz_class &va, Rep ra, const mpz_class &vb_, Rep rb_, int alias, bool strict) {
    mpz_class vb = vb_; Rep rb = rb_;
    if (alias == 3 || alias == 4) { vb = va; rb = ra; }
    mpz_class want;
    if (!expect2(op, va, vb, want)) return;
    Buf br, ba, bb;
    br.place(0, esz, wh(0)); ba.place(1, esz, wh(1)); bb.place(2, esz, wh(2));
    encode(ba.p, va, ra);
    encode(bb.p, vb, rb);
    for (size_t i = 0; i < br.n; i++) br.p[i] = (unsigned char)rng.next();
    unsigned char *pa = ba.p, *pb = bb.p, *pr = br.p;
    if (alias == 1) pr = pa;
    if (alias == 2) pr = pb;
    if (alias == 3) pb = pa;
    if (alias == 4) { pb = pa; pr = pa; }
    unsigned char sa[256], sb[256];
    memcpy(sa, pa, esz); memcpy(sb, pb, esz);
    rep::op("%s %s/%s a=%s(%s) b=%s(%s) alias=%d", OP2_NAMES[op], fieldName.c_str(), A->backend, S(va).c_str(), REPN[ra], S(vb).c_str(), REPN[rb], alias);
    BALANCED(OP2_NAMES[op], A->op2[op](pr, pa, pb));
    drainArm(OP2_NAMES[op]);
    rep::stat("evaluations"); rep::stat((std::string("op.") + OP2_NAMES[op]).c_str());
    u64 sig = hcomb(hcomb(op * 1000 + ra * 10 + rb, hash_str(vclass(va))), hcomb(hash_str(vclass(vb)), alias));
    Dec d = decode(pr);
    sig = hcomb(sig, d.rep * 100 + (want == 0));
    rep::seen(hcomb(sig, hash_str((fieldName + A->backend).c_str())));
    const char *cls = alias ? "alias" : "value";
    if (!d.ok) rep::viol(key(OP2_NAMES[op], alias ? "alias" : "canonical"), "%s: %s; expected %s", rep::cur(), d.why.c_str(), S(want).c_str());
    else if (d.v != want) rep::viol(key(OP2_NAMES[op], cls), "%s: got %s (%s), expected %s", rep::cur(), S(d.v).c_str(), REPN[d.rep], S(want).c_str());
    else if (mustBeShort(op) && d.rep != SH) rep::viol(key(OP2_NAMES[op], "boolrep"), "%s: truth value returned as %s, not as a short", rep::cur(), REPN[d.rep]);
    if (strict) {
        if (pr != pa && memcmp(sa, pa, esz)) rep::viol(key(OP2_NAMES[op], "operand"), "%s: the first operand was modified", rep::cur());
        if (pr != pb && memcmp(sb, pb, esz)) rep::viol(key(OP2_NAMES[op], "operand"), "%s: the second operand was modified", rep::cur());
        if (!br.canaryOk() || !ba.canaryOk() || !bb.canaryOk()) rep::viol(key(OP2_NAMES[op], "stray"), "%s: memory next to an operand was written", rep::cur());
    } else if (!br.near() && !alias) rep::stat("stray");
    if (depth_ < 2 && rng.chance(1, 5)) {
        depth_++; rep::stat("calls after a similar one");
        bool sh = op == O_SHL || op == O_SHR; mpz_class a2 = rng.chance(1, 2) ? va : nearTo(va), b2 = sh || rng.chance(1, 2) ? vb : nearTo(vb);
        run2(op, a2, rng.chance(1, 3) && (fitsShort(a2) || ra >= 2) ? ra : rndRep(a2), b2, rng.chance(1, 3) && (fitsShort(b2) || rb >= 2) ? rb : rndRep(b2), alias, strict);
        depth_--;
    }
}
static void run1(int op, const mpz_class &va, Rep ra, int alias, bool strict) {
    mpz_class want;
    if (!expect1(op, va, want)) return;
    Buf br, ba;
    br.place(0, esz, wh(0)); ba.place(1, esz, wh(1));
    encode(ba.p, va, ra);
    for (size_t i = 0; i < br.n; i++) br.p[i] = (unsigned char)rng.next();
    unsigned char *pa = ba.p, *pr = alias ? pa : br.p;
    unsigned char sa[256];
    memcpy(sa, pa, esz);
    rep::op("%s %s/%s a=%s(%s) alias=%d", OP1_NAMES[op], fieldName.c_str(), A->backend, S(va).c_str(), REPN[ra], alias);
    BALANCED(OP1_NAMES[op], A->op1[op](pr, pa));
    drainArm(OP1_NAMES[op]);
    rep::stat("evaluations"); rep::stat((std::string("op.") + OP1_NAMES[op]).c_str());
    Dec d = decode(pr);
    rep::seen(hcomb(hcomb(hcomb(7000 + op * 10 + ra, hash_str(vclass(va))), d.rep + 10 * alias), hash_str((fieldName + A->backend).c_str())));
    if (!d.ok) rep::viol(key(OP1_NAMES[op], alias ? "alias" : "canonical"), "%s: %s; expected %s", rep::cur(), d.why.c_str(), S(want).c_str());
    else if (d.v != want) rep::viol(key(OP1_NAMES[op], alias ? "alias" : "value"), "%s: got %s (%s), expected %s", rep::cur(), S(d.v).c_str(), REPN[d.rep], S(want).c_str());
    else {
        if (op == U_TOMONTGOMERY && d.rep != SM && d.rep != LM) rep::viol(key(OP1_NAMES[op], "rep"), "%s: result is not in Montgomery form", rep::cur());
        if (op == U_TOLONGNORMAL && d.rep != LO) rep::viol(key(OP1_NAMES[op], "rep"), "%s: result is not long normal but %s", rep::cur(), REPN[d.rep]);
        if (op == U_TONORMAL && d.rep == LM) rep::viol(key(OP1_NAMES[op], "rep"), "%s: result is still Montgomery", rep::cur());
        if (op == U_LNOT && d.rep != SH) rep::viol(key(OP1_NAMES[op], "boolrep"), "%s: truth value returned as %s", rep::cur(), REPN[d.rep]);
        if (op == U_COPY && memcmp(pr, sa, esz)) rep::viol(key(OP1_NAMES[op], "bits"), "%s: the copy differs from the source", rep::cur());
    }
    if (strict) {
        if (pr != pa && memcmp(sa, pa, esz)) rep::viol(key(OP1_NAMES[op], "operand"), "%s: the operand was modified", rep::cur());
        if (!br.canaryOk() || !ba.canaryOk()) rep::viol(key(OP1_NAMES[op], "stray"), "%s: memory next to an operand was written", rep::cur());
    }
    if (depth_ < 2 && rng.chance(1, 5)) {
        depth_++; rep::stat("calls after a similar one");
        mpz_class a2 = nearTo(va); run1(op, a2, rng.chance(1, 3) && (fitsShort(a2) || ra >= 2) ? ra : rndRep(a2), alias, strict);
        depth_--;
    }
}
static void genPair(mpz_class &a, Rep &ra, mpz_class &b, Rep &rb) {
    a = rng.chance(1, 4) ? rndShort() : rndVal();
    b = rng.chance(1, 4) ? rndShort() : related(a);
    if (rng.chance(1, 2)) std::swap(a, b);
    ra = rndRep(a); rb = rndRep(b);
}
static mpz_class genShift() {
    switch (rng.below(9)) {
        case 0: return mpz_class((long)rng.below(bits + 70));
        case 1: return mpz_class((long)(64 * rng.below(n64 + 1)) + (long)rng.below(3));
        case 2: { long k = 64 * (long)rng.below(n64 + 1) - 1; return mpz_class(k < 0 ? 0 : k); }
        case 3: return md(-mpz_class((long)rng.below(bits + 70)));
        case 4: return md(-mpz_class((long)(64 * rng.below(n64 + 1)) + (long)rng.below(3)));
        case 5: return md(mpz_class(bits) + (long)rng.below(5) - 2);
        case 6: return md(-mpz_class(bits) + (long)rng.below(5) - 2);
        case 7: return md(mpz_class((long)rng.below(bits)) + (mpz_class(1) << (32 * (1 + (int)rng.below(2 * n64 - 1)))) * (rng.chance(1, 2) ? 1 : -1));   // low word looks small, the value is not
        default: return rndVal();
    }
}
// Every pair of a compact list of critical values, in every representation each admits
static std::vector<mpz_class> compact() {
    std::vector<mpz_class> v;
    auto add = [&](const mpz_class &x) { v.push_back(md(x)); };
    for (int d = -1; d <= 1; d++) { add(d); add(I32MAX + d); add(I32MIN + d); add(halfq + d); add((mpz_class(1) << 32) + d); }
    add(2); add(q - 2); add(md(R)); add(md(Rinv)); add((mpz_class(1) << (bits - 1))); add((mpz_class(1) << 64) - 1); add(mpz_class(1) << 63);
    add(q - (mpz_class(1) << 32)); add(halfq + 2); add(rndBelow(q)); add(rndPattern());
    return v;
}
static void sweep2(const std::vector<int> &ops, bool strict) {
    auto v = compact();
    for (int op : ops) for (auto &a : v) for (auto &b : v)
        for (int ra = fitsShort(a) ? 0 : 2; ra < 4; ra++) for (int rb = fitsShort(b) ? 0 : 2; rb < 4; rb++)
            run2(op, a, (Rep)ra, b, (Rep)rb, 0, strict);
}
static void sweep1(const std::vector<int> &ops, bool strict) {
    for (int op : ops) for (auto &a : crit) for (int ra = fitsShort(a) ? 0 : 2; ra < 4; ra++) run1(op, a, (Rep)ra, 0, strict);
}

static void modeTagged(const std::vector<int> &o2, const std::vector<int> &o1, bool shifts) {
    if (!shifts) sweep2(o2, false);
    sweep1(o1, false);
    for (u64 i = 0; i < count_; i++) {
        mpz_class a, b; Rep ra, rb;
        int op = o2[rng.below(o2.size())];
        genPair(a, ra, b, rb);
        if (op == O_SHL || op == O_SHR) { b = genShift(); rb = rndRep(b); }
        if (op == O_POW && rng.chance(1, 2)) { b = mpz_class((long)rng.below(70)); rb = rndRep(b); }
        run2(op, a, ra, b, rb, 0, false);
        if (!o1.empty()) { mpz_class x = rng.chance(1, 3) ? rndShort() : rndVal(); run1(o1[rng.below(o1.size())], x, rndRep(x), 0, false); }
    }
    if (shifts) {     // every shift amount, every representation of it, several values
        for (int k = 0; k <= bits + 66; k++) for (int neg = 0; neg < 2; neg++) {
            mpz_class b = md(neg ? mpz_class(-k) : mpz_class(k));
            for (int j = 0; j < 3; j++) {
                mpz_class a = j == 0 ? mpz_class(q - 1 - U(rng.below(1 << 20))) : rndVal();
                for (int op : {O_SHL, O_SHR}) run2(op, a, rndRep(a), b, rndRep(b), 0, false);
            }
        }
    }
}
static void modeAlias() {
    auto v = compact();
    for (int op = 0; op < N_OP2; op++) for (u64 i = 0; i < count_ / 10; i++) {
        mpz_class a, b; Rep ra, rb;
        genPair(a, ra, b, rb);
        if (op == O_SHL || op == O_SHR) { b = genShift(); rb = rndRep(b); }
        run2(op, a, ra, b, rb, 1 + rng.below(4), false);
    }
    // every (representation, representation, aliasing) combination of every operation
    for (int op = 0; op < N_OP2; op++) for (int al = 1; al <= 4; al++) for (int ra = 0; ra < 4; ra++) for (int rb = 0; rb < 4; rb++) for (int k = 0; k < 6; k++) {
        mpz_class a = ra < 2 ? rndShort() : rndVal(), b = rb < 2 ? rndShort() : rndVal();
        if ((op == O_SHL || op == O_SHR)) { b = md(mpz_class((long)rng.below(bits))); if (k & 1) b = md(-b); if (!fitsShort(b) && rb < 2) continue; }
        run2(op, a, (Rep)ra, b, (Rep)rb, al, false);
    }
    for (int op = 0; op < N_OP1; op++) for (int ra = 0; ra < 4; ra++) for (u64 k = 0; k < 20 + count_ / 400; k++) {
        mpz_class a = ra < 2 ? rndShort() : rndVal();
        run1(op, a, (Rep)ra, 1, false);
    }
}

// ---------- raw (Montgomery) operations ----------
static bool judgeRaw(const char *fn, const u64 *r, const mpz_class &want, const char *cls) {
    mpz_class g = limbsToMpz(r);
    if (g != want) { rep::viol(key(fn, g >= q ? (strcmp(cls, "alias") ? "canonical" : "alias") : cls), "%s: got %s, expected %s", rep::cur(), S(g).c_str(), S(want).c_str()); return false; }
    return true;
}
struct RawBufs { Buf r, a, b; u64 *R, *Ap, *B; u64 sa[16], sb[16]; int alias;
    void set(const mpz_class &va, const mpz_class &vb, int al) {
        alias = al;
        r.place(0, 8 * n64, rng.below(4)); a.place(1, 8 * n64, rng.below(4)); b.place(2, 8 * n64, rng.below(4));
        mpzToLimbs((u64 *)a.p, va); mpzToLimbs((u64 *)b.p, vb);
        for (size_t i = 0; i < r.n; i++) r.p[i] = (unsigned char)rng.next();
        R = (u64 *)r.p; Ap = (u64 *)a.p; B = (u64 *)b.p;
        if (al == 1) R = Ap;
        if (al == 2) R = B;
        if (al == 3) B = Ap;
        if (al == 4) { B = Ap; R = Ap; }
        memcpy(sa, Ap, 8 * n64); memcpy(sb, B, 8 * n64);
    }
    void integrity(const char *fn) {
        if (R != Ap && memcmp(sa, Ap, 8 * n64)) rep::viol(key(fn, "operand"), "%s: the first operand was modified", rep::cur());
        if (R != B && memcmp(sb, B, 8 * n64)) rep::viol(key(fn, "operand"), "%s: the second operand was modified", rep::cur());
        if (!r.canaryOk() || !a.canaryOk() || !b.canaryOk()) rep::viol(key(fn, "stray"), "%s: memory next to an operand was written", rep::cur());
    }
};
static mpz_class rawWant2(int op, const mpz_class &a, const mpz_class &b) { return op == R_ADD ? md(a + b) : op == R_SUB ? md(a - b) : md(a * b * Rinv); }
static mpz_class rawWant1(int op, const mpz_class &a) { return op == R_NEG ? md(-a) : op == R_MSQUARE ? md(a * a * Rinv) : op == R_TOMONT ? md(a * R) : op == R_FROMMONT ? md(a * Rinv) : a; }
static const char *al(int i) { return i ? "alias" : "value"; }
static void rawOnce(int alias, bool strict) {
    mpz_class a = rndVal(), b = related(a);
    if (rng.chance(1, 2)) std::swap(a, b);
    static mpz_class a0, b0;
    if (rng.chance(1, 5)) { a = rng.chance(1, 2) ? a0 : nearTo(a0); b = rng.chance(1, 2) ? b0 : nearTo(b0); rep::stat("calls after a similar one"); }
    if (alias >= 3) b = a;
    a0 = a; b0 = b;
    RawBufs B;
    auto pre = [&](const char *fn) { rep::op("%s %s/%s a=%s b=%s alias=%d", fn, fieldName.c_str(), A->backend, S(a).c_str(), S(b).c_str(), alias); rep::stat("evaluations"); rep::stat((std::string("op.") + fn).c_str());
        rep::seen(hcomb(hcomb(hash_str(fn), hash_str((fieldName + A->backend).c_str())), hcomb(hash_str(vclass(a)) + alias, hash_str(vclass(b)) + (a < b) + 2 * (a == b)))); };
    auto post = [&](const char *fn) { if (strict) B.integrity(fn); drainArm(fn); };
    for (int op = 0; op < N_RAW2; op++) {
        B.set(a, b, alias); pre(RAW2_NAMES[op]);
        A->raw2[op](B.R, B.Ap, B.B);
        judgeRaw(RAW2_NAMES[op], B.R, rawWant2(op, a, b), al(alias)); post(RAW2_NAMES[op]);
    }
    for (int op = 0; op < N_RF2; op++) {
        if (op == F_DIV && (b == 0)) continue;
        if (op == F_DIV && rng.chance(3, 4)) continue;
        B.set(a, b, alias); pre(RF2_NAMES[op]);
        BALANCED(RF2_NAMES[op], A->rf2[op](B.R, B.Ap, B.B));
        mpz_class w;
        if (op == F_ADD || op == F_ADDV) w = md(a + b); else if (op == F_SUB || op == F_SUBV) w = md(a - b); else if (op == F_MUL || op == F_MULV) w = md(a * b * Rinv);
        else { mpz_class i; mpz_invert(i.get_mpz_t(), b.get_mpz_t(), q.get_mpz_t()); w = md(a * i * R); }
        judgeRaw(RF2_NAMES[op], B.R, w, al(alias)); post(RF2_NAMES[op]);
    }
    int a1 = alias ? 1 : 0;
    for (int op = 0; op < N_RAW1; op++) {
        B.set(a, b, a1); pre(RAW1_NAMES[op]);
        A->raw1[op](B.R, B.Ap);
        judgeRaw(RAW1_NAMES[op], B.R, rawWant1(op, a), al(alias)); post(RAW1_NAMES[op]);
    }
    for (int op = 0; op < N_RF1; op++) {
        if (op == F_INV && (a == 0 || rng.chance(3, 4))) continue;
        B.set(a, b, a1); pre(RF1_NAMES[op]);
        BALANCED(RF1_NAMES[op], A->rf1[op](B.R, B.Ap));
        mpz_class w;
        if (op == F_NEG || op == F_NEGV) w = md(-a); else if (op == F_SQUARE || op == F_SQUAREV) w = md(a * a * Rinv); else if (op == F_COPY) w = a;
        else { mpz_class i; mpz_invert(i.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t()); w = md(i * R * R); }
        judgeRaw(RF1_NAMES[op], B.R, w, al(alias)); post(RF1_NAMES[op]);
    }
    { // Montgomery product by one machine word
        u64 w = rng.chance(1, 3) ? ~0ull - rng.below(3) : rng.chance(1, 3) ? rng.below(4) : rng.next();
        for (int k = 0; k < 2; k++) {
            B.set(a, b, a1); const char *fn = k ? "RawF.mul1" : "rawMMul1"; pre(fn);
            (k ? A->rfMul1 : A->mmul1)(B.R, B.Ap, w);
            if (!judgeRaw(fn, B.R, md(a * U(w) * Rinv), al(alias))) rep::stat("mul1.bad");
            post(fn);
        }
    }
    { B.set(a, b, a1); pre("RawF.toMontgomery"); A->rfToMont(B.R, B.Ap); judgeRaw("RawF.toMontgomery", B.R, md(a * R), al(alias)); post("RawF.toMontgomery");
      B.set(a, b, a1); pre("RawF.fromMontgomery"); A->rfFromMont(B.R, B.Ap); judgeRaw("RawF.fromMontgomery", B.R, md(a * Rinv), al(alias)); post("RawF.fromMontgomery"); }
    // comparisons never write
    if (alias == 0 || alias == 3) {
        B.set(a, b, alias); pre("rawIsEq");
        int e = A->isEq(B.Ap, B.B), e2 = A->rfEq(B.Ap, B.B), z = A->isZero(B.Ap), z2 = A->rfIsZero(B.Ap);
        if ((e != 0) != (a == b)) rep::viol(key("rawIsEq", "value"), "%s: returned %d", rep::cur(), e);
        if ((e2 != 0) != (a == b)) rep::viol(key("RawF.eq", "value"), "%s: returned %d", rep::cur(), e2);
        if ((z != 0) != (a == 0)) rep::viol(key("rawIsZero", "value"), "%s: returned %d", rep::cur(), z);
        if ((z2 != 0) != (a == 0)) rep::viol(key("RawF.isZero", "value"), "%s: returned %d", rep::cur(), z2);
        // equality must look at every limb
        mpz_class c = a ^ (mpz_class(1) << rng.below(bits));
        if (c < q) { B.set(a, c, 0); if (A->isEq(B.Ap, B.B)) rep::viol(key("rawIsEq", "value"), "rawIsEq %s/%s a=%s b=%s (one bit apart): returned equal", fieldName.c_str(), A->backend, S(a).c_str(), S(c).c_str()); }
        mpz_class d = mpz_class(1) << rng.below(bits);
        if (d < q) { B.set(d, c, 0); if (A->isZero(B.Ap)) rep::viol(key("rawIsZero", "value"), "rawIsZero %s/%s a=%s: returned zero", fieldName.c_str(), A->backend, S(d).c_str()); }
        post("rawIsEq");
    }
    if (alias == 0 || alias == 4) for (int k = 0; k < 2; k++) {     // swap: no result operand, both exchanged
        const char *fn = k ? "RawF.swap" : "rawSwap";
        B.set(a, b, alias == 4 ? 3 : 0); pre(fn);
        (k ? A->rfSwap : A->swap)(B.Ap, B.B);
        if (limbsToMpz(B.Ap) != b || limbsToMpz(B.B) != (B.B == B.Ap ? b : a)) rep::viol(key(fn, al(alias)), "%s: after the swap a=%s b=%s", rep::cur(), S(limbsToMpz(B.Ap)).c_str(), S(limbsToMpz(B.B)).c_str());
        drainArm(fn);
    }
    { // shifts of the raw value, amount below the bit length
        for (int left = 0; left < 2; left++) {
            u64 k = rng.chance(1, 3) ? 64 * rng.below(n64) + rng.below(2) : rng.below(bits);
            if (k >= (u64)bits) k = bits - 1;
            const char *fn = left ? "rawShl" : "rawShr";
            B.set(a, b, a1); pre(fn); rep::op("%s by %llu", std::string(rep::cur()).c_str(), (unsigned long long)k);
            (left ? A->rawShl : A->rawShr)(B.R, B.Ap, k);
            judgeRaw(fn, B.R, left ? binRed(a << k) : mpz_class(a >> k), al(alias)); post(fn);
        }
    }
    {   // helpers that only some backends publish
        for (int op = 0; op < N_RAWX; op++) if (A->rawx[op]) {
            B.set(a, b, alias); pre(RAWX_NAMES[op]);
            A->rawx[op](B.R, B.Ap, B.B);
            mpz_class w = op == X_AND ? binRed(a & b) : op == X_OR ? binRed(a | b) : op == X_XOR ? binRed(a ^ b) : mpz_class(a - b);
            if (op == X_SUBREG) { mpz_class full = mpz_class(1) << (64 * n64); mpz_fdiv_r(w.get_mpz_t(), w.get_mpz_t(), full.get_mpz_t());
                mpz_class g = limbsToMpz(B.R); if (g != w) rep::viol(key(RAWX_NAMES[op], al(alias)), "%s: got %s, expected %s", rep::cur(), S(g).c_str(), S(w).c_str()); }
            else judgeRaw(RAWX_NAMES[op], B.R, w, al(alias));
            post(RAWX_NAMES[op]);
        }
        if (A->rawNot) { B.set(a, b, a1); pre("rawNot"); A->rawNot(B.R, B.Ap); judgeRaw("rawNot", B.R, binRed(MASK ^ a), al(alias)); post("rawNot"); }
        u64 k = rng.chance(1, 2) ? rng.below(1ull << 31) : (u64)(1ull << 31) - rng.below(2);
        if (A->rawAddLS) { B.set(a, b, a1); pre("rawAddLS"); rep::op("%s +%llu", std::string(rep::cur()).c_str(), (unsigned long long)k); A->rawAddLS(B.R, B.Ap, k); judgeRaw("rawAddLS", B.R, md(a + U(k)), al(alias)); post("rawAddLS"); }
        if (A->rawSubLS) { B.set(a, b, a1); pre("rawSubLS"); rep::op("%s -%llu", std::string(rep::cur()).c_str(), (unsigned long long)k); A->rawSubLS(B.R, B.Ap, k); judgeRaw("rawSubLS", B.R, md(a - U(k)), al(alias)); post("rawSubLS"); }
        if (A->rawSubSL) { B.set(a, b, a1); pre("rawSubSL"); rep::op("%s %llu-a", std::string(rep::cur()).c_str(), (unsigned long long)k); A->rawSubSL(B.R, k, B.Ap); judgeRaw("rawSubSL", B.R, md(U(k) - a), al(alias)); post("rawSubSL"); }
        if (k && A->rawNegLS) { B.set(a, b, a1); pre("rawNegLS"); rep::op("%s 0-a-%llu", std::string(rep::cur()).c_str(), (unsigned long long)k); A->rawNegLS(B.R, B.Ap, k); judgeRaw("rawNegLS", B.R, md(-a - U(k)) , al(alias)); post("rawNegLS"); }
        if (!alias) {
            if (A->rawCmp) {
            B.set(a, b, 0); pre("rawCmp"); int c = A->rawCmp(B.Ap, B.B);
            if ((c < 0) != (a < b) || (c > 0) != (a > b)) rep::viol(key("rawCmp", "value"), "%s: returned %d", rep::cur(), c);
            post("rawCmp");
            }
            long sv = (long)(int32_t)rng.next();
            if (A->rawCopyS2L) { B.set(a, b, 0); pre("rawCopyS2L"); rep::op("%s v=%ld", std::string(rep::cur()).c_str(), sv); A->rawCopyS2L(B.R, sv); judgeRaw("rawCopyS2L", B.R, md(mpz_class(sv)), "value"); post("rawCopyS2L"); }
            if (A->rawZero) { B.set(a, b, 0); pre("rawZero"); A->rawZero(B.R); judgeRaw("rawZero", B.R, 0, "value"); post("rawZero"); }
        }
    }
}
// a raw element of exactly the field's width against a guard page
struct Lim { Buf b; u64 *w; Lim(int slot) { b.place(slot, 8 * n64, rng.below(4)); w = (u64 *)b.p; } bool ok() const { return b.near(512); } };
// exp, small-integer overloads, constants
static void rawDerived() {
    for (u64 i = 0; i < count_; i++) {
        static mpz_class a0; static std::vector<uint8_t> exact; static unsigned len0 = 0;
        bool similar = i && rng.chance(1, 5);
        mpz_class a = similar && rng.chance(2, 3) ? (rng.chance(2, 3) ? a0 : nearTo(a0)) : rndVal();
        a0 = a;
        Lim La(3), Lout(4); u64 *ra = La.w, *out = Lout.w;
        auto stray = [&](const char *fn) { if (!La.ok() || !Lout.ok()) rep::viol(key(fn, "stray"), "%s: memory next to the result or the operand was written", rep::cur()); };
        mpzToLimbs(ra, md(a * R));
        unsigned len = rng.below(5) == 0 ? 0 : rng.chance(1, 2) ? 8 : 1 + rng.below(8 * n64 + 4);
        if (i % 100 == 7 && !similar) { static const unsigned L[] = {128, 255, 256, 257, 300, 511, 513, 1025}; len = L[rng.below(8)]; if (i == 7) len = n64 < 6 ? 8192 + (unsigned)rng.below(8) : 1030; rep::stat("exponents of hundreds or thousands of bytes"); }
        std::vector<uint8_t> sc(len ? len : 1);
        int pat = rng.below(5);
        for (unsigned k = 0; k < len; k++) sc[k] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (k + 1 == len) : (uint8_t)rng.next();
        if (similar) { len = len0; sc.assign(exact.begin(), exact.end()); if (!len) sc.resize(1); else if (rng.chance(2, 3)) { exact[rng.below(len)] ^= 1 << rng.below(8); sc.assign(exact.begin(), exact.end()); } rep::stat("calls after a similar one"); }
        else { std::vector<uint8_t> v(sc.begin(), sc.begin() + len); exact.swap(v); }      // heap block of exactly `len` bytes: over-reads are visible to ASan
        len0 = len;
        mpz_class e; if (len) mpz_import(e.get_mpz_t(), len, -1, 1, 0, 0, sc.data());
        mpz_class want; mpz_powm(want.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), q.get_mpz_t());
        if (e == 0) want = 1 % q;
        rep::op("RawF.exp %s/%s a=%s e=%s len=%u", fieldName.c_str(), A->backend, S(a).c_str(), S(e).c_str(), len);
        BALANCED("RawF.exp", A->rfExp(out, ra, exact.data(), len));
        rep::stat("evaluations"); rep::stat("op.RawF.exp"); rep::seen(hcomb(hcomb(len, pat), hash_str((fieldName + A->backend).c_str())));
        judgeRaw("RawF.exp", out, md(want * R), "value");
        if (limbsToMpz(ra) != md(a * R)) rep::viol(key("RawF.exp", "operand"), "%s: the base changed", rep::cur());
        memcpy(out, ra, 8 * n64);
        A->rfExp(out, out, exact.data(), len);
        judgeRaw("RawF.exp", out, md(want * R), "alias"); stray("RawF.exp");
        int iv = rng.chance(1, 3) ? (int)rng.next() : rng.chance(1, 2) ? (rng.chance(1, 2) ? INT32_MAX : INT32_MIN) : (int)rng.below(7) - 3;
        mpz_class vi = md(mpz_class((long)iv));
        for (int w = 0; w < 6; w++) {
            static const char *nm[] = {"RawF.add(int,E)", "RawF.sub(int,E)", "RawF.mul(int,E)", "RawF.add(E,int)", "RawF.sub(E,int)", "RawF.mul(E,int)"};
            rep::op("%s %s/%s a=%s int=%d", nm[w], fieldName.c_str(), A->backend, S(a).c_str(), iv);
            BALANCED(nm[w], A->rfIntOp(out, w, iv, ra));
            mpz_class ww; if (w == 0 || w == 3) ww = vi + a; else if (w == 1) ww = vi - a; else if (w == 4) ww = a - vi; else ww = vi * a;
            judgeRaw(nm[w], out, md(md(ww) * R), "value"); stray(nm[w]);
            rep::stat("evaluations"); rep::stat("op.RawF.intop");
        }
        for (int w = 0; w < 2; w++) {
            rep::op("RawF.set %s/%s %d", fieldName.c_str(), A->backend, iv);
            for (int k = 0; k < n64; k++) out[k] = rng.next();
            BALANCED("RawF.set", (w ? A->rfSetV : A->rfSet)(out, iv));
            judgeRaw("RawF.set", out, md(vi * R), "value"); stray("RawF.set"); rep::stat("evaluations");
        }
        for (int k = 0; k < 4; k++) {      // inversion and division, the image of the operand or of the result having any length
            static mpz_class x0;
            mpz_class x = k < 2 ? rndImage() : rndVal(), y = rng.chance(1, 4) ? mpz_class(1) : k & 1 ? rndImage() : related(x);
            if (rng.chance(1, 3)) x = md(invOr0(rndNarrow()) * (rng.chance(1, 2) ? mpz_class(1) : Rinv));
            if (x0 != 0 && rng.chance(1, 5)) x = nearTo(x0);
            if (x == 0) continue;
            x0 = x;
            Lim Lx(0), Ly(1), Lo(2); u64 *xi = Lx.w, *yi = Ly.w, *o = Lo.w;
            auto stray3 = [&](const char *fn) { if (!Lx.ok() || !Ly.ok() || !Lo.ok()) rep::viol(key(fn, "stray"), "%s: memory next to the result or an operand was written", rep::cur()); };
            mpzToLimbs(xi, x); mpzToLimbs(yi, y);
            for (int l = 0; l < n64; l++) o[l] = rng.next();
            bool al_ = rng.chance(1, 3);
            rep::op("RawF.inv %s/%s image=%s alias=%d", fieldName.c_str(), A->backend, S(x).c_str(), al_);
            if (al_) memcpy(o, xi, 8 * n64);
            BALANCED("RawF.inv", A->rf1[F_INV](o, al_ ? o : xi));
            judgeRaw("RawF.inv", o, md(invOr0(x) * R * R), al(al_)); stray3("RawF.inv");
            for (int l = 0; l < n64; l++) o[l] = rng.next();
            int da = rng.below(3);
            rep::op("RawF.div %s/%s images=%s,%s alias=%d", fieldName.c_str(), A->backend, S(y).c_str(), S(x).c_str(), da);
            if (da == 1) memcpy(o, yi, 8 * n64); else if (da == 2) memcpy(o, xi, 8 * n64);
            BALANCED("RawF.div", A->rf2[F_DIV](o, da == 1 ? o : yi, da == 2 ? o : xi));
            judgeRaw("RawF.div", o, md(y * invOr0(x) * R), al(da)); stray3("RawF.div");
            rep::stat("evaluations", 2); rep::stat("op.RawF.inv"); rep::stat("op.RawF.div");
        }
        u64 uv = rng.chance(1, 3) ? ~0ull - rng.below(4) : rng.chance(1, 2) ? rng.next() : rng.below(5);
        rep::op("RawF.fromUI %s/%s %llu", fieldName.c_str(), A->backend, (unsigned long long)uv);
        for (int k = 0; k < n64; k++) out[k] = rng.next();
        BALANCED("RawF.fromUI", A->rfFromUI(out, uv));
        judgeRaw("RawF.fromUI", out, md(U(uv) * R), "value"); stray("RawF.fromUI"); rep::stat("evaluations"); rep::stat("op.RawF.fromUI");
    }
    judgeRaw((rep::op("RawF.zero"), "RawF.zero"), A->rfConst(0), 0, "value");
    judgeRaw((rep::op("RawF.one"), "RawF.one"), A->rfConst(1), md(R), "value");
    judgeRaw((rep::op("RawF.negOne"), "RawF.negOne"), A->rfConst(2), md(-R), "value");
    if (A->rfBytes() != 8 * n64) rep::viol(key("RawF.bytes", "value"), "bytes() = %d", A->rfBytes());
    if (A->maxBits != bits) rep::viol(key("RawF.MaxBits", "value"), "MaxBits = %d, q has %d bits", A->maxBits, bits);
}
static void modeRaw() {
    for (u64 i = 0; i < count_; i++) rawOnce(0, false);
}

// ---------- conversions ----------
static void modeConv() {
    for (u64 i = 0; i < count_; i++) {
        static mpz_class v0, big0; static uint32_t radix0 = 10;
        bool similar = i && rng.chance(1, 4);
        mpz_class v = similar ? nearTo(v0) : rng.chance(1, 4) ? rndShort() : rndVal();
        if (similar) rep::stat("calls after a similar one");
        v0 = v;
        Rep r = rndRep(v);
        Buf b; b.place(0, esz, rng.below(4));
        encode(b.p, v, r);
        rep::op("element2str %s/%s v=%s(%s)", fieldName.c_str(), A->backend, S(v).c_str(), REPN[r]);
        size_t live0 = rep::live();
        char *s = A->element2str(b.p);
        size_t live1 = rep::live();
        rep::stat("evaluations"); rep::stat("op.element2str"); rep::seen(hcomb(hcomb(r, hash_str(vclass(v))), hash_str((fieldName + A->backend).c_str())));
        if (!s || S(v) != s) rep::viol(key("element2str", "value"), "%s: got \"%s\"", rep::cur(), s ? s : "(null)");
        rep::op("free(element2str) %s/%s v=%s(%s)", fieldName.c_str(), A->backend, S(v).c_str(), REPN[r]);
        size_t live2 = rep::live();
        free(s);                                           // as the README does
        live0 += live2 - live1;
        if (rep::live() != live0) rep::viol(key("element2str", "leak"), "%s: the heap holds %ld bytes more than before the call", rep::cur(), (long)(rep::live() - live0));
        if (!b.canaryOk()) rep::viol(key("element2str", "stray"), "%s: memory next to the operand was written", rep::cur());
        // any decimal integer
        mpz_class big;
        switch (rng.below(8)) {
            case 0: big = v; break;
            case 1: big = v - q; break;
            case 2: big = v + q * (long)(1 + rng.below(3)); break;
            case 3: big = -rndBelow(q * q * q); break;
            case 4: big = rndBelow(q * q); break;
            case 5: big = (long)(int32_t)rng.next(); break;
            case 6: big = q * (long)rng.below(4) + (long)rng.below(3) - 1; break;
            default: big = (mpz_class(1) << 31) * (rng.chance(1, 2) ? 1 : -1) + (long)rng.below(3) - 1; break;
        }
        if (similar && rng.chance(1, 2)) {     // the earlier number, or one digit of it changed, or its sign, or digits appended
            std::string t = S(big0);
            switch (rng.below(5)) { case 0: break; case 1: t = t[0] == '-' ? t.substr(1) : "-" + t; break; case 2: t += (char)('0' + rng.below(10)); break; default: { size_t p = t[0] == '-' ? 1 + rng.below(t.size() - 1) : rng.below(t.size()); t[p] = '0' + rng.below(10); } }
            big = mpz_class(t, 10);
        }
        big0 = big;
        Buf d; d.place(1, esz, rng.below(4));
        for (size_t k = 0; k < d.n; k++) d.p[k] = (unsigned char)rng.next();
        rep::op("str2element %s/%s \"%s\"", fieldName.c_str(), A->backend, S(big).c_str());
        { std::string txt = S(big); BALANCED("str2element", A->str2element(d.p, txt.c_str())); }
        Dec dd = decode(d.p);
        if (!dd.ok) rep::viol(key("str2element", "canonical"), "%s: %s", rep::cur(), dd.why.c_str());
        else if (dd.v != md(big)) rep::viol(key("str2element", "value"), "%s: got %s, expected %s", rep::cur(), S(dd.v).c_str(), S(md(big)).c_str());
        if (!d.canaryOk()) rep::viol(key("str2element", "stray"), "%s: memory next to the result was written", rep::cur());
        rep::stat("evaluations"); rep::stat("op.str2element");
        if (dd.ok) {     // round trip
            char *t = A->element2str(d.p);
            if (!t || S(md(big)) != t) rep::viol(key("element2str", "roundtrip"), "%s: str2element then element2str gives \"%s\"", rep::cur(), t ? t : "(null)");
            free(t);
        }
        // raw element
        Lim Lo(3), Lm(4); u64 *out = Lo.w, *mont = Lm.w;
        auto stray = [&](const char *fn) { if (!Lo.ok() || !Lm.ok()) rep::viol(key(fn, "stray"), "%s: memory next to the element was written", rep::cur()); };
        uint32_t radix = rng.chance(1, 2) ? 10 : (rng.chance(1, 2) ? 16 : 2 + rng.below(35));
        if (similar && rng.chance(1, 2)) radix = radix0;
        radix0 = radix;
        std::string txt = big.get_str(radix);
        rep::op("RawF.fromString %s/%s \"%s\" radix %u", fieldName.c_str(), A->backend, txt.c_str(), radix);
        for (int k = 0; k < n64; k++) out[k] = rng.next();
        BALANCED("RawF.fromString", A->rfFromString(out, txt.c_str(), radix));
        judgeRaw("RawF.fromString", out, md(md(big) * R), "value"); stray("RawF.fromString");
        mpzToLimbs(mont, md(v * R));
        char tb[1200];
        rep::op("RawF.toString %s/%s v=%s radix %u", fieldName.c_str(), A->backend, S(v).c_str(), radix);
        BALANCED("RawF.toString", A->rfToString(tb, sizeof tb, mont, radix));
        if (v.get_str(radix) != tb) rep::viol(key("RawF.toString", "value"), "%s: got \"%s\"", rep::cur(), tb);
        stray("RawF.toString");
        mpz_class m; mpz_realloc2(m.get_mpz_t(), 2048);
        BALANCED("RawF.toMpz", A->rfToMpz(m.get_mpz_t(), mont));
        rep::op("RawF.toMpz %s/%s v=%s", fieldName.c_str(), A->backend, S(v).c_str());
        if (m != v) rep::viol(key("RawF.toMpz", "value"), "%s: got %s", rep::cur(), S(m).c_str());
        for (int k = 0; k < n64; k++) out[k] = rng.next();
        rep::op("RawF.fromMpz %s/%s v=%s", fieldName.c_str(), A->backend, S(v).c_str());
        BALANCED("RawF.fromMpz", A->rfFromMpz(out, v.get_mpz_t()));
                judgeRaw("RawF.fromMpz", out, md(v * R), "value"); stray("RawF.fromMpz");
        rep::stat("evaluations", 4); rep::stat("op.rawconv", 4);
        // big-endian image
        int need = 8 * n64, cap = rng.chance(1, 3) ? need : need + (int)rng.below(20);
        Buf be; be.place(2, cap, rng.below(2));
        for (int k = 0; k < cap; k++) be.p[k] = (unsigned char)rng.next();
        rep::op("RawF.toRprBE %s/%s v=%s bytes=%d", fieldName.c_str(), A->backend, S(v).c_str(), cap);
        int ret; BALANCED("RawF.toRprBE", ret = A->rfToBE(mont, be.p, cap));
        mpz_class bv; mpz_import(bv.get_mpz_t(), need, 1, 1, 1, 0, be.p);
        if (ret != need) rep::viol(key("RawF.toRprBE", "ret"), "%s: returned %d", rep::cur(), ret);
        if (bv != v) rep::viol(key("RawF.toRprBE", v == 0 ? "zero" : cap > need ? "wide" : "value"), "%s: the %d bytes read big-endian are %s", rep::cur(), need, S(bv).c_str());
        if (!be.canaryOk()) rep::viol(key("RawF.toRprBE", "stray"), "%s: memory beyond the buffer was written", rep::cur());
        int shortCap = rng.below(need);
        Buf sb; sb.place(1, shortCap, rng.below(2)); memset(sb.p, 0x5a, shortCap);
        BALANCED("RawF.toRprBE", ret = A->rfToBE(mont, sb.p, shortCap));
        bool untouched = sb.canaryOk(); for (int k = 0; k < shortCap; k++) if (sb.p[k] != 0x5a) untouched = false;
        stray("RawF.toRprBE"); if (limbsToMpz(mont) != md(v * R)) rep::viol(key("RawF.toRprBE", "operand"), "%s: the element changed", rep::cur());
        if (ret != -need || !untouched) rep::viol(key("RawF.toRprBE", "short"), "%s: a buffer of %d bytes gave %d%s", rep::cur(), shortCap, ret, untouched ? "" : " and was written");
        be.place(2, cap, rng.below(2));
        mpz_class vv = v; memset(be.p, 0, need); { size_t cnt; unsigned char tmp2[200]; mpz_export(tmp2, &cnt, 1, 1, 1, 0, vv.get_mpz_t()); memcpy(be.p + need - cnt, tmp2, cnt); }
        for (int k = need; k < cap; k++) be.p[k] = (unsigned char)rng.next();
        rep::op("RawF.fromRprBE %s/%s v=%s bytes=%d", fieldName.c_str(), A->backend, S(v).c_str(), cap);
        for (int k = 0; k < n64; k++) out[k] = rng.next();
        BALANCED("RawF.fromRprBE", ret = A->rfFromBE(out, be.p, cap));
        if (ret != need) rep::viol(key("RawF.fromRprBE", "ret"), "%s: returned %d", rep::cur(), ret);
        judgeRaw("RawF.fromRprBE", out, md(v * R), "value"); stray("RawF.fromRprBE");
        if (!be.canaryOk()) rep::viol(key("RawF.fromRprBE", "stray"), "%s: memory beyond the input was written", rep::cur());
        BALANCED("RawF.fromRprBE", ret = A->rfFromBE(out, sb.p, shortCap)); stray("RawF.fromRprBE");
        if (ret != -need) rep::viol(key("RawF.fromRprBE", "short"), "%s: %d input bytes gave %d", rep::cur(), shortCap, ret);
        rep::stat("evaluations", 4); rep::stat("op.be", 4);
    }
}

// ---------- toInt / isTrue ----------
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (rep::armed()) { rep::armed() = 0; siglongjmp(rep::jb(), 1); }
    fprintf(stderr, "assertion failed: %s (%s:%u %s)\n", e, f, l, fn);
    abort();
}
static void modeToInt() {
    auto one = [&](const mpz_class &v, Rep r) {
        Buf b; b.place(0, esz, rng.below(4));
        encode(b.p, v, r);
        unsigned char sv[256]; memcpy(sv, b.p, esz);
        rep::op("toInt %s/%s v=%s(%s)", fieldName.c_str(), A->backend, S(v).c_str(), REPN[r]);
        bool fits = fitsShort(v);
        volatile int got = 0; volatile bool failed = false;
        rep::armed() = 1;
        if (sigsetjmp(rep::jb(), 1) == 0) { got = A->toInt(b.p); rep::armed() = 0; } else failed = true;
        rep::armed() = 0;
        rep::stat("evaluations"); rep::stat(failed ? "op.toInt.refused" : "op.toInt.returned");
        rep::seen(hcomb(hcomb(r, hash_str(vclass(v))), hcomb(failed, hash_str((fieldName + A->backend).c_str()))));
        if (fits) {
            long w = (v <= I32MAX ? v : mpz_class(v - q)).get_si();
            if (failed) rep::viol(key("toInt", "refused"), "%s: refused a value that fits an int", rep::cur());
            else if (got != w) rep::viol(key("toInt", "value"), "%s: returned %d, expected %ld", rep::cur(), (int)got, w);
        } else if (!failed) rep::viol(key("toInt", "unfit"), "%s: returned %d for a value that fits no int", rep::cur(), (int)got);
        if (memcmp(sv, b.p, esz) || !b.canaryOk()) rep::viol(key("toInt", "operand"), "%s: memory was modified", rep::cur());
        int t = A->isTrue(b.p);
        rep::op("isTrue %s/%s v=%s(%s)", fieldName.c_str(), A->backend, S(v).c_str(), REPN[r]);
        if ((t != 0) != (v != 0)) rep::viol(key("isTrue", "value"), "%s: returned %d", rep::cur(), t);
        rep::stat("evaluations"); rep::stat("op.isTrue");
    };
    for (auto &v : crit) for (int r = fitsShort(v) ? 0 : 2; r < 4; r++) one(v, (Rep)r);
    for (int i = 0; i < n64; i++) for (int j = 0; j < 64; j++) for (int s = 0; s < 2; s++) {      // one bit away from a short, wherever the bit is
        mpz_class base = rndShort(); mpz_class d = mpz_class(1) << (64 * i + j);
        mpz_class v = md(s ? mpz_class(base + d) : mpz_class(base - d)); one(v, rndRep(v));
    }
    for (u64 i = 0; i < count_; i++) {
        mpz_class v = rng.chance(1, 3) ? rndShort() : rndVal();
        if (rng.chance(1, 6)) v = md((rng.chance(1, 2) ? I32MAX : I32MIN) + (long)rng.below(9) - 4);
        one(v, rndRep(v));
    }
}

// ---------- memory and ABI ----------
static void modeMem() {
    { u64 c = count_; count_ = 2 + c / 40; rawDerived(); modeConv(); count_ = c; }
    for (u64 i = 0; i < count_; i++) {
        mpz_class a, b; Rep ra, rb;
        genPair(a, ra, b, rb);
        int op = rng.below(N_OP2);
        if (op == O_SHL || op == O_SHR) { b = genShift(); rb = rndRep(b); }
        run2(op, a, ra, b, rb, rng.chance(1, 4) ? 1 + rng.below(4) : 0, true);
        mpz_class x = rndVal();
        run1(rng.below(N_OP1), x, rndRep(x), rng.below(2), true);
        if (i % 8 == 0) rawOnce(rng.chance(1, 3) ? 1 + rng.below(4) : 0, true);
        if (i % 16 == 0) {   // copyn
            int n = rng.below(6);
            Buf d, s; size_t sz = (size_t)n * esz;
            d.place(0, sz, rng.below(2)); s.place(1, sz, rng.below(2));
            for (size_t k = 0; k < sz; k++) { d.p[k] = rng.next(); }
            for (int k = 0; k < n; k++) { mpz_class v = rndVal(); encode(s.p + (size_t)k * esz, v, rndRep(v)); }
            std::vector<unsigned char> img(s.p, s.p + sz);
            rep::op("copyn %s/%s n=%d", fieldName.c_str(), A->backend, n);
            A->copyn(d.p, s.p, n);
            if (sz && memcmp(d.p, img.data(), sz)) rep::viol(key("copyn", "value"), "%s: the destination differs from the source", rep::cur());
            if (sz && memcmp(s.p, img.data(), sz)) rep::viol(key("copyn", "operand"), "%s: the source was modified", rep::cur());
            if (!d.canaryOk() || !s.canaryOk()) rep::viol(key("copyn", "stray"), "%s: wrote outside the n elements", rep::cur());
            rep::stat("evaluations"); rep::stat("op.copyn");
        }
    }
    if (!strcmp(A->backend, "asm")) {    // callee-saved registers, direction flag and stack pointer, through a probe
        auto probe = [&](const char *nm, void *r, void *a, void *b) {
            void *fn = field_entry(nm);
            if (!fn) return;
            long ret;
            rep::op("abi %s %s/%s", nm, fieldName.c_str(), A->backend);
            long m = abi_probe(fn, r, a, b, &ret);
            rep::stat("evaluations"); rep::stat("op.abi");
            if (m) rep::viol(key(nm, "abi"), "%s: callee-saved state not preserved (mask 0x%lx: 1 rbx 2 rbp 4 r12 8 r13 16 r14 32 r15 64 rsp 128 DF)", rep::cur(), m);
        };
        static const char *t2[] = {"add","sub","mul","band","bor","bxor","shl","shr","eq","neq","lt","gt","leq","geq","land","lor"};
        static const char *t1[] = {"neg","square","bnot","lnot","copy","toNormal","toLongNormal","toMontgomery","isTrue"};
        static const char *r2[] = {"rawAdd","rawSub","rawMMul","rawIsEq","rawSwap"};
        static const char *r1[] = {"rawNeg","rawMSquare","rawToMontgomery","rawFromMontgomery","rawCopy"};
        auto v = compact();
        for (u64 it = 0; it < 3 + count_ / 200; it++) {
            for (int ra = 0; ra < 4; ra++) {
                for (int rb = 0; rb < 4; rb++) for (const char *nm : t2) {
                    mpz_class a = ra < 2 ? rndShort() : rndVal(), b = rb < 2 ? rndShort() : (nm[0] == 's' && nm[1] == 'h') ? md(genShift()) : rndVal();
                    Buf br, ba, bb; br.place(0, esz, 0); ba.place(1, esz, 0); bb.place(2, esz, 0);
                    encode(ba.p, a, (Rep)ra); encode(bb.p, b, (Rep)rb);
                    probe(nm, br.p, ba.p, bb.p);
                    rep::seen(hcomb(hash_str(nm) + ra * 4 + rb, hash_str(fieldName.c_str())));
                }
                for (const char *nm : t1) {
                    mpz_class a = ra < 2 ? rndShort() : rndVal();
                    Buf br, ba; br.place(0, esz, 0); ba.place(1, esz, 0);
                    encode(ba.p, a, (Rep)ra);
                    if (!strcmp(nm, "isTrue")) probe(nm, ba.p, nullptr, nullptr); else probe(nm, br.p, ba.p, nullptr);
                }
                { mpz_class a = rndShort(); Buf ba; ba.place(1, esz, 0); encode(ba.p, a, (Rep)ra); probe("toInt", ba.p, nullptr, nullptr); }
            }
            RawBufs B;
            for (const char *nm : r2) { B.set(rndVal(), rndVal(), 0); probe(nm, !strcmp(nm, "rawIsEq") || !strcmp(nm, "rawSwap") ? (void *)B.Ap : (void *)B.R, !strcmp(nm, "rawIsEq") || !strcmp(nm, "rawSwap") ? (void *)B.B : (void *)B.Ap, B.B); }
            for (const char *nm : r1) { B.set(rndVal(), rndVal(), 0); probe(nm, B.R, B.Ap, nullptr); }
            B.set(rndVal(), rndVal(), 0); probe("rawMMul1", B.R, B.Ap, (void *)(size_t)rng.next());
            B.set(rndVal(), rndVal(), 0); probe("rawIsZero", B.Ap, nullptr, nullptr);
            for (int k = 0; k < 4; k++) { B.set(rndVal(), rndVal(), 0); probe("rawShl", B.R, B.Ap, (void *)(size_t)rng.below(bits)); B.set(rndVal(), rndVal(), 0); probe("rawShr", B.R, B.Ap, (void *)(size_t)rng.below(bits)); }
        }
    }
}
// published constants and identities a generated field must satisfy, plus a small pass over every operation
static void modeSmoke() {
    auto chk = [&](const char *nm, void *e, const mpz_class &want) {
        uint32_t ty; memcpy(&ty, (char *)e + 4, 4); u64 l[16]; memcpy(l, (char *)e + 8, 8 * n64);
        rep::op("constant %s %s/%s", nm, fieldName.c_str(), A->backend);
        if (limbsToMpz(l) != want) rep::viol(key(nm, "const"), "%s is %s, expected %s", nm, S(limbsToMpz(l)).c_str(), S(want).c_str());
        if (!(ty & 0x80000000u)) rep::viol(key(nm, "const"), "%s is not tagged long", nm);
        rep::stat("evaluations");
    };
    chk("q", A->qElem, q); chk("R2", A->R2Elem, md(R * R)); chk("R3", A->R3Elem, md(R * R * R));
    for (u64 i = 0; i < count_; i++) {
        mpz_class a, b; Rep ra, rb; genPair(a, ra, b, rb);
        for (int op = 0; op < N_OP2; op++) {
            if (op == O_SHL || op == O_SHR) { b = genShift(); rb = rndRep(b); }
            run2(op, a, ra, b, rb, 0, true);
        }
        for (int op = 0; op < N_OP1; op++) run1(op, a, ra, 0, true);
        rawOnce(0, true);
    }
    u64 c = count_; count_ = 4 + c / 8; rawDerived(); count_ = c;
}

static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }

int main(int argc, char **argv) {
    std::string mode, prime;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") mode = v; else if (k == "--q") prime = v; else if (k == "--field") fieldName = v;
        else if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count_ = strtoull(v.c_str(), 0, 10);
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
    A = field_api();
    q = mpz_class(prime); n64 = A->n64; esz = A->elementSize;
    bits = mpz_sizeinbase(q.get_mpz_t(), 2);
    if (n64 != (bits + 63) / 64 || esz != 8 + 8 * n64) { rep::viol(key("layout", "value"), "n64=%d element size=%d for a %d-bit prime", n64, esz, bits); rep::done(); return 0; }
    R = mpz_class(1) << (64 * n64); R %= q;
    mpz_class Rf = mpz_class(1) << (64 * n64);
    mpz_invert(Rinv.get_mpz_t(), Rf.get_mpz_t(), q.get_mpz_t());
    halfq = q >> 1; MASK = (mpz_class(1) << bits) - 1;
    rng = Rng(seedv * 1000003 + hash_str((fieldName + A->backend + mode).c_str()));
    for (auto &s : slots) s.init();
    initCrit();
    if (mode == "arith") modeTagged({O_ADD, O_SUB, O_MUL}, {U_NEG, U_SQUARE, U_COPY, U_TONORMAL, U_TOLONGNORMAL, U_TOMONTGOMERY}, false);
    else if (mode == "div") modeTagged({O_IDIV, O_MOD, O_DIV, O_POW}, {U_INV}, false);
    else if (mode == "cmp") modeTagged({O_EQ, O_NEQ, O_LT, O_GT, O_LEQ, O_GEQ, O_LAND, O_LOR}, {U_LNOT}, false);
    else if (mode == "bits") { modeTagged({O_BAND, O_BOR, O_BXOR}, {U_BNOT}, false); modeTagged({O_SHL, O_SHR}, {}, true); }
    else if (mode == "toint") modeToInt();
    else if (mode == "raw") modeRaw();
    else if (mode == "derived") rawDerived();
    else if (mode == "alias") { modeAlias(); for (u64 i = 0; i < count_ / 8; i++) rawOnce(1 + rng.below(4), false); }
    else if (mode == "mem") modeMem();
    else if (mode == "conv") modeConv();
    else if (mode == "smoke") modeSmoke();
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    for (int i = 0; i < 2; i++) rep::sample("%s", rep::cur());
    if (armvm_steps) rep::stat("arm64.instructions", armvm_steps());
    rep::done();
    return 0;
}
