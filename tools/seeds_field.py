# ---- generated field: planted bugs (development aid; see mkseed.py)
RND = '''
static gmp_randclass *G;
static Z rnd() { if (!G) { G = new gmp_randclass(gmp_randinit_default); G->seed(7); } return G->get_z_range(P()); }
'''
HDR = '#include "demofield.hpp"\n' + RND

S("F01-short-add-overflow", "C01",
  [("src/add.asm.ejs", "        movsx  rsi, eax\n        movsx  rdx, ecx\n        add    rsi, rdx", "        movsx  rsi, eax\n        mov    edx, ecx\n        add    rsi, rdx")],
  "x86 assembly; two short operands whose 32-bit sum overflows while the second one is negative",
  "the sum of two small negative integers is off by 2^32 when it leaves the 32-bit range",
  "field asm $BN_R", HDR + '''
int main() {
    Z a[] = {Z(-2147483647 - 1), Z(-5), Z(-1), Z(2147483647), Z(7), Z(-2000000000)};
    for (auto &x : a) for (auto &y : a) chk("add", run2(Fr_add, mk(x, 's'), mk(y, 's')), md(x + y));
    return done();
}''')

S("F02-wide-prime-carry", "C01",
  [("src/montgomerybuilder.js", ".leq( bigInt.one.shiftLeft(64).minus(1).shiftRight(1).minus(1) )", ".leq( bigInt.one.shiftLeft(64).minus(1).minus(1) )")],
  "x86 assembly; a prime that uses the top bit of its highest limb",
  "products lose the carry out of the highest limb for primes of a full number of words",
  "field asm $P256\nfield asm $P64", HDR + '''
int main() {
    for (int i = 0; i < 3000; i++) { Z x = i % 3 ? rnd() : Z(P() - 1 - i), y = i % 2 ? rnd() : Z(P() - 2 - i); chk("mul", run2(Fr_mul, mk(x, 'm'), mk(y, 'm')), md(x * y)); chk("mul n", run2(Fr_mul, mk(x, 'n'), mk(y, 'n')), md(x * y)); }
    return done();
}''')

S("F03-generic-neg-min", "C01",
  [("src/fr_generic.cpp.ejs", "    *r = -(int64_t)a;\n\n    return has_add32_overflow(*r);", "    *r = (int32_t)(0u - (uint32_t)a);\n\n    return has_add32_overflow(*r);")],
  "portable backend; negating the short element -2^31",
  "the negation of the smallest short integer stays negative",
  "field gen $BN_R", HDR + '''
int main() {
    Z a[] = {Z(-2147483647 - 1), Z(-5), Z(-1), Z(0), Z(2147483647), Z(7)};
    for (auto &x : a) for (char c : {'s', 't', 'n', 'm'}) { FrElement e = mk(x, c), r; Fr_neg(&r, &e); chk("neg", val(r), md(-x)); }
    return done();
}''')

S("F04-sub-equal-not-reduced", "C06",
  [("src/fr_raw_generic.cpp.ejs", "    if(carry || mpn_cmp(pRawResult, <%=name%>_rawq, <%=name%>_N64) >= 0)\n    {\n        mpn_sub_n(pRawResult, pRawResult, <%=name%>_rawq, <%=name%>_N64);\n    }\n}\n\nvoid <%=name%>_rawAddLS", "    if(carry || mpn_cmp(pRawResult, <%=name%>_rawq, <%=name%>_N64) > 0)\n    {\n        mpn_sub_n(pRawResult, pRawResult, <%=name%>_rawq, <%=name%>_N64);\n    }\n}\n\nvoid <%=name%>_rawAddLS")],
  "portable backend; raw addition of two opposite values (sum exactly the prime)",
  "the sum of opposite values is the prime itself instead of zero",
  "field gen $BN_R", HDR + '''
int main() {
    for (int i = 0; i < 200; i++) {
        Z x = rnd(), y = i % 2 ? Z(P() - x) : rnd();
        FrRawElement a, b, r; toLimbs(a, x); toLimbs(b, y); Fr_rawAdd(r, a, b); chk("rawAdd", fromLimbs(r), md(x + y));
    }
    return done();
}''')

S("F05-mmul1-carry", "C06",
  [("src/montgomerybuilder.js", '''            c.op("mov","rdx", "rcx");
            c.op("mulx", 0, t, "[rsi]");
            for (let j=1; j<n64; j++) {
                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);
                c.op("adcx", t+j, (j-1)%2);
            }
            if (!canOptimizeConsensys) {
                c.op("mov", t+n64, 3);
                c.op("adcx", t+n64 , (n64-1)%2);''', '''            c.op("mov","rdx", "rcx");
            c.op("mulx", 0, t, "[rsi]");
            for (let j=1; j<n64; j++) {
                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);
                c.op("adcx", t+j, (j-1)%2);
            }
            if (!canOptimizeConsensys) {
                c.op("mov", t+n64, (n64-1)%2);''')],
  "x86 assembly; a full-width prime; multiplication of a field value by a machine word whose partial products carry into the top word",
  "the product by a machine word drops one carry for primes using the top bit",
  "field asm $P256\nfield asm $P64\nfield asm $P192", HDR + '''
int main() {
    for (int i = 0; i < 4000; i++) {
        Z x = i % 3 ? rnd() : Z(P() - 1 - i); uint64_t w = i % 2 ? ~(uint64_t)i : (uint64_t)mpz_get_ui(rnd().get_mpz_t());
        FrRawElement a, r; toLimbs(a, x); Fr_rawMMul1(r, a, w); chk("mmul1", fromLimbs(r), md(x * Z((unsigned long)w) * inv(Rm())));
    }
    return done();
}''')

S("F06-pow-of-negative-exponent", "C02",
  [("src/fr.cpp.ejs", "    <%=name%>_toMpz(mb, b);\n    mpz_powm(mr, ma, mb, q);", "    <%=name%>_toMpz(mb, b);\n    if (!(b->type & <%=name%>_LONG) && b->shortVal < 0) mpz_sub(mb, mb, one);\n    mpz_powm(mr, ma, mb, q);")],
  "exponentiation by an element held as a negative short integer",
  "a to the power (p-k) is computed as the power p-1-k when the exponent is held as the short integer -k",
  "field asm $BN_R\nfield gen $P256", HDR + '''
int main() {
    for (long k : {-1L, -2L, -77L, -2147483648L, 5L, 0L}) for (char c : {'s', 't', 'n', 'm'}) { Z x = rnd(); chk("pow", run2(Fr_pow, mk(x, 'm'), mk(Z(k), c)), powm(x, md(Z(k)))); }
    return done();
}''')

S("F07-idiv-large-quotient", "C02",
  [("src/fr.cpp.ejs", "    if (mpz_fits_sint_p(v)) {\n        pE->type = <%=name%>_SHORT;\n        pE->shortVal = mpz_get_si(v);", "    if (mpz_sizeinbase(v, 2) <= 32) {\n        pE->type = <%=name%>_SHORT;\n        pE->shortVal = mpz_get_si(v);")],
  "integer division, remainder, power or parsing whose result lies between 2^31 and 2^32-1",
  "results between 2^31 and 2^32-1 become negative short integers",
  "field asm $BN_R", HDR + '''
int main() {
    Z v[] = {Z(2147483647L), Z(2147483648L), Z(4294967295L), Z(4294967296L), Z(3000000000L)};
    for (auto &x : v) for (char c : {'n', 'm'}) { chk("idiv", run2(Fr_idiv, mk(x * 1000 + 7, c), mk(Z(1000), 's')), x); chk("mod", run2(Fr_mod, mk(x + (Z(1) << 200), c), mk(Z(1) << 200, 'n')), x); }
    return done();
}''')

S("F08-idiv-montgomery-short", "C02",
  [("src/fr.cpp.ejs", "    mpz_t ma;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mr);\n\n    <%=name%>_toMpz(ma, a);\n    mpz_invert(mr, ma, q);", "    mpz_t ma;\n    mpz_t mr;\n    mpz_init(ma);\n    mpz_init(mr);\n\n    if (!(a->type & <%=name%>_LONG) && a->shortVal == -1) {\n        mpz_set_si(ma, 1);\n    } else {\n        <%=name%>_toMpz(ma, a);\n    }\n    mpz_invert(mr, ma, q);")],
  "inversion of minus one held as a short integer", "the inverse of the short integer -1 is 1",
  "field asm $BN_R", HDR + '''
int main() {
    for (long k : {-1L, 1L, -2L, 99L}) for (char c : {'s', 't', 'n', 'm'}) { FrElement e = mk(Z(k), c), r; Fr_inv(&r, &e); chk("inv", val(r), inv(Z(k))); chk("div", run2(Fr_div, mk(Z(12), 'm'), e), md(12 * inv(Z(k)))); }
    return done();
}''')

S("F09-half-boundary-asm", "C03",
  [("src/cmpops.asm.ejs", "        cmp     [half + <%= (i*8) %>], rax     ; comare with (q-1)/2\n        jc <%=label_neg%>                           ; half<rax => e1-e2 is neg => e1 < e2\n<%     if (i>0) { %>", "        cmp     [half + <%= (i*8) %>], rax     ; comare with (q-1)/2\n        <%= i>0 ? 'jc' : 'jbe' %> <%=label_neg%>                           ; half<rax => e1-e2 is neg => e1 < e2\n<%     if (i>0) { %>")],
  "x86 assembly; one operand is exactly (p-1)/2, the largest positive value",
  "half the prime counts as negative in ordered comparisons",
  "field asm $BN_R", HDR + '''
int main() {
    Z h = (P() - 1) / 2, v[] = {h, Z(h + 1), Z(h - 1), Z(0), Z(1), Z(P() - 1)};
    for (auto &x : v) for (auto &y : v) for (char c : {'n', 'm'}) {
        chk("lt", run2(Fr_lt, mk(x, c), mk(y, 'n')), sgn(x) < sgn(y)); chk("gt", run2(Fr_gt, mk(x, c), mk(y, 'm')), sgn(x) > sgn(y));
        chk("leq", run2(Fr_leq, mk(x, c), mk(y, 'n')), sgn(x) <= sgn(y)); chk("geq", run2(Fr_geq, mk(x, c), mk(y, 'm')), sgn(x) >= sgn(y));
    }
    return done();
}''')

S("F10-generic-gt-negatives", "C03",
  [("src/fr_generic.cpp.ejs", "static inline int rgtl1l2_p1(<%=name%>RawElement pRawA, <%=name%>RawElement pRawB)\n{\n    int result = <%=name%>_rawCmp(half, pRawB);\n\n    if (result < 0)", "static inline int rgtl1l2_p1(<%=name%>RawElement pRawA, <%=name%>RawElement pRawB)\n{\n    int result = <%=name%>_rawCmp(half, pRawB);\n\n    if (result <= 0)")],
  "portable backend; greater-than with a positive first operand and the second exactly (p-1)/2",
  "every positive value is greater than half the prime",
  "field gen $BN_R", HDR + '''
int main() {
    Z h = (P() - 1) / 2, v[] = {h, Z(h + 1), Z(h - 1), Z(0), Z(1), Z(P() - 1)};
    for (auto &x : v) for (auto &y : v) for (char c : {'n', 'm'}) {
        chk("lt", run2(Fr_lt, mk(x, c), mk(y, 'n')), sgn(x) < sgn(y)); chk("gt", run2(Fr_gt, mk(x, c), mk(y, 'm')), sgn(x) > sgn(y));
        chk("leq", run2(Fr_leq, mk(x, c), mk(y, 'n')), sgn(x) <= sgn(y)); chk("geq", run2(Fr_geq, mk(x, c), mk(y, 'm')), sgn(x) >= sgn(y));
    }
    return done();
}''')

S("F11-shift-amount-top-limb", "C04",
  [("src/binops.asm.ejs", "        cmp rcx, <%= q.bitLength() %>\n        jae  <%= lbL2neg %>\n        xor rax, rax\n        <% for (let i=1; i<n64; i++) { %>", "        cmp rcx, <%= q.bitLength() %>\n        jae  <%= lbL2neg %>\n        xor rax, rax\n        <% for (let i=1; i<n64-1; i++) { %>")],
  "x86 assembly; a shift amount whose middle limbs are zero, lowest limb small and top limb not zero",
  "a shift by a huge amount behaves like a shift by its lowest word",
  "field asm $BN_R", HDR + '''
static Z shl(const Z &x, const Z &k) { if (k >= bits()) return 0; Z r = (x << mpz_get_ui(k.get_mpz_t())) & ((Z(1) << bits()) - 1); return r >= P() ? Z(r - P()) : r; }
int main() {
    for (int i = 0; i < 256; i++) { Z k = (Z(i % 64 + 1) << 192) + i; if (k >= P()) continue; Z x = rnd(); if (P() - k < bits()) continue;
        chk("shl", run2(Fr_shl, mk(x, 'n'), mk(k, 'n')), Z(0)); chk("shr", run2(Fr_shr, mk(x, 'm'), mk(k, 'm')), Z(0)); chk("shl small", run2(Fr_shl, mk(x, 'n'), mk(Z(i), 'n')), shl(x, Z(i))); }
    return done();
}''')

S("F12-shl-aligned-mask", "C04",
  [("src/binops.asm.ejs", "        ja rawShl_if3_<%=i%>\n        mov rax, [rdx + <%= i*8 %> ]\n<%     if (i == n64-1) { %>\n        and rax, [lboMask]\n<%     } %>        ", "        ja rawShl_if3_<%=i%>\n        mov rax, [rdx + <%= i*8 %> ]\n")],
  "x86 assembly; left shift by a multiple of 64 of a value whose shifted bits reach beyond the prime's length",
  "left shifts by whole words keep bits beyond the prime's bit length",
  "field asm $BN_R", HDR + '''
static Z shl(const Z &x, long k) { Z r = (x << k) & ((Z(1) << bits()) - 1); return r >= P() ? Z(r - P()) : r; }
int main() {
    for (int i = 0; i < 50; i++) for (long k : {1L, 63L, 64L, 65L, 128L, 192L}) { Z x = rnd(); chk("shl", run2(Fr_shl, mk(x, 'n'), mk(Z(k), 's')), shl(x, k)); chk("shr by -k", run2(Fr_shr, mk(x, 'm'), mk(Z(-k), 's')), shl(x, k)); }
    return done();
}''')

S("F14-toint-min", "C05",
  [("src/copy.asm.ejs", "        sar     rcx, 31\n", "        sar     rcx, 32\n")],
  "x86 assembly; converting a long element whose signed value lies between -2^32 and -2^31-1",
  "integers just below the 32-bit range are converted to a wrong integer instead of ending the program",
  "field asm $BN_R", HDR + '''
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
static int tryInt(const FrElement &e, long &v) {
    int p[2]; if (pipe(p)) return -1; fflush(stdout);
    pid_t c = fork(); if (!c) { close(2); FrElement x = e; long r = Fr_toInt(&x); if (write(p[1], &r, 8) != 8) _exit(1); _exit(0); }
    int st; waitpid(c, &st, 0); close(p[1]); bool got = read(p[0], &v, 8) == 8; close(p[0]); return WIFEXITED(st) && WEXITSTATUS(st) == 0 && got ? 1 : 0;
}
int main() {
    long w[] = {0, 1, -1, 2147483647L, 2147483648L, -2147483648L, -2147483649L, -4294967296L, -3000000000L, 4294967295L};
    for (long x : w) for (char c : {'n', 'm'}) { long v = 0; int ok = tryInt(mk(Z(x), c), v); bool fits = x >= -2147483648L && x <= 2147483647L; if (fits ? !(ok && (int)v == x) : ok) { printf("toInt %ld\\n", x); failures++; } }
    return done();
}''')

S("F15-generic-toint-upper", "C05",
  [("src/fr_generic.cpp.ejs", "    for (int i = 1; i < <%=name%>_N64; i++)\n    {\n        if (diff[i] != UINT64_MAX)", "    for (int i = 1; i < <%=name%>_N64 - 1; i++)\n    {\n        if (diff[i] != UINT64_MAX)")],
  "portable backend; converting an element just below the prime in all limbs but the highest",
  "an element p - j*2^192 - k with small k is converted to the integer -k instead of ending the program",
  "field gen $BN_R", HDR + '''
#include <unistd.h>
#include <sys/wait.h>
static int tryInt(const FrElement &e, long &v) {
    int p[2]; if (pipe(p)) return -1; fflush(stdout);
    pid_t c = fork(); if (!c) { close(2); FrElement x = e; long r = Fr_toInt(&x); if (write(p[1], &r, 8) != 8) _exit(1); _exit(0); }
    int st; waitpid(c, &st, 0); close(p[1]); bool got = read(p[0], &v, 8) == 8; close(p[0]); return WIFEXITED(st) && WEXITSTATUS(st) == 0 && got ? 1 : 0;
}
int main() {
    for (int j = 1; j < 5; j++) for (char c : {'n', 'm'}) { long v; for (int l = 1; l < NL; l++) if (tryInt(mk(P() - (Z(j) << (64 * l)) - 5, c), v)) { printf("converted a huge element to %ld\\n", v); failures++; } if (!tryInt(mk(Z(-5), c), v) || (int)v != -5) failures++; }
    return done();
}''')


CHK2 = HDR + """
// every binary operation, with the destination the same object as one operand
static void alias(const char *n, Op2 f, const FrElement &a, const FrElement &b) {
    Z w = run2(f, a, b); FrElement x = a, y = b;
    f(&x, &x, &y); chk(n, val(x), w); x = a; f(&y, &x, &y); chk(n, val(y), w);
}
"""

S("F13-shr-by-30", "C04",
  [("src/binops.asm.ejs", "        cmp rdx, 31\n        jae setzero", "        cmp rdx, 30\n        jae setzero")],
  "x86 assembly; right shift by exactly 30 of a short value of at least 2^30", "the highest bit of a short value is lost when it is shifted right by 30",
  "field asm $BN_R", HDR + """
int main() {
    for (long x : {1L, 5L, 1L << 29, 1L << 30, 2147483647L}) for (int k = 0; k < 40; k++) for (char c : {'s', 'n', 'm'}) chk("shr", run2(Fr_shr, mk(Z(x), 's'), mk(Z(k), c)), Z(x) >> k);
    return done();
}""")

S("F16-mul-alias-second", "C07",
  [("src/fr_generic.cpp.ejs", ("    r->type = <%=name%>_LONG;\n    <%=name%>_rawMMul(r->longVal, a->longVal, b->longVal);\n}", 1), "    r->type = <%=name%>_LONG;\n    <%=name%>_rawCopy(r->longVal, a->longVal);\n    <%=name%>_rawMMul(r->longVal, r->longVal, b->longVal);\n}")],
  "portable backend; product of a Montgomery and a normal long element written over the second operand", "the product overwrites the second operand before it is read",
  "field gen $BN_R", CHK2 + """
int main() { for (int i = 0; i < 20; i++) for (char c : {'s', 't', 'n', 'm'}) for (char d : {'s', 't', 'n', 'm'}) { Z x = rnd(), y = rnd(); if (c == 's' || c == 't') x = i - 9; if (d == 's' || d == 't') y = 7 - i; alias("mul", Fr_mul, mk(x, c), mk(y, d)); alias("add", Fr_add, mk(x, c), mk(y, d)); alias("sub", Fr_sub, mk(x, c), mk(y, d)); } return done(); }""")

S("F17-shl-in-place", "C07",
  [("src/binops.asm.ejs", "<%   for (let i=n64-1; i>=0; i--) { %>\n        cmp r8, <%= i %>\n        ja rawShl_if3_<%=i%>", "<%   for (let i=0; i<n64; i++) { %>\n        cmp r8, <%= i %>\n        ja rawShl_if3_<%=i%>")],
  "x86 assembly; left shift by a multiple of 64 with the result in the place of the shifted element", "limbs are overwritten before they are read when shifting in place",
  "field asm $BN_R", CHK2 + """
int main() { for (int i = 0; i < 20; i++) for (char c : {'n', 'm'}) for (long k : {0L, 1L, 64L, 65L, 128L, 192L, -64L}) { Z x = rnd(); alias("shl", Fr_shl, mk(x, c), mk(Z(k), 's')); alias("shr", Fr_shr, mk(x, c), mk(Z(k), 's')); } return done(); }""")

S("F18-operand-reencoded", "C08",
  [("src/fr_generic.cpp.ejs", ("    <%=name%>Element b_n;\n    <%=name%>_toNormal(&b_n, b);\n\n    <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);", 0), "    <%=name%>_toNormal(b, b);\n\n    <%=name%>_rawXor(r->longVal, a->longVal, b->longVal);")],
  "portable backend; exclusive or of a normal and a Montgomery element; look at the second operand's bytes afterwards", "an operand that is not the destination is rewritten in another encoding (a data race when it is shared)",
  "field gen $BN_R", HDR + """
int main() {
    Op2 ops[] = {Fr_band, Fr_bor, Fr_bxor, Fr_add, Fr_mul, Fr_lt, Fr_eq};
    for (Op2 f : ops) for (char c : {'s', 't', 'n', 'm'}) for (char d : {'s', 't', 'n', 'm'}) { FrElement a = mk(c == 's' || c == 't' ? Z(5) : rnd(), c), b = mk(d == 's' || d == 't' ? Z(9) : rnd(), d), a0 = a, b0 = b, r; f(&r, &a, &b); chk("operand changed", !memcmp(&a, &a0, sizeof a) && !memcmp(&b, &b0, sizeof b)); }
    return done();
}""")

LEAK = HDR + """
#include <malloc.h>
static size_t live() { struct mallinfo2 m = mallinfo2(); return m.uordblks; }
"""
S("F19-mod-leak", "C08",
  [("src/fr.cpp.ejs", "    <%=name%>_toMpz(mb, b);\n    mpz_fdiv_r(mr, ma, mb);\n", "    <%=name%>_toMpz(mb, b);\n    if (mpz_cmp(ma, mb) < 0) {\n        <%=name%>_fromMpz(r, ma);\n        mpz_clear(ma);\n        mpz_clear(mr);\n        return;\n    }\n    mpz_fdiv_r(mr, ma, mb);\n")],
  "remainder of a value smaller than the divisor, repeated", "every remainder of a value below its divisor leaves one big integer allocated",
  "field asm $BN_R", LEAK + """
int main() { FrElement a = mk(Z(5), 'n'), b = mk(rnd(), 'm'), r; Fr_mod(&r, &a, &b); size_t l = live(); for (int i = 0; i < 100; i++) { Fr_mod(&r, &a, &b); Fr_mod(&r, &b, &a); Fr_idiv(&r, &a, &b); Fr_inv(&r, &b); Fr_pow(&r, &b, &a); } chk("memory kept", live() == l); return done(); }""")

S("F20-swap-clobbers-rbx", "C08",
  [("src/copy.asm.ejs", "        mov     rcx, [rdi + <%= i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n        mov     [rsi + <%= i*8 %>], rcx", "        mov     rbx, [rdi + <%= i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n        mov     [rsi + <%= i*8 %>], rbx")],
  "x86 assembly; a caller that keeps a value in rbx across the raw swap", "the raw swap destroys a register it must preserve",
  "field asm $BN_R", HDR + """
int main() {
    FrRawElement a, b; toLimbs(a, rnd()); toLimbs(b, rnd()); unsigned long out = 0; uint64_t *pa = a, *pb = b;
    asm volatile("push %%rbx; push %%r14; mov $0x1234567, %%rbx; mov %%rsp, %%r14; and $-16, %%rsp; call Fr_rawSwap; mov %%r14, %%rsp; mov %%rbx, %%rax; pop %%r14; pop %%rbx" : "=a"(out), "+D"(pa), "+S"(pb) : : "rcx", "rdx", "r8", "r9", "r10", "r11", "memory", "cc");
    chk("rbx preserved", out == 0x1234567); return done();
}""")

S("F22-zero-image", "C09",
  [("src/fr.cpp.ejs", "    memset(data, 0, <%=name%>_N64 * 8);\n    mpz_export(data, NULL, 1,", "    mpz_export(data, NULL, 1,")],
  "writing the byte image of zero into a buffer that holds other bytes", "the byte image of zero is not written",
  "field asm $BN_R", HDR + """
int main() {
    for (Z x : {Z(0), Z(1), rnd()}) { uint8_t d[8 * 12]; memset(d, 0xAB, sizeof d); RawFr::Element e; RawFr::field.fromString(e, x.get_str()); RawFr::field.toRprBE(e, d, NL * 8); Z v; mpz_import(v.get_mpz_t(), NL * 8, 1, 1, 0, 0, d); chk("image", v, x); }
    return done();
}""")

S("F23-negative-string", "C09",
  [("src/fr.cpp.ejs", "    mpz_init_set_str(mr, s.c_str(), radix);\n    mpz_fdiv_r(mr, mr, q);", "    mpz_init_set_str(mr, s.c_str(), radix);\n    mpz_tdiv_r(mr, mr, q);")],
  "parsing a negative number into the field class", "negative strings give their absolute value",
  "field asm $BN_R", HDR + """
int main() { for (Z x : {Z(-1), Z(-12345), Z(-rnd()), rnd(), Z(rnd() + 5 * P()), Z(-P())}) for (int rx : {2, 10, 16, 36}) { RawFr::Element e; RawFr::field.fromString(e, x.get_str(rx), rx); chk("fromString", Z(RawFr::field.toString(e, 10)), md(x)); } return done(); }""")

S("F24-element2str-buffer", "C09",
  [("src/fr.cpp.ejs", "char *r = (char *)malloc(32);", "char *r = (char *)malloc(10);")],
  "printing a short element of ten digits", "printing a ten-digit short element writes one byte past its buffer",
  "field asm $BN_R -fsanitize=address", HDR + """
int main() { for (long x : {0L, 9L, 999999999L, 1000000000L, 2147483647L, -1L}) { FrElement e = mk(Z(x), 's'); char *s = Fr_element2str(&e); chk("print", Z(s), md(Z(x))); free(s); } return done(); }""")

S("F25-exp-in-place", "C10",
  [("src/fr.cpp.ejs", "            mul(r, r, copyBase);", "            mul(r, r, base);")],
  "exponentiation whose result replaces the base, exponent with at least two set bits", "exponentiation in place multiplies by the intermediate result instead of the base",
  "field asm $BN_R", HDR + """
int main() { for (int i = 0; i < 20; i++) { Z x = rnd(), k = rnd(); uint8_t s[40] = {0}; mpz_export(s, 0, -1, 1, -1, 0, k.get_mpz_t()); RawFr::Element e, r; RawFr::field.fromString(e, x.get_str()); RawFr::field.exp(r, e, s, 40); chk("exp", Z(RawFr::field.toString(r)), powm(x, k)); RawFr::field.exp(e, e, s, 40); chk("exp in place", Z(RawFr::field.toString(e)), powm(x, k)); } return done(); }""")

S("F26-set-int-min", "C10",
  [("src/fr.cpp.ejs", "  mpz_set_si(mr, value);\n  if (value < 0) {\n      mpz_add(mr, mr, q);\n  }", "  mpz_set_ui(mr, value < 0 ? (unsigned int)0 - value : value);\n  if (value < -1) {\n      mpz_sub(mr, q, mr);\n  }")],
  "constructing the field element -1 from an integer", "the integer -1 becomes the element 1",
  "field asm $BN_R", HDR + """
int main() { for (long x : {0L, 1L, -1L, -2L, 2147483647L, -2147483648L}) { RawFr::Element e = RawFr::field.set((int)x); chk("set", Z(RawFr::field.toString(e)), md(Z(x))); RawFr::field.set(e, (int)x); chk("set2", Z(RawFr::field.toString(e)), md(Z(x))); } return done(); }""")

S("F27-inv-small", "C10",
  [("src/fr.cpp.ejs", "    mpz_invert(mr, mr, q);\n\n\n    for (int i=0; i<<%=name%>_N64; i++) r.v[i] = 0;\n    mpz_export((void *)(r.v), NULL, -1, 8, -1, 0, mr);", "    mpz_invert(mr, mr, q);\n\n\n    mpz_export((void *)(r.v), NULL, -1, 8, -1, 0, mr);")],
  "inverting an element whose Montgomery image has an inverse of fewer limbs than the prime, into an object holding other data", "the upper limbs of the old contents survive in the inverse",
  "field asm $BN_R", HDR + """
int main() { for (int i = 1; i < 30; i++) { FrRawElement m; toLimbs(m, inv(Z(i) << (60 * (i % 4)))); RawFr::Element e, r; memcpy(e.v, m, sizeof m); Z x(RawFr::field.toString(e)); memset(&r, 0x11, sizeof r); RawFr::field.inv(r, e); chk("inv", Z(RawFr::field.toString(r)), inv(x)); } return done(); }""")

S("F28-two-fields-one-program", "C11",
  [("src/fr_generic.cpp.ejs", "static inline int has_mul32_overflow(int64_t val)", "int has_mul32_overflow(int64_t val)")],
  "portable backend; two generated fields linked into one program", "the libraries of two primes define the same symbol and cannot be linked together",
  """gen $BN_R Fr; gen $BN_Q Fq; objs gen Fr; objs gen Fq
echo 'int main() { return 0; }' > "$T/m.cpp"; $CXX -w "$T/m.cpp" "$T"/fr.gen.d/*.o "$T"/fq.gen.d/*.o -lgmp -o "$T/two" && "$T/two" """, None, kit=("lib.sh",))

S("F29-header-option", "C11",
  [("src/buildzqfield.js", "fs.writeFileSync(hFileName, res.hpp, \"utf8\");\n        fs.writeFileSync(cFileName, res.cpp, \"utf8\");", "fs.writeFileSync(hFileName, res.hpp, \"utf8\");\n        fs.writeFileSync((argv.oc && argv.oh) ? cFileName.replace(/\\.c$/, \".cpp\") : cFileName, res.cpp, \"utf8\");")],
  "command line with both -oh and -oc, the latter ending in .c", "the C++ source goes to another file than the one named",
  """cd "$T"; NODE_PATH="$here/shims/node_modules" node "$repo/src/buildzqfield.js" -q $BN_R -n Fr --oc out.c --oh out.h --oa out.asm > /dev/null; sleep 0.3
[ -s out.c ] && [ -s out.h ] && [ -s out.asm ] && [ ! -e out.cpp ] """, None, kit=("lib.sh",))
