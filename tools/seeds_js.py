# ---- the generators written in JavaScript: planted bugs (development aid; see mkseed.py)
MB, AB, RB, BZ = "src/montgomerybuilder.js", "src/asmbuilder.js", "src/armbuilder.js", "src/buildzqfield.js"
RAW = HDR + '''
struct R { FrRawElement v; R() {} R(const Z &x) { toLimbs(v, x); } };
static Z edge(int i) {
    Z p = P();
    if (i < 12) return p - 1 - i;
    if (i < 24) return Z(i - 12);
    if (i < 40) return md((Z(1) << (64 * ((i - 24) % NL))) - (i % 2));
    if (i < 56) { Z t = (Z(1) << (64 * NL)) - 1; return t < p ? t : Z(p - 1 - (p - 1) % (Z(1) << (64 * ((i - 40) % NL)))); }
    if (i < 72) { Z m = (Z(1) << (64 * (1 + (i - 56) % NL))) - 1 - (i / 8); return md(m); }
    return rnd();
}
'''


def J(id, prop, edits, needs, breaks, demo, main):
    S(id, prop, edits, needs, breaks, demo, main and RAW + main, extra=("armvm.cpp",) if "field arm" in demo else ())


MULS = '''
int main() {
    for (int i = 0; i < 140; i++) for (int j = 0; j < 140; j++) {
        Z x = edge(i), y = edge(j), m = md(x * y * inv(Rm()));
        R a(x), b(y), r; Fr_rawMMul(r.v, a.v, b.v); chk("mmul", fromLimbs(r.v), m);
        if (i == j) { Fr_rawMSquare(r.v, a.v); chk("msquare", fromLimbs(r.v), md(x * x * inv(Rm()))); Fr_rawFromMontgomery(r.v, a.v); chk("from", fromLimbs(r.v), md(x * inv(Rm()))); }
        uint64_t w = j < 70 ? ~(uint64_t)j : mpz_get_ui(rnd().get_mpz_t());
        Fr_rawMMul1(r.v, a.v, w); chk("mmul1", fromLimbs(r.v), md(x * Z((unsigned long)w) * inv(Rm())));
    }
    for (int i = 1; i < 60; i++) for (int j = 0; j < 60; j++) {
        Z x = edge(i * 2), y = md((P() - 1 - j) * Rm() * inv(x)); if (md(x) == 0) continue;
        R a(x), b(y), r; Fr_rawMMul(r.v, a.v, b.v); chk("mmul", fromLimbs(r.v), P() - 1 - j);
        R c(md((P() - 1 - j) * Rm())); Fr_rawFromMontgomery(r.v, c.v); chk("from", fromLimbs(r.v), P() - 1 - j);
    }
    for (int i = 0; i < 4000; i++) {
        Z m = (Z(1) << (64 * (NL - 1))), x = P() - P() % m + rnd() % m; x = x % P();
        R a(x), r; Fr_rawMSquare(r.v, a.v); chk("msquare", fromLimbs(r.v), md(x * x * inv(Rm())));
    }
    return done();
}'''

J("J01-compare-upper-limbs", "C06",
  [(MB, "    for (let i=n64-1; i>=0; i--) {\n        c.op(\"cmp\", t+i,", "    for (let i=n64-1; i>=(n64>1 ? 1 : 0); i--) {\n        c.op(\"cmp\", t+i,")],
  "x86 assembly; a product whose limbs above the lowest equal those of the prime, for instance minus one",
  "products just below the prime have the prime subtracted from them", "field asm $BN_R\nfield asm $P384", MULS)

J("J02-mul-carry-of-carry", "C06",
  [(MB, ("                c.op(\"adcx\", t+n64+1, 3);\n                c.op(\"adox\", t+n64+1, 3);\n", 0), "                c.op(\"adcx\", t+n64+1, 3);\n")],
  "x86 assembly; a prime that uses its top bit; operands with limbs of all ones that overflow the second carry chain",
  "the product of two large values loses a carry", "field asm $P256\nfield asm $P64\nfield asm $P192\nfield asm $P384", MULS)

J("J03-second-loop-carry", "C06",
  [(MB, "            c.op(\"adcx\", t+n64, 3);\n            c.op(\"adox\", t+n64, t+n64+1);\n", "            c.op(\"adcx\", t+n64, t+n64+1);\n")],
  "x86 assembly; a prime that uses its top bit; a reduction step whose second carry chain overflows",
  "the reduction loses a carry for primes of a full number of words", "field asm $P256\nfield asm $P64\nfield asm $P192\nfield asm $P384", MULS)

J("J04-from-montgomery-stale-top", "C06",
  [(MB, "            c.op(\"mov\", t+n64, 3);\n            if (!canOptimizeConsensys) {\n                c.op(\"mov\", t+n64+1, 3);\n            }\n        } else {", "            c.op(\"mov\", t+n64, 3);\n        } else {")],
  "x86 assembly; a prime that uses its top bit; leaving Montgomery form after other work has left a value in a register",
  "leaving Montgomery form uses a register nothing has set", "field asm $P256\nfield asm $P64\nfield asm $P384", '''
int main() {
    for (int i = 0; i < 3000; i++) { Z x = edge(i % 200); R a(x), r; Fr_rawMMul(r.v, a.v, a.v);
        asm volatile("mov $-1, %%r11\\n mov $-1, %%r10\\n mov $-1, %%r9\\n mov $-1,%%r8\\n" ::: "r8", "r9", "r10", "r11");
        Fr_rawFromMontgomery(r.v, a.v); chk("from", fromLimbs(r.v), md(x * inv(Rm()))); }
    return done();
}''')

J("J05-working-register-not-saved", "C08",
  [(AB, "            this.pushedRegs = this.pushableRegs;\n", "            this.pushedRegs = this.pushableRegs.slice(0, this.nUsedRegs - this.availableRegs.length);\n")],
  "x86 assembly; a prime of seven or more words; a caller that keeps a value in a callee-saved register",
  "Montgomery products destroy a register that belongs to the caller",
  "field asm 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439", '''
int main() {
    for (int i = 0; i < 20; i++) {
        R a(edge(i)), b(edge(i + 3)), r; uint64_t got = 0;
        asm volatile("push %%rbx\\n mov $0x1234567, %%rbx\\n call Fr_rawMMul\\n mov %%rbx, %%rax\\n pop %%rbx\\n" : "=a"(got) : "D"(r.v), "S"(a.v), "d"(b.v) : "rcx", "r8", "r9", "r10", "r11", "memory", "cc");
        chk("register kept", Z((unsigned long)got), Z(0x1234567));
    }
    return done();
}''')

J("J06-spill-frame-short", "C08",
  [(AB, "            this.code.unshift(`    sub rsp, ${(this.neededRegs-this.nUsedRegs)*8}`);", "            this.code.unshift(`    sub rsp, ${(this.neededRegs-this.nUsedRegs-1)*8}`);"),
   (AB, "            this.code.push(`    add rsp, ${(this.neededRegs-this.nUsedRegs)*8}`);", "            this.code.push(`    add rsp, ${(this.neededRegs-this.nUsedRegs-1)*8}`);")],
  "x86 assembly; a prime of seven or more words; a caller that keeps a value in r12",
  "Montgomery products destroy a register that belongs to the caller",
  "field asm 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439", '''
int main() {
    for (int i = 0; i < 20; i++) {
        R a(edge(i)), b(edge(i + 3)), r; uint64_t got = 0;
        asm volatile("push %%r12\\n push %%r13\\n push %%r14\\n push %%r15\\n push %%rbx\\n push %%rbp\\n"
            "mov $0x1234567, %%r12\\n mov %%r12, %%r13\\n mov %%r12, %%r14\\n mov %%r12, %%r15\\n mov %%r12, %%rbx\\n mov %%r12, %%rbp\\n call Fr_rawMMul\\n"
            "mov %%r12, %%rax\\n and %%r13, %%rax\\n and %%r14, %%rax\\n and %%r15, %%rax\\n and %%rbx, %%rax\\n and %%rbp, %%rax\\n"
            "or %%r12, %%r13\\n or %%r14, %%r13\\n or %%r15, %%r13\\n or %%rbx, %%r13\\n or %%rbp, %%r13\\n xor %%r13, %%rax\\n"
            "pop %%rbp\\n pop %%rbx\\n pop %%r15\\n pop %%r14\\n pop %%r13\\n pop %%r12\\n" : "=a"(got) : "D"(r.v), "S"(a.v), "d"(b.v) : "rcx", "r8", "r9", "r10", "r11", "memory", "cc");
        chk("registers kept", Z((unsigned long)got), Z(0));
    }
    return done();
}''')

J("J07-leading-zero-limbs", "C06",
  [(BZ, "            let shex = v.shiftRight(i*64).and(mask).toString(16);\n", "            const limbs = v.shiftRight(i*64);\n            if (i>0 && limbs.isZero()) return S.slice(0, -1);\n            let shex = limbs.and(mask).toString(16);\n")],
  "assembly targets; a prime close to a power of two, whose Montgomery constants have leading zero limbs",
  "a constant with leading zero limbs is laid down too short, so what follows it in memory is read as its top",
  "field asm 340282366920938463463374607431768211297\nfield arm 340282366920938463463374607431768211297", '''
int main() {
    for (int i = 0; i < 300; i++) { Z x = edge(i); R a(x), r; Fr_rawToMontgomery(r.v, a.v); chk("to", fromLimbs(r.v), md(x * Rm())); chk("add", run2(Fr_add, mk(x, 'n'), mk(x, 'm')), md(x * 2)); chk("mul", run2(Fr_mul, mk(x, 'n'), mk(x, 'n')), md(x * x)); }
    return done();
}''')

J("J08-arm-iszero-registers", "C06",
  [(RB, "super(width, space, \"rawIsZero\", 1, 16)", "super(width, space, \"rawIsZero\", 1, 6)")],
  "ARM64; a prime of eight or more words; a value that is not zero only in its low four limbs",
  "values below 2^256 are taken for zero in fields of eight words",
  "field arm 13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006083527", '''
int main() {
    for (int k = 0; k < NL; k++) for (int i = 0; i < 20; i++) { FrRawElement a = {0}; a[k] = 1ull << (3 * i); chk("iszero", (bool)!Fr_rawIsZero(a)); a[k] = 0; chk("iszero 0", (bool)Fr_rawIsZero(a)); }
    return done();
}''')

J("J09-arm-iseq-one-register", "C06",
  [(RB, "        this.c1 = cyclicCopy(this.assignRegs(4), width);\n", "        this.c1 = cyclicCopy(this.assignRegs(1), width);\n")],
  "ARM64; two values that differ only in limbs of even number", "values differing in one limb compare equal",
  "field arm $BN_R\nfield arm $P192", '''
int main() {
    for (int k = 0; k < NL; k++) for (int i = 0; i < 60; i++) { Z x = rnd(), y = x; mpz_combit(y.get_mpz_t(), 64 * k + i); if (y >= P()) continue; R a(x), b(y); chk("neq", (bool)!Fr_rawIsEq(a.v, b.v)); chk("eq", (bool)Fr_rawIsEq(a.v, a.v)); }
    return done();
}''')

J("J10-arm-short-negative-two-words", "C01",
  [(RB, "        if (this.width > 1) {\n            this.op(\"mov\", \"x2\", \"-1\");", "        if (this.width > 2) {\n            this.op(\"mov\", \"x2\", \"-1\");")],
  "ARM64; a prime of two words; a negative short element brought to long form",
  "negative short elements get an undefined upper word", "field arm 340282366920938463463374607431768211297\nfield arm 170141183460469231731687303715884105727", '''
int main() {
    for (long k : {-1L, -2L, -77777L, -2147483648L}) for (int i = 0; i < 50; i++) { Z x = edge(i * 2); chk("mul", run2(Fr_mul, mk(Z(k), 's'), mk(x, 'm')), md(x * k)); FrElement e = mk(Z(k), 's'), r; Fr_toNormal(&r, &e); chk("toNormal", val(r), md(k)); FrElement l; memset(&l, 0, sizeof l); Fr_toLongNormal(&l, &e); chk("toLongNormal", val(l), md(k)); R a; memset(a.v, 7, sizeof a.v); Fr_rawCopyS2L(a.v, k); chk("s2l", fromLimbs(a.v), md(k)); }
    return done();
}''')

J("J11-arm-cmp-per-pair", "C06",
  [(RB, "            this.genSubWord(this.a1, this.a1, this.b1, i);\n            this.genAccum(i);\n            if (i % 2) this.op_empty();", "            this.genSubWord(this.a1, this.a1, this.b1, i);\n            if (i % 2 === 0 || i === this.width - 1) this.genAccum(i);\n            if (i % 2) this.op_empty();")],
  "ARM64; two values that differ in a single limb of odd number that is not the last", "a comparison says equal for values that differ",
  "field arm $BN_R\nfield arm $P384", '''
int main() {
    for (int k = 0; k < NL; k++) for (int i = 0; i < 60; i++) { Z x = rnd(), y = x; mpz_combit(y.get_mpz_t(), 64 * k + i); if (y >= P()) continue; R a(x), b(y); int c = Fr_rawCmp(a.v, b.v); chk("cmp", (bool)(x < y ? c < 0 : c > 0)); }
    return done();
}''')

J("J12-arm-or-not-reduced", "C04",
  [(RB, "        this.op(\"adr\", \"x3\", this.getVarName(\"rawq\"));\n        this.genSubLoad(this.r2, this.r1, this.r2, 3);\n        this.genCselStore(this.r1, this.r2, this.r1, 0);\n", "        if (this.binOp === \"and\" || this.binOp === \"orr\") {\n            this.genStoreVar(this.r1, 0);\n        } else {\n            this.op(\"adr\", \"x3\", this.getVarName(\"rawq\"));\n            this.genSubLoad(this.r2, this.r1, this.r2, 3);\n            this.genCselStore(this.r1, this.r2, this.r1, 0);\n        }\n")],
  "ARM64; bitwise or of two values whose union of bits reaches the prime", "the bitwise or may be no reduced value",
  "field arm $BN_R", '''
int main() {
    for (int i = 0; i < 300; i++) { Z x = edge(i % 90), y = edge((i * 7) % 97); chk("bor", run2(Fr_bor, mk(x, 'n'), mk(y, 'm')), md(x | y)); chk("band", run2(Fr_band, mk(x, 'n'), mk(y, 'm')), md(x & y)); }
    return done();
}''')

J("J13-arm-addls-carry", "C06",
  [(RB, "        this.op(\"cset\", \"x2\", \"cs\");\n        this.op_empty();\n\n        this.genSubtraction();", "        this.op(this.shortOper2 ? \"mov\" : \"cset\", \"x2\", this.shortOper2 ? \"xzr\" : \"cs\");\n        this.op_empty();\n\n        this.genSubtraction();")],
  "ARM64; a prime within 2^31 of a power of 2^64; a value so near the prime that adding a small integer leaves the words",
  "adding a small integer to a value just below the prime loses the carry",
  "field arm 340282366920938463463374607431768211297\nfield arm $P64", '''
int main() {
    for (int i = 0; i < 400; i++) { Z x = P() - 1 - i * 3; uint64_t w = 1000 + i * 1000003ull; if (Z((unsigned long)w) >= P()) w = 5; R a(x), r; Fr_rawAddLS(r.v, a.v, w); chk("addls", fromLimbs(r.v), md(x + Z((unsigned long)w))); }
    return done();
}''')

J("J14-arm-neg-top-limb-zero", "C06",
  [(RB, "            this.op(\"ldr\", this.r1[i], this.getMemWord(1, i));\n            this.op(\"orr\", \"x2\", \"x2\", this.r1[i]);\n", "            this.op(\"ldr\", this.r1[i], this.getMemWord(1, i));\n            this.op(\"orr\", \"x2\", this.width > 4 ? \"xzr\" : \"x2\", this.r1[i]);\n")],
  "ARM64; a prime of five, seven, ... words; a value whose top limb is zero", "the negation of a value with a zero top limb is zero",
  "field arm 533996758980227520598755426542388028650676130589163192486760401955554931445160137505740521746819", '''
int main() {
    for (int i = 0; i < 60; i++) { Z x = md(Z(i * 7919) << (i * 5)); R a(x), r; Fr_rawNeg(r.v, a.v); chk("neg", fromLimbs(r.v), md(-x)); }
    return done();
}''')

J("J15-arm-shift-by-64", "C04",
  [(RB, ("        this.op(\"and\", \"x3\", \"x2\", \"0x3f\");\n        this.op(\"mov\", \"x4\", \"0x3f\");\n        this.op(\"sub\", \"x4\", \"x4\", \"x3\");\n", 0), "        this.op(\"and\", \"x3\", \"x2\", \"0x3f\");\n        this.op(\"neg\", \"x4\", \"x3\");\n"),
   (RB, "            this.op(\"orr\",  this.r1[i], this.r1[i],    c0, \"lsl #1\");", "            this.op(\"orr\",  this.r1[i], this.r1[i],    c0);")],
  "ARM64; a right shift by a multiple of 64 bits", "a right shift by whole words mixes neighbouring words",
  "field arm $BN_R", '''
int main() {
    for (long k = 0; k < 254; k++) { Z x = rnd(); chk("shr", run2(Fr_shr, mk(x, 'n'), mk(Z(k), 's')), x >> k); }
    return done();
}''')

J("J16-arm-mul-carry-wide", "C06",
  [(RB, "            this.op(iAdd,   this.r1[i+1], this.r1[i+1], t1[i]);\n        }\n\n        if (!this.canOptimizeConsensys) {\n            this.op(\"adc\",  \"x8\", \"x8\", \"xzr\");\n        }\n", "            this.op(iAdd,   this.r1[i+1], this.r1[i+1], t1[i]);\n        }\n")],
  "ARM64; a prime that uses its top bit; operands whose partial products overflow the second carry chain", "the product of two large values loses a carry",
  "field arm $P256\nfield arm $P64\nfield arm $P192\nfield arm $P384", MULS)

J("J18-arm-x19-not-saved", "C08",
  [(RB, "            if (reg >= 19) {", "            if (reg > 19) {")],
  "ARM64; a caller that keeps a value in x19 across an operation on a prime of four or more words", "field operations destroy a register that belongs to the caller",
  '''
gen $BN_R Fr
python3 - "$T/fr_raw_arm64.s" <<'P'
# every function that writes x19 must have stored it before
import re, sys
fn, saved, bad = None, False, []
for l in open(sys.argv[1]):
    m = re.match(r"_?(Fr_raw\\w+):", l)
    if m: fn, saved = (fn if not saved and fn == m.group(1) else m.group(1)), False
    if "[sp" in l and re.search(r"\\bx19\\b", l): saved = True
    m = re.match(r"\\s+(\\w+)\\s+(x19)\\b", l)
    if m and m.group(1) not in ("str", "stp", "cmp", "b") and not saved: bad.append((fn, l.strip()))
if bad:
    print("x19 is written and not saved:", bad[0]); sys.exit(1)
P
''', "int main() { return 0; }")

J("J19-arm-shl-mask-two-words", "C04",
  [(RB, "        this.op_label(this.makeLabel(\"sub\"));\n        this.genLboMask(this.r1[this.width-1], new Reg(6));\n", "        if (this.width > 2) {\n            this.op_label(this.makeLabel(\"sub\"));\n        }\n        this.genLboMask(this.r1[this.width-1], new Reg(6));\n        if (this.width <= 2) {\n            this.op_label(this.makeLabel(\"sub\"));\n        }\n")],
  "ARM64; a prime of two words that does not use its top bits; a left shift by fewer than 64 bits that moves bits beyond the prime's length",
  "a left shift in a two-word field keeps bits beyond the prime's length", "field arm 170141183460469231731687303715884105727\nfield arm 73786976294838206473", '''
int main() {
    for (long k = 0; k < bits(); k++) for (int i = 0; i < 20; i++) { Z x = edge(i * 6), m = (Z(1) << bits()) - 1, w = x << k; w &= m; chk("shl", run2(Fr_shl, mk(x, 'n'), mk(Z(k), 's')), md(w)); }
    return done();
}''')

J("J20-arm-swap-odd", "C06",
  [(RB, "        for (let i = 0; i < this.width; i++) {\n            this.genLoadVarWord(this.a1,  i, 0);", "        for (let i = 0; i < (this.width & ~1) || i < 5 && i < this.width; i++) {\n            this.genLoadVarWord(this.a1,  i, 0);")],
  "ARM64; swapping two values of seven, nine or eleven words", "the top words are not swapped",
  "field arm 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439", '''
int main() {
    for (int i = 0; i < 60; i++) { Z x = rnd(), y = rnd(); R a(x), b(y); Fr_rawSwap(a.v, b.v); chk("swap", fromLimbs(a.v), y); chk("swap", fromLimbs(b.v), x); }
    return done();
}''')

J("J21-labels-across-calls", "C11",
  [(BZ, "        this.lastTmp=0;\n", ""), (BZ, "            self.lastTmp++;\n            label = label || \"tmp\";\n            return label+\"_\"+self.lastTmp;", "            lastTmp++;\n            label = label || \"tmp\";\n            return label+\"_\"+lastTmp;"),
   (BZ, "class ZqBuilder {", "let lastTmp = 0;\n\nclass ZqBuilder {")],
  "generating twice in one process", "the text generated for a field depends on what was generated before it in the same process",
  '''
cd "$T"
cat > a.js <<'P'
const b = require(process.argv[2] + "/index.js").buildZqField;
(async () => { const x = await b("101", "Fr"), q = "21888242871839275222246405745257275088548364400416034343698204186575808495617"; const u = await b(q, "Fr"), v = await b(q, "Fr"); for (const k of Object.keys(u)) if (u[k] !== v[k]) { console.log(k + " differs"); process.exit(1); } })().catch((e) => { console.log(e); process.exit(1); });
P
NODE_PATH="$here/shims/node_modules" node a.js "$repo"
''', None)

J("J22-name-case", "C11",
  [(BZ, "        this.name = name;\n", "        this.name = name.charAt(0).toUpperCase() + name.slice(1);\n")],
  "a field whose name begins with a small letter", "the symbols do not carry the name that was asked for",
  '''
gen $BN_R goldi
grep -q "goldi_add" "$T/goldi.cpp" "$T/goldi.asm" && grep -q "goldi_element.hpp" "$T/goldi.hpp"
grep -q "^goldi_mul:" "$T/goldi.asm"
''', None)

