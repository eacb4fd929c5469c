// Executes the generated ARM64 assembly (fr_raw_arm64.s, embedded as text) on this x86 machine, and
// watches it: memory accesses outside the operands, the constant data and the function's own stack;
// callee-saved registers and sp not restored; falling out of the text. Publishes the same C symbols
// the assembled object would, so the ARCH_ARM64 C++ build links and runs here unchanged.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <string>
#include <vector>
#include <mutex>

#ifndef ARM_S
#error ARM_S
#endif
asm(".section .rodata\n.globl armvm_text\narmvm_text:\n.incbin \"" ARM_S "\"\n.byte 0\n.text\n");
extern "C" const char armvm_text[];
typedef uint64_t u64;
typedef unsigned __int128 u128;

namespace {
enum Opc { ADD, ADDS, ADC, ADCS, SUB, SUBS, SBC, SBCS, AND, ANDS, BIC, ORR, ORN, EOR, EON, MVN, NEG, NEGS, NGC, NGCS, LSL, LSR, ASR, ROR, EXTR, MUL, UMULH, SMULH, MADD, MSUB, MNEG,
           CSEL, CSINC, CSINV, CSNEG, CSET, CSETM, CINC, CINV, CNEG, CMP, CMN, TST, CCMP, MOV, MOVZ, MOVK, MOVN, LDR, STR, LDP, STP, ADR, B, BCOND, CBZ, CBNZ, TBZ, TBNZ, BR, RET, NOP };
const char *const ONAMES[] = {"add","adds","adc","adcs","sub","subs","sbc","sbcs","and","ands","bic","orr","orn","eor","eon","mvn","neg","negs","ngc","ngcs","lsl","lsr","asr","ror","extr","mul","umulh","smulh","madd","msub","mneg",
           "csel","csinc","csinv","csneg","cset","csetm","cinc","cinv","cneg","cmp","cmn","tst","ccmp","mov","movz","movk","movn","ldr","str","ldp","stp","adr","b","b.","cbz","cbnz","tbz","tbnz","br","ret","nop"};
struct Opnd { char k; int r; u64 imm; int sh, amt; std::string lab; int base, idx, idxsh; int64_t off; int wb; };   // k: r reg, i imm, l label, m memory, c cond
struct Ins { Opc op; int cond; std::vector<Opnd> o; int target; u64 addr; int line; };
struct Prog {
    std::vector<Ins> ins;
    std::map<std::string, u64> labels;      // address space: code 0x1000000 + 4*i, data 0x2000000 + offset
    std::vector<u64> data; std::vector<std::string> dataLab;
    int n64 = 0; bool bad = false; std::string why;
};
const u64 CODE = 0x1000000, DATA = 0x2000000, RETADDR = 0xDEAD0000, STACKSZ = 4096;
const char *const CONDS[] = {"eq","ne","cs","cc","mi","pl","vs","vc","hi","ls","ge","lt","gt","le","al"};
int condOf(const std::string &s) {
    if (s == "hs") return 2; if (s == "lo") return 3;
    for (int i = 0; i < 15; i++) if (s == CONDS[i]) return i;
    return -1;
}
std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
std::vector<std::string> splitTop(const std::string &s) {
    std::vector<std::string> v; int d = 0; std::string c;
    for (char ch : s) { if (ch == '[') d++; if (ch == ']') d--; if (ch == ',' && !d) { v.push_back(trim(c)); c.clear(); } else c += ch; }
    c = trim(c); if (!c.empty()) v.push_back(c);
    return v;
}
bool isNum(std::string s) { if (s.size() && s[0] == '#') s = s.substr(1); if (s.size() && s[0] == '-') s = s.substr(1); return s.size() && isdigit((unsigned char)s[0]); }
u64 num(std::string s) { if (s[0] == '#') s = s.substr(1); bool n = s[0] == '-'; if (n) s = s.substr(1); u64 v = strtoull(s.c_str(), 0, 0); return n ? (u64)0 - v : v; }
int regOf(const std::string &s) {
    if (s == "xzr") return 31; if (s == "sp") return 32; if (s == "lr") return 30; if (s == "fp") return 29;
    if (s.size() >= 2 && s[0] == 'x' && isdigit((unsigned char)s[1])) { int r = atoi(s.c_str() + 1); return r <= 30 ? r : -1; }
    return -1;
}
int shiftOf(const std::string &s) { return s == "lsl" ? 1 : s == "lsr" ? 2 : s == "asr" ? 3 : s == "ror" ? 4 : 0; }

Prog *load() {
    Prog *p = new Prog;
    auto fail = [&](int line, const std::string &t) { if (!p->bad) { p->bad = true; p->why = "line " + std::to_string(line) + ": " + t; } };
    std::string text(armvm_text), line; size_t pos = 0; int ln = 0;
    std::vector<std::string> pend;
    auto bindCode = [&]() { for (auto &l : pend) p->labels[l] = CODE + 4 * p->ins.size(); pend.clear(); };
    auto bindData = [&]() { for (auto &l : pend) p->labels[l] = DATA + 8 * p->data.size(); pend.clear(); };
    while (pos <= text.size()) {
        size_t e = text.find('\n', pos); if (e == std::string::npos) e = text.size();
        line = text.substr(pos, e - pos); pos = e + 1; ln++;
        size_t c = line.find("//"); if (c != std::string::npos) line = line.substr(0, c);
        line = trim(line);
        for (;;) {
            size_t k = line.find(':');
            if (k == std::string::npos) break;
            pend.push_back(trim(line.substr(0, k))); line = trim(line.substr(k + 1));
        }
        if (line.empty()) continue;
        size_t sp = line.find_first_of(" \t");
        std::string mn = sp == std::string::npos ? line : line.substr(0, sp), rest = sp == std::string::npos ? "" : trim(line.substr(sp));
        if (mn == ".quad" || mn == ".xword" || mn == ".8byte") { bindData(); for (auto &s : splitTop(rest)) { if (isNum(s)) { p->data.push_back(num(s)); p->dataLab.push_back(""); } else { p->data.push_back(0); p->dataLab.push_back(s); } } continue; }
        if (mn[0] == '.') continue;
        Ins in; in.cond = 14; in.target = -1; in.line = ln; bool known = false;
        std::string base = mn;
        if (mn.size() > 2 && mn[0] == 'b' && mn[1] == '.') { in.op = BCOND; in.cond = condOf(mn.substr(2)); known = in.cond >= 0; }
        else for (int i = 0; i < (int)(sizeof ONAMES / sizeof *ONAMES); i++) if (base == ONAMES[i]) { in.op = (Opc)i; known = true; }
        if (base == "ldur") { in.op = LDR; known = true; }
        if (base == "stur") { in.op = STR; known = true; }
        if (!known) { fail(ln, line); continue; }
        auto parts = splitTop(rest);
        for (size_t i = 0; i < parts.size(); i++) {
            std::string s = parts[i]; Opnd o; o.k = 0; o.r = 0; o.imm = 0; o.sh = o.amt = 0; o.base = o.idx = -1; o.idxsh = 0; o.off = 0; o.wb = 0;
            if (s[0] == '[') {
                o.k = 'm';
                bool pre = s.back() == '!'; if (pre) s.pop_back(); s = trim(s);
                if (s.back() != ']') { fail(ln, line); break; }
                auto in2 = splitTop(s.substr(1, s.size() - 2));
                o.base = regOf(in2[0]); if (o.base < 0) fail(ln, line);
                if (in2.size() > 1) { if (isNum(in2[1])) o.off = (int64_t)num(in2[1]); else { o.idx = regOf(in2[1]); if (o.idx < 0) fail(ln, line); } }
                if (in2.size() > 2) { std::string q = in2[2]; size_t k = q.find_first_of(" \t"); if (q.substr(0, 3) != "lsl" || k == std::string::npos) fail(ln, line); else o.idxsh = (int)num(trim(q.substr(k))); }
                if (pre) o.wb = 1;
                else if (i + 1 < parts.size() && isNum(parts[i + 1])) { o.wb = 2; o.off = (int64_t)num(parts[i + 1]); in.o.push_back(o); i++; continue; }
            } else if (regOf(s) >= 0) { o.k = 'r'; o.r = regOf(s); }
            else if (isNum(s)) { o.k = 'i'; o.imm = num(s); }
            else if (shiftOf(s.substr(0, 3)) && s.size() > 3 && (s[3] == ' ' || s[3] == '\t') && !in.o.empty()) { Opnd &l = in.o.back(); l.sh = shiftOf(s.substr(0, 3)); l.amt = (int)num(trim(s.substr(3))); continue; }
            else if (condOf(s) >= 0 && (in.op == CSEL || in.op == CSINC || in.op == CSINV || in.op == CSNEG || in.op == CSET || in.op == CSETM || in.op == CINC || in.op == CINV || in.op == CNEG || in.op == CCMP)) { in.cond = condOf(s); continue; }
            else if (isalpha((unsigned char)s[0]) || s[0] == '_' || s[0] == '.') { o.k = 'l'; o.lab = s; if (s[0] == 'w' && s.size() > 1 && isdigit((unsigned char)s[1])) fail(ln, line); }
            else fail(ln, line);
            in.o.push_back(o);
        }
        bindCode();
        in.addr = CODE + 4 * p->ins.size();
        p->ins.push_back(in);
    }
    bindData();
    for (auto &in : p->ins) for (auto &o : in.o) if (o.k == 'l') { auto it = p->labels.find(o.lab); if (it == p->labels.end()) fail(in.line, "no label " + o.lab); else o.imm = it->second; }
    for (size_t i = 0; i < p->data.size(); i++) if (!p->dataLab[i].empty()) { auto it = p->labels.find(p->dataLab[i]); if (it == p->labels.end()) fail(0, "no label " + p->dataLab[i]); else p->data[i] = it->second; }
    return p;
}
Prog *prog() { static Prog *p = load(); return p; }
std::atomic<u64> steps{0};
std::mutex fmu; std::string faults;
void fault(const std::string &s) { std::lock_guard<std::mutex> g(fmu); if (faults.size() < 400) { if (!faults.empty()) faults += "; "; faults += s; } }
struct Range { uintptr_t lo, hi; bool w; };
}
extern "C" int armvm_take_faults(char *buf, int cap) {
    std::lock_guard<std::mutex> g(fmu);
    if (faults.empty()) return 0;
    snprintf(buf, cap, "%s", faults.c_str()); faults.clear(); return 1;
}
extern "C" unsigned long long armvm_steps() { return steps; }

static u64 run(const char *fn, u64 a0, u64 a1, u64 a2, const Range *rg, int nrg) {
    Prog *p = prog();
    if (p->bad) { printf("UNSUPPORTED\t%s\n", p->why.c_str()); fflush(stdout); _exit(4); }
    auto it = p->labels.find(fn);
    if (it == p->labels.end()) { printf("\nFAULT\tarm64 function %s is not defined\n", fn); fflush(stdout); _exit(5); }
    u64 x[33], saved[33];
    static std::atomic<u64> salt{0x9E3779B97F4A7C15ull};
    u64 s = salt.fetch_add(0x9E3779B97F4A7C15ull);
    for (int i = 0; i < 33; i++) { u64 z = s + i * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32; x[i] = z; }
    bool N = s & 1, Z = s & 2, C = s & 4, V = s & 8;
    alignas(16) unsigned char stack[STACKSZ];
    memset(stack, 0xA5, sizeof stack);
    u64 spTop = (u64)(uintptr_t)stack + STACKSZ / 2;
    x[0] = a0; x[1] = a1; x[2] = a2; x[30] = RETADDR; x[31] = 0; x[32] = spTop;
    memcpy(saved, x, sizeof x);
    u64 pc = it->second, n = 0;
    bool dead = false;
    auto ferr = [&](const char *what, int line) { char b[200]; snprintf(b, sizeof b, "%s: %s (line %d)", fn, what, line); fault(b); };
    auto cond = [&](int c) -> bool {
        bool r = false;
        switch (c >> 1) { case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break; case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true; }
        return (c & 1) ? !r : r;
    };
    auto mem = [&](u64 addr, bool w, int line) -> u64 * {
        static u64 scratch;
        if (addr & 7) ferr("unaligned 8-byte access", line);
        if (addr >= DATA && addr + 8 <= DATA + 8 * p->data.size()) { if (w) { ferr("write to constant data", line); scratch = 0; return &scratch; } return &p->data[(addr - DATA) / 8]; }
        if (addr >= (u64)(uintptr_t)stack && addr + 8 <= spTop) { if (addr < x[32]) ferr("access below the stack pointer", line); return (u64 *)addr; }
        bool okr = false;
        for (int i = 0; i < nrg; i++) if (addr >= rg[i].lo && addr + 8 <= rg[i].hi) { if (!w || rg[i].w) return (u64 *)addr; okr = true; }
        ferr(okr ? "write to a read-only operand" : w ? "write outside the operands" : "read outside the operands", line);
        dead = dead || w; scratch = 0;
        return &scratch;
    };
    while (pc != RETADDR && !dead) {
        if (pc < CODE || (pc & 3) || (pc - CODE) / 4 >= p->ins.size()) { ferr("control left the text", (int)0); break; }
        if (++n > 200000) { ferr("does not return", 0); break; }
        const Ins &in = p->ins[(pc - CODE) / 4];
        const auto &o = in.o;
        u64 next = pc + 4;
        auto val = [&](size_t i) -> u64 {
            if (i >= o.size()) { ferr("missing operand", in.line); return 0; }
            if (o[i].k == 'i' || o[i].k == 'l') { u64 v = o[i].imm; if (o[i].sh == 1) v <<= o[i].amt; return v; }
            u64 v = o[i].r == 31 ? 0 : x[o[i].r];
            if (o[i].sh) { int a = o[i].amt & 63; if (o[i].sh == 1) v <<= a; else if (o[i].sh == 2) v >>= a; else if (o[i].sh == 3) v = (u64)((int64_t)v >> a); else v = a ? (v >> a) | (v << (64 - a)) : v; }
            return v;
        };
        auto set = [&](size_t i, u64 v) { if (o[i].k != 'r') { ferr("bad destination", in.line); return; } if (o[i].r == 18) ferr("uses the platform register x18", in.line); if (o[i].r != 31) x[o[i].r] = v; };
        auto addf = [&](u64 a, u64 b, bool c, bool fl) -> u64 {
            u128 t = (u128)a + b + (c ? 1 : 0); u64 r = (u64)t;
            if (fl) { N = r >> 63; Z = r == 0; C = (t >> 64) != 0; V = (~(a ^ b) & (a ^ r)) >> 63; }
            return r;
        };
        auto logf = [&](u64 r) { N = r >> 63; Z = r == 0; C = V = false; return r; };
        switch (in.op) {
            case ADD: set(0, addf(val(1), val(2), 0, 0)); break;
            case ADDS: set(0, addf(val(1), val(2), 0, 1)); break;
            case ADC: set(0, addf(val(1), val(2), C, 0)); break;
            case ADCS: set(0, addf(val(1), val(2), C, 1)); break;
            case SUB: set(0, addf(val(1), ~val(2), 1, 0)); break;
            case SUBS: set(0, addf(val(1), ~val(2), 1, 1)); break;
            case SBC: set(0, addf(val(1), ~val(2), C, 0)); break;
            case SBCS: set(0, addf(val(1), ~val(2), C, 1)); break;
            case AND: set(0, val(1) & val(2)); break;
            case ANDS: set(0, logf(val(1) & val(2))); break;
            case BIC: set(0, val(1) & ~val(2)); break;
            case ORR: set(0, val(1) | val(2)); break;
            case ORN: set(0, val(1) | ~val(2)); break;
            case EOR: set(0, val(1) ^ val(2)); break;
            case EON: set(0, val(1) ^ ~val(2)); break;
            case MVN: set(0, ~val(1)); break;
            case NEG: set(0, addf(0, ~val(1), 1, 0)); break;
            case NEGS: set(0, addf(0, ~val(1), 1, 1)); break;
            case NGC: set(0, addf(0, ~val(1), C, 0)); break;
            case NGCS: set(0, addf(0, ~val(1), C, 1)); break;
            case LSL: set(0, val(1) << (val(2) & 63)); break;
            case LSR: set(0, val(1) >> (val(2) & 63)); break;
            case ASR: set(0, (u64)((int64_t)val(1) >> (val(2) & 63))); break;
            case ROR: { u64 v = val(1); int a = val(2) & 63; set(0, a ? (v >> a) | (v << (64 - a)) : v); break; }
            case EXTR: { u64 hi = val(1), lo = val(2); int a = val(3) & 63; set(0, a ? (lo >> a) | (hi << (64 - a)) : lo); break; }
            case MUL: set(0, val(1) * val(2)); break;
            case MNEG: set(0, 0 - val(1) * val(2)); break;
            case MADD: set(0, val(3) + val(1) * val(2)); break;
            case MSUB: set(0, val(3) - val(1) * val(2)); break;
            case UMULH: set(0, (u64)(((u128)val(1) * val(2)) >> 64)); break;
            case SMULH: set(0, (u64)(((__int128)(int64_t)val(1) * (int64_t)val(2)) >> 64)); break;
            case CSEL: set(0, cond(in.cond) ? val(1) : val(2)); break;
            case CSINC: set(0, cond(in.cond) ? val(1) : val(2) + 1); break;
            case CSINV: set(0, cond(in.cond) ? val(1) : ~val(2)); break;
            case CSNEG: set(0, cond(in.cond) ? val(1) : 0 - val(2)); break;
            case CSET: set(0, cond(in.cond)); break;
            case CSETM: set(0, cond(in.cond) ? ~0ull : 0); break;
            case CINC: set(0, val(1) + (cond(in.cond) ? 1 : 0)); break;
            case CINV: set(0, cond(in.cond) ? ~val(1) : val(1)); break;
            case CNEG: set(0, cond(in.cond) ? 0 - val(1) : val(1)); break;
            case CMP: addf(val(0), ~val(1), 1, 1); break;
            case CMN: addf(val(0), val(1), 0, 1); break;
            case TST: logf(val(0) & val(1)); break;
            case CCMP: if (cond(in.cond)) addf(val(0), ~val(1), 1, 1); else { u64 f = val(2); N = f & 8; Z = f & 4; C = f & 2; V = f & 1; } break;
            case MOV: case MOVZ: set(0, val(1)); break;
            case MOVN: set(0, ~val(1)); break;
            case MOVK: { int a = o[1].amt; x[o[0].r] = (x[o[0].r] & ~(0xFFFFull << a)) | ((o[1].imm & 0xFFFF) << a); break; }
            case ADR: set(0, o[1].imm); break;
            case LDR: case STR: case LDP: case STP: {
                size_t mi = (in.op == LDR || in.op == STR) ? 1 : 2;
                if (o.size() <= mi || o[mi].k != 'm') { ferr("bad addressing", in.line); break; }
                const Opnd &m = o[mi];
                u64 b = x[m.base], a = b;
                if (m.idx >= 0) a += (m.idx == 31 ? 0 : x[m.idx]) << m.idxsh; else if (m.wb != 2) a += m.off;
                if (m.wb) { u64 nb = b + m.off; x[m.base] = nb; if (m.base == 32 && (nb & 15)) ferr("sp misaligned", in.line); if (m.base == 32 && (nb > spTop || nb < (u64)(uintptr_t)stack)) { ferr("sp out of its frame", in.line); dead = true; break; } }
                u64 keep = x[32]; if (m.base == 32 && m.wb == 2) x[32] = b;        // the access itself happens at the old sp
                for (size_t i = 0; i < mi && !dead; i++) {
                    bool w = in.op == STR || in.op == STP;
                    u64 *q = mem(a + 8 * i, w, in.line);
                    if (w) { if (!dead) *q = val(i); } else set(i, *q);
                }
                if (m.base == 32 && m.wb == 2) x[32] = keep;
                break;
            }
            case B: next = o[0].imm; break;
            case BCOND: if (cond(in.cond)) next = o[0].imm; break;
            case CBZ: if (val(0) == 0) next = o[1].imm; break;
            case CBNZ: if (val(0) != 0) next = o[1].imm; break;
            case TBZ: if (!(val(0) >> (val(1) & 63) & 1)) next = o[2].imm; break;
            case TBNZ: if (val(0) >> (val(1) & 63) & 1) next = o[2].imm; break;
            case BR: next = val(0); break;
            case RET: next = o.empty() ? x[30] : val(0); break;
            case NOP: break;
        }
        pc = next;
    }
    steps += n;
    for (int i = 19; i <= 30; i++) if (x[i] != saved[i]) { char b[100]; snprintf(b, sizeof b, "callee-saved x%d not restored", i); ferr(b, 0); break; }
    if (x[32] != spTop) ferr("sp not restored", 0);
    return x[0];
}
#include "fr_element.hpp"
static const size_t NB = sizeof(FrRawElement);
#define RG(p, w) {(uintptr_t)(p), (uintptr_t)(p) + NB, w}
#define A(p) ((u64)(uintptr_t)(p))
typedef const uint64_t *CP; typedef uint64_t *P;
extern "C" {
#define RAB(n) void n(P r, CP a, CP b) { Range g[] = {RG(r, true), RG(a, false), RG(b, false)}; run(#n, A(r), A(a), A(b), g, 3); }
#define RA(n) void n(P r, CP a) { Range g[] = {RG(r, true), RG(a, false)}; run(#n, A(r), A(a), 0x5151515151515151ull, g, 2); }
#define RAW(n) void n(P r, CP a, u64 b) { Range g[] = {RG(r, true), RG(a, false)}; run(#n, A(r), A(a), b, g, 2); }
RAB(Fr_rawAdd) RAB(Fr_rawSub) RAB(Fr_rawSubRegular) RAB(Fr_rawMMul) RAB(Fr_rawAnd) RAB(Fr_rawOr) RAB(Fr_rawXor)
RA(Fr_rawNeg) RA(Fr_rawFromMontgomery) RA(Fr_rawCopy) RA(Fr_rawNot)
RAW(Fr_rawAddLS) RAW(Fr_rawSubLS) RAW(Fr_rawNegLS) RAW(Fr_rawMMul1) RAW(Fr_rawShl) RAW(Fr_rawShr)
void Fr_rawSubSL(P r, u64 a, CP b) { Range g[] = {RG(r, true), RG(b, false)}; run("Fr_rawSubSL", A(r), a, A(b), g, 2); }
void Fr_rawSwap(P a, P b) { Range g[] = {RG(a, true), RG(b, true)}; run("Fr_rawSwap", A(a), A(b), 0, g, 2); }
void Fr_rawCopyS2L(P r, int64_t v) { Range g[] = {RG(r, true)}; run("Fr_rawCopyS2L", A(r), (u64)v, 0, g, 1); }
int Fr_rawIsEq(CP a, CP b) { Range g[] = {RG(a, false), RG(b, false)}; return (int)run("Fr_rawIsEq", A(a), A(b), 0, g, 2); }
int Fr_rawIsZero(CP a) { Range g[] = {RG(a, false)}; return (int)run("Fr_rawIsZero", A(a), 0, 0, g, 1); }
int Fr_rawCmp(CP a, CP b) { Range g[] = {RG(a, false), RG(b, false)}; return (int)run("Fr_rawCmp", A(a), A(b), 0, g, 2); }
}
