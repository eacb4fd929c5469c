// Splitting nested lists: against a splitter written from the rules, over every short text and random deep ones.
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <functional>
#include <sys/wait.h>
#include <sys/resource.h>
#include "splitparstr.hpp"
#include "alt_bn128.hpp"
#include "common.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
typedef std::vector<Str> Vec;
static Str squeeze(const Str &s) { Str r; for (char c : s) if (!c || !strchr(" \t\n\v\f\r", c)) r += c; return r; }
static bool balanced(const Str &s) { int d = 0; for (char c : s) { d += c == '(' ? 1 : c == ')' ? -1 : 0; if (d < 0) return false; } return d == 0; }
static Str strip(Str s) {
    while (s.size() >= 2 && s[0] == '(' && s.back() == ')') {
        int d = 0; size_t close = 0;
        for (size_t i = 0; i < s.size(); i++) { if (s[i] == '(') d++; if (s[i] == ')' && --d == 0) { close = i; break; } }
        if (close + 1 != s.size()) break;
        s = s.substr(1, s.size() - 2);
    }
    return s;
}
static Vec ref(const Str &t) {
    Str s = strip(squeeze(t)); Vec r(1); int d = 0;
    for (char c : s) { if (c == ',' && d == 0) { r.push_back(""); continue; } d += c == '(' ? 1 : c == ')' ? -1 : 0; r.back() += c; }
    for (auto &x : r) x = strip(x);
    return r;
}
static Str vis(const Str &s) { Str r; for (unsigned char c : s) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += c < 32 || c > 126 ? Str(b) : Str(1, c); } return r; }
static Str show(const Vec &v) { Str r = "{"; for (auto &x : v) r += "\"" + vis(x) + "\" "; return r + "}"; }
static u64 evals;
static void one(const Str &s) {
    rep::op("split \"%s\"", vis(s.substr(0, 1500)).c_str());
    evals++;
    if (!balanced(squeeze(s))) { rep::stat("unbalanced"); try { splitParStr(s); } catch (std::exception &) { rep::stat("unbalanced text refused"); } return; }
    Vec w = ref(s), g;
    u64 h = w.size(); for (auto &x : w) h = hcomb(h, hash_str(x.c_str()));
    rep::seen(h); rep::stat("texts"); if (w.size() == 1) rep::stat("one part"); 
    try { g = splitParStr(s); } catch (std::exception &e) { rep::viol("split/throws", "splitting \"%s\" throws %s", vis(s).c_str(), e.what()); return; }
    if (g != w) rep::viol(w.size() == 1 ? "split/one" : "split/value", "splitting \"%s\" gives %s, expected %s", vis(s).c_str(), show(g).c_str(), show(w).c_str());
}
static Rng rng(1);
static Str sp() { Str r; while (rng.chance(1, 6)) r += " \t\n\v\f\r"[rng.below(6)]; return r; }
static Str wrap(Str s, int k) { for (int i = 0; i < k; i++) s = sp() + "(" + sp() + s + sp() + ")" + sp(); return s; }
static Str gen(int depth) {
    if (depth == 0 || rng.chance(1, 5)) { Str a; bool any = rng.chance(1, 6); if (any) rep::stat("components of arbitrary bytes"); for (int n = rng.below(4) + (rng.chance(1, 9) ? 70 : 0); n > 0; n--) { char c = any ? (char)rng.next() : "0123456789abcx-+*.\\"[rng.below(19)]; if (c && strchr("(), \t\n\v\f\r", c)) c = any ? '\0' : '0'; a += c; } return wrap(a, rng.chance(1, 4) ? rng.below(4) : 0); }
    int n = rng.chance(1, 5) ? 1 : 2 + rng.below(4); Str s;
    for (int i = 0; i < n; i++) { if (i) s += rng.chance(9, 10) ? "," : ""; s += sp() + wrap(gen(depth - 1), rng.chance(1, 3) ? rng.below(5) : 1) + sp(); }
    return s;
}
// A text with the wrong number of components never yields an element: the call ends the program or throws.
template <class F> static void arity(F &f, const char *nm, const Str &s, bool good) {
    rep::op("%s.fromString \"%s\"", nm, s.c_str()); evals++; rep::stat("component counts");
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        for (int x : {SIGABRT, SIGSEGV}) signal(x, SIG_DFL);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        typename F::Element e; memset((void *)&e, 0, sizeof e);
        try { f.fromString(e, s); } catch (std::exception &x) { _exit(7); }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    bool returned = WIFEXITED(st) && WEXITSTATUS(st) == 0, refused = (WIFEXITED(st) && WEXITSTATUS(st) == 7) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
    rep::seen(hcomb(hash_str(nm), hash_str(s.c_str())));
    if (good ? !returned : !refused) rep::viol(Str(nm) + ".fromString/components", "%s.fromString(\"%s\") %s (status %x)", nm, s.c_str(), returned ? "returned an element" : refused ? "is refused" : "crashed", st);
}
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    u64 seed = 1, count = 1000, len = 7;
    for (int i = 1; i + 1 < argc; i += 2) { Str k = argv[i]; u64 v = strtoull(argv[i + 1], 0, 10); if (k == "--seed") seed = v; else if (k == "--count") count = v; else if (k == "--len") len = v; }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install(); rng = Rng(seed);
    const char *A = "(),a ";
    for (u64 l = 0; l <= len; l++) { u64 n = 1; for (u64 i = 0; i < l; i++) n *= 5; for (u64 x = 0; x < n; x++) { Str s; for (u64 i = 0, y = x; i < l; i++, y /= 5) s += A[y % 5]; if (l > 5 && (s.find(' ') != Str::npos) && x % 3 != seed % 3) continue; one(s); } }
    for (u64 l = len + 1; l <= len + 5; l++) for (u64 x = 0; x < count * 20; x++) { Str s; int d = 0; for (u64 i = 0; i < l * 2; i++) { char c = A[rng.below(4)]; if (c == ')' && !d) c = '('; d += c == '(' ? 1 : c == ')' ? -1 : 0; s += c; } while (d-- > 0) s += ')'; one(s); }
    for (u64 i = 0; i < count; i++) for (int d = 0; d < 5; d++) {
        Str s = wrap(gen(d), rng.chance(1, 3) ? rng.below(6) : 1); one(s);
        if (s.size() && rng.chance(1, 4)) { Str t = s; for (int k = 0; k < 2; k++) { size_t at = rng.below(t.size()); if (!strchr("(),", t[at])) t[at] = "0123456789ax"[rng.below(12)]; one(t); } one(s); rep::stat("texts after a similar one"); }
    }
    for (int k : {10, 100, 1000, 20000}) { Str o(k, '('), c(k, ')'); one(o + "1,2" + c); one(o + c + "," + o + "5" + c); one(o + "1" + c); one(o + "(1),(2)" + c); one(o + "1" + c + "," + o + "2" + c); Str m; for (int i = 0; i < k; i++) m += std::to_string(i) + ","; one(m); one("((" + m + "),(" + m + "))"); }
    // nesting depths around the limits of narrow counters; one side carries text so that nothing but the depth is at stake
    for (int base : {128, 256, 32768, 65536}) for (int d = -2; d <= 3; d++) {
        int k = base + d; Str o(k, '('), c(k, ')');
        one("x" + o + "1,2" + c + "y,3"); one("5," + Str("a") + o + "1,2,3" + c); one("b" + o + "7" + c + ",(8),9");
        if (k < 300) { one(o + "1,2" + c + ",3"); one("(" + o + "1,2" + c + ",3)"); one(o + c + o + c); one("(" + o + "1" + c + o + "2" + c + ")"); }
        rep::stat("depths around counter limits");
    }
    F2Field<RawFq> f2("-1"); auto num = [&] { return std::to_string(rng.below(100)); };
    for (int n = 0; n < 6; n++) for (int r = 0; r < 3; r++) { Str s; for (int i = 0; i < n; i++) s += (i ? "," : "") + wrap(num(), r); arity(f2, "F2", wrap(s, r), n == 2); arity(f2, "F2", s, n == 2); }
    F6Field<F2Field<RawFq>> f6; F12Field<F6Field<F2Field<RawFq>>> f12;
    // nested elements: component counts per level, one of them possibly wrong
    auto list = [&](const Vec &v) { Str s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return wrap(s, 1 + (rng.chance(1, 4) ? rng.below(3) : 0)); };
    auto nest = [&](int top, int n6, int bad, int nbad) {       // top: 6 or 12; bad: which inner element gets nbad components
        int k = 0; auto t2 = [&] { Vec v; for (int m = (k++ == bad ? nbad : 2); m > 0; m--) v.push_back(num()); return list(v); };
        auto t6 = [&](int n) { Vec v; for (; n > 0; n--) v.push_back(t2()); return list(v); };
        if (top == 6) return t6(n6);
        Vec v; for (int i = 0; i < n6 / 10; i++) v.push_back(t6(i == 1 ? n6 % 10 : 3)); return list(v);
    };
    for (int r = 0; r < 4; r++) {
        for (int n = 0; n < 7; n++) arity(f6, "F6", nest(6, n, -1, 2), n == 3);
        for (int k = 0; k < 3; k++) for (int n : {0, 1, 3, 4}) arity(f6, "F6", nest(6, 3, k, n), false);
        for (int n = 0; n < 5; n++) arity(f12, "F12", nest(12, n * 10 + 3, -1, 2), n == 2);
        for (int m = 0; m < 6; m++) if (m != 3) arity(f12, "F12", nest(12, 20 + m, -1, 2), false);
        for (int k = 0; k < 6; k++) for (int n : {0, 1, 3}) arity(f12, "F12", nest(12, 23, k, n), false);
    }
    rep::stat("evaluations", evals);
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
