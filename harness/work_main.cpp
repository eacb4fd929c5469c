// How much work the parallel and windowed algorithms do: counted in group operations, field multiplications and pieces.
#define COUNT_OPS
#include <stdexcept>
#include <iostream>
#include <cstring>
#include <gmp.h>
#include "toy.h"
#include "misc.hpp"
#include "splitparstr.hpp"
#include "curve.hpp"
#include "f2field.hpp"
#include "fft.hpp"
#include "pool_size.h"
#include "common.h"
#include <cmath>
#include <set>
#ifdef _OPENMP
#include <omp.h>
#endif
typedef std::string Str;
static Rng rng(1);

struct alignas(64) Ctr {
    std::atomic<u64> c[64]; Ctr() { reset(); }
    void hit() { static std::atomic<unsigned> next{0}; static thread_local unsigned slot = next++ % 64; c[slot].fetch_add(1, std::memory_order_relaxed); }
    u64 get() { u64 r = 0; for (auto &x : c) r += x; return r; }
    void reset() { for (auto &x : c) x = 0; }
};
// Integers modulo 2^61-1 as a group that counts.
struct CG {
    static const u64 M = (1ull << 61) - 1;
    struct Point { u64 v; }; struct PointAffine { u64 v; };
    Ctr adds, dbls; Point z = {0};
    static u64 plus(u64 a, u64 b) { u64 s = a + b; return s >= M ? s - M : s; }
    Point &zero() { return z; }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { adds.hit(); r.v = plus(a.v, b.v); }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { adds.hit(); r.v = plus(a.v, b.v ? M - b.v : 0); }
    template <class R, class A> void dbl(R &r, A &a) { dbls.hit(); r.v = plus(a.v, a.v); }
    template <class R, class A> void neg(R &r, A &a) { r.v = a.v ? M - a.v : 0; }
    template <class R, class A> void copy(R &r, A &a) { r.v = a.v; }
    template <class A> bool isZero(A &a) { return a.v == 0; }
    template <class A> void mulByScalar(Point &r, A &b, uint8_t *s, unsigned n) { nafMulByScalar<CG, A, Point>(*this, r, b, s, n); }
    u64 all() { return adds.get() + dbls.get(); }
    void reset() { adds.reset(); dbls.reset(); }
};
static CG G;
static std::vector<uint8_t> scalars(u64 n) {
    std::vector<uint8_t> s(n); int k = rng.below(5);
    for (auto &b : s) b = k == 0 ? 0xff : k == 1 ? 0x55 : k == 2 ? (rng.chance(1, 2) ? 0x80 : 0x7f) : k == 3 ? 0xaa : rng.next();
    return s;
}
// What the bucket method needs with the best window, each thread having its own table.
static double bucket(double n, double bits, double threads) {
    double best = 1e300;
    for (double w = 2; w <= 16; w++) best = std::min(best, (std::floor(bits / w) + 1) * (n + 2 * std::pow(2, w) + w + 1 + threads * (w + std::min(std::pow(2, w), n))));
    return best;
}
static double worst[8];
static void multi(u64 n, u64 size, u64 th, int kind) {      // kind 0 plain, 1 with lengths, 2 msm
    static const char *N[] = {"multiexp", "multiexp with lengths", "msm"};
    std::vector<CG::PointAffine> b(n); for (auto &p : b) p.v = 1 + rng.next() % (CG::M - 1);
    auto s = scalars(n * size + 8); u64 nx = 1 + rng.below(4); std::vector<u64> x(nx, n); bool part = kind == 1 && rng.chance(1, 2); if (part) for (auto &v : x) v = (n / nx) / (1 + rng.below(8));
    rep::op("%s of %llu points, %llu-byte scalars, %llu threads", N[kind], (unsigned long long)n, (unsigned long long)size, (unsigned long long)th);
    CG::Point r; G.reset();
    if (kind == 2) { MSM<CG, ToyField<0>> m(G); m.run(r, b.data(), s.data(), size, n, th); }
    else { ParallelMultiexp<CG> m(G); if (kind == 0) m.multiexp(r, b.data(), s.data(), size, n, th); else m.multiexp(r, b.data(), s.data(), size, n, nx, x.data(), th); }
    double ops = G.all(), bits = size * 8, lim = n <= 1 ? 1.5 * bits + 4 : kind == 2 ? bucket(n, bits, 0) : bucket(n, bits, th);
    rep::stat("evaluations"); rep::stat("group operations counted", (u64)ops); rep::seen(hash_str((Str(N[kind]) + std::to_string(n) + "/" + std::to_string(size) + "/" + std::to_string(th) + "/" + std::to_string(part)).c_str()));
    if (n && size) worst[kind] = std::max(worst[kind], ops / lim);
    // 1.6: what the implementations may lose against the best window
    if (ops > 1.6 * lim + 16) rep::viol(Str(N[kind]) + "/work", "%s of %llu points with %llu-byte scalars on %llu threads took %.0f group operations; the bucket method with its best window takes %.0f", N[kind], (unsigned long long)n, (unsigned long long)size, (unsigned long long)th, ops, lim);
    rep::live();
}
static void single(u64 size) {
    auto s = scalars(size + 1); CG::PointAffine b = {7}; CG::Point p = {9}, r; bool aff = rng.chance(1, 2);
    rep::op("multiplication by a %llu-byte scalar", (unsigned long long)size); G.reset();
    if (aff) nafMulByScalar<CG, CG::PointAffine, CG::Point>(G, r, b, s.data(), size); else nafMulByScalar<CG, CG::Point, CG::Point>(G, r, p, s.data(), size);
    u64 bits = size * 8; while (bits && !(s[(bits - 1) / 8] >> ((bits - 1) % 8) & 1)) bits--;
    rep::stat("evaluations"); rep::seen(hash_str(("single" + std::to_string(size) + "/" + std::to_string(bits) + std::to_string(aff)).c_str()));
    if (G.dbls.get() > bits + 2 || G.adds.get() > bits / 2 + 2) rep::viol("scalar multiplication/work", "multiplication by a scalar of %llu bits took %llu doublings and %llu additions", (unsigned long long)bits, (unsigned long long)G.dbls.get(), (unsigned long long)G.adds.get());
    // no two neighbouring digits are used
    std::vector<u64> d(size + 2); buildNaf((uint8_t *)d.data(), s.data(), size); uint8_t *q = (uint8_t *)d.data(); rep::stat("evaluations");
    for (u64 i = 0; i + 1 < size * 8 + 2; i++) if (q[i] && q[i + 1]) { rep::viol("recoding/work", "recoding a %llu-byte scalar uses the neighbouring digits %llu and %llu", (unsigned long long)size, (unsigned long long)i, (unsigned long long)i + 1); break; }
}
// A field that counts multiplications.
struct CF {
    static const u64 P = 998244353;
    struct Element { u64 v; };
    static Ctr muls, adds; static CF field; Element fz = {0}, fo = {1}, fn = {P - 1};
    const Element &zero() { return fz; } const Element &one() { return fo; } const Element &negOne() { return fn; }
    void copy(Element &r, const Element &a) { r = a; }
    void add(Element &r, const Element &a, const Element &b) { adds.hit(); r.v = (a.v + b.v) % P; }
    void sub(Element &r, const Element &a, const Element &b) { adds.hit(); r.v = (a.v + P - b.v) % P; }
    void neg(Element &r, const Element &a) { r.v = (P - a.v) % P; }
    void mul(Element &r, const Element &a, const Element &b) { muls.hit(); r.v = a.v * b.v % P; }
    void square(Element &r, const Element &a) { mul(r, a, a); }
    int eq(const Element &a, const Element &b) { return a.v == b.v; } int isZero(const Element &a) { return !a.v; }
    void inv(Element &r, const Element &a) { u64 x = 1, b = a.v; for (u64 e = P - 2; e; e >>= 1) { if (e & 1) x = x * b % P; b = b * b % P; } r.v = x; }
    void fromMpz(Element &r, const mpz_t m) { r.v = mpz_fdiv_ui(m, P); } void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromUI(Element &r, u64 v) { r.v = v % P; }
    Str toString(const Element &a, uint32_t = 10) { return std::to_string(a.v); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { Element x = fo, y = b; int i = n * 8 - 1; while (i >= 0 && !(s[i >> 3] >> (i & 7) & 1)) i--; for (; i >= 0; i--) { mul(x, x, x); if (s[i >> 3] >> (i & 7) & 1) mul(x, x, y); } r = x; }
};
Ctr CF::muls, CF::adds; CF CF::field;
static void transform(int lg, int max) {
    u64 n = 1ull << lg, big = 1ull << max, T = poolSize();
    std::vector<CF::Element> a(n); for (auto &e : a) e.v = rng.next() % CF::P;
    rep::op("transform object for %llu elements", (unsigned long long)big); CF::muls.reset(); CF::adds.reset();
    FFT<CF> f(big); rep::stat("evaluations"); rep::seen(hash_str(("fft" + std::to_string(lg) + "/" + std::to_string(max) + "/" + std::to_string(T)).c_str()));
    u64 m = CF::muls.get(); if (m > 2 * std::max<u64>(big, 2) + 130 * T + 64) rep::viol("transform object/work", "preparing transforms of up to %llu elements with %llu threads took %llu multiplications", (unsigned long long)big, (unsigned long long)T, (unsigned long long)m);
    for (int inv = 0; inv < 2; inv++) {
        rep::op("%s transform of %llu elements", inv ? "inverse" : "forward", (unsigned long long)n); CF::muls.reset(); CF::adds.reset(); if (inv) f.ifft(a.data(), n); else f.fft(a.data(), n);
        m = CF::muls.get(); u64 s = CF::adds.get(), lim = n / 2 * lg + (inv ? n + 1 : 0); rep::stat("evaluations"); rep::stat("field multiplications counted", m);
        worst[4 + inv] = std::max(worst[4 + inv], lim ? (double)m / lim : 0);
        if (m > lim + n / 4 + 2 || s > n * lg + n / 4 + 2) rep::viol("transform/work", "a%s transform of %llu elements took %llu multiplications and %llu additions", inv ? "n inverse" : " forward", (unsigned long long)n, (unsigned long long)m, (unsigned long long)s);
    }
}
// pieces of a loop: as many workers as possible, evenly loaded
static void loop(u64 len, unsigned threads) {
    rep::op("loop over %llu indices with %u workers", (unsigned long long)len, threads);
    ThreadPool p(threads); std::vector<std::atomic<int>> per(threads + 1); for (auto &x : per) x = 0; int base = (int)rng.below(100) - 50; std::atomic<int> stray{0}, pieces{0};
    p.parallelFor(base, base + (int)len, [&](int b, int e, int w) { pieces.fetch_add(1); if (w < 0 || w >= (int)threads) { stray++; return; } per[w].fetch_add(e - b); });
    int lo = 1 << 30, hi = 0, used = 0; for (unsigned i = 0; i < threads; i++) { int v = per[i]; if (v > 0) { used++; lo = std::min(lo, v); hi = std::max(hi, v); } }
    rep::stat("evaluations"); rep::seen(hash_str(("loop" + std::to_string(len) + "/" + std::to_string(threads)).c_str()));
    int want = (int)std::min<u64>(len, threads);
    if (used != want || (used && hi - lo > 1)) rep::viol("loop/balance", "a loop over %llu indices with %u workers gave work to %d of them, between %d and %d indices each", (unsigned long long)len, threads, used, lo, hi);
}
// the integer logarithm that picks the windows
template <class T> static auto intLog(T v, int) -> typename std::enable_if<std::is_same<decltype(log2(v)), uint32_t>::value, uint32_t>::type { return log2(v); }
template <class T> static uint32_t intLog(T v, long) { return 31 - __builtin_clz(v); }      // not published
static void logs(u64 count) {
    auto one = [&](uint32_t v) { if (!v) return; rep::stat("integer logarithms"); uint32_t got = intLog(v, 0), want = 31 - __builtin_clz(v); if (got != want) rep::viol("logarithm", "the integer logarithm of %u is %u, it should be %u", v, got, want); };
    rep::op("integer logarithm");
    for (int k = 0; k < 32; k++) { rep::seen(hash_str(("log" + std::to_string(k)).c_str())); for (int64_t d = -70; d <= 70; d++) one((uint32_t)((1ull << k) + d)); for (int i = 0; i < 32; i++) one((1u << k) | (1u << i)); for (u64 i = 0; i < 400; i++) one((1u << k) | (uint32_t)(rng.next() & ((1ull << k) - 1))); }
    for (u64 i = 0; i < count * 100; i++) one((uint32_t)rng.next());
    for (u64 m = 0; m < count * 4; m++) one((uint32_t)m);
}
// the curve's own counters
typedef ToyField<0> TF; typedef Curve<TF> TC;
static void counters() {
    TF::setPrime(101); static TF &F = TF::field; TC c(F, "2", "3", "3", "6"); TC::Point a, b, r; TC::PointAffine pa, pb, ra;
    std::vector<TC::PointAffine> pts; for (int x = 0; x < 101; x++) for (int y = 1; y < 101; y++) if ((y * y - x * x * x - 2 * x - 3) % 101 == 0) { TC::PointAffine p; p.x.v = x; p.y.v = y; pts.push_back(p); }
    for (int it = 0; it < 200; it++) {
        pa = pts[rng.below(pts.size())]; do pb = pts[rng.below(pts.size())]; while (pb.x.v == pa.x.v); c.dbl(a, pa); c.copy(b, pb); c.copy(a, pa);
        auto get = [&] { return std::vector<int>{c.cntAdd, c.cntAddMixed, c.cntAddAffine, c.cntDbl, c.cntDblMixed, c.cntEq, c.cntEqMixed, c.cntToAffine}; };
        static const char *N[] = {"additions", "mixed additions", "affine additions", "doublings", "mixed doublings", "comparisons", "mixed comparisons", "conversions"};
        auto expect = [&](const char *what, std::vector<int> d, std::function<void()> f) {
            rep::op("counters: %s", what); auto v0 = get(); f(); auto v1 = get(); rep::stat("evaluations"); rep::seen(hash_str((Str("counters") + what).c_str()));
            for (int i = 0; i < 8; i++) if (v1[i] - v0[i] != d[i]) { rep::viol(Str("counters/") + what, "%s raised the counter of %s by %d instead of %d", what, N[i], v1[i] - v0[i], d[i]); break; }
        };
        expect("adding two points", {1, 0, 0, 0, 0, 0, 0, 0}, [&] { c.add(r, a, b); });
        expect("adding an affine point", {0, 1, 0, 0, 0, 0, 0, 0}, [&] { c.add(r, a, pb); });
        expect("adding to an affine point", {0, 1, 0, 0, 0, 0, 0, 0}, [&] { c.add(r, pb, a); });
        expect("adding two affine points", {0, 0, 1, 0, 0, 0, 0, 0}, [&] { c.add(r, pa, pb); });
        expect("subtracting", {1, 0, 0, 0, 0, 0, 0, 0}, [&] { c.sub(r, a, b); });
        expect("subtracting an affine point", {0, 1, 0, 0, 0, 0, 0, 0}, [&] { c.sub(r, a, pb); });
        expect("doubling", {0, 0, 0, 1, 0, 0, 0, 0}, [&] { c.dbl(r, a); });
        expect("doubling an affine point", {0, 0, 0, 0, 1, 0, 0, 0}, [&] { c.dbl(r, pa); });
        expect("comparing", {0, 0, 0, 0, 0, 1, 0, 0}, [&] { c.eq(a, b); });
        expect("comparing with an affine point", {0, 0, 0, 0, 0, 0, 1, 0}, [&] { c.eq(a, pb); });
        expect("converting", {0, 0, 0, 0, 0, 0, 0, 1}, [&] { c.copy(ra, a); });
        expect("negating and copying", {0, 0, 0, 0, 0, 0, 0, 0}, [&] { c.neg(r, a); c.copy(r, b); c.copy(r, pa); c.neg(ra, pa); });
    }
    // special operands: the counter of the operation's own kind still rises by one, and no other but that of the doubling an addition of equal points turns into
    pts.push_back(c.zeroAffine());
    for (int it = 0; it < 400; it++) {
        pa = pts[rng.chance(1, 3) ? pts.size() - 1 : rng.below(pts.size())]; switch (rng.below(4)) { case 0: c.copy(pb, pa); break; case 1: c.neg(pb, pa); break; case 2: pb = c.zeroAffine(); break; default: pb = pts[rng.below(pts.size())]; }
        c.copy(a, pa); c.copy(b, pb); if (rng.chance(1, 2)) { a.x.v = c.isZero(pa) ? 5 : a.x.v; }
        int *cnt[] = {&c.cntAdd, &c.cntAddMixed, &c.cntAddAffine, &c.cntDbl, &c.cntDblMixed, &c.cntEq, &c.cntEqMixed, &c.cntToAffine};
        static const char *W[] = {"adding two points", "adding an affine point", "adding to an affine point", "adding two affine points", "doubling", "doubling an affine point", "comparing", "comparing with an affine point", "converting"};
        static const int own[] = {0, 1, 1, 2, 3, 4, 5, 6, 7};
        int k = rng.below(9), v0[8]; for (int i = 0; i < 8; i++) v0[i] = *cnt[i];
        rep::op("counters: %s, special operands", W[k]);
        switch (k) { case 0: c.add(r, a, b); break; case 1: c.add(r, a, pb); break; case 2: c.add(r, pb, a); break; case 3: c.add(r, pa, pb); break; case 4: c.dbl(r, a); break; case 5: c.dbl(r, pa); break; case 6: c.eq(a, b); break; case 7: c.eq(a, pb); break; default: c.copy(ra, a); }
        rep::stat("evaluations");
        for (int i = 0; i < 8; i++) { int d = *cnt[i] - v0[i]; if (i == own[k] ? d != 1 : d && !((i == 3 || i == 4) && k < 4 && d == 1)) { rep::viol(Str("counters/special/") + W[k], "%s, the operands being neutral, equal or opposite, raised counter %d by %d", W[k], i, d); break; } }
    }
    c.resetCounters();
    if (c.cntAdd || c.cntAddMixed || c.cntAddAffine || c.cntDbl || c.cntDblMixed || c.cntEq || c.cntEqMixed || c.cntToAffine) rep::viol("counters/reset", "resetting the counters leaves one of them at a value");
}
int main(int argc, char **argv) {
    u64 seed = 1, count = 100; int big = 17;
    for (int i = 1; i + 1 < argc; i += 2) { Str k = argv[i], v = argv[i + 1]; if (k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--pool") poolSize() = atoi(v.c_str()); else if (k == "--big") big = atoi(v.c_str()); }
    rep::install(); rng = Rng(seed);
    counters(); logs(count);
    for (u64 i = 0; i < count; i++) {
        static const u64 Z[] = {1, 2, 4, 8, 16, 31, 32, 33, 48, 64};
        int lg = rng.below(i % 50 == 0 ? big : 13); u64 n = 1ull << lg; n += rng.chance(1, 3) ? 0 : rng.below(n); if (rng.chance(1, 40)) n = rng.below(4);
        for (int k = 0; k < 3; k++) multi(n, lg > 12 ? 32 : Z[rng.below(10)], 1 + rng.below(8), k);
        single(rng.below(100));
        if (i % 4 == 0) { int m = rng.below(14); transform(rng.below(m + 1), m); }
        for (int k = 0; k < 4; k++) { unsigned t = 1 + rng.below(9); loop(rng.chance(1, 2) ? rng.below(3 * t) : rng.below(5000), t); }
    }
    for (int k = 0; k < 6; k++) if (worst[k]) rep::stat((Str("worst ratio to the bound in thousandths, kind ") + std::to_string(k)).c_str(), (u64)(1000 * worst[k]));
    rep::done();
    return 0;
}
