// Multiexponentiation: both algorithms, over a group with trivial sums, small curves and BN254, against direct sums.
#include <stdexcept>
#include <iostream>
#include <gmp.h>
#include "alt_bn128.hpp"
#include "model.h"
#include "toy.h"
#include "group.h"
#include "pool_size.h"
#include <functional>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
static u64 seedv = 1, count_ = 100;
static Rng rng(1);
static u64 poolThreads = 0;

static void fillScalars(uint8_t *s, u64 n, u64 size, int &kind) {
    kind = rng.below(9);
    for (u64 i = 0; i < n; i++) {
        uint8_t *p = s + i * size;
        int k = kind == 8 ? (int)rng.below(8) : kind;
        for (u64 j = 0; j < size; j++) p[j] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x80 : k == 3 ? 0x7f : k == 4 ? (rng.chance(1, 3) ? 0xff : 0) : rng.next();
        if (k == 5) { memset(p, 0, size); u64 b = rng.below(size * 8); p[b / 8] |= 1 << (b % 8); }
        if (k == 6) { memset(p, 0, size); p[0] = rng.below(4); }
    }
}
static const u64 SIZES[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64};
// lengths of the third kind: any 64-bit length at or beyond the number of bases selects every base
static u64 farLength() {
    switch (rng.below(4)) {
    case 0: return ~0ull - rng.below(3);
    case 1: return (1ull << (16 + rng.below(48))) + rng.below(3);
    case 2: return (1ull << 63) - 1 - rng.below(3);
    default: return ((1 + (rng.next() >> (16 + rng.below(32)))) << 16);
    }
}
// how many columns a list of lengths has: mostly few, now and then more than bases or more than narrow counters hold
static u64 columns(u64 n, u64 small) {
    if (!rng.chance(1, 40)) return 1 + rng.below(small);
    switch (rng.below(3)) { case 0: return n + 1 + rng.below(4); case 1: return 255 + rng.below(3); default: return 65535 + rng.below(5); }
}

// ---- one case over the sum group
static SumGroup SG;
static u64 sgSum(const SumGroup::PointAffine *b, const uint8_t *s, u64 n, u64 size, std::function<bool(u64)> use) {
    unsigned __int128 acc = 0;
    for (u64 i = 0; i < n; i++) {
        if (!use(i)) continue;
        SumGroup::Point p; SumGroup::PointAffine a = b[i];
        uint64_t acc2 = 0;
        for (int j = (int)size - 1; j >= 0; j--) acc2 = SumGroup::md((unsigned __int128)acc2 * 256 + (unsigned __int128)a.v * s[i * size + j]);
        acc = SumGroup::md(acc + acc2);
    }
    return (u64)acc;
}
enum { ME = 1, MEX = 2, MSMA = 4 };
// a scalar length for the next call on the same object
static u64 other(u64 size) { return rng.chance(1, 2) ? size : 1 + rng.below(size); }
static void sgCase(int which, u64 n, u64 size, u64 threads) {
    int kind;
    SumGroup::PointAffine *b = new SumGroup::PointAffine[n ? n : 1];
    uint8_t *s = (uint8_t *)malloc(n * size + (n * size == 0));
    fillScalars(s, n, size, kind);
    int bk = rng.below(5);
    for (u64 i = 0; i < n; i++) { b[i].v = bk == 0 ? 1 : (bk == 1 && rng.chance(1, 2)) ? 0 : rng.next() % SumGroup::M; if (bk == 2 && i) b[i].v = rng.chance(1, 2) ? b[i - 1].v : SumGroup::ng(b[i - 1].v); }
    std::vector<SumGroup::PointAffine> b0(b, b + n); std::vector<uint8_t> s0(s, s + n * size);
    // a history: the same call again from the same addresses, after a few bytes of its inputs changed
    int rounds = n && rng.chance(1, 5) ? 2 + (int)rng.below(n < 3000 ? 6 : 2) : 1;
    bool sameObject = rng.chance(1, 2);
    ParallelMultiexp<SumGroup> pmHeld(SG); MSM<SumGroup, RawFq> msmHeld(SG);
    for (int round = 0; round < rounds; round++) {
    if (round) {
        rep::stat("repeated calls");
        int what = rng.below(4);
        for (u64 k = 1 + rng.below(3); k--;) {
            u64 i = rng.below(n);
            if (what != 1) { s[i * size + rng.below(size)] ^= 1 << rng.below(8); }
            if (what == 1 || what == 2) b[i].v = rng.chance(1, 4) ? 0 : rng.next() % SumGroup::M;
        }
        b0.assign(b, b + n); s0.assign(s, s + n * size);
    }
    auto ck = [&](const char *op, u64 got, u64 want, const Str &extra) {
        rep::stat("evaluations"); rep::stat(op); rep::seen(hcomb(hash_str(op), hcomb(hcomb(n < 40 ? n : 40 + log2((uint32_t)n), size), hcomb(kind * 8 + bk, threads))));
        if (got != want) rep::viol(Str(op) + "/value", "%s over integers mod 2^61-1: n=%llu scalar bytes=%llu threads=%llu scalars kind %d bases kind %d seed %llu %s: got %llu, expected %llu",
            op, (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads, kind, bk, (unsigned long long)seedv, extra.c_str(), (unsigned long long)got, (unsigned long long)want);
        if (SG.bad) rep::viol(Str(op) + "/uninitialised", "n=%llu scalar bytes=%llu threads=%llu: an operand that is no group element was used", (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads);
        SG.bad = 0;
        if (n && (memcmp((void *)b, b0.data(), n * sizeof *b) || memcmp(s, s0.data(), n * size))) rep::viol(Str(op) + "/operand", "the bases or the scalars changed");
    };
    SumGroup::Point r;
#ifdef _OPENMP
    int ompBefore = omp_get_max_threads();
#endif
    if (which & ME) {
        rep::op("multiexp n=%llu size=%llu threads=%llu kind=%d/%d", (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads, kind, bk);
        r.v = r.check = 77; ParallelMultiexp<SumGroup> fresh(SG), &pm = sameObject ? pmHeld : fresh; pm.multiexp(r, b, s, size, n, threads);
        SG.bad = 0; ck("multiexp", SG.val(r), sgSum(b, s, n, size, [](u64) { return true; }), "");
        // the same object again, with other work in between
        if (n > 3 && rng.chance(1, 4)) { u64 m = 1 + rng.below(n - 1), z = other(size), th = rng.chance(1, 2) ? threads : rng.below(5); pm.multiexp(r, b, s, z, m, th); ck("multiexp", SG.val(r), sgSum(b, s, m, z, [](u64) { return true; }), "(object reused for " + std::to_string(m) + " scalars of " + std::to_string(z) + " bytes)"); }
    }
#ifdef _OPENMP
    auto team = [&](const char *op) { rep::stat("evaluations"); if (omp_get_max_threads() != ompBefore) { rep::viol(Str(op) + "/team", "after %s with %llu threads, n=%llu, parallel regions of the caller get %d threads instead of %d", op, (unsigned long long)threads, (unsigned long long)n, omp_get_max_threads(), ompBefore); omp_set_num_threads(ompBefore); } };
    if (which & ME) team("multiexp");
#endif
    if (which & MEX) {
        u64 nx = columns(n, 9);
        std::vector<u64> x(nx); Str d = "sizes";
        for (auto &v : x) { v = rng.chance(1, 8) ? farLength() : rng.chance(1, 6) ? 0 : rng.chance(1, 4) ? n : 1 + rng.below(n / nx + 2); if (d.size() < 200) d += " " + std::to_string(v); }
        rep::op("multiexp(sizes) n=%llu size=%llu threads=%llu %s", (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads, d.c_str());
        r.v = r.check = 77; ParallelMultiexp<SumGroup> fresh(SG), &pm = sameObject ? pmHeld : fresh; pm.multiexp(r, b, s, size, n, nx, x.data(), threads);
        SG.bad = 0; ck("multiexp(sizes)", SG.val(r), sgSum(b, s, n, size, [&](u64 i) { return i / nx < x[i % nx]; }), d);
    }
#ifdef _OPENMP
    if (which & MEX) team("multiexp(sizes)");
#endif
    if (which & MSMA) {
        rep::op("msm n=%llu size=%llu pool=%llu kind=%d/%d", (unsigned long long)n, (unsigned long long)size, (unsigned long long)poolThreads, kind, bk);
        r.v = r.check = 77; MSM<SumGroup, RawFq> fresh(SG), &msm = sameObject ? msmHeld : fresh; msm.run(r, b, s, size, n, threads);
        SG.bad = 0; ck("msm", SG.val(r), sgSum(b, s, n, size, [](u64) { return true; }), "pool " + std::to_string(poolThreads));
        if (n > 3 && rng.chance(1, 4)) { u64 m = 1 + rng.below(n - 1), z = other(size); msm.run(r, b, s, z, m, threads); ck("msm", SG.val(r), sgSum(b, s, m, z, [](u64) { return true; }), "(object reused for " + std::to_string(m) + " scalars of " + std::to_string(z) + " bytes)"); }
    }
    }
    delete[] b; free(s);
}
// ---- one case over a real curve: the sum by single scalar multiplications in the model (small) or by double-and-add with Curve::add (BN254)
template <class BF> static void curveCase(Curve<BF> &g, const Str &nm, u64 n, u64 size, u64 threads, int which, std::function<void(typename Curve<BF>::PointAffine &)> rnd) {
    typedef typename Curve<BF>::Point Pt; typedef typename Curve<BF>::PointAffine Pa;
    int kind;
    std::vector<Pa> b(n ? n : 1); uint8_t *s = (uint8_t *)malloc(n * size + (n * size == 0));
    fillScalars(s, n, size, kind);
    // many bases: only some scalars are not zero, so that the reference stays cheap; the ends are among them
    if (n > 4096) for (u64 i = 0; i + 3 < n; i++) if (i > 2 && i != n / 2 && !rng.chance(1, 1500)) memset(s + i * size, 0, size);
    for (u64 i = 0; i < n; i++) {
        int k = rng.below(8);
        if (k == 0) g.copy(b[i], g.zeroAffine()); else if (k == 1 && i) g.copy(b[i], b[i - 1]); else if (k == 2 && i) g.neg(b[i], b[i - 1]); else rnd(b[i]);
    }
    // reference: plain double and add, one base at a time
    auto sum = [&](std::function<bool(u64)> use) {
        Pt acc; g.copy(acc, g.zero());
        for (u64 i = 0; i < n; i++) if (use(i)) {
            bool any = false; for (u64 j = 0; j < size; j++) any |= s[i * size + j] != 0;
            if (!any) continue;
            Pt t; g.copy(t, g.zero());
            for (int j = (int)size * 8 - 1; j >= 0; j--) { g.dbl(t, t); if (s[i * size + j / 8] >> (j % 8) & 1) g.add(t, t, b[i]); }
            g.add(acc, acc, t);
        }
        return acc;
    };
    auto ck = [&](const char *op, Pt &got, Pt &want) {
        rep::stat("evaluations"); rep::stat((nm + "." + op).c_str()); rep::seen(hcomb(hash_str((nm + op).c_str()), hcomb(hcomb(n, size), kind * 32 + threads)));
        if (g.isZero(got) != g.isZero(want) || !g.eq(got, want)) rep::viol(Str(op) + "/value", "%s on %s: n=%llu scalar bytes=%llu threads=%llu kind=%d seed %llu: got %s, expected %s", op, nm.c_str(), (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads, kind, (unsigned long long)seedv, g.toString(got).c_str(), g.toString(want).c_str());
    };
    for (int round = rng.chance(1, 6) ? 3 : 1; round--;) {
    Pt want = sum([](u64) { return true; }), r;
    rep::op("%s multiMulByScalar n=%llu size=%llu threads=%llu", nm.c_str(), (unsigned long long)n, (unsigned long long)size, (unsigned long long)threads);
    if (which & ME) { memset((void *)&r, 0x5A, sizeof r); g.multiMulByScalar(r, b.data(), s, size, n, threads); ck("multiMulByScalar", r, want); }
    if (which & MSMA) { memset((void *)&r, 0x5A, sizeof r); g.multiMulByScalarMSM(r, b.data(), s, size, n, threads); ck("multiMulByScalarMSM", r, want); }
    if ((which & MEX) && n) {
        u64 nx = columns(n, 3); std::vector<u64> x(nx); for (auto &v : x) v = rng.chance(1, 8) ? farLength() : rng.below(n / nx + 2);
        Pt w2 = sum([&](u64 i) { return i / nx < x[i % nx]; });
        memset((void *)&r, 0x5A, sizeof r); g.multiMulByScalar(r, b.data(), s, size, n, (uint32_t)nx, x.data(), threads); ck("multiMulByScalar(sizes)", r, w2);
    }
    if (n && round) { rep::stat("repeated calls"); u64 i = rng.below(n); if (rng.chance(1, 2) && size) s[i * size + rng.below(size)] ^= 1 << rng.below(8); else if (rng.chance(1, 2)) g.neg(b[i], b[i]); else rnd(b[i]); }
    }
    free(s);
}
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    Str mode; u64 big = 0, stride = 1;   // stride: only a part of the fixed cases, for slow builds
    for (int i = 1; i + 1 < argc; i += 2) {
        Str k = argv[i], v = argv[i + 1];
        if (k == "--mode") mode = v; else if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count_ = strtoull(v.c_str(), 0, 10);
        else if (k == "--pool") poolSize() = poolThreads = strtoull(v.c_str(), 0, 10); else if (k == "--big") big = strtoull(v.c_str(), 0, 10); else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
    rng = Rng(seedv * 1000003 + hash_str(mode.c_str()) + poolThreads * 77);
    int which = mode == "msm" ? MSMA : ME | MEX;
    auto thr = [&]() -> u64 { return rng.chance(1, 6) ? 0 : 1 + rng.below(rng.chance(1, 6) ? 16 : 6); };
    u64 nsz = sizeof SIZES / sizeof *SIZES;
    for (u64 n = seedv % stride; n < 40; n += stride) for (int k = 0; k < 3; k++) sgCase(which, n, SIZES[rng.below(nsz)], thr());
    for (u64 k = seedv % stride; k < nsz; k += stride) for (int j = 0; j < 6; j++) sgCase(which, 2 + rng.below(50), SIZES[k], thr());
    for (u64 i = 0; i < count_; i++) { u64 n = 1ull << rng.below(12); n += rng.below(n) - (rng.chance(1, 3) ? 1 : 0); sgCase(which, n, SIZES[rng.below(nsz)], thr()); }
    // large inputs select the large windows: the runs together climb the whole ladder of sizes
    for (u64 i = 0; i < big; i++) {
        u64 n = 1ull << (13 + (seedv * 2 + i) % (which == MSMA ? 8 : 7)); n += rng.chance(1, 4) ? 0 : rng.below(n / 2);
        u64 size = rng.chance(1, 3) ? 32 : SIZES[rng.below(nsz)]; if (n >> 17 && size > 33) size = 32;
        sgCase(which, n, size, n >> 17 ? 1 + rng.below(4) : thr());
        rep::stat(("bases 2^" + std::to_string(log2((uint32_t)n))).c_str());
    }
    // scalars longer than one byte can count
    { const u64 L[] = {65, 100, 127, 128, 255, 256, 257, 300, 511, 513}; for (u64 l : L) if (stride == 1 || rng.chance(1, stride)) { rep::stat("long scalars"); sgCase(which, rng.below(7), l, thr()); } }
    rep::stat("group additions", SG.addCount());
    // small curves
    int far = 0;
    for (u64 i = 0; i < count_ / 8 + 4; i++) {
        uint32_t ps[] = {7, 11, 13, 17, 19, 23, 31, 101};
        uint32_t q = ps[rng.below(8)]; ToyField<0>::setPrime(q); ToyField<0> f; MF m((mpz_class(q)));
        MCurve c{m, m.of((unsigned long)rng.below(q)), m.of((unsigned long)(1 + rng.below(q - 1)))};
        if (m.isZero(m.add(m.mul(m.of(4), m.mul(m.mul(c.a, c.a), c.a)), m.mul(m.of(27), m.mul(c.b, c.b))))) continue;
        std::vector<std::pair<uint32_t, uint32_t>> pts;
        for (uint32_t x = 0; x < q; x++) for (uint32_t y = 0; y < q; y++) { MCurve::P p{false, m.of(x), m.of(y)}; if (c.on(p)) pts.push_back({x, y}); }
        if (pts.empty()) continue;
        ToyField<0>::Element a, b, x, y; a.v = c.a.a.get_ui(); b.v = c.b.a.get_ui(); x.v = pts[0].first; y.v = pts[0].second;
        Curve<ToyField<0>> g(f, a, b, x, y);
        for (int k = 0; k < 6; k++) curveCase<ToyField<0>>(g, "small curve", rng.below(k == 0 ? 300 : 24), SIZES[rng.below(16)], thr(), which, [&](Curve<ToyField<0>>::PointAffine &p) { auto &t = pts[rng.below(pts.size())]; p.x.v = t.first; p.y.v = t.second; });
        // another curve over the same field, in turns with the first one
        MCurve c2{m, m.of((unsigned long)rng.below(q)), m.of((unsigned long)(1 + rng.below(q - 1)))}; std::vector<std::pair<uint32_t, uint32_t>> pts2;
        if (!m.isZero(m.add(m.mul(m.of(4), m.mul(m.mul(c2.a, c2.a), c2.a)), m.mul(m.of(27), m.mul(c2.b, c2.b))))) for (uint32_t x = 0; x < q; x++) for (uint32_t y = 0; y < q; y++) { MCurve::P p{false, m.of(x), m.of(y)}; if (c2.on(p)) pts2.push_back({x, y}); }
        if (pts2.size()) {
            a.v = c2.a.a.get_ui(); b.v = c2.b.a.get_ui(); x.v = pts2[0].first; y.v = pts2[0].second; Curve<ToyField<0>> g2(f, a, b, x, y);
            for (int k = 0; k < 4; k++) { bool w = rng.chance(1, 2); rep::stat("curves in turns"); curveCase<ToyField<0>>(w ? g2 : g, "small curves in turns", rng.below(12), SIZES[rng.below(16)], thr(), which, [&](Curve<ToyField<0>>::PointAffine &p) { auto &v = w ? pts2 : pts; auto &t = v[rng.below(v.size())]; p.x.v = t.first; p.y.v = t.second; }); }
        }
        if (i < 3) { rep::stat("long scalars"); curveCase<ToyField<0>>(g, "small curve", 1 + rng.below(5), 250 + rng.below(20), thr(), which, [&](Curve<ToyField<0>>::PointAffine &p) { auto &t = pts[rng.below(pts.size())]; p.x.v = t.first; p.y.v = t.second; }); }
        if (big && !far && (far = 1)) { rep::stat("more than 2^16 points of a curve"); curveCase<ToyField<0>>(g, "small curve", 65536 + rng.below(20), 1 + rng.below(2), thr(), which, [&](Curve<ToyField<0>>::PointAffine &p) { auto &t = pts[rng.below(pts.size())]; p.x.v = t.first; p.y.v = t.second; }); }
    }
    // BN254: the bases are random multiples of the generators
    for (u64 i = 0; i < count_ / 10 + 4; i++) {
        auto mult = [&](auto &G, auto &p) { uint8_t s[32]; for (auto &c : s) c = rng.next(); s[31] &= 0x1f; typename std::decay<decltype(G)>::type::Point t; G.mulByScalar(t, G.one(), s, 32); G.copy(p, t); };
        u64 n = i < 5 ? i : rng.below(30), size = rng.chance(1, 2) ? 32 : SIZES[rng.below(nsz)];
        curveCase<RawFq>(AltBn128::G1, "G1", n, size, thr(), which, [&](AltBn128::G1PointAffine &p) { mult(AltBn128::G1, p); });
        if (i % 3 == 0) curveCase<F2Field<RawFq>>(AltBn128::G2, "G2", rng.below(14), size > 33 ? 32 : size, thr(), which, [&](AltBn128::G2PointAffine &p) { mult(AltBn128::G2, p); });
    }
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
