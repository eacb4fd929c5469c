// Independent computations in several client threads at once: same answers as one after another, and no data race.
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <cstring>
#include <functional>
#include <memory>
#include <gmp.h>
#include "alt_bn128.hpp"
#include "fft.hpp"
#include "splitparstr.hpp"
#include "common.h"
#include "pool_size.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
typedef unsigned long long ull;
struct Dig { u64 h = 1469598103934665603ull; void add(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } } void add(const Str &s) { add(s.data(), s.size()); } };
static const int NSH = 24;
static FrElement shared_[NSH];                 // operands every thread reads
static RawFr::Element sharedRaw[NSH];
static AltBn128::G1PointAffine pts[16]; static AltBn128::G2PointAffine pts2[4];
static FFT<RawFr> *sharedFft;

static void canon(Dig &d, FrElement &e) { FrElement t; Fr_toLongNormal(&t, &e); d.add(t.longVal, sizeof t.longVal); }
static u64 jobTagged(u64 seed) {
    Rng r(seed); Dig d; FrElement c;
    typedef void (*F2)(PFrElement, PFrElement, PFrElement);
    F2 ops[] = {Fr_add, Fr_sub, Fr_mul, Fr_band, Fr_bor, Fr_bxor, Fr_eq, Fr_neq, Fr_lt, Fr_gt, Fr_leq, Fr_geq, Fr_land, Fr_lor, Fr_shl, Fr_shr};
    for (int i = 0; i < 60; i++) { FrElement *a = &shared_[r.below(NSH)], *b = &shared_[r.below(NSH)]; ops[r.below(16)](&c, a, b); canon(d, c); }
    for (int i = 0; i < 4; i++) { FrElement *a = &shared_[r.below(NSH)], *b = &shared_[1 + r.below(NSH - 1)]; Fr_pow(&c, a, b); canon(d, c); Fr_div(&c, a, b); canon(d, c); Fr_idiv(&c, a, b); canon(d, c); Fr_mod(&c, a, b); canon(d, c); }
    for (int i = 0; i < 10; i++) { FrElement *a = &shared_[r.below(NSH)]; Fr_neg(&c, a); canon(d, c); Fr_square(&c, a); canon(d, c); Fr_bnot(&c, a); canon(d, c); Fr_lnot(&c, a); canon(d, c); Fr_toMontgomery(&c, a); canon(d, c); int t = Fr_isTrue(a); d.add(&t, sizeof t);
        Fr_toNormal(&c, a); canon(d, c); FrElement v[2] = {*a, c}, z[2]; Fr_copyn(z, v, 2); canon(d, z[0]); canon(d, z[1]);
        FrElement *nz = &shared_[1 + r.below(NSH - 1)]; if (i % 3 == 0) { Fr_inv(&c, nz); canon(d, c); } FrElement sh; Fr_str2element(&sh, std::to_string((int)r.next()).c_str()); int si = Fr_toInt(&sh); d.add(&si, sizeof si);
        char *s = Fr_element2str(a); d.add(Str(s)); Fr_str2element(&c, s); canon(d, c); free(s); }
    return d.h;
}
static u64 jobRaw(u64 seed) {
    Rng r(seed); Dig d; RawFr &f = RawFr::field; RawFr::Element x = sharedRaw[r.below(NSH)], y;
    auto put = [&](RawFr::Element &e) { d.add(&e, sizeof e); };
    for (int i = 0; i < 40; i++) { RawFr::Element &b = sharedRaw[r.below(NSH)]; switch (r.below(9)) {
        case 0: f.add(x, x, b); break; case 1: f.sub(x, x, b); break; case 2: f.mul(x, x, b); break; case 3: f.square(x, x); break; case 4: f.neg(x, x); break;
        case 5: if (!f.isZero(b)) f.div(x, x, b); break; case 6: { uint8_t s[9]; for (auto &q : s) q = r.next(); f.exp(x, b, s, 9); break; }
        case 7: { Str s = f.toString(b, 16); d.add(s); f.fromString(x, s, 16); break; }
        default: { uint8_t buf[32]; f.toRprBE(b, buf, 32); d.add(buf, 32); f.fromRprBE(x, buf, 32); mpz_t m; mpz_init(m); f.toMpz(m, b); f.fromMpz(y, m); put(y); mpz_clear(m); f.fromUI(y, r.next()); put(y); f.set(y, (int)r.next()); put(y); } } put(x); }
    f.inv(y, sharedRaw[2]); put(y);
    return d.h;
}
template <class C> static u64 jobCurve(C &G, typename C::PointAffine *pa, int np, u64 seed) {
    Rng r(seed); Dig d; typename C::Point p, q; auto put = [&](typename C::Point &x) { typename C::PointAffine a; typename C::Point t; G.copy(a, x); G.copy(t, a); d.add(G.toString(t)); }; G.copy(p, pa[r.below(np)]); G.copy(q, G.zero());
    for (int i = 0; i < 20; i++) { auto &b = pa[r.below(np)]; switch (r.below(8)) { case 0: G.add(p, p, b); break; case 1: G.dbl(p, p); break; case 2: G.add(q, q, p); break; case 3: G.sub(p, p, b); break; case 4: G.neg(q, p); break;
        case 5: { uint8_t s[6]; for (auto &c : s) c = r.next(); G.mulByScalar(q, b, s, 6); break; } case 6: { bool e = G.eq(p, b); d.add(&e, 1); break; } default: put(p); } }
    put(p); put(q);
    return d.h;
}
static u64 jobMsm(u64 seed, bool old) {
    Rng r(seed); int n = 2 + r.below(14); std::vector<uint8_t> s(n * 16); for (auto &c : s) c = r.next();
    AltBn128::G1Point p, t; AltBn128::G1PointAffine a;
    if (old) AltBn128::G1.multiMulByScalar(p, pts, s.data(), 16, n, 2); else AltBn128::G1.multiMulByScalarMSM(p, pts, s.data(), 16, n);
    AltBn128::G1.copy(a, p); AltBn128::G1.copy(t, a); Dig d; d.add(AltBn128::G1.toString(t)); return d.h;
}
static u64 jobLengths(u64 seed) {
    Rng r(seed); int n = 1 + r.below(14); std::vector<uint8_t> s(n * 8); for (auto &c : s) c = r.next(); std::vector<uint64_t> x(1 + r.below(3)); for (auto &v : x) v = r.below(n + 1);
    AltBn128::G1Point p, t; AltBn128::G1PointAffine a; AltBn128::G1.multiMulByScalar(p, pts, s.data(), 8, n, (uint32_t)x.size(), x.data(), 1 + r.below(3)); AltBn128::G1.copy(a, p); AltBn128::G1.copy(t, a); Dig d; d.add(AltBn128::G1.toString(t)); return d.h;
}
// the towers of the shared engine, and a curve with a coefficient of its own
static AltBn128::F12Element el12[6]; static Curve<RawFq> *curveA;
static u64 jobTower(u64 seed) {
    using namespace AltBn128; Rng r(seed); Dig d; F12Element x = el12[r.below(6)]; F6Element y = el12[r.below(6)].x; F2Element z = el12[r.below(6)].y.x;
    for (int i = 0; i < 12; i++) { F12Element &b = el12[r.below(6)]; switch (r.below(8)) {
        case 0: F12.mul(x, x, b); break; case 1: F12.square(x, x); break; case 2: F12.inv(x, b); break; case 3: { uint8_t s[3]; for (auto &c : s) c = r.next(); F12.exp(x, b, s, 3); break; } case 4: F12.div(x, x, b); break;
        case 5: F6.mul(y, y, b.x); F6.square(y, y); F6.mulTau(y, y); break; case 6: F6.inv(y, b.y); F6.div(y, y, b.x); break;
        default: F2.mul(z, z, b.x.x); F2.square(z, z); F2.mulXi(z, z); F2.inv(z, z); F2.div(z, z, b.y.z); } }
    d.add(F12.toString(x)); d.add(F6.toString(y, 16)); d.add(F2.toString(z)); return d.h;
}
static u64 jobFft(u64 seed) {
    Rng r(seed); Dig d; u64 n = 1ull << r.below(7); std::vector<RawFr::Element> v(n);
    for (auto &e : v) e = sharedRaw[r.below(NSH)];
    if (r.chance(1, 4)) { FFT<RawFr> own(64); own.fft(v.data(), n); d.add(v.data(), n * sizeof v[0]); own.ifft(v.data(), n); }
    else { sharedFft->fft(v.data(), n); d.add(v.data(), n * sizeof v[0]); sharedFft->ifft(v.data(), n); }
    d.add(v.data(), n * sizeof v[0]); return d.h;
}
static u64 jobMisc(u64 seed) {
    Rng r(seed); Dig d; uint8_t s[12], out[14 * 8]; for (auto &c : s) c = r.next(); memset(out, 0, sizeof out); buildNaf(out, s, 12); d.add(out, sizeof out);
    Str t; int n = 2 + r.below(4); for (int i = 0; i < n; i++) t += (i ? "," : "") + std::to_string(r.below(1000)); for (auto &x : splitParStr("(" + t + ")")) d.add(x + ";");
    F2Field<RawFq> f2("-1"); F2Field<RawFq>::Element x, y; f2.fromString(x, "(" + std::to_string(r.next()) + "," + std::to_string(r.next()) + ")"); f2.square(y, x); f2.mul(y, y, x); f2.inv(x, y); d.add(f2.toString(x)); d.add(f2.toString(y)); return d.h;
}
// The very first use of one kind of computation in this process is made by several client threads at once: what the library makes on first use is made there.
static u64 firstJob(int k, u64 seed) {
    using namespace AltBn128; Rng r(seed); Dig d; uint8_t s[6]; for (auto &c : s) c = r.next(); G1Point p; G2Point p2; G1PointAffine a; RawFr &f = RawFr::field; RawFr::Element x, y;
    auto put1 = [&] { G1Point t; G1.copy(a, p); G1.copy(t, a); d.add(G1.toString(t)); };
    switch (k) {
        case 0: { uint8_t out[8 * 8]; memset(out, 0, sizeof out); buildNaf(out, s, 6); d.add(out, sizeof out); break; }
        case 1: G1.mulByScalar(p, G1.one(), s, 6); put1(); break;
        case 2: { G2Point t; G2PointAffine b; G2.mulByScalar(p2, G2.one(), s, 6); G2.copy(b, p2); G2.copy(t, b); d.add(G2.toString(t)); break; }
        case 3: case 4: case 5: { G1PointAffine b[5]; uint8_t z[5 * 6]; for (auto &c : z) c = r.next(); for (auto &e : b) G1.copy(e, G1.oneAffine()); G1.neg(b[2], b[2]); uint64_t len[2] = {2, 1};
            if (k == 3) G1.multiMulByScalarMSM(p, b, z, 6, 5); else if (k == 4) G1.multiMulByScalar(p, b, z, 6, 5, 2); else G1.multiMulByScalar(p, b, z, 6, 5, 2u, len, 2u); put1(); break; }
        case 6: case 7: { uint64_t n = 1ull << (1 + r.below(5)); FFT<RawFr> o(32); std::vector<RawFr::Element> v(n); for (auto &e : v) f.set(e, (int)r.below(1000)); if (k == 6) o.fft(v.data(), n); else o.ifft(v.data(), n); d.add(v.data(), n * sizeof v[0]); break; }
        case 8: { ThreadPool &t = ThreadPool::defaultPool(); d.add(std::to_string(t.getThreadCount())); std::vector<int> h(100); t.parallelFor(0, 100, [&](int b, int e, int) { for (int i = b; i < e; i++) h[i]++; }); d.add(h.data(), 400); break; }
        case 9: { F12Element e, q; for (auto *z : {&e.x, &e.y}) for (auto *w : {&z->x, &z->y, &z->z}) for (auto *b : {&w->a, &w->b}) RawFq::field.fromUI(*b, 1 + r.below(1000000)); F12.exp(q, e, s, 3); F12.mul(q, q, e); F12.inv(e, q); d.add(F12.toString(q)); d.add(F12.toString(e)); break; }
        case 10: { ::FrElement e, q, c; Fr_str2element(&e, std::to_string(r.next()).c_str()); Fr_str2element(&q, std::to_string(1 + r.below(1000)).c_str()); c = e; typedef void (*B2)(::PFrElement, ::PFrElement, ::PFrElement); B2 ops[] = {Fr_mul, Fr_add, Fr_sub, Fr_div, Fr_idiv, Fr_mod, Fr_pow, Fr_band, Fr_bor, Fr_bxor, Fr_shl, Fr_shr, Fr_lt, Fr_geq, Fr_eq, Fr_land};
            for (auto o : ops) { o(&c, &e, &q); canon(d, c); } Fr_bnot(&c, &e); canon(d, c); Fr_inv(&c, &q); canon(d, c); char *t = Fr_element2str(&e); d.add(Str(t)); free(t); break; }
        case 11: { uint8_t b[32]; f.fromString(x, std::to_string(1 + r.next())); f.exp(y, x, s, 6); f.inv(x, y); f.div(y, x, y); d.add(f.toString(x)); d.add(f.toString(y, 16)); f.toRprBE(y, b, 32); d.add(b, 32); f.fromRprBE(x, b, 32); d.add(f.toString(x)); break; }
        case 12: for (auto &t : splitParStr("((" + std::to_string(r.next()) + ",2),(3,(4)))")) d.add(t + ";"); break;
        case 13: { F2Field<RawFq> g("-1"); F2Field<RawFq>::Element u, v; g.fromString(u, "(" + std::to_string(r.next()) + ",7)"); g.square(v, u); g.mul(v, v, u); g.inv(u, v); d.add(g.toString(u)); d.add(g.toString(v)); break; }
        case 14: { RawFq q; Curve<RawFq> c(q, "0", "3", "1", "2"); G1Point t; uint8_t z = 5; c.mulByScalar(p, c.one(), &z, 1); c.add(t, p, c.one()); c.dbl(p, t); c.copy(a, p); c.copy(t, a); d.add(c.toString(t)); break; }
        default: break;
    }
    return d.h;
}
static const int FIRSTS = 15;
static int firstUse(int k, u64 seedv) {
    int nt = 2 + (int)(seedv % 3); std::vector<std::thread> th; std::vector<u64> got(nt); std::atomic<int> ready(0);
    rep::op("first use of kind %d by %d threads at once, pool of %u, seed %llu", k, nt, poolSize(), (ull)seedv);
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); got[t] = firstJob(k, seedv * 10 + t); });
    for (auto &t : th) t.join();
    for (int t = 0; t < nt; t++) { u64 w = firstJob(k, seedv * 10 + t); rep::stat("evaluations"); rep::stat("first uses"); rep::seen(hcomb(1000 + k, hcomb(nt, poolSize()))); if (got[t] != w) rep::viol("concurrent/first-use", "the first use of kind %d, made by %d threads at once, gave another answer than a later one (pool of %u)", k, nt, poolSize()); }
    rep::done(); return 0;
}
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    u64 seedv = 1, count = 20; int first = -1;
    for (int i = 1; i + 1 < argc; i += 2) { Str k = argv[i], v = argv[i + 1]; if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--first") first = atoi(v.c_str()); else if (k == "--pool") poolSize() = atoi(v.c_str()); }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
    if (first >= 0) return firstUse(first % FIRSTS, seedv);
    Rng rng(seedv * 77 + poolSize());
    for (int i = 0; i < NSH; i++) {
        Str s = i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "21888242871839275222246405745257275088548364400416034343698204186575808495616" : std::to_string(rng.next()) + std::to_string(rng.next()) + std::to_string(rng.next());
        Fr_str2element(&shared_[i], s.c_str());
        if (i % 4 == 1) Fr_toMontgomery(&shared_[i], &shared_[i]);
        if (i % 4 == 2) { shared_[i].type = Fr_SHORT; shared_[i].shortVal = (int)rng.below(1000) - 500 + (i == 2 ? 1000 : 0); }
        if (i % 8 == 3) { shared_[i].type = Fr_SHORTMONTGOMERY; shared_[i].shortVal = (int)i; FrElement t; t.type = Fr_SHORT; t.shortVal = i; Fr_toMontgomery(&shared_[i], &t); }
        RawFr::field.fromString(sharedRaw[i], s);
    }
    for (int i = 0; i < 16; i++) { uint8_t s[8]; for (auto &c : s) c = rng.next(); AltBn128::G1Point p; AltBn128::G1.mulByScalar(p, AltBn128::G1.one(), s, 8); AltBn128::G1.copy(pts[i], p); }
    for (int i = 0; i < 4; i++) { uint8_t s[8]; for (auto &c : s) c = rng.next(); AltBn128::G2Point p; AltBn128::G2.mulByScalar(p, AltBn128::G2.one(), s, 8); AltBn128::G2.copy(pts2[i], p); }
    for (auto &e : el12) for (auto *s : {&e.x, &e.y}) for (auto *q : {&s->x, &s->y, &s->z}) for (auto *b : {&q->a, &q->b}) RawFq::field.fromUI(*b, 1 + rng.below(1000000));
    // a curve y^2 = x^3 + 5 x + b through (2, 3) over the same field
    RawFq fq; Curve<RawFq> ca(fq, "5", "21888242871839275222246405745257275088696311157297823662689037894645226208574", "2", "3"); curveA = &ca; static AltBn128::G1PointAffine ptsA[4];
    for (int i = 0; i < 4; i++) { uint8_t k = 1 + i; AltBn128::G1Point p; ca.mulByScalar(p, ca.one(), &k, 1); ca.copy(ptsA[i], p); }
    FFT<RawFr> fft(64); sharedFft = &fft;
    struct Job { const char *nm; std::function<u64(u64)> f; };
    std::vector<Job> jobs = {{"tagged field operations", jobTagged}, {"field class", jobRaw}, {"G1", [](u64 s) { return jobCurve(AltBn128::G1, pts, 16, s); }}, {"G2", [](u64 s) { return jobCurve(AltBn128::G2, pts2, 4, s); }},
                             {"msm", [](u64 s) { return jobMsm(s, false); }}, {"multiexp", [](u64 s) { return jobMsm(s, true); }}, {"multiexp with lengths", jobLengths}, {"towers", jobTower}, {"a curve with a coefficient", [](u64 s) { return jobCurve(*curveA, ptsA, 4, s); }}, {"fft", jobFft}, {"recoding, parsing, towers", jobMisc}};
    for (u64 round = 0; round < count; round++) {
        int nt = 2 + rng.below(4), per = 6;
        std::vector<std::vector<std::pair<int, u64>>> plan(nt); std::vector<std::vector<u64>> want(nt), got(nt);
        int focus = rng.chance(1, 2) ? (int)rng.below(jobs.size()) : -1;
        for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) { plan[t].push_back({focus >= 0 && rng.chance(2, 3) ? focus : (int)rng.below(jobs.size()), rng.next()}); }
        auto alone = [&] { rep::op("sequential round %llu of seed %llu", (ull)round, (ull)seedv); for (int t = 0; t < nt; t++) for (auto &p : plan[t]) want[t].push_back(jobs[p.first].f(p.second)); };
        auto together = [&] {
            rep::op("concurrent round %llu of seed %llu, %d threads, pool of %u", (ull)round, (ull)seedv, nt, poolSize());
            std::vector<std::thread> th;
            for (int t = 0; t < nt; t++) th.emplace_back([&, t] { for (int i = 0; i < per; i++) got[t][i] = jobs[plan[t][i].first].f(plan[t][i].second); });
            for (auto &t : th) t.join();
        };
        for (int t = 0; t < nt; t++) got[t].resize(per);
        if (round % 2) { alone(); together(); } else { together(); alone(); }     // what is made at its first use is made by several threads at once
        for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) {
            rep::stat("evaluations"); rep::stat(jobs[plan[t][i].first].nm); rep::seen(hcomb(plan[t][i].first, hcomb(nt, plan[t][i].second)));
            if (got[t][i] != want[t][i]) rep::viol("concurrent/value", "%s: the answer with %d client threads (pool of %u) differs from the one computed alone (round %llu of seed %llu)", jobs[plan[t][i].first].nm, nt, poolSize(), (ull)round, (ull)seedv);
        }
    }
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
