// The number-theoretic transform against its definition, over generated fields and small ones.
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <functional>
#include <cstring>
#include <memory>
#include <gmp.h>
#include "pool_size.h"
#include "misc.hpp"
#include "fft.hpp"
#include "fr.hpp"
#include "fq.hpp"
#include "gl.hpp"
#include "common.h"
#include "toy.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
typedef unsigned long long ull;
static u64 seedv = 1, count_ = 100;
static Rng rng(1);
static u64 poolThreads = 0;

static mpz_class rndBelow(const mpz_class &q) { mpz_class r = 0; for (int i = 0; i < 14; i++) { r <<= 64; mpz_class t; u64 v = rng.next(); mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &v); r += t; } return r % q; }
static mpz_class powm(const mpz_class &b, const mpz_class &e, const mpz_class &q) { mpz_class r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), q.get_mpz_t()); return r; }
// recursive reference transform
static std::vector<mpz_class> ref(const std::vector<mpz_class> &a, const mpz_class &w, const mpz_class &q) {
    size_t n = a.size();
    if (n == 1) return a;
    std::vector<mpz_class> e(n / 2), o(n / 2), r(n);
    for (size_t i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    e = ref(e, w * w % q, q); o = ref(o, w * w % q, q);
    mpz_class x = 1;
    for (size_t i = 0; i < n / 2; i++) { mpz_class t = x * o[i] % q; r[i] = (e[i] + t) % q; r[i + n / 2] = (e[i] - t + q) % q; x = x * w % q; }
    return r;
}
// the definition itself
static std::vector<mpz_class> naive(const std::vector<mpz_class> &a, const mpz_class &w, const mpz_class &q) {
    size_t n = a.size(); std::vector<mpz_class> r(n), pw(n);
    pw[0] = 1; for (size_t i = 1; i < n; i++) pw[i] = pw[i - 1] * w % q;
    for (size_t k = 0; k < n; k++) { mpz_class s = 0; for (size_t j = 0; j < n; j++) s += a[j] * pw[j * k % n]; r[k] = s % q; }
    return r;
}
template <class T> static auto logOf(T &t, u64 v, u64, int) -> decltype((u64)t.log2(v)) { return t.log2(v); }
template <class T> static u64 logOf(T &, u64, u64 want, long) { return want; }      // not published
template <class F> struct Case {
    typedef typename F::Element E;
    F &f = F::field; Str nm; mpz_class q, nqr; uint32_t adicity;
    Case(const Str &n) : nm(n) {
        mpz_class m; f.toMpz(m.get_mpz_t(), f.negOne()); q = m + 1;
        adicity = mpz_scan1(m.get_mpz_t(), 0);
        for (nqr = 2; powm(nqr, m / 2, q) == 1; nqr++);
    }
    mpz_class get(const E &e) { mpz_class r; f.toMpz(r.get_mpz_t(), e); return r; }
    void put(E &e, const mpz_class &v) { f.fromMpz(e, v.get_mpz_t()); }
    mpz_class rootOf(u64 k) { return powm(nqr, (q - 1) >> k, q); }
    std::vector<mpz_class> vec(u64 n, int kind) {
        std::vector<mpz_class> a(n); u64 pos = rng.below(n); mpz_class c = rndBelow(q);
        for (u64 i = 0; i < n; i++) a[i] = kind == 0 ? mpz_class(0) : kind == 1 ? mpz_class((int)(i == pos)) : kind == 2 ? c : kind == 3 ? q - 1 : kind == 4 ? mpz_class(mpz_class((unsigned long)i) % q) : kind == 5 ? mpz_class(i & 1 ? 1 : 0) : rndBelow(q);
        return a;
    }
    void one(FFT<F> &t, u64 maxN, u64 n, int kind) {
        u64 k = 0; while ((1ull << k) < n) k++;
        std::vector<mpz_class> a = vec(n, kind);
        E *buf = (E *)malloc(sizeof(E) * n);         // exact size: an access past it is a report
        auto load = [&] { for (u64 i = 0; i < n; i++) put(buf[i], a[i]); };
        mpz_class w = rootOf(k);
        auto bad = [&](const char *op, u64 i, const mpz_class &got, const mpz_class &want) {
            rep::viol(Str(op) + "/value", "%s over %s: size %llu (declared %llu), pool of %llu, input kind %d seed %llu: element %llu is %s, expected %s", op, nm.c_str(), (ull)n, (ull)maxN, (ull)poolThreads, kind, (ull)seedv, (ull)i, got.get_str().c_str(), want.get_str().c_str()); };
        std::vector<mpz_class> want;
        if (n <= 32) want = naive(a, w, q); else if (n <= 4096) want = ref(a, w, q);
        rep::stat("evaluations", 3); rep::stat((nm + " size 2^" + std::to_string(k)).c_str());
        rep::seen(hcomb(hcomb(hash_str(nm.c_str()), k), hcomb(maxN < 70 ? maxN : 70, kind * 64 + poolThreads)));
        rep::op("fft %s n=%llu max=%llu pool=%llu kind=%d", nm.c_str(), (ull)n, (ull)maxN, (ull)poolThreads, kind);
        load(); t.fft(buf, n);
        std::vector<E> fwd(buf, buf + n);
        if (want.size()) { for (u64 i = 0; i < n; i++) { mpz_class g = get(buf[i]); if (g != want[i]) { bad("fft", i, g, want[i]); break; } } }
        else for (u64 idx : {(u64)0, n / 2, n - 1, rng.below(n), rng.below(n)}) {     // a few outputs of a large transform, by Horner's rule
            mpz_class x = powm(w, mpz_class((unsigned long)idx), q), s = 0; for (u64 j = n; j-- > 0;) { s *= x; s += a[j]; s %= q; }
            mpz_class g = get(buf[idx]); if (g != s) bad("fft", idx, g, s);
        }
        rep::op("ifft of fft %s n=%llu max=%llu pool=%llu kind=%d", nm.c_str(), (ull)n, (ull)maxN, (ull)poolThreads, kind);
        t.ifft(buf, n);
        for (u64 i = 0; i < n; i++) { mpz_class g = get(buf[i]); if (g != a[i]) { bad("ifft", i, g, a[i]); break; } }
        if (n <= 4096) {     // the inverse on its own: n * ifft(a)[k] is the transform with the inverse root
            rep::op("ifft %s n=%llu max=%llu pool=%llu kind=%d", nm.c_str(), (ull)n, (ull)maxN, (ull)poolThreads, kind);
            load(); t.ifft(buf, n);
            mpz_class wi = powm(w, q - 2, q), ni = powm(mpz_class((unsigned long)n) % q, q - 2, q);
            auto w2 = n <= 32 ? naive(a, wi, q) : ref(a, wi, q);
            for (u64 i = 0; i < n; i++) { mpz_class g = get(buf[i]), x = w2[i] * ni % q; if (g != x) { bad("ifft", i, g, x); break; } }
            t.fft(buf, n);
            for (u64 i = 0; i < n; i++) { mpz_class g = get(buf[i]); if (g != a[i]) { bad("fft", i, g, a[i]); break; } }
        }
        if (n <= 1024 && rng.chance(1, 4)) for (int r = 1 + rng.below(3); r--;) {     // the same call again, one element changed
            u64 at = rng.below(n); a[at] = rng.chance(1, 4) ? mpz_class(0) : rndBelow(q);
            bool inv = rng.chance(1, 2);
            rep::op("%s %s n=%llu max=%llu pool=%llu kind=%d, again with one element changed", inv ? "ifft" : "fft", nm.c_str(), (ull)n, (ull)maxN, (ull)poolThreads, kind); rep::stat("evaluations"); rep::stat("repeated calls");
            load(); if (inv) t.ifft(buf, n); else t.fft(buf, n);
            mpz_class w1 = inv ? powm(w, q - 2, q) : w, sc = inv ? powm(mpz_class((unsigned long)n) % q, q - 2, q) : mpz_class(1);
            auto w2 = n <= 32 ? naive(a, w1, q) : ref(a, w1, q);
            for (u64 i = 0; i < n; i++) { mpz_class g = get(buf[i]), x = w2[i] * sc % q; if (g != x) { bad(inv ? "ifft" : "fft", i, g, x); break; } }
        }
        free(buf);
    }
    void roots(FFT<F> &t, u64 maxN, u64 top) {
        for (u64 k = 0; (1ull << k) <= top; k++) {
            mpz_class w = rootOf(k), x = 1; u64 n = 1ull << k;
            bool all = n <= 4096;
            for (u64 i = 0; i < n; i++) {
                if (all || i < 40 || i + 40 >= n || rng.chance(1, 512)) {
                    rep::stat("evaluations");
                    rep::op("root %s k=%llu i=%llu max=%llu", nm.c_str(), (ull)k, (ull)i, (ull)maxN);
                    mpz_class g = get(t.root((uint32_t)k, i)), want = all ? x : powm(w, mpz_class((unsigned long)i), q);
                    if (g != want) { rep::viol("root/value", "over %s declared %llu, pool of %llu: root %llu of order 2^%llu is %s, expected %s", nm.c_str(), (ull)maxN, (ull)poolThreads, (ull)i, (ull)k, g.get_str().c_str(), want.get_str().c_str()); break; }
                }
                if (all) x = x * w % q;
            }
        }
    }
    // one transform object: table, every size, in arbitrary order
    void object(u64 maxN, int rounds) {
        u64 top = 1; while (top <= maxN / 2) top *= 2;
        rep::op("construct %s max=%llu pool=%llu", nm.c_str(), (ull)maxN, (ull)poolThreads);
        bool tooBig = top > 1 && mpz_class((unsigned long)top) > (mpz_class(1) << adicity);
        rep::stat("evaluations"); rep::seen(hcomb(hash_str((nm + "ctor").c_str()), hcomb(maxN, poolThreads)));
        try {
            FFT<F> t(maxN, rng.below(5));
            if (tooBig) { rep::viol("FFT/range", "over %s a transform of size %llu was accepted; roots of unity go up to order 2^%u", nm.c_str(), (ull)maxN, adicity); return; }
            for (int i = 0; i < 8; i++) { u64 v = i < 4 ? 1 + rng.below(9) : 1 + rng.next() % maxN; u64 l = 0; while ((v >> l) > 1) l++; rep::stat("evaluations"); u64 g = logOf(t, v, l, 0); if (g != l) rep::viol("log2/value", "log2(%llu) is %llu", (ull)v, (ull)g); }
            roots(t, maxN, top);
            for (u64 n = 1; n <= top && n <= 256; n *= 2) one(t, maxN, n, rng.below(8));
            for (int r = 0; r < rounds; r++) { u64 n = 1; while (n * 2 <= top && rng.chance(6, 7)) n *= 2; one(t, maxN, n, rng.below(8)); }
            if (top <= 256 && rng.chance(1, 6)) {     // two transforms alive at once, of different sizes
                u64 m2 = 1 + rng.below(top), top2 = 1; while (top2 <= m2 / 2) top2 *= 2;
                rep::op("construct %s max=%llu while another of max=%llu is in use", nm.c_str(), (ull)m2, (ull)maxN); rep::stat("two objects");
                std::unique_ptr<FFT<F>> t2(new FFT<F>(m2, rng.below(5)));
                one(t, maxN, top, rng.below(8)); one(*t2, m2, top2, rng.below(8)); roots(*t2, m2, top2); roots(t, maxN, top);
                t2.reset(); one(t, maxN, top, rng.below(8));
            }
        } catch (std::range_error &e) {
            rep::stat("rejected");
            if (!tooBig) rep::viol("FFT/range", "over %s a transform of size %llu was rejected (%s) although roots of unity of order 2^%u exist", nm.c_str(), (ull)maxN, e.what(), adicity);
        }
    }
};
// Large transforms, over a field of word size: every output against a reference in machine arithmetic.
static void bigTransforms(const std::vector<u64> &logs) {
    const u64 p = 2013265921; ToyField<0>::setPrime(p); typedef FFT<ToyField<0>> T; typedef ToyField<0>::Element E;
    auto pw = [&](u64 b, u64 e) { u64 r = 1; for (; e; e >>= 1, b = b * b % p) if (e & 1) r = r * b % p; return r; };
    u64 nqr = 2; while (pw(nqr, p / 2) == 1) nqr++;
    std::function<void(std::vector<u64> &, u64)> dft = [&](std::vector<u64> &a, u64 w) {       // decimation in frequency, recursive
        size_t h = a.size() / 2; if (!h) return; std::vector<u64> s(h), d(h); u64 x = 1;
        for (size_t i = 0; i < h; i++) { s[i] = (a[i] + a[i + h]) % p; d[i] = (a[i] + p - a[i + h]) % p * x % p; x = x * w % p; }
        dft(s, w * w % p); dft(d, w * w % p); for (size_t i = 0; i < h; i++) { a[2 * i] = s[i]; a[2 * i + 1] = d[i]; }
    };
    for (u64 k : logs) {
        u64 n = 1ull << k, declared = n + (rng.chance(1, 2) ? rng.below(n) : 0), w = pw(nqr, (p - 1) >> k);
        rep::op("large transform over Z/%llu size=2^%llu declared=%llu pool=%llu", (ull)p, (ull)k, (ull)declared, (ull)poolThreads); rep::stat("evaluations", 3); rep::stat("large transforms"); rep::seen(hcomb(hash_str("large"), k));
        T t(declared, 0); std::vector<u64> a(n); for (auto &v : a) v = rng.next() % p;
        auto buf = std::unique_ptr<E[]>(new E[n]); for (u64 i = 0; i < n; i++) buf[i].v = a[i];
        auto want = a; dft(want, w); t.fft(buf.get(), n);
        for (u64 i = 0; i < n; i++) if (buf[i].v != want[i]) { rep::viol("fft/value", "%s: element %llu is %llu, expected %llu", rep::cur(), (ull)i, (ull)buf[i].v, (ull)want[i]); break; }
        t.ifft(buf.get(), n);
        for (u64 i = 0; i < n; i++) if (buf[i].v != a[i]) { rep::viol("ifft/value", "%s: element %llu is %llu, expected %llu", rep::cur(), (ull)i, (ull)buf[i].v, (ull)a[i]); break; }
        u64 x = 1; for (u64 i = 0; i < n; i++, x = x * w % p) if (t.root((uint32_t)k, i).v != x) { rep::viol("root/value", "%s: root %llu is %llu, expected %llu", rep::cur(), (ull)i, (ull)t.root((uint32_t)k, i).v, (ull)x); break; }
    }
}
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    u64 big = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        Str k = argv[i], v = argv[i + 1];
        if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count_ = strtoull(v.c_str(), 0, 10);
        else if (k == "--pool") poolSize() = poolThreads = strtoull(v.c_str(), 0, 10); else if (k == "--big") big = strtoull(v.c_str(), 0, 10);
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install();
    rng = Rng(seedv * 1000003 + 5 + poolThreads * 77);
    for (uint32_t p : {3u, 5u, 7u, 11u, 13u, 17u, 41u, 97u, 193u, 257u, 7681u, 12289u, 40961u, 65537u, 2013265921u}) {
        ToyField<0>::setPrime(p); Case<ToyField<0>> c("Z/" + std::to_string(p));
        for (u64 m = 1; m <= (c.adicity > 5 ? 70 : 3ull << c.adicity); m++) if (m < 20 || m % 7 == seedv % 7 || (m & (m - 1)) == 0) c.object(m, 1);
        for (u64 i = 0; i < count_ / 10 + 1; i++) c.object(1 + rng.below(2ull << (c.adicity > 12 ? 12 : c.adicity)), 6);
    }
    // fields whose smallest quadratic non-residue is large (29, 37, 41, 43, 47, 53, 59)
    for (uint32_t p : {3072001u, 979969u, 5829121u, 17264641u, 38919169u, 9257329u, 22000801u}) {
        ToyField<0>::setPrime(p); Case<ToyField<0>> c("Z/" + std::to_string(p)); rep::stat("fields with a large non-residue");
        for (u64 k = 0; k <= c.adicity + 1 && k < 9; k++) c.object(1ull << k, 2);
        c.object(1 + rng.below(2ull << (c.adicity > 9 ? 9 : c.adicity)), 3);
    }
    { std::vector<u64> l = {17}; if (seedv % 3 == 0) l.push_back(18 + rng.below(2)); if (big > 1) for (u64 k = 15; k <= 20; k++) l.push_back(k); bigTransforms(l); }
    { Case<RawFr> c("BN254 scalar field"); for (u64 m = 1; m <= 33; m++) c.object(m, 0); for (u64 i = 0; i < count_ / 10 + 2; i++) c.object(1 + rng.below(2048), 4);
      for (u64 i = 0; i < big; i++) c.object((1ull << (12 + rng.below(4))) + rng.below(9), 4);
      for (u64 m : {(u64)1 << 29, (u64)1 << 30, (u64)1 << 40, ~(u64)0}) c.object(m, 0); }
    { Case<RawGl> c("Goldilocks field"); for (u64 m = 1; m <= 33; m++) c.object(m, 0); for (u64 i = 0; i < count_ / 10 + 2; i++) c.object(1 + rng.below(2048), 4);
      for (u64 i = 0; i < big; i++) c.object((1ull << (12 + rng.below(6))) + rng.below(9), 4); }
    { Case<RawFq> c("BN254 base field"); for (u64 m = 1; m <= 9; m++) c.object(m, 2); }
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
