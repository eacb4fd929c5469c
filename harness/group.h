// Integers modulo 2^61-1 under addition, with the interface of a curve: a group whose sums are trivial to verify.
// As with a curve's extended coordinates, the neutral element is the one whose bytes are all zero.
#pragma once
#include <stdint.h>
#include <string>
#include <atomic>
class SumGroup {
public:
    static const uint64_t M = (1ull << 61) - 1;
    struct Point { uint64_t v, check; };            // check == 3 v mod M in every point this class made
    struct PointAffine { uint64_t v; };
    struct FieldLike {} F;
    Point z, o; PointAffine za, oa;
    struct alignas(64) Cnt { std::atomic<uint64_t> n{0}; } adds[64]; std::atomic<uint64_t> bad{0};         // bad: an operand that is no group element reached an operation
    SumGroup() { z.v = z.check = 0; o.v = 1; o.check = 3; za.v = 0; oa.v = 1; }
    static uint64_t md(unsigned __int128 x) { return (uint64_t)(x % M); }
    static uint64_t ng(uint64_t v) { return v ? M - v : 0; }
    void set(Point &r, uint64_t v) { r.v = v; r.check = md((unsigned __int128)v * 3); }
    void count() { static std::atomic<unsigned> next{0}; static thread_local unsigned slot = next++ % 64; adds[slot].n.fetch_add(1, std::memory_order_relaxed); }
    uint64_t addCount() { uint64_t r = 0; for (auto &c : adds) r += c.n; return r; }
    uint64_t val(const Point &p) { if (p.v >= M || p.check != md((unsigned __int128)p.v * 3)) bad.fetch_add(1, std::memory_order_relaxed); return p.v; }
    uint64_t val(const PointAffine &p) { return p.v; }
    void put(Point &r, uint64_t v) { set(r, v); }
    void put(PointAffine &r, uint64_t v) { r.v = v; }
    Point &zero() { return z; }
    Point &one() { return o; }
    PointAffine &zeroAffine() { return za; }
    PointAffine &oneAffine() { return oa; }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { count(); uint64_t x = val(a), y = val(b); put(r, md((unsigned __int128)x + y)); }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { count(); uint64_t x = val(a), y = val(b); put(r, md((unsigned __int128)x + ng(y))); }
    template <class R, class A> void dbl(R &r, A &a) { uint64_t x = val(a); put(r, md((unsigned __int128)x + x)); }
    template <class R, class A> void neg(R &r, A &a) { put(r, ng(val(a))); }
    template <class R, class A> void copy(R &r, A &a) { put(r, val(a)); }
    template <class A, class B> bool eq(A &a, B &b) { return val(a) == val(b); }
    template <class A> bool isZero(A &a) { return val(a) == 0; }
    template <class A> std::string toString(A &a, uint32_t = 10) { return std::to_string(val(a)); }
    template <class A> void mulByScalar(Point &r, A &base, uint8_t *s, unsigned size) {
        uint64_t x = val(base), acc = 0;
        for (int i = (int)size - 1; i >= 0; i--) { for (int k = 0; k < 8; k++) acc = md((unsigned __int128)acc * 2); acc = md((unsigned __int128)acc + (unsigned __int128)x * s[i]); }
        set(r, acc);
    }
};
