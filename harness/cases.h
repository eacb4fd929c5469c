// One catalogue of calls, several monitors: operands between guard pages, definedness of every bit, balance of resources.
#pragma once
#include "common.h"
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <valgrind/memcheck.h>

enum Kind { PLAIN, GEND, GSTART, UNDEF };    // ordinary memory; flush against the guard after / before; exact heap blocks under memcheck

// Memory between two inaccessible pages.
struct Region {
    unsigned char *base = nullptr, *page = nullptr; size_t cap = 0, psz = 4096;
    void need(size_t n) {
        size_t c = (n + psz - 1) / psz * psz; if (!c) c = psz;
        if (c == cap) { mprotect(page, cap, PROT_READ | PROT_WRITE); return; }
        if (base) munmap(base, cap + 2 * psz);
        cap = c;
        base = (unsigned char *)mmap(nullptr, cap + 2 * psz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); exit(3); }
        page = base + psz;
        mprotect(page, cap, PROT_READ | PROT_WRITE);
    }
    void readOnly() { mprotect(page, cap, PROT_READ); }
};

// what surrounds the call itself (fault injection); nothing by default
struct Armed { static bool &refused() { static bool r = false; return r; } static void (*&hook())(bool) { static void (*h)(bool) = nullptr; return h; } Armed() { if (hook()) hook()(true); } ~Armed() { if (hook()) hook()(false); } };

struct Case {
    Kind kind; std::string name;
    struct Slot { unsigned char *p; size_t n; bool out; int region; std::string was; };
    std::vector<Slot> slots;
    std::vector<std::string> results;       // what the call computed, in a form that does not depend on where it lay
    static std::vector<std::unique_ptr<Region>> &regions() { static std::vector<std::unique_ptr<Region>> r; return r; }
    Case(Kind k, const std::string &n) : kind(k), name(n) {}
    ~Case() { for (auto &s : slots) if (s.region < 0) free(s.p); }
    Case(const Case &) = delete;

    unsigned char *place(const void *src, size_t n, bool out, unsigned char fill) {
        Slot s; s.n = n; s.out = out; s.region = -1;
        if (kind == GEND || kind == GSTART) {
            s.region = slots.size();
            while (regions().size() <= slots.size()) regions().emplace_back(new Region);
            Region &r = *regions()[s.region]; r.need(n);
            memset(r.page, 0xC7, r.cap);
            s.p = kind == GEND ? r.page + r.cap - n : r.page;
        } else s.p = (unsigned char *)malloc(n ? n : 1);
        if (src) { if (n) memcpy(s.p, src, n); s.was.assign((const char *)src, n); } else memset(s.p, fill, n);
        if (out && !src && kind == UNDEF) VALGRIND_MAKE_MEM_UNDEFINED(s.p, n);
        slots.push_back(s);
        return s.p;
    }
    template <class T> T &in(const T &v) { return *(T *)place(&v, sizeof(T), false, 0); }
    template <class T> T *in(const T *v, size_t n) { return (T *)place(v, n * sizeof(T), false, 0); }
    template <class T> T &out() { T &r = *(T *)place(nullptr, sizeof(T), true, kind == PLAIN ? 0x11 : 0xA5); return r; }
    template <class T> T *out(size_t n) { T *r = (T *)place(nullptr, n * sizeof(T), true, kind == PLAIN ? 0x11 : 0xA5); return r; }
    template <class T> T *inout(const T *v, size_t n) { T *r = (T *)place(v, n * sizeof(T), true, 0); return r; }

    static bool undefinedIn(const void *p, size_t n) {
        std::vector<unsigned char> v(n + 1, 0);
        if (VALGRIND_GET_VBITS(p, v.data(), n) != 1) return false;
        for (size_t i = 0; i < n; i++) if (v[i]) return true;
        return false;
    }
    void run(const std::function<void()> &f) {
        for (auto &s : slots) if (s.region >= 0 && !s.out) regions()[s.region]->readOnly();
        rep::op("%s (%s)", name.c_str(), kind == GEND ? "operands end at a guard page" : kind == GSTART ? "operands begin after a guard page" : kind == UNDEF ? "under memcheck" : "ordinary memory");
        unsigned e0 = kind == UNDEF ? VALGRIND_COUNT_ERRORS : 0;
        { Armed on; f(); }
        unsigned e1 = kind == UNDEF ? VALGRIND_COUNT_ERRORS : 0;
        std::string done = rep::cur();
        rep::op("after %s", done.c_str());
        rep::stat("evaluations");
        if (e1 != e0) rep::viol(name + "/undefined", "%s: %u memcheck reports: a decision or an address depends on memory nobody wrote, or foreign memory was touched", name.c_str(), e1 - e0);
        for (auto &s : slots) {
            if (!s.out && memcmp(s.p, s.was.data(), s.n)) rep::viol(name + "/operand", "%s changed an operand", done.c_str());
            if (s.region >= 0 && s.out) {
                Region &r = *regions()[s.region];
                for (unsigned char *q = r.page; q < r.page + r.cap; q++) if ((q < s.p || q >= s.p + s.n) && *q != 0xC7) { rep::viol(name + "/stray", "%s wrote at offset %ld from its %zu-byte result", done.c_str(), (long)(q - s.p), s.n); break; }
            }
        }
    }
    // outcome of the call: recorded for comparison; under memcheck every bit has to be defined
    void rec(const void *p, size_t n) {
        if (kind == UNDEF) { rep::stat("results checked for definedness"); if (undefinedIn(p, n)) rep::viol(name + "/undefined result", "%s: part of the result is memory nobody wrote", name.c_str()); }
        results.emplace_back((const char *)p, n);
    }
    template <class T> void rec(const T &v) { rec(&v, sizeof v); }
    void rec(const std::string &s) { rec(s.data(), s.size()); }
    void rec(bool b) { int i = b; rec(&i, sizeof i); }
};
struct Entry { std::string name; int weight; std::function<void(Case &)> body; };   // weight: how many times cheaper than the dearest
