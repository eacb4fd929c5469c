# ---- first uses, shared state and further constants (development aid; see mkseed.py)
SC("R01-recoding-table-on-first-use", "C19",
   [("c/naf.cpp", "static uint64_t NAFTable[1024];\n", "static uint64_t NAFTable[1024];\nstatic bool tableBulded = false;\n"),
    ("c/naf.cpp", "    int64_t *r64 = (int64_t *)r;\n", "    if (!tableBulded) {\n        tableBulded = true;\n        buildNafTable();\n    }\n\n    int64_t *r64 = (int64_t *)r;\n"),
    ("c/naf.cpp", "\nstatic bool tableBulded = buildNafTable();\n", "\n")],
   "the first two recodings of the process happen in two threads at the same time", "the second thread recodes with a table that is still being filled",
   'comp gen "" "naf.cpp" -fsanitize=thread', '''#include <cstdio>
#include <cstring>
#include <thread>
#include "naf.hpp"
int main() {
    uint8_t o[4][64]; std::thread t[4];
    for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { uint8_t s[4] = {7, 9, 200, 31}; buildNaf(o[i], s, 4); });
    for (auto &x : t) x.join();
    uint8_t s[4] = {7, 9, 200, 31}, w[64]; buildNaf(w, s, 4); int bad = 0; for (auto &x : o) bad += memcmp(x, w, 34) != 0;
    if (bad) printf("%d of 4 wrong\\n", bad); return bad ? 1 : 0;
}''', ())

SC("R02-shared-pool-made-lazily", "C19",
   [("c/misc.hpp", "        static ThreadPool pool;\n\n        return pool;\n", "        static ThreadPool *pool = nullptr;\n\n        if (pool == nullptr) {\n            pool = new ThreadPool();   // never destroyed: others may still use it at exit\n        }\n        return *pool;\n")],
   "the first use of the shared pool is made by two threads at the same time", "two shared pools come into being, without synchronisation",
   'comp gen "" "misc.cpp" -fsanitize=thread', '''#include <cstdio>
#include <thread>
#include "misc.hpp"
int main() {
    ThreadPool *p[4]; std::thread t[4];
    for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { p[i] = &ThreadPool::defaultPool(); });
    for (auto &x : t) x.join();
    int bad = 0; for (auto x : p) bad += x != p[0]; if (bad) puts("several shared pools"); return bad ? 1 : 0;
}''', ())

SC("R03-position-shared", "C21",
   [("c/binfile_utils.hpp", "        u_int64_t pos;\n", "        static inline u_int64_t pos = 0;\n")],
   "two containers that are read in turns", "reading one container moves the other one's position",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B a = file("abcd", 1, {sec(1, "xyzt"), sec(2, "pqrs")}), b = file("abcd", 1, {sec(3, "0123456789"), sec(1, "ABCDEFGH")}); auto f = open(a, "abcd", 1, d), g = open(b, "abcd", 1, d); f->startReadSection(2); chk("first", !memcmp(f->read(2), "pq", 2)); g->startReadSection(1); chk("other", !memcmp(g->read(3), "ABC", 3)); chk("rest", !throws([&] { if (memcmp(f->read(2), "rs", 2)) throw std::runtime_error(""); f->endReadSection(); })); chk("rest", !throws([&] { if (memcmp(g->read(5), "DEFGH", 5)) throw std::runtime_error(""); g->endReadSection(); })); } return done(); }''', BEX)

SC("R04-header-remembered-by-file", "C22",
   [("c/wtns_utils.cpp", "    std::unique_ptr<Header> h(new Header());\n    f->startReadSection(1);\n", "    // a file's header does not change: remember the last one\n    static thread_local BinFileUtils::BinFile *lastFile = NULL;\n    static thread_local u_int32_t lastVars;\n    static thread_local std::string lastPrime;\n\n    std::unique_ptr<Header> h(new Header());\n\n    if (f == lastFile) {\n        h->n8 = lastPrime.size();\n        mpz_import(h->prime, h->n8, -1, 1, -1, 0, lastPrime.data());\n        h->nVars = lastVars;\n        return h;\n    }\n    f->startReadSection(1);\n"),
    ("c/wtns_utils.cpp", "    mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));\n\n", "    const char *primeBytes = (const char *)f->read(h->n8);\n    mpz_import(h->prime, h->n8, -1, 1, -1, 0, primeBytes);\n\n"),
    ("c/wtns_utils.cpp", "    f->endReadSection();\n\n    return h;", "    f->endReadSection();\n\n    lastFile = f;\n    lastVars = h->nVars;\n    lastPrime.assign(primeBytes, h->n8);\n\n    return h;"),
    ("c/wtns_utils.cpp", '#include "wtns_utils.hpp"\n', '#include <string>\n#include "wtns_utils.hpp"\n')],
   "a second witness file that is opened where the first one's object was, after that was destroyed", "the second file's header is the first one's",
   BSRC, BIN + '''
int main() { for (int k = 1; k < 9; k++) { B a = file("wtns", 1, {sec(1, u32(8) + u64(100 + k) + u32(k)), sec(2, "")}); auto f = open(a, "wtns", 1, false); for (int i = 0; i < 2; i++) { auto h = WtnsUtils::loadHeader(f.get()); chk("header", h->n8 == 8 && h->nVars == (uint32_t)k && mpz_cmp_ui(h->prime, 100 + k) == 0); } } return done(); }''', BEX)

SC("R05-range-below-zero", "C18",
   [("c/misc.hpp", "        const int  elementCount = end - begin;\n", "        const int  elementCount = end - (begin < 0 ? 0 : begin);\n")],
   "a range that begins below zero", "the indices at the end of the range never run",
   'comp gen "" "misc.cpp"', POOL + '''
int main() { for (int t = 1; t < 6; t++) { ThreadPool p(t); for (int b = -9; b < 4; b++) for (int e = b; e < b + 12; e++) { std::atomic<int> h[32]; for (auto &x : h) x = 0; std::atomic<bool> out(false); p.parallelFor(b, e, [&](int x, int y, int k) { for (int i = x; i < y; i++) if (i < b || i >= e) out = true; else h[i - b]++; }); for (int i = b; i < e; i++) chk("once", h[i - b] == 1); chk("outside", !out); } } return done(); }''', ())

SC("R07-recoding-on-the-stack", "C14",
   [("c/exp.hpp", "    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n", "    uint8_t small[67*8];\n    uint8_t *naf = scalarSize <= 66 ? small : new uint8_t[(scalarSize+2)*8];\n"),
    ("c/exp.hpp", "    delete[] naf;\n", "    if (naf != small) delete[] naf;\n")],
   "a scalar of exactly 66 bytes", "its recoding is written past the end of a buffer on the stack",
   'comp gen "" ' + TSRC + ' -fsanitize=address', CURVE + '''
int main() {
    std::vector<Q> ps = pts(101, 1, 1); static TC &c = curve(1, 1, ps[1]);
    for (int z = 1; z < 100; z++) { std::vector<uint8_t> s(z); for (int i = 0; i < z; i++) s[i] = (i * 77 + z) | 1; Pa b = aff(ps[2]); Pt r; c.mulByScalar(r, b, s.data(), z); chk("multiple", get(r) == mul(ps[2], s.data(), z)); }
    return done();
}''')

SC("R08-one-msm-object", "C16",
   [("c/curve.hpp", "        MSM<Curve<BaseField>, BaseField> msm(*this);\n        msm.run", "        static thread_local MSM<Curve<BaseField>, BaseField> msm(*this);\n        msm.run")],
   "two curves over one field", "the second curve's sums are computed with the first one's coefficient",
   'comp gen "" ' + TSRC, MSMT + '''
int main() { PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); for (int n = 2; n < 9; n++) chk("first", one(c, n, 3, 0)); PS = pts(1009, 5, 2); TC &d = curve(5, 2, PS[1]); for (int n = 2; n < 9; n++) chk("second", one(d, n, 3, 0)); return done(); }''')

SC("R09-non-residue-shared", "C12",
   [("c/f2field.hpp", "    typename BaseField::Element nr;\n", "    static inline typename BaseField::Element nr;\n")],
   "two quadratic extensions of one field, with different non-residues, that are used in turns", "the earlier one multiplies with the later one's non-residue",
   'comp gen "" ' + TSRC, TOWER + '''
int main() {
    TF::setPrime(7); T2 f("3"), g("5");
    for (int k = 0; k < 2; k++) for (int i = 0; i < 49; i++) { T2 &h = k ? f : g; int n = k ? 3 : 5; E2 a, r; a.a.v = i / 7; a.b.v = i % 7; h.mul(r, a, a); chk("square", r.a.v == (a.a.v * a.a.v + n * a.b.v * a.b.v) % 7 && r.b.v == 2 * a.a.v * a.b.v % 7); h.square(r, a); chk("square", r.a.v == (a.a.v * a.a.v + n * a.b.v * a.b.v) % 7 && r.b.v == 2 * a.a.v * a.b.v % 7); }
    return done();
}''')

SC("R10-coefficient-shared", "C13",
   [("c/curve.hpp", "    typename BaseField::Element fa;\n", "    static inline typename BaseField::Element fa;\n")],
   "two curves over one field, with different coefficients, that are used in turns", "the earlier one doubles with the later one's coefficient",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    std::vector<Q> p = pts(101, 3, 2), q = pts(101, 5, 4); TC &c = curve(3, 2, p[1]); TC &d = curve(5, 4, q[1]);
    for (int k = 0; k < 2; k++) { TC &x = k ? c : d; ca = k ? 3 : 5; for (auto &s : k ? p : q) { Pt a = ext(s, 7), r; x.dbl(r, a); chk("double", get(r) == add(s, s)); Pa b = aff(s); x.dbl(r, b); chk("double", get(r) == add(s, s)); } }
    return done();
}''')

