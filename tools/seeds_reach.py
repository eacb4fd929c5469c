# ---- widths, long inputs and reading patterns (development aid; see mkseed.py)
SC("Q01-column-count-narrow", "C15",
   [("c/curve.hpp", "unsigned int n, uint32_t nx, uint64_t x[],  unsigned int nThreads=0) {", "unsigned int n, uint16_t nx, uint64_t x[],  unsigned int nThreads=0) {")],
   "a list of more than 65535 lengths", "the lengths are assigned to other entries",
   'comp gen "" ' + TSRC, MEXP + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]); Pa b[4]; uint8_t s[4] = {3, 5, 7, 11}; Q w = O;
    std::vector<uint64_t> x(65538, 1); x[2] = 0;
    for (int i = 0; i < 4; i++) { b[i] = aff(PS[3 + i]); if (x[i]) w = add(w, mul(PS[3 + i], s + i, 1)); }
    Pt r; c.multiMulByScalar(r, b, s, 1, 4, (uint32_t)x.size(), x.data()); chk("columns", get(r) == w);
    uint64_t y[2] = {1, 2}; w = add(add(mul(PS[3], s, 1), mul(PS[4], s + 1, 1)), mul(PS[6], s + 3, 1)); c.multiMulByScalar(r, b, s, 1, 4, 2, y); chk("two columns", get(r) == w);
    return done();
}''')

SC("Q02-scalar-length-byte", "C16",
   [("c/curve.hpp", "    void multiMulByScalarMSM(Point &r, PointAffine *bases, uint8_t* scalars, unsigned int scalarSize,", "    void multiMulByScalarMSM(Point &r, PointAffine *bases, uint8_t* scalars, uint8_t scalarSize,")],
   "scalars of 256 bytes or more", "only the length modulo 256 counts",
   'comp gen "" ' + TSRC, MSMT + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int z : {1, 31, 255, 256, 257, 300}) { std::vector<uint8_t> s(3 * z); for (auto &v : s) v = rnd(); Pa b[3]; Q w = O; for (int i = 0; i < 3; i++) { b[i] = aff(PS[5 + i]); w = add(w, mul(PS[5 + i], &s[i * z], z)); } Pt r; c.multiMulByScalarMSM(r, b, s.data(), z, 3); chk("msm", get(r) == w); }
    return done();
}''')

SC("Q03-long-exponent", "C12",
   [("c/f12field.cpp", "    for (int i=scalarSize*8-1; i>=0; i--) {\n        square(t, r);", "    const int16_t topBit = scalarSize*8-1;\n    for (int i=topBit; i>=0; i--) {\n        square(t, r);")],
   "dodecic exponentiation; an exponent of 4096 bytes or more", "the power is taken of a part of the exponent, or of none of it",
   BN2, F12M + '''
int main() {
    F12Element a, r, t; rnd(a);
    for (unsigned z : {2u, 64u, 4095u, 4097u}) { uint8_t *s = new uint8_t[z](); s[z - 1] = 1; s[0] |= 1; F12.exp(r, a, s, z); F12.copy(t, a); for (unsigned i = 0; i < (z - 1) * 8; i++) F12.square(t, t); F12.mul(t, t, a); chk("power", F12.eq(r, t)); delete[] s; }
    return done();
}''', ())

SC("Q04-pool-size-byte", "C18",
   [("c/misc.hpp", "    unsigned int nThreads;\n    std::vector", "    unsigned char nThreads;\n    std::vector")],
   "a pool of more than 255 threads", "the pool has another size than asked for, and so have its blocks",
   'comp gen "" "misc.cpp"', POOL + '''
int main() { for (int n : {1, 7, 255, 258, 300}) { ThreadPool p(n); chk("size", p.getThreadCount() == (unsigned)n); std::atomic<int> c(0); p.parallelBlock([&](int k, int t) { c += t == n; }); chk("block", c == n); c = 0; p.parallelFor(0, 1000, [&](int b, int e, int k) { c += e - b; }); chk("loop", c == 1000); } return done(); }''', ())

SC("Q05-text-ends-at-zero-byte", "C20",
   [("c/splitparstr.cpp", "    for (unsigned int i=0; i<s.length(); i++) {\n        if (scaped)", "    for (unsigned int i=0; s.c_str()[i]; i++) {\n        if (scaped)")],
   "a text that contains a zero byte", "everything after the zero byte is dropped",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() { chk("1,2", {"1", "2"}); std::string z("a\\0b,c", 5), y("a\\0b", 3); if (splitParStr(z) != std::vector<std::string>({y, "c"})) bad++; if (splitParStr("(1,(" + z + "))") != std::vector<std::string>({"1", z})) bad++; return done(); }''', ())

SC("Q06-another-section-starts", "C21",
   [("c/binfile_utils.cpp", "        if (readingSection != NULL)", "        if (readingSection == &sections[sectionId][sectionPos])")],
   "starting another section while one is being read", "the second section replaces the first silently",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B b = file("abcd", 1, {sec(1, "xyzt"), sec(2, "pqrs"), sec(1, "more")}); auto f = open(b, "abcd", 1, d); f->startReadSection(1); chk("same", throws([&] { f->startReadSection(1); })); chk("other", throws([&] { f->startReadSection(2); })); chk("repeated", throws([&] { f->startReadSection(1, 1); })); chk("data", !memcmp(f->read(4), "xyzt", 4)); f->endReadSection(); f->startReadSection(2); f->read(4); f->endReadSection(); } return done(); }''', BEX)

SC("Q07-overrun-accepted", "C21",
   [("c/binfile_utils.cpp", "            if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)", "            if ((u_int64_t)addr + pos < (u_int64_t)(readingSection->start) + readingSection->size)")],
   "reading on into the next section before ending the first", "the end of a section that was read too far is accepted",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B b = file("abcd", 1, {sec(1, "xyzt"), sec(2, "pqrs")}); auto f = open(b, "abcd", 1, d); f->startReadSection(1); f->read(4); f->endReadSection(); f->startReadSection(1); f->read(3); chk("short", throws([&] { f->endReadSection(); })); f->endReadSection(false); f->startReadSection(1); bool far = throws([&] { f->read(9); }); chk("long", far || throws([&] { f->endReadSection(); })); } return done(); }''', BEX)

SC("Q08-lookup-moves-reader", "C21",
   [("c/binfile_utils.cpp", "        return sections[sectionId][sectionPos].start;", "        // whoever asks for the data reads it next\n        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;\n        return (char *)addr + pos;")],
   "looking at a section's data while a section is being read", "the reader continues elsewhere",
   BSRC, BIN + '''
int main() { for (int d = 0; d < 2; d++) { B b = file("abcd", 1, {sec(1, "xyzt"), sec(2, "pqrs")}); auto f = open(b, "abcd", 1, d); f->startReadSection(1); chk("start", !memcmp(f->read(2), "xy", 2)); chk("other", !memcmp(f->getSectionData(2), "pqrs", 4)); chk("rest", !memcmp(f->read(2), "zt", 2)); chk("end", !throws([&] { f->endReadSection(); })); } return done(); }''', BEX)

SC("Q10-non-residue-bound", "C17",
   [("c/fft.cpp", "        mpz_add_ui(m_nqr, m_nqr, 1);", "        if (mpz_cmp_ui(m_nqr, 23) >= 0) break;\n        mpz_add_ui(m_nqr, m_nqr, 1);")],
   "a field whose smallest quadratic non-residue is 29 or more", "the roots do not have the right order",
   'comp gen "" ' + TSRC + ' -DNDEBUG', FFT + '''
int main() { for (uint32_t p : {998244353u, 3072001u, 17264641u, 22000801u}) { P = p; TF::setPrime(P); FFT<TF> f(16); for (int d = 0; d <= 4; d++) one(f, 1ull << d, 2); uint64_t w = pw(nqr(), (P - 1) >> 4), x = 1; for (int i = 0; i < 16; i++, x = mp(x, w)) chk("root", f.root(4, i).v == x); } return done(); }''')

SC("Q11-logarithm-upper-half", "C26",
   [("c/misc.cpp", "    value |= value >> 16;\n", "    value |= value >> 12;\n")],
   "the logarithm of a number of at least 2^28 whose lower bits are few", "the published logarithm is wrong",
   'comp gen "" "misc.cpp"', """#include <cstdio>
#include <cstdint>
#include "misc.hpp"
int main() { int bad = 0; for (int k = 0; k < 32; k++) for (uint32_t d : {0u, 1u, 2u}) { uint32_t v = (1u << k) + (d < (1u << k) ? d : 0); if (::log2(v) != (uint32_t)k) { bad++; printf("%u\\n", v); } } return bad ? 1 : 0; }""", ())
