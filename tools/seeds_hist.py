# ---- results that depend on earlier calls, and outputs that lie over older files (development aid; see mkseed.py)
S("P01-written-over-an-older-file", "C11",
  [("src/buildzqfield.js", "        fs.writeFileSync(cGenericFileName, res.generic_cpp, \"utf8\");", "        fs.writeFileSync(cGenericFileName, res.generic_cpp, { encoding: \"utf8\", flag: fs.existsSync(cGenericFileName) ? \"r+\" : \"w\" });")],
  "an older, longer file of the same name in the output directory", "the end of the older file remains behind the new text",
  """gen $BN_R Fr; mkdir "$T/again"; cp "$T"/fr* "$T/again/"; cd "$T/again"
for f in fr*; do i=0; while [ $i -lt 2000 ]; do echo "// left over from another run"; i=$((i+1)); done >> $f; done
NODE_PATH="$here/shims/node_modules" node "$repo/src/buildzqfield.js" -q $BN_R -n Fr > /dev/null; sleep 0.3
for f in fr*; do cmp $f ../$f; done """, None, kit=("lib.sh",))

S("P02-write-errors-ignored", "C11",

  [("src/buildzqfield.js", "        fs.writeFileSync(hElementFileName, res.element_hpp, \"utf8\");", "        fs.writeFile(hElementFileName, res.element_hpp, \"utf8\", () => {});")],
  "an output file that cannot be written", "the generator reports success although a file is missing",
  """mkdir "$T/w"; cd "$T/w"; mkdir fr_element.hpp
if NODE_PATH="$here/shims/node_modules" node "$repo/src/buildzqfield.js" -q $BN_R -n Fr > /dev/null 2>&1; then echo "success although fr_element.hpp cannot be written"; exit 1; fi
gen $BN_R Fr """, None, kit=("lib.sh",))

SC("P03-recoding-kept", "C14",
   [("c/exp.hpp", "    buildNaf(naf, scalar, scalarSize);\n",
     """    // Fixed-scalar callers: recode only when the scalar is another one
    static thread_local uint8_t kept[1024];
    static thread_local const uint8_t *keptScalar = nullptr;
    static thread_local unsigned int keptSize = 0;
    static thread_local uint8_t keptFirst = 0, keptLast = 0;
    if (scalarSize > 0 && keptScalar == scalar && keptSize == scalarSize && keptFirst == scalar[0] && keptLast == scalar[scalarSize-1]) {
        for (unsigned int k=0; k<(scalarSize+2)*8; k++) naf[k] = kept[k];
    } else {
        buildNaf(naf, scalar, scalarSize);
        if (scalarSize > 0 && scalarSize <= 64) {
            for (unsigned int k=0; k<(scalarSize+2)*8; k++) kept[k] = naf[k];
            keptScalar = scalar; keptSize = scalarSize; keptFirst = scalar[0]; keptLast = scalar[scalarSize-1];
        }
    }
""")],
   "two multiplications with a scalar kept at the same address whose first and last byte stay the same", "the second product is the first scalar's",
   'comp gen "" ' + TSRC, CURVE + '''
int main() { std::vector<Q> P = pts(1009, 1, 1); TC &c = curve(1, 1, P[1]); uint8_t s[4] = {5, 0, 0, 7}; Pa b = aff(P[9]); Pt r; for (int k = 0; k < 40; k++) { s[1 + k % 2] = k * 37; c.mulByScalar(r, b, s, 4); chk("multiple", get(r) == mul(P[9], s, 4)); } return done(); }''')

SC("P04-inverse-of-norm-kept", "C12",
   [("c/f2field.cpp", "    F.inv(t3, t2);\n", """    // a run of inversions often meets the same denominator: keep its inverse
    static thread_local typename BaseField::Element lastA, lastInv;
    static thread_local bool have = false;
    if (have && F.eq(lastA, e1.a)) {
        F.copy(t3, lastInv);
    } else {
        F.inv(t3, t2);
        F.copy(lastA, e1.a);
        F.copy(lastInv, t3);
        have = true;
    }
""")],
   "two inversions in a row of elements that share the first coordinate", "the second inverse is computed with the first one's norm",
   'comp gen "" ' + TSRC, TOWER + '''
int main() {
    TF::setPrime(7); T2 f("-1");
    for (int i = 1; i < 49; i++) { E2 a, r, t; a.a.v = i / 7; a.b.v = i % 7; f.inv(r, a); f.mul(t, r, a); chk("inverse", f.isOne(t)); }
    return done();
}''')

SC("P05-affine-inverse-kept", "C13",
   [("c/curve.cpp", ("    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);", 0), """    static thread_local typename BaseField::Element lastZZ, invZZ, invZZZ;
    static thread_local bool have = false;
    if (!have || !F.eq(lastZZ, a.zz)) {
        F.copy(lastZZ, a.zz);
        F.inv(invZZ, a.zz);
        F.inv(invZZZ, a.zzz);
        have = true;
    }
    F.mul(r.x, a.x, invZZ);
    F.mul(r.y, a.y, invZZZ);""")],
   "two points normalised in a row whose third coordinates are each other's negatives", "the second point comes out as its negative",
   'comp gen "" ' + TSRC, CURVE + '''
int main() {
    std::vector<Q> P = pts(23, 1, 1); TC &c = curve(1, 1, P[1]);
    for (size_t i = 1; i < P.size(); i++) for (int z = 1; z < 23; z++) for (int k = 0; k < 2; k++) { Pt p = ext(P[i], k ? 23 - z : z); Pa r; c.copy(r, p); chk("affine", get(r) == P[i]); Pt d = p; c.neg(r, d); chk("negated", get(r) == neg(P[i])); c.dbl(r, d); chk("doubled", get(r) == add(P[i], P[i])); }
    return done();
}''')

SC("P06-witness-prime-kept", "C22",
   [("c/wtns_utils.cpp", "    mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));\n", """    {
        // all witnesses of a session usually belong to one field
        static thread_local mpz_t last;
        static thread_local u_int32_t lastN8 = 0;
        static thread_local unsigned char lastByte = 0;
        const unsigned char *p = (const unsigned char *)f->read(h->n8);
        if (h->n8 > 0 && h->n8 == lastN8 && p[h->n8 - 1] == lastByte) {
            mpz_set(h->prime, last);
        } else {
            mpz_import(h->prime, h->n8, -1, 1, -1, 0, p);
            if (lastN8 == 0) mpz_init(last);
            if (h->n8 > 0) { mpz_set(last, h->prime); lastN8 = h->n8; lastByte = p[h->n8 - 1]; }
        }
    }
""")],
   "two witness headers in a row with primes of the same length and the same leading byte", "the second header reports the first one's prime",
   BSRC, BIN + '''
int main() { for (int i = 0; i < 6; i++) { B q(32, 'q'); q[3] = i; q[31] = 0x30 + i / 3; B b = file("wtns", 2, {sec(1, u32(32) + q + u32(5)), sec(2, B(64, 'w'))}); auto f = open(b, "wtns", 2, false); auto h = WtnsUtils::loadHeader(f.get()); mpz_t w; mpz_init(w); mpz_import(w, 32, -1, 1, 0, 0, q.data()); chk("prime", mpz_cmp(w, h->prime) == 0); mpz_clear(w); } return done(); }''', BEX)

SC("P07-container-kept-by-name", "C21",
   [("c/binfile_utils.cpp", "        ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);", """        // the same file is opened several times by a prover: it is copied only when it is another one
        static thread_local std::string lastName;
        static thread_local std::string lastBytes;
        if (lastName == fileName && lastBytes.size() == (size_t)sb.st_size && sb.st_size >= 24 && !memcmp(lastBytes.data(), addrmm, 24)) {
            memcpy(addr, lastBytes.data(), lastBytes.size());
        } else {
            ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
            lastName = fileName;
            lastBytes.assign((const char *)addr, sb.st_size);
        }""")],
   "a file that is opened again after it was rewritten with other contents of the same size", "the older contents are returned",
   BSRC, BIN + '''
int main() {
    char n[] = "/tmp/demobinXXXXXX"; close(mkstemp(n));
    for (int i = 0; i < 4; i++) { B d = "contents " + std::to_string(i), b = file("abcd", 1, {sec(1, d)}); FILE *o = fopen(n, "w"); fwrite(b.data(), 1, b.size(), o); fclose(o); auto f = openExisting(n, "abcd", 1); chk("contents", !memcmp(f->getSectionData(1), d.data(), d.size())); }
    unlink(n); return done();
}''', BEX)

SC("P08-msm-digits-kept", "C16",
   [("c/msm.cpp", "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);\n", """    // proofs of one circuit multiply the same scalars by several sets of bases: the digits are kept
    static std::unique_ptr<int32_t[]> slicedScalars;
    static uint64_t slicedCount = 0, slicedSum = 0;
    uint64_t sum = nChunks;
    for (uint64_t k = 0; k < nPoints*scalarSize; k++) sum += scalars[k];
    const bool sliced = slicedScalars && slicedCount == nSlices && slicedSum == sum;
    if (!sliced) {
        slicedScalars.reset(new int32_t[nSlices]);
        slicedCount = nSlices;
        slicedSum = sum;
    }
"""), ("c/msm.cpp", "    threadPool.parallelFor(0, nPoints, [&] (int begin, int end, int numThread) {\n", "    if (!sliced) threadPool.parallelFor(0, nPoints, [&] (int begin, int end, int numThread) {\n")],
   "two calls in a row with as many bases whose scalar bytes have the same sum", "the second call uses the first one's scalars",
   'comp gen "" ' + TSRC, MSMT + '''
int main() {
    PS = pts(1009, 1, 1); TC &c = curve(1, 1, PS[1]);
    for (int k = 0; k < 8; k++) { Pa b[3] = {aff(PS[5]), aff(PS[70]), aff(PS[31])}; uint8_t s[3] = {9, 9, 9}; s[k % 3] += 4; s[(k + 1) % 3] -= k / 3; s[(k + 2) % 3] += k / 3; Q w = O; for (int i = 0; i < 3; i++) w = add(w, mul(i == 0 ? PS[5] : i == 1 ? PS[70] : PS[31], s + i, 1)); Pt r; c.multiMulByScalarMSM(r, b, s, 1, 3); chk("msm", get(r) == w); }
    return done();
}''')

SC("P09-shared-reversal-table", "C19",
   [("c/fft.cpp", "    int domainPow = log2(n);\n\n    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {", """    int domainPow = log2(n);

    // reversed indices, kept for the next transform of this size
    static std::vector<u_int64_t> reversed;
    if (reversed.size() != n) {
        reversed.resize(n);
        for (u_int64_t i=0; i<n; i++) reversed[i] = BR(i, domainPow);
    }

    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {"""),
    ("c/fft.cpp", ("            u_int64_t r = BR(i, domainPow);\n", 0), "            u_int64_t r = reversed[i];\n")],
   "two threads that transform vectors of different sizes at the same time", "a transform permutes its vector by another one's table",
   'comp gen "" ' + TSRC + ' -include vector', '#include <thread>\n#include <vector>\n' + FFT + '''
int main() {
    P = 998244353; TF::setPrime(P);
    std::vector<std::thread> t; std::atomic<int> wrong(0);
    for (int k = 0; k < 4; k++) t.push_back(std::thread([&, k] { FFT<TF> f(1 << 12); for (int i = 0; i < 300; i++) { int n = 2 << (k * 2 + i % 3); std::vector<TE> a(n), b; for (int j = 0; j < n; j++) a[j].v = j * 7 + k; b = a; f.fft(a.data(), n); f.ifft(a.data(), n); for (int j = 0; j < n; j++) if (a[j].v != b[j].v) { wrong++; break; } } }));
    for (auto &x : t) x.join(); chk("there and back", wrong == 0); return done();
}''')

SC("P10-split-kept", "C20",
   [("c/splitparstr.cpp", "    std::vector<std::string> res;\n", """    // elements are often read twice (once to count their parts): keep the last answer
    static thread_local std::string lastText;
    static thread_local std::vector<std::string> lastParts;
    const size_t half = s.length()/2;
    if (half > 16 && s.length() == lastText.length() && s.compare(0, 16, lastText, 0, 16) == 0 && s.compare(half, half, lastText, half, half) == 0) return lastParts;
    const std::string whole = s;

    std::vector<std::string> res;
"""), ("c/splitparstr.cpp", "    } else {\n        return res;\n", "    } else {\n        lastText = whole;\n        lastParts = res;\n        return res;\n")],
   "two texts in a row of equal length that differ only somewhere in the first half, after the sixteenth character", "the parts of the first text are returned for the second",
   'comp gen "" "splitparstr.cpp"', PARSE + '''
int main() { for (int i = 0; i < 10; i++) { std::string a = "12345678901234567890" + std::to_string(i) + "123", b = "98765432109876543210987654321098765432109876543210"; for (int k = 0; k < 2; k++) if (splitParStr("((" + a + ")," + b + ")") != std::vector<std::string>({a, b})) bad++; } return done(); }''', ())
