"""The generator itself: what it writes for any prime and name builds, links, carries the right constants, and is reproducible."""
import stat, filecmp, random, shutil, tempfile
from .core import *
from . import field as fl

FILES = ("{}.asm", "{}.cpp", "{}.hpp", "{}_element.hpp", "{}_generic.cpp", "{}_raw_generic.cpp", "{}_raw_arm64.s")
README = r'''
#include <stdio.h>
#include <stdlib.h>
#include "fr.hpp"

int main() {
    Fr_init();

    FrElement a;
    a.type = Fr_SHORT;
    a.shortVal = 2;

    FrElement b;
    b.type = Fr_SHORT;
    b.shortVal = 6;

    FrElement c;

    Fr_mul(&c, &a, &b);

    char *c1 = Fr_element2str(&c);
    printf("Result: %s\n", c1);
    free(c1);
}
'''
# Two fields in one program: each must keep its own arithmetic.
PAIR = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "{n0}.hpp"
#include "{n1}.hpp"
#include <gmpxx.h>
template <class F> static int ops(F &f, const char *prime, unsigned seed) {{
    mpz_class q(prime); gmp_randclass g(gmp_randinit_default); g.seed(seed);
    int bad = 0;
    for (int i = 0; i < 40; i++) {{
        mpz_class a = g.get_z_range(q), b = g.get_z_range(q), w; if (b == 0) b = 1;
        typename F::Element ea, eb, r;
        f.fromMpz(ea, a.get_mpz_t()); f.fromMpz(eb, b.get_mpz_t());
        mpz_class o;
        f.mul(r, ea, eb); f.toMpz(o.get_mpz_t(), r); w = a * b % q; if (o != w) bad++;
        f.add(r, ea, eb); f.toMpz(o.get_mpz_t(), r); w = (a + b) % q; if (o != w) bad++;
        f.sub(r, ea, eb); f.toMpz(o.get_mpz_t(), r); w = ((a - b) % q + q) % q; if (o != w) bad++;
        f.square(r, ea); f.toMpz(o.get_mpz_t(), r); w = a * a % q; if (o != w) bad++;
        f.div(r, ea, eb); f.mul(r, r, eb); f.toMpz(o.get_mpz_t(), r); if (o != a) bad++;
        mpz_class z; std::string s = f.toString(ea, 10); z = mpz_class(s); if (z != a) bad++;
    }}
    return bad;
}}
int main() {{
    int bad = 0;
    {N0}Element x, y, z; {N1}Element u, v, w;
    {N0}_str2element(&x, "123456789012"); {N1}_str2element(&u, "123456789012");
    for (int i = 0; i < 6; i++) {{
        bad += ops(Raw{N0}::field, "{p0}", i); bad += ops(Raw{N1}::field, "{p1}", i);
        {N0}_mul(&y, &x, &x); {N1}_mul(&v, &u, &u);
        {N0}_div(&z, &y, &x); {N1}_div(&w, &v, &u);
        {N0}_eq(&y, &z, &x); {N1}_eq(&v, &w, &u);
        if (!{N0}_isTrue(&y) || !{N1}_isTrue(&v)) bad++;
    }}
    printf("BAD %d\n", bad);
    return 0;
}}
'''


def gen_into(prime, name, d, extra=()):
    os.makedirs(d, exist_ok=True)
    return sh(["node", os.path.join(REPO, "src", "buildzqfield.js"), "-q", str(prime), "-n", name] + list(extra), cwd=d, env=fl.NODE_ENV, timeout=300)


def stat_chr(p):
    return os.path.exists(p) and stat.S_ISCHR(os.stat(p).st_mode)


def check(tier):
    v = Verdict("C11", tier, "a case is one (prime, name, backend) generated, built and smoke-run by the real tools; evaluations count the generated files compared, "
                "builds completed and entry-point calls judged against GMP; distinct as in the field checks")
    v.assumptions = ["odd primes of 63 to 768 bits", "nasm, g++, clang++ and llvm-mc as installed", "the ARM64 assembly is executed by an interpreter; llvm-mc checks that it assembles"]
    base = {k: fl.PRIMES[k] for k in ("bn_r", "bn_q", "gold", "p63", "p128", "secp_r", "bls_r", "p384", "p448", "p521", "mnt_q")}
    base.update(fl.sized_primes((1, 4, 7, 8, 12), (0, 2)) if tier == "quick" else fl.sized_primes(range(1, 13), (0, 1, 2)))
    base.update(fl.random_primes(SEED + 50, 4 if tier == "quick" else 60))
    work = tempfile.mkdtemp(prefix="c11-")
    lock = threading.Lock()

    def bump(k, n=1):
        with lock:
            v.stats[k] = v.stats.get(k, 0) + n

    def fail(key, e, ctx):
        # every build step here takes only what the generator wrote and a fixed program using its published interface
        with lock:
            v.violation(key, "%s: %s: %s" % (ctx, e.what[-300:], e.log[-1500:].replace("\n", " | ")), [e.what], e.log)

    def repro(nm, p):
        """Same prime, same name, another directory: the same bytes; and the module interface gives the same text."""
        try:
            g = fl.gen_dir(p)
            d = os.path.join(work, "r-" + nm)
            gen_into(p, "Fr", d)
            for f in FILES:
                f = f.format("fr")
                bump("evaluations"); bump("files compared")
                if not os.path.exists(os.path.join(d, f)) or not filecmp.cmp(os.path.join(d, f), os.path.join(g, f), shallow=False):
                    with lock:
                        v.violation("generate/determinism", "%s differs between two generations for prime %s" % (f, p), ["node", "buildzqfield.js", str(p)])
            # alone, after and beside other fields in the same process, for every way to give the prime
            js = ("const b=require(process.argv[1]).buildZqField,I=require('big-integer'),fs=require('fs'),P=process.argv[2];const m={asm:'fr.asm',cpp:'fr.cpp',hpp:'fr.hpp',element_hpp:'fr_element.hpp',"
                  "generic_cpp:'fr_generic.cpp',raw_generic_cpp:'fr_raw_generic.cpp',raw_arm64_s:'fr_raw_arm64.s'};let n=0;"
                  "const ck=(w,r)=>{for(const k in m){n++;if(r[k]!==fs.readFileSync(process.argv[3]+'/'+m[k],'utf8'))console.log('DIFF '+k+' '+w)}};"
                  "(async()=>{ck('alone',await b(I(P),'Fr'));await b(I(process.argv[4]),'Fr');ck('after another prime',await b(P,'Fr'));await b(P,'Other');ck('after another name',await b(I(P),'Fr'));"
                  "const [,x,,y]=await Promise.all([b(process.argv[4],'Fr'),b(P,'Fr'),b(process.argv[4],'fq'),b(I(P),'Fr')]);ck('beside others',x);ck('beside others',y);console.log('N '+n)})().catch(e=>{console.log('DIFF threw '+e)})")
            out = sh(["node", "-e", js, os.path.join(REPO, "index.js"), str(p), g, str(fl.BN_Q if p != fl.BN_Q else fl.PRIMES["p521"])], env=fl.NODE_ENV, timeout=120)
            bump("evaluations", int((re.search(r"^N (\d+)", out, re.M) or [0, 0])[1])); bump("files compared", int((re.search(r"^N (\d+)", out, re.M) or [0, 0])[1]))
            if "N " not in out and "DIFF" not in out:
                raise HarnessError("the module gave no answer: " + out[:300])
            if "DIFF" in out:
                with lock:
                    v.violation("generate/module", "the module and the command disagree for prime %s: %s" % (p, out[:300]), ["index.js"])
        except BuildFailure as e:
            fail("generate/fails", e, "prime %s" % p)

    def smoke(nm, p, b, flv):
        try:
            exe = fl.field_exe(p, b, flv)
        except BuildFailure as e:
            fail("build/%s/%s" % (b, flv), e, "prime %s" % p)
            return
        bump("evaluations"); bump("builds")
        r = run([exe, "--mode", "smoke", "--q", str(p), "--field", nm, "--seed", str(SEED), "--count", "30" if tier == "quick" else "300"], timeout=240)
        with lock:
            v.absorb(r)

    def armasm(nm, p):
        """The ARM64 source assembles with a real assembler and defines everything the ARM64 build links against."""
        try:
            g = fl.gen_dir(p)
            o = os.path.join(work, nm + ".arm.o")
            sh(["llvm-mc", "-triple=aarch64-linux-gnu", "-filetype=obj", os.path.join(g, "fr_raw_arm64.s"), "-o", o])
            defined = {l.split()[-1] for l in sh(["nm", "-g", "--defined-only", o]).splitlines() if l.strip()}
            need = set()
            have = set()
            for ob in fl.field_objs(p, "arm", "opt"):
                if ob.endswith("vm_l.o"):
                    continue
                for l in sh(["nm", "-g", ob]).splitlines():
                    f = l.split()
                    if len(f) == 2 and f[0] == "U" and re.match(r"_?Fr_", f[1]):
                        need.add(f[1])
                    elif len(f) == 3:
                        have.add(f[2])
            miss = {s for s in need - have if s not in defined}
            bump("evaluations", len(need)); bump("arm64 symbols resolved", len(need))
            if miss:
                with lock:
                    v.violation("arm/symbols", "prime %s: fr_raw_arm64.s does not define %s" % (p, sorted(miss)), ["llvm-mc"])
        except BuildFailure as e:
            fail("build/arm/assemble", e, "prime %s" % p)

    def readme():
        d = os.path.join(work, "readme")
        try:
            gen_into(fl.BN_R, "Fr", d)
            open(os.path.join(d, "main.cpp"), "w").write(README)
            sh(["nasm", "-felf64", "fr.asm"], cwd=d)
            sh("g++ -w main.cpp fr.o fr.cpp -DUSE_ASM -DARCH_X86_64 -o example -no-pie -lgmp", cwd=d)
            sh("g++ -w main.cpp fr.cpp fr_generic.cpp fr_raw_generic.cpp -o example2 -lgmp", cwd=d)
            for ex in ("./example", "./example2"):
                out = sh([ex], cwd=d)
                bump("evaluations")
                if out != "Result: 12\n":
                    v.violation("readme/output", "%s printed %r" % (ex, out), [ex])
        except BuildFailure as e:
            fail("readme/build", e, "README example")

    def pair(i, a, b):
        """Two fields, two names, one program; and every published symbol carries its field's name."""
        d = os.path.join(work, "pair%d" % i)
        (N0, p0), (N1, p1) = a, b
        try:
            gen_into(p0, N0, d)
            gen_into(p1, N1, d)
            n0, n1 = N0.lower(), N1.lower()
            open(os.path.join(d, "main.cpp"), "w").write(PAIR.format(N0=N0, N1=N1, n0=n0, n1=n1, p0=p0, p1=p1))
            sh(["nasm", "-felf64", n0 + ".asm"], cwd=d)
            sh(["nasm", "-felf64", n1 + ".asm"], cwd=d)
            sh("g++ -w main.cpp {0}.o {0}.cpp {1}.o {1}.cpp -DUSE_ASM -DARCH_X86_64 -o a -no-pie -lgmpxx -lgmp".format(n0, n1), cwd=d)
            sh("g++ -w main.cpp {0}.cpp {0}_generic.cpp {0}_raw_generic.cpp {1}.cpp {1}_generic.cpp {1}_raw_generic.cpp -o b -no-pie -lgmpxx -lgmp".format(n0, n1), cwd=d)
            sh("llvm-mc -triple=aarch64-linux-gnu -filetype=obj {0}_raw_arm64.s -o {0}.arm && llvm-mc -triple=aarch64-linux-gnu -filetype=obj {1}_raw_arm64.s -o {1}.arm".format(n0, n1), cwd=d)
            s0 = {l.split()[-1] for l in sh(["nm", "-g", "--defined-only", n0 + ".arm"], cwd=d).splitlines() if l.strip()}
            s1 = {l.split()[-1] for l in sh(["nm", "-g", "--defined-only", n1 + ".arm"], cwd=d).splitlines() if l.strip()}
            bump("evaluations")
            if s0 & s1:
                v.violation("pair/arm-symbols", "the ARM64 files of %s and %s both define %s" % (N0, N1, sorted(s0 & s1)[:5]), ["nm"])
            for ex in ("./a", "./b"):
                r = run([ex], cwd=d, timeout=120)
                out = r.tail
                bump("evaluations", 240 * 6); bump("paired fields")
                if "BAD 0" not in out:
                    with lock:
                        v.violation("pair/value", "fields %s=%s and %s=%s in one program (%s): %s" % (N0, p0, N1, p1, ex, out[-400:]), [ex])
        except BuildFailure as e:
            fail("pair/build", e, "fields %s=%s and %s=%s" % (N0, p0, N1, p1))

    def options(mask, style):
        """-oa, -oh and -oc rename the files the usage text says they rename; every other file is written as without them, and nothing else is."""
        d = os.path.join(work, "opt%d%d" % (mask, style))
        names = [("x.asm", "x.hpp", "x.cpp"), ("out.s", "out.h", "out.c"), ("sub/fr.asm", "sub/fr.hpp", "sub/fr.cpp"), ("A File", "Fr.HPP", "noext"), (os.path.join(d, "abs.asm"), "../opt%d%d/up.h" % (mask, style), "./d.cc")][style]
        os.makedirs(d + "/sub")
        want = {f.format("fr"): f.format("fr") for f in FILES}
        args = []
        for i, (o, ref) in enumerate((("oa", "fr.asm"), ("oh", "fr.hpp"), ("oc", "fr.cpp"))):
            if mask >> i & 1:
                args += ["--" + o, names[i]]
                want[ref] = os.path.relpath(os.path.join(d, names[i]), d)
        if (mask + style) % 2:      # older and longer files are in the way
            for f in want.values():
                with open(os.path.join(d, f), "w") as o:
                    o.write("an older file\n" * 40000)
        try:
            g = fl.gen_dir(fl.BN_R)
            gen_into(fl.BN_R, "Fr", d, args)
            got = {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}
            for ref, f in want.items():
                bump("evaluations")
                if f not in got or not filecmp.cmp(os.path.join(d, f), os.path.join(g, ref), shallow=False):
                    with lock:
                        v.violation("options/" + ref, "with %s, %s is not what %s is without them" % (" ".join(args), f, ref), ["buildzqfield"] + args)
            if got != set(want.values()):
                with lock:
                    v.violation("options/files", "with %s, the files written are %s and not %s" % (" ".join(args), sorted(got), sorted(want.values())), ["buildzqfield"] + args)
        except BuildFailure as e:
            fail("options/fails", e, " ".join(args))

    def blocked(i):
        """One of the files cannot be written: the run must not pass for a success."""
        d = os.path.join(work, "blk%d" % i)
        os.makedirs(d)
        args = []
        if i < len(FILES):
            os.makedirs(os.path.join(d, FILES[i].format("fr")))
            what = "its file %s cannot be created" % FILES[i].format("fr")
        else:
            o = ("oa", "oh", "oc")[(i - len(FILES)) % 3]
            args = ["--" + o, "/dev/full" if i < len(FILES) + 3 else "nowhere/x"]
            what = "%s cannot be written to" % args[1]
            if args[1] == "/dev/full" and not stat_chr("/dev/full"):
                return
        bump("evaluations")
        try:
            gen_into(fl.BN_R, "Fr", d, args)
        except BuildFailure:
            return
        with lock:
            v.violation("options/failure", "the generator ends as if it had succeeded although " + what, ["buildzqfield"] + args)

    rnd = random.Random(SEED)
    names = ["Fr", "Fq", "Bls_Fp", "f2", "Zq7", "goldi", "FP", "aB_c9", "x", "fQ"]
    pairs = [(("Fr", fl.BN_R), ("Fq", fl.BN_Q)), (("Bls_Fp", fl.PRIMES["bls_q"]), ("F", fl.PRIMES["gold"]))]
    fixed = [("goldi", "FP"), ("aB_c9", "f2")]      # names in every style of capitals
    for i in range(2 if tier == "quick" else 14):
        (a, b), (n0, n1) = rnd.sample(list(base.values()), 2), fixed[i] if i < len(fixed) else rnd.sample(names, 2)
        if n0.lower() == n1.lower():
            continue
        pairs.append(((n0, a), (n1, b)))
    jobs = [(readme,)] + [(options, m, st) for m in range(8) for st in range(5)] + [(blocked, i) for i in range(len(FILES) + 6)] + [(pair, i, a, b) for i, (a, b) in enumerate(pairs)]
    for nm, p in base.items():
        jobs += [(repro, nm, p), (armasm, nm, p)] + [(smoke, nm, p, b, "opt") for b in ("asm", "gen", "arm")]
    for nm in (("bn_r", "p521") if tier == "quick" else list(base)):
        jobs += [(smoke, nm, base[nm], "gen", "clang"), (smoke, nm, base[nm], "asm", "clang")]
    try:
        pmap(lambda s, f: fl.harness_obj(s, f), [(s, f) for f in ("opt", "clang") for s in ("field_main.cpp", "abi_probe.S", "sanopts.c")])
        pmap(lambda *j: j[0](*j[1:]), jobs)
    except BuildFailure as e:
        raise HarnessError("harness does not compile: %s\n%s" % (e.what, e.log[-2000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    v.extra["fields"] = sorted(base)
    v.extra["bit_lengths"] = sorted({p.bit_length() for p in base.values()})
    return v
