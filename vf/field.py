"""Generated prime fields: generation, builds per backend, field workloads."""
import os, random, shutil, tempfile
from .core import *

NODE_ENV = {"NODE_PATH": os.path.join(VERIF, "shims", "node_modules")}
SANF = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
FLAVORS = {   # name: (compiler, flags for the library, flags for the harness, link flags)
    "san": ("g++", ["-g1", "-O1"] + SANF, ["-g1", "-O1"] + SANF, SANF),
    "opt": ("g++", ["-O3", "-DNDEBUG"], ["-O2", "-DNDEBUG"], []),       # a release build: assertions are off
    "tsan": ("clang++", ["-g1", "-O1", "-fsanitize=thread"], ["-g1", "-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "gtsan": ("g++", ["-g1", "-O1", "-fsanitize=thread"], ["-g1", "-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "vg": ("g++", ["-g1", "-O1"], ["-g1", "-O1"], []),
    "clang": ("clang++", ["-g1", "-O2"] + SANF, ["-g1", "-O1"] + SANF, SANF),
}
BACKENDS = {"asm": ["-DUSE_ASM", "-DARCH_X86_64"], "gen": [], "arm": ["-DUSE_ASM", "-DARCH_ARM64"]}
LIBS = ["-lgmpxx", "-lgmp", "-no-pie", "-z", "noexecstack", "-lpthread"]

HELPERS = ["rawAnd", "rawOr", "rawXor", "rawSubRegular", "rawNot", "rawCmp", "rawZero", "rawCopyS2L", "rawAddLS", "rawSubSL", "rawSubLS", "rawNegLS"]

BN_R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BN_Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
PRIMES = {
    "bn_r": BN_R, "bn_q": BN_Q,
    "gold": 0xFFFFFFFF00000001,
    "p63": 2**63 - 25,
    "m127": 2**127 - 1,
    "p128": 2**128 - 159,
    "p192": 2**192 - 2**64 - 1,
    "secp_q": 2**256 - 2**32 - 977,
    "secp_r": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    "ed25519": 2**255 - 19,
    "p521": 2**521 - 1,
    "bls_q": 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
    "bls_r": 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
    "p384": 2**384 - 2**128 - 2**96 + 2**32 - 1,
    "p448": 2**448 - 2**224 - 1,
    "p512": 2**512 - 569,
    "mnt_q": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888253786114353726529584385201591605722013126468931404347949840543007986327743462853720628051692141265303114721689601,
    "m607": 2**607 - 1,
    "t65": 2**64 + 13,                   # a top limb of one
    "t129": 2**128 + 51,                 # and an empty one below it
}


QUICK = ["bn_r", "bn_q", "gold", "p63", "m127", "p128", "p192", "secp_q", "ed25519", "bls_q", "p384", "p448", "p512", "p521", "mnt_q", "t65", "t129"]


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def random_prime(rnd, bits, shape):
    """A prime of exactly `bits` bits; shape: anything / just above 2^(bits-1) / just below 2^bits."""
    lo, hi = 1 << (bits - 1), (1 << bits) - 1
    if shape == 0:
        n = rnd.getrandbits(bits) | lo | 1
    elif shape == 1:
        n = lo + 1 + 2 * rnd.getrandbits(8)
    else:
        n = hi - 2 * rnd.getrandbits(8)
    step = 2 if shape != 2 else -2
    while not (lo <= n <= hi and is_prime(n)):
        n += step
        if not lo <= n <= hi:
            n = rnd.getrandbits(bits) | lo | 1
    return n


def sized_primes(limbs, shapes):
    """Per limb count: full width, 64k-1 bits with an all-ones top limb, and with the largest top limb that allows the short carry chain."""
    out = {}
    for k in limbs:
        for sh_ in shapes:
            rnd = random.Random(1000 * k + sh_)
            if sh_ == 0:
                n = random_prime(rnd, 64 * k, 2)
            elif sh_ == 1:
                n = random_prime(rnd, 64 * k - 1, 2)
            else:
                n = ((0x7FFFFFFFFFFFFFFE << 64 * (k - 1)) | rnd.getrandbits(64 * (k - 1)) if k > 1 else 0x7FFFFFFFFFFFFFFE - 200) | 1
                while not is_prime(n):
                    n += 2
            out["w%d%s" % (k, "fom"[sh_])] = n
    return out


def random_primes(seed, count):
    rnd = random.Random(seed * 7919 + 17)
    out = {}
    sizes = [64 * k + d for k in range(1, 13) for d in (-1, 0, 1) if 63 <= 64 * k + d <= 768]
    for i in range(count):
        bits = rnd.choice(sizes) if rnd.random() < 0.6 else rnd.randint(63, 768)
        out["rnd%d_%db" % (i, bits)] = random_prime(rnd, bits, rnd.randrange(3))
    return out


def src_hash():
    return tree_hash(os.path.join(REPO, "src"))


def generate(prime, name, outdir):
    """Run the real generator. Raises BuildFailure if it fails."""
    r = sh(["node", os.path.join(REPO, "src", "buildzqfield.js"), "-q", str(prime), "-n", name], cwd=outdir, env=NODE_ENV, timeout=300)
    want = [name.lower() + e for e in (".asm", ".cpp", ".hpp", "_element.hpp", "_generic.cpp", "_raw_generic.cpp", "_raw_arm64.s")]
    # generation is asynchronous: a missing file is the generator's failure
    for w in want:
        if not os.path.exists(os.path.join(outdir, w)) or os.path.getsize(os.path.join(outdir, w)) == 0:
            raise BuildFailure("generate %s" % prime, "the generator did not produce %s\n%s" % (w, r))
    return r


def gen_dir(prime, name="Fr"):
    return cached_dir("gen-" + sha(src_hash(), tree_hash(os.path.join(VERIF, "shims")), str(prime), name), lambda d: generate(prime, name, d))


def harness_obj(src, flavor, extra=()):
    cxx, _, hf, _ = FLAVORS[flavor]
    path = os.path.join(HARNESS, src)
    key = "hob-" + sha(tree_hash(HARNESS), src, flavor, " ".join(extra), cxx, " ".join(hf))

    def make(d):
        if src.endswith((".c", ".S")):
            sh([("gcc" if cxx == "g++" else "clang"), "-w", "-O1", "-g"] + list(extra) + ["-c", path, "-o", os.path.join(d, "o.o")])
        else:
            sh([cxx, "-w", "-std=c++17", "-I" + HARNESS] + list(hf) + list(extra) + ["-c", path, "-o", os.path.join(d, "o.o")])
    return os.path.join(cached_dir(key, make), "o.o")


def field_objs(prime, backend, flavor, name="Fr", d=None, adapter=True):
    """Objects of one generated field for one backend (library objects, adapter object)."""
    g = gen_dir(prime, name)
    cxx, lf, hf, _ = FLAVORS[flavor]
    n = name.lower()
    key = "fob-" + sha(g, tree_hash(HARNESS), backend, flavor, cxx, " ".join(lf), " ".join(hf), name)

    def make(d):
        jobs = []
        D = BACKENDS[backend]
        hpp = open(os.path.join(g, n + ".hpp")).read()
        if backend != "gen":      # the branch of the header this backend selects
            hpp = hpp[hpp.find("ARCH_X86_64" if backend == "asm" else "ARCH_ARM64"):]
            hpp = hpp[:min([x for x in (hpp.find("#elif"), hpp.find("#else"), len(hpp)) if x > 0])]
        else:
            hpp = hpp[hpp.find("#else"):]
        H = ["-DHAVE_" + h for h in HELPERS if re.search(r"\b%s_%s\s*\(" % (name, h), hpp)]
        for src in ([n + ".cpp"] if backend == "asm" else [n + ".cpp", n + "_generic.cpp", n + "_raw_generic.cpp"]):
            jobs.append([cxx, "-w", "-std=c++11"] + lf + D + ["-I.", "-c", os.path.join(g, src), "-o", os.path.join(d, src[:-4] + "_l.o")])
        if backend == "asm":
            jobs.append(["nasm", "-felf64", os.path.join(g, n + ".asm"), "-o", os.path.join(d, n + "_a.o")])
        if backend == "arm":
            jobs.append(["g++", "-w", "-O2", "-std=c++17", "-I" + g, "-I" + HARNESS, '-DARM_S="%s_raw_arm64.s"' % n, "-c", os.path.join(HARNESS, "armvm.cpp"), "-o", os.path.join(d, "vm_l.o")])
        jobs.append([cxx, "-w", "-std=c++17"] + hf + D + ["-I" + g, "-I" + HARNESS, '-DBACKEND_NAME="%s"' % backend] + H + [ "-c", os.path.join(HARNESS, "field_adapter.cpp"), "-o", os.path.join(d, "zz_adapter.o")])
        for j in jobs:
            sh(j, cwd=g)
    d = cached_dir(key, make)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")]


def field_exe(prime, backend, flavor):
    objs = field_objs(prime, backend, flavor)
    main = [harness_obj("field_main.cpp", flavor), harness_obj("abi_probe.S", flavor), harness_obj("sanopts.c", flavor)]
    cxx, _, _, ld = FLAVORS[flavor]
    key = "fex-" + sha(*(objs + main))

    def make(d):
        sh([cxx] + ld + main + objs + LIBS + ["-o", os.path.join(d, "t")])
    return os.path.join(cached_dir(key, make), "t")


def vgfield_exe(prime, backend, flavor="vg"):
    """The memcheck workload over one field (no ABI probe, no sanitizer)."""
    objs = field_objs(prime, backend, flavor)
    main = [harness_obj("vgfield_main.cpp", flavor)]
    key = "vex-" + sha(*(objs + main))

    def make(d):
        sh(["g++"] + main + objs + LIBS + ["-o", os.path.join(d, "t")])
    return os.path.join(cached_dir(key, make), "t")


def field_check(prop, tier, modes, rule, keyfilter=None, count=400, assumptions=()):
    """Drive `modes` on every (prime, backend, flavor) of the tier."""
    v = Verdict(prop, tier, rule, keyfilter)
    v.assumptions = list(assumptions)
    base = {k: PRIMES[k] for k in QUICK} if tier == "quick" else dict(PRIMES)
    base.update(sized_primes((5, 9, 10, 11), (0, 2)) if tier == "quick" else sized_primes(range(1, 13), (0, 1, 2)))
    base.update(random_primes(SEED, 3 if tier == "quick" else 30))
    plan = []
    for nm, p in base.items():
        for b in ("asm", "gen", "arm"):
            plan.append((nm, p, b, "san", count if tier == "quick" else count * 10))
    for nm in (("bn_r", "secp_q", "p448") if tier == "quick" else list(base)):
        for b in ("asm", "gen", "arm"):
            plan.append((nm, base.get(nm) or PRIMES[nm], b, "opt", count * 4 if tier == "quick" else count * 40))
    if tier != "quick":
        for nm in PRIMES:
            plan.append((nm, PRIMES[nm], "gen", "clang", count * 10))
    flavors = sorted({x[3] for x in plan})
    try:
        pmap(lambda s, f: harness_obj(s, f), [(s, f) for f in flavors for s in ("field_main.cpp", "abi_probe.S", "sanopts.c")])
    except BuildFailure as e:
        raise HarnessError("harness does not compile: %s\n%s" % (e.what, e.log[-2000:]))

    def one(nm, p, b, fl, cnt):
        exe = field_exe(p, b, fl)
        res = []
        for m in modes:
            cmd = [exe, "--mode", m, "--q", str(p), "--field", nm, "--seed", str(SEED + (1000 if fl != "san" else 0)), "--count", str(cnt)]
            res.append(run(cmd, timeout=240 if tier == "quick" else 1500))
        return res
    try:
        results = pmap(one, plan)
    except BuildFailure as e:
        if prop == "C11":
            raise
        raise HarnessError("a field library does not build: %s\n%s" % (e.what, e.log[-2000:]))
    for res in results:
        for r in res:
            v.absorb(r)
    v.extra["fields"] = sorted(base)
    v.extra["bit_lengths"] = sorted({p.bit_length() for p in base.values()})
    v.extra["backends"] = {"asm": "x86-64 assembly, run natively", "gen": "portable C++", "arm": "ARM64 assembly, interpreted instruction by instruction"}
    return v
