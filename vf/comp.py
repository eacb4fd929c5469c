"""The C++ components (towers, curves, multiexponentiation, FFT, thread pool, files) built on generated fields."""
import random
from .core import *
from . import field as fl

P256 = 2**256 - 2**224 + 2**192 + 2**96 - 1
BN = [("Fq", fl.BN_Q), ("Fr", fl.BN_R)]
C = os.path.join(REPO, "c")
FLAVORS = fl.FLAVORS


def c_hash():
    return tree_hash(C)


def lib_objs(prime, backend, flavor, name):
    """The field library alone, as a user of the generator would build it."""
    g = fl.gen_dir(prime, name)
    cxx, lf, _, _ = FLAVORS[flavor]
    n = name.lower()
    key = "lib-" + sha(g, backend, flavor, cxx, " ".join(lf), name)

    def make(d):
        D = fl.BACKENDS[backend]
        for src in ([n + ".cpp"] if backend == "asm" else [n + ".cpp", n + "_generic.cpp", n + "_raw_generic.cpp"]):
            sh([cxx, "-w", "-std=c++11"] + lf + D + ["-c", os.path.join(g, src), "-o", os.path.join(d, src[:-4] + ".o")], cwd=g)
        if backend == "asm":
            sh(["nasm", "-felf64", os.path.join(g, n + ".asm"), "-o", os.path.join(d, n + "_a.o")])
    d = cached_dir(key, make)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")]


def comp_exe(main, flavor, backend, fields, srcs=(), flags=(), ld=(), extra_obj=(), std="c++17", field_first=True, libs=None, defs=()):
    """Link one harness with the repository's sources and the generated fields it needs."""
    cxx, lf, hf, l = FLAVORS[flavor]
    gens = [fl.gen_dir(p, n) for n, p in fields]
    fo = []
    for n, p in fields:
        fo += lib_objs(p, backend, flavor, n)
    D = fl.BACKENDS[backend] if fields else []
    inc = ["-I" + C, "-I" + HARNESS] + ["-I" + g for g in gens]
    own = [harness_obj(s, flavor) for s in ("sanopts.c",)] + list(extra_obj)
    key = "cex-" + sha(c_hash(), tree_hash(HARNESS), main, flavor, backend, " ".join(fo + own), " ".join(srcs), " ".join(flags), " ".join(ld), std, str(field_first), " ".join(defs))

    def make(d):
        jobs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-4] + ".o")
            jobs.append([cxx, "-w", "-std=c++11"] + lf + list(flags) + D + inc + ["-include", "stdexcept", "-c", os.path.join(C, s), "-o", o])
        jobs.append([cxx, "-w", "-std=" + std] + hf + list(flags) + list(defs) + D + inc + ["-include", "stdexcept", "-c", os.path.join(HARNESS, main), "-o", os.path.join(d, "main.o")])
        for j in jobs:
            sh(j)
        so = [os.path.join(d, os.path.basename(s)[:-4] + ".o") for s in srcs] + [os.path.join(d, "main.o")]
        objs = fo + so if field_first else so + fo
        sh([cxx] + l + objs + own + list(ld) + (fl.LIBS if libs is None else libs) + ["-o", os.path.join(d, "t")])
        for o in so:
            os.unlink(o)
    return os.path.join(cached_dir(key, make), "t")


harness_obj = fl.harness_obj


def simple_check(prop, tier, rule, plan, keyfilter=None, assumptions=(), timeout=300):
    """plan: list of (exe-thunk, args, env). Every run is absorbed."""
    v = Verdict(prop, tier, rule, keyfilter)
    v.assumptions = list(assumptions)

    def one(thunk, args, env=None):
        e = thunk()
        return run((e if isinstance(e, list) else [e]) + [str(a) for a in args], timeout=timeout, env=env)
    try:
        res = pmap(one, plan)
    except BuildFailure as e:
        raise HarnessError("does not build: %s\n%s" % (e.what[-400:], e.log[-2500:]))
    for r in res:
        v.absorb(r)
    return v


ALG_FIELDS = BN + [("Fp", P256)]


def alg_exe(flavor, backend, first=True):
    return comp_exe("algebra_main.cpp", flavor, backend, ALG_FIELDS, ["alt_bn128.cpp", "naf.cpp", "splitparstr.cpp", "misc.cpp"], field_first=first)


def alg_plan(mode, tier, count, combos=(("san", "gen"), ("san", "asm"), ("opt", "asm"))):
    plan = []
    for fl_, b in combos:
        for s in range(2 if tier == "quick" else 8):
            plan.append(((lambda fl_=fl_, b=b: alg_exe(fl_, b)), ["--mode", mode, "--seed", SEED * 100 + s, "--count", count if tier == "quick" else count * 12], None))
    if tier != "quick":
        plan.append(((lambda: alg_exe("clang", "gen")), ["--mode", mode, "--seed", SEED * 100 + 50, "--count", count * 4], None))
    return plan


BN_SRCS = ["alt_bn128.cpp", "naf.cpp", "splitparstr.cpp", "misc.cpp"]


def multi_exe(flavor, backend, omp=True, defs=(), own_omp=False):
    if own_omp:
        g = harness_obj("mini_gomp.c", flavor, ("-fsanitize=thread",) if flavor == "gtsan" else ())
        return comp_exe("multi_main.cpp", flavor, backend, BN, BN_SRCS, flags=["-fopenmp", "-DUSE_OPENMP"], extra_obj=[g], defs=defs)
    fl_ = ["-fopenmp", "-DUSE_OPENMP"] if omp else []
    return comp_exe("multi_main.cpp", flavor, backend, BN, BN_SRCS, flags=fl_, ld=["-fopenmp"] if omp else [], defs=defs)


def fft_exe(flavor, backend, defs=()):
    return comp_exe("fft_main.cpp", flavor, backend, BN + [("Gl", fl.PRIMES["gold"])], ["naf.cpp", "misc.cpp"], defs=defs)


def pool_exe(kind):
    """kind: sched (controlled), tsan, san, opt."""
    if kind == "sched":
        return comp_exe("pool_main.cpp", "opt", "gen", [], ["misc.cpp"], flags=["-g1"], defs=["-DCONTROLLED"], extra_obj=[harness_obj("ctl_sched.cpp", "opt")], libs=["-lgmpxx", "-lgmp", "-lpthread", "-ldl"])
    return comp_exe("pool_main.cpp", kind, "gen", [], ["misc.cpp"], libs=["-lgmpxx", "-lgmp", "-lpthread"])


def conc_exe(flavor, backend, own_omp=False):
    flags = ["-fopenmp", "-DUSE_OPENMP"] if own_omp else []
    extra = [harness_obj("mini_gomp.c", flavor, ("-fsanitize=thread",) if flavor == "gtsan" else ())] if own_omp else []
    return comp_exe("conc_main.cpp", flavor, backend, BN, BN_SRCS, flags=flags, extra_obj=extra)


def parse_exe(flavor):
    return comp_exe("parse_main.cpp", flavor, "gen", BN, BN_SRCS)


def bin_exe(flavor):
    """binfile_utils.cpp includes a header that the repository does not carry; harness/stub has a stand-in for it."""
    return comp_exe("bin_main.cpp", flavor, "gen", [], ["binfile_utils.cpp", "wtns_utils.cpp", "zkey_utils.cpp"], flags=["-fopenmp", "-I" + os.path.join(HARNESS, "stub")], ld=["-fopenmp"], libs=["-lgmpxx", "-lgmp", "-lpthread"])


MEM_FIELDS = BN + [("Fp", P256), ("Gl", fl.PRIMES["gold"])]


def mem_exe(flavor, backend, omp=False):
    o = ["-fopenmp", "-DUSE_OPENMP"] if omp else []
    return comp_exe("mem_main.cpp", flavor, backend, MEM_FIELDS, BN_SRCS + ["binfile_utils.cpp", "wtns_utils.cpp", "zkey_utils.cpp"],
                    flags=o + ["-I" + os.path.join(HARNESS, "stub")], ld=["-fopenmp"])


WRAPS = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "open", "fstat", "mmap", "read", "fopen")]


def fault_exe(flavor, backend, omp=False):
    o = ["-fopenmp", "-DUSE_OPENMP"] if omp else []
    return comp_exe("mem_main.cpp", flavor, backend, MEM_FIELDS, BN_SRCS + ["binfile_utils.cpp", "wtns_utils.cpp", "zkey_utils.cpp"],
                    flags=o + ["-I" + os.path.join(HARNESS, "stub")], ld=["-fopenmp", "-ldl"] + WRAPS, defs=["-DVF_FAULT"])


def work_exe(flavor, omp=True):
    o = ["-fopenmp", "-DUSE_OPENMP"] if omp else []
    return comp_exe("work_main.cpp", flavor, "gen", [], ["naf.cpp", "splitparstr.cpp", "misc.cpp"], flags=o, ld=o[:1], libs=["-lgmpxx", "-lgmp", "-lpthread"])


MEMCHECK = ["valgrind", "-q", "--error-limit=no", "--num-callers=12"]


def need_valgrind():
    if not shutil.which("valgrind"):
        raise HarnessError("valgrind is not installed")
