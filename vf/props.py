"""One entry per property."""
from . import field, gencheck, comp

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def cls(*classes):
    """Keys are <entry point>/<backend>/<class>."""
    return lambda key: key.split("/")[-1] in classes


def notcls(*classes):
    return lambda key: key.split("/")[-1] not in classes


R = ("a case is one call of a generated entry point, judged against an independent GMP model of the field; operands are drawn from "
     "representation boundaries (0, ±1, ±2^31, q/2, q-1, 2^k±1, limb patterns) and at random, in all four encodings; "
     "distinct = distinct (operation, encodings, value classes, field) combinations seen")
ASM = ["the ARM64 assembly is executed by an interpreter written for this project (no ARM hardware here)",
       "primes of 63 to 768 bits; division by zero is outside the contract"]
MEMORY = ("stray", "operand", "abi", "armabi", "leak")


@check("C01")
def c01(tier):
    return field.field_check("C01", tier, ["arith"], R, notcls(*MEMORY), 2500, assumptions=ASM)


@check("C02")
def c02(tier):
    return field.field_check("C02", tier, ["div"], R, notcls(*MEMORY), 1500, assumptions=ASM)


@check("C03")
def c03(tier):
    return field.field_check("C03", tier, ["cmp"], R, notcls(*MEMORY), 1500, assumptions=ASM)


@check("C04")
def c04(tier):
    return field.field_check("C04", tier, ["bits"], R, notcls(*MEMORY), 2500, assumptions=ASM)


@check("C05")
def c05(tier):
    return field.field_check("C05", tier, ["toint"], R, notcls(*MEMORY), 2500, assumptions=ASM)


@check("C06")
def c06(tier):
    return field.field_check("C06", tier, ["raw"], R, notcls(*MEMORY), 2500, assumptions=ASM)


@check("C07")
def c07(tier):
    return field.field_check("C07", tier, ["alias"], R, cls("alias"), 3000, assumptions=ASM)


@check("C08")
def c08(tier):
    return field.field_check("C08", tier, ["mem"], R + "; operands lie flush against guard pages with canaries around them, callee-saved registers hold sentinels",
                             cls(*MEMORY), 2500, assumptions=ASM)


@check("C09")
def c09(tier):
    return field.field_check("C09", tier, ["conv"], R, notcls("operand", "abi", "armabi"), 2500, assumptions=ASM)


@check("C10")
def c10(tier):
    return field.field_check("C10", tier, ["derived"], R, notcls(*MEMORY), 1500, assumptions=ASM)


@check("C11")
def c11(tier):
    return gencheck.check(tier)


A = ("a case is one call of an operation of the component over a small field with an independent big-integer model, or over BN254/secp256r1 through the generated field; "
     "distinct = distinct (operation, configuration, value classes) combinations seen")


@check("C12")
def c12(tier):
    return comp.simple_check("C12", tier, A, comp.alg_plan("tower", tier, 100), timeout=250)


@check("C13")
def c13(tier):
    plan = comp.alg_plan("curve", tier, 80, (("san", "gen"), ("opt", "asm")))
    plan += [((lambda b=b, o=o, f=f: comp.alg_exe(f, b, o)), ["--mode", "engine", "--seed", comp.SEED, "--count", 100 if tier == "quick" else 1000], None)
             for f, b, o in (("san", "gen", True), ("san", "asm", True), ("opt", "asm", True), ("opt", "asm", False), ("opt", "gen", False))]
    return comp.simple_check("C13", tier, A, plan, timeout=250)


@check("C14")
def c14(tier):
    return comp.simple_check("C14", tier, A, comp.alg_plan("scalar", tier, 100), timeout=250)


M = ("a case is one multiexponentiation compared with a direct sum: over the integers modulo 2^61-1 (a group whose sums are trivial), over random small curves, and over BN254 G1/G2; "
     "distinct = distinct (entry point, count, scalar size, thread count, scalar and base kinds) combinations seen")


# many OpenMP teams share the machine here: threads that spin while waiting would only slow each other down
OMPENV = {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}


def multi_plan(mode, tier, variants):
    q = tier == "quick"
    plan = []
    pools = (1, 2, 3, 5, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 24)
    i = 0
    for p in pools:
        for r in range(1 if q else 4):
            fl_, b, omp, defs = variants[i % len(variants)]
            i += 1
            plan.append(((lambda fl_=fl_, b=b, omp=omp, defs=defs: comp.multi_exe(fl_, b, omp, defs)),
                         ["--mode", mode, "--seed", comp.SEED * 1000 + i, "--count", 500 if q else 4000, "--pool", p, "--big", 2 if q else 6], OMPENV))
    for fl_, b, omp, defs in variants:
        i += 1
        plan.append(((lambda fl_=fl_, b=b, omp=omp, defs=defs: comp.multi_exe(fl_, b, omp, defs)),
                     ["--mode", mode, "--seed", comp.SEED * 1000 + i, "--count", 500 if q else 4000, "--pool", 4, "--big", 2], OMPENV))
    return plan


@check("C15")
def c15(tier):
    v = [("san", "gen", True, ()), ("opt", "asm", True, ()), ("san", "gen", False, ()), ("opt", "asm", False, ())]
    return comp.simple_check("C15", tier, M, multi_plan("multiexp", tier, v), timeout=280)


@check("C16")
def c16(tier):
    v = [("san", "gen", True, ()), ("opt", "asm", True, ()), ("san", "gen", True, ("-DMSM_BITS_PER_CHUNK=4",)), ("opt", "asm", True, ("-DMSM_BITS_PER_CHUNK=8",)),
         ("san", "asm", True, ("-DMSM_BITS_PER_CHUNK=13",)), ("opt", "asm", False, ("-DMSM_BITS_PER_CHUNK=16",))]
    return comp.simple_check("C16", tier, M, multi_plan("msm", tier, v), timeout=280)


F = ("a case is one root of unity, one transform or one inverse transform compared with its definition, over 15 tiny primes, the BN254 scalar and base fields and the Goldilocks field; "
     "distinct = distinct (field, size, declared size, thread count, input kind) combinations seen")


@check("C17")
def c17(tier):
    q = tier == "quick"
    plan, i = [], 0
    for p in (1, 2, 3, 4, 5, 6, 8, 13) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 24, 31, 33, 64):
        for fl_, b in ((("san", "gen"),) if i % 2 else (("opt", "asm"),)) if q else (("san", "gen"), ("opt", "asm"), ("san", "asm")):
            i += 1
            plan.append(((lambda fl_=fl_, b=b: comp.fft_exe(fl_, b)), ["--seed", comp.SEED * 1000 + i, "--count", 300 if q else 2000, "--pool", p, "--big", 3 if q else 12], OMPENV))
        i += q
    return comp.simple_check("C17", tier, F, plan, timeout=280 if q else 800)


TP = ("a case is one parallel call on the pool (every index and every piece of it is counted), or one construction and destruction; "
      "distinct = distinct (range, thread count, call pattern) combinations and distinct interleavings seen")


@check("C18")
def c18(tier):
    q = tier == "quick"
    plan = []
    for s in range(8 if q else 64):
        plan.append(((lambda: comp.pool_exe("sched")), ["--seed", comp.SEED * 1000 + s, "--count", 12000 if q else 100000, "--shared", 0, "--threads", 1 + s % 7], None))
    for k in ("san", "opt", "tsan"):
        for s in range(2 if q else 6):
            plan.append(((lambda k=k: comp.pool_exe(k)), ["--seed", comp.SEED * 1000 + 100 + s, "--count", 12000 if q else 100000, "--shared", 0, "--threads", 2 + 3 * s], None))
    # pools of more threads than one byte can count
    for k in ("san", "opt", "tsan"):
        plan.append(((lambda k=k: comp.pool_exe(k)), ["--seed", comp.SEED * 1000 + 200, "--count", 12 if q else 100, "--shared", 0, "--threads", 90, "--least", 250], None))
    return comp.simple_check("C18", tier, TP, plan, timeout=200 if q else 800)


RC = ("a case is one computation whose answer under concurrency is compared with the answer alone, or one parallel computation run under a race detector; "
      "distinct = distinct (computation, thread count, operands) combinations seen")


@check("C19")
def c19(tier):
    q = tier == "quick"
    n = 1 if q else 8
    plan = []
    sd = comp.SEED * 1000
    for s in range(3 if q else 8):
        plan.append(((lambda: comp.multi_exe("gtsan", "gen", own_omp=True)), ["--mode", "multiexp", "--seed", sd + s, "--count", 4 if q else 30, "--pool", 3, "--stride", 6 if q else 1], OMPENV))
    for p in (2, 3, 5, 7) if q else (2, 3, 4, 5, 6, 7, 8, 9, 16):
        plan.append(((lambda: comp.fft_exe("tsan", "gen")), ["--seed", sd + p, "--count", 30 * n, "--pool", p, "--big", 0], OMPENV))
        plan.append(((lambda: comp.multi_exe("tsan", "gen", False)), ["--mode", "msm", "--seed", sd + p, "--count", 200 * n, "--pool", p], OMPENV))
    for s in range(3 if q else 12):
        for v in (("tsan", "gen"), ("opt", "asm"), ("san", "asm"), ("gtsan", "gen", True), ("opt", "gen", True)):
            own = len(v) > 2
            plan.append(((lambda v=v: comp.conc_exe(*v)), ["--seed", sd + 20 + s, "--count", (40 if own else 150) * n, "--pool", (1, 2, 4, 7)[s % 4]], OMPENV))
    for s in range(4 if q else 32):
        plan.append(((lambda: comp.pool_exe("sched")), ["--seed", sd + 40 + s, "--count", 1000 * n, "--shared", 1, "--threads", 2 + s % 5], None))
        plan.append(((lambda: comp.pool_exe("tsan")), ["--seed", sd + 80 + s, "--count", 500 * n, "--shared", 1, "--threads", 2 + s % 5], None))
    for k in range(15):                            # each kind's first use in a process, by several client threads at once
        for v, m in ((("tsan", "gen"), 2), (("gtsan", "gen", True), 1), (("opt", "asm"), 3)):
            for s in range(m if q else 4 * m):
                plan.append(((lambda v=v: comp.conc_exe(*v)), ["--first", k, "--seed", sd + 7 * k + s, "--pool", (2, 3, 1, 4)[(s + k) % 4]], OMPENV))
    return comp.simple_check("C19", tier, RC, plan, timeout=280 if q else 800)


@check("C20")
def c20(tier):
    q = tier == "quick"
    plan = [((lambda f=f: comp.parse_exe(f)), ["--seed", comp.SEED * 100 + s, "--count", (1500 if f == "san" else 4000) * (1 if q else 15), "--len", (7 if f == "san" else 8) + (0 if q else 2)], None)
            for f in ("san", "opt") for s in range(2 if q else 6)]
    return comp.simple_check("C20", tier, "a case is one text, split by the code and by a splitter written from the rules: every text of up to 7 or 8 characters over parentheses, comma, blank and a letter, and random and deeply nested longer ones; distinct = distinct results", plan, timeout=250 if q else 2500)


BC = "a case is one container or one operation on it (open, read, start, end, look up), well-formed or damaged, from a file and from memory; distinct = distinct (kind, size, section layout, source) combinations"


def huge(mode):
    # several GiB of memory: one run each
    return [((lambda: comp.bin_exe("opt")), ["--mode", mode, "--threads", 4], None)]


def bin_plan(mode, tier, n):
    q = tier == "quick"
    return [((lambda f=f: comp.bin_exe(f)), ["--mode", mode, "--seed", comp.SEED * 100 + s, "--count", n * (1 if q else 12), "--threads", (1, 2, 3, 8)[s % 4]], None)
            for f in ("san", "opt") for s in range(4 if q else 16)]


@check("C21")
def c21(tier):
    return comp.simple_check("C21", tier, BC, bin_plan("bin", tier, 1200) + huge("hugebin"), timeout=250)


@check("C22")
def c22(tier):
    return comp.simple_check("C22", tier, BC, huge("hugehead") + huge("hugehead2") + bin_plan("head", tier, 2500), timeout=250)


def mem_plan(mode, tier, variants, count, seeds, wrap=None, env=None, parts=1):
    plan = []
    for i, (fl_, b, omp) in enumerate(variants):
        for s in range(seeds):
            for part in range(parts):
                plan.append(((lambda fl_=fl_, b=b, omp=omp: (wrap or []) + [comp.mem_exe(fl_, b, omp)]),
                             ["--mode", mode, "--seed", comp.SEED * 100 + s, "--count", count, "--pool", (3, 1, 4, 2, 7)[(s + i) % 5], "--part", part, "--parts", parts], env or OMPENV))
    return plan


@check("C23")
def c23(tier):
    q = tier == "quick"
    plan = mem_plan("guard", tier, (("opt", "asm", False), ("opt", "gen", True), ("vg", "asm", True)), 400 if q else 4000, 2 if q else 8)
    plan += mem_plan("guard", tier, (("san", "gen", True), ("san", "asm", False)), 60 if q else 800, 1 if q else 6)
    return comp.simple_check("C23", tier, "a case is one call with every operand in read-only memory flush against an inaccessible page (before it, then after it) and its result likewise in writable memory, "
                             "compared with the same call on ordinary memory; distinct = distinct (call, outcome) pairs", plan, timeout=280 if q else 1500)


LEAKS = ("leak", "memory", "descriptors", "threads", "mappings", "fault", "hang")


@check("C24")
def c24(tier):
    q = tier == "quick"
    env = dict(OMPENV, GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    plan = mem_plan("leak", tier, (("opt", "asm", False), ("opt", "gen", True)), 10 if q else 100, 2 if q else 6, env=env)
    plan += mem_plan("leak", tier, (("san", "gen", True), ("san", "asm", False)), 4 if q else 40, 1 if q else 4, env=env)
    for nm in ("bn_r", "gold", "p384") if q else list(field.PRIMES):
        for b in ("asm", "gen"):
            for m in ("div", "conv", "derived", "mem"):
                plan.append(((lambda nm=nm, b=b: field.field_exe(field.PRIMES[nm], b, "san")), ["--mode", m, "--q", field.PRIMES[nm], "--field", nm, "--seed", comp.SEED, "--count", 300 if q else 3000], None))
    for i, m in enumerate(("bin", "head")):
        plan.append(((lambda: comp.bin_exe("san")), ["--mode", m, "--seed", comp.SEED * 100 + 60 + i, "--count", 300 if q else 3000, "--threads", 2], None))
    return comp.simple_check("C24", tier, "a case is one call inside windows of identical calls after which heap in use, open descriptors, threads and mapped files are compared, or one call of a field or file operation with the heap balanced around it; "
                             "distinct = distinct calls", plan, cls(*LEAKS), timeout=280 if q else 1500)


@check("C25")
def c25(tier):
    comp.need_valgrind()
    q = tier == "quick"
    plan = mem_plan("undef", tier, (("vg", "asm", False), ("vg", "gen", True), ("opt", "gen", False)), 24 if q else 200, 1 if q else 4, wrap=comp.MEMCHECK, parts=4)
    names = ("bn_r", "gold", "p63", "secp_q", "p384", "p521") if q else list(field.PRIMES)
    for nm in names:
        for b in ("asm", "gen", "arm"):
            plan.append(((lambda nm=nm, b=b: comp.MEMCHECK + [field.vgfield_exe(field.PRIMES[nm], b)]), ["--q", field.PRIMES[nm], "--seed", comp.SEED, "--count", 60 if q else 600], None))
    return comp.simple_check("C25", tier, "a case is one call under valgrind's memcheck, the unused parts of operands, the result and the stack being memory nobody wrote: no decision may depend on it and every bit of the outcome must be defined; "
                             "distinct = distinct (call, encoding or outcome) pairs", plan, timeout=280 if q else 1500)


@check("C26")
def c26(tier):
    q = tier == "quick"
    plan = []
    for i, pool in enumerate((1, 2, 3, 4, 6, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16)):
        for omp in (True, False):
            plan.append(((lambda omp=omp: comp.work_exe("opt", omp)), ["--seed", comp.SEED * 100 + 2 * i + omp, "--count", 400 if q else 6000, "--pool", pool, "--big", 18 if q else 21], OMPENV))
    return comp.simple_check("C26", tier, "a case is one multi-scalar multiplication, scalar multiplication, transform, parallel loop or counted curve operation whose group operations, field multiplications or pieces are counted and compared with the promised amount; "
                             "distinct = distinct (algorithm, size, scalar length, thread count) combinations", plan, timeout=280 if q else 1500)


@check("C27")
def c27(tier):
    q = tier == "quick"
    env = dict(OMPENV, GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    plan = []
    for i, (fl_, b, omp) in enumerate((("opt", "asm", False), ("opt", "gen", True), ("san", "gen", False), ("san", "asm", True))):
        for s in range(2 if q else 8):
            plan.append(((lambda fl_=fl_, b=b, omp=omp: comp.fault_exe(fl_, b, omp)), ["--mode", "fault", "--seed", comp.SEED * 100 + 10 * i + s, "--count", 7 if q else 60, "--pool", (3, 1, 4, 2)[(s + i) % 4]], env))
    return comp.simple_check("C27", tier, "a case is one call during which one request for memory, a thread, a descriptor or a mapping is refused, the k-th one for each k; "
                             "distinct = distinct (call, kind of request, number of the request, outcome) combinations", plan, timeout=280 if q else 1500)
