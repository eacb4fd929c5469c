#!/usr/bin/env python3
"""Development aid: random small changes to /repo's sources in scratch copies; which ones survive the checks?
mutate.py FILE PROPS N SEED  -> one line per mutant on stdout (SURVIVED / caught by / no build)"""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", "<="), (r"<=", "<"), (r">=", ">"), (r"(?<![->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![+e])\+(?![+=])", "-"), (r"(?<![-(,=e] )(?<![-e(,=])-(?![->=1])", "+"), (r"\+=", "-="), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"),
       (r"\b2\b", "3"), (r"\b8\b", "7"), (r"\b64\b", "63"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bzz\b", "zzz"), (r"\bb\b", "a"), (r"\ba\b", "b"), (r">>", "<<"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\+\+", "--"), (r"%", "/"), (r"\badd\b", "sub"), (r"\bsub\b", "add"), (r'"adcs"', '"adds"'), (r'"adc"', '"add"'), (r'"hs"', '"lo"'), (r'"xzr"', '"x8"'), (r'"cs"', '"cc"'), (r"\bbreak;", ";"), (r"\breturn;", ";"), (r"\bcontinue;", ";")]


def mutants(path):
    lines = open(path).read().split("\n")
    res, com = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s: com = True
        skip = com or not s or s.startswith(("//", "#", "*", "template", "class", "struct", "public", "private", "const assert", "assert", "typedef", "console")) or "op_comment" in s or "#include" in s or "printf" in s or "std::cout" in s
        if "*/" in s: com = False
        if skip: continue
        code = l.split("//")[0]
        if "<" in code and re.search(r"template|vector<|<typename|static_cast|std::\w+<|Curve<|F\dField<|FFT<|MSM<", code):
            ops = [o for o in OPS if o[0][0] not in "(" and "<" not in o[0] and ">" not in o[0]]
        else:
            ops = OPS
        for pat, rep in ops:
            marks = [k.span() for k in re.finditer(r"<%[-=_]?|[-_]?%>", code)]
            for m in re.finditer(pat, code):
                if any(m.start() < e and b < m.end() for b, e in marks): continue
                res.append((i, l[:m.start()] + rep + l[m.end():]))
        if re.match(r"^\s*[\w\.\->\[\]]+(\(.*\)|\s*[-+*/|&]?=\s*.*);\s*$", code) and not re.match(r"^\s*(return|int|auto|const|let|var|uint|u32|u64)", code):
            res.append((i, "/* removed */"))
        if re.match(r"^\s*this\.op\(.*\);\s*$", code) or re.match(r"^\s*c\.op\(.*\);\s*$", code):
            res.append((i, ""))
    return lines, res


def main():
    f, props, n, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
    rng = random.Random(seed)
    d = "/tmp/mut-%d" % os.getpid()
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    lines, ms = mutants(d + "/" + f)
    rng.shuffle(ms)
    done = tried = 0
    for i, nl in ms:
        if done >= n or tried > 4 * n: break
        tried += 1
        out = list(lines); out[i] = nl
        open(d + "/" + f, "w").write("\n".join(out))
        t = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + d)
        b = subprocess.run(["bash", "-c", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=300)
        if b.returncode: continue
        done += 1
        by, t0, note = None, time.time(), ""
        for p in props:
            env = dict(os.environ, VF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
            try:
                r = subprocess.run(["python3", V + "/check.py", p, "--tier", "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                o = r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                note += " %s:TIMEOUT" % p; continue
            if r.returncode == 1: by = p; break
            if r.returncode == 3: note += " %s:error %s" % (p, "does not build" if "does not" in o else o[-150:].replace("\n", " ")); by = "error"; break
        if by == "error" and "does not build" in note: done -= 1; continue
        print("%s | %s:%d | %s => %s | %.0fs%s" % ("caught by " + by if by else "SURVIVED", f, i + 1, lines[i].strip(), nl.strip(), time.time() - t0, note), flush=True)
    shutil.rmtree(d)


main()
