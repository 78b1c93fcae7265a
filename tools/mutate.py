#!/usr/bin/env python3
"""Development aid: random small changes to a source file, run a check on each, list those it misses.
mutate.py SEED COUNT FILE[:from-to] CHECK [CHECK...]     (works in copies under /tmp/mut)"""
import os, random, re, shutil, subprocess, sys
seed, count, spec, checks = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
f, _, rng = spec.partition(":")
W = "/tmp/mut%d" % os.getpid()
os.makedirs(W)
subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
subprocess.check_call(["git", "clone", "-q", "/verif", W + "/verif"])
p = W + "/repo/" + f
orig = open(p).read().split("\n")
lo, hi = (int(x) for x in rng.split("-")) if rng else (1, len(orig))
random.seed(seed)
OPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+\+", "--"), (r" \+ ", " - "), (r" - ", " + "), (r"\b0x([0-9a-fA-F]+)\b", "HEX"), (r"(?<![\w.])(\d+)\b", "DEC"), (r" & ", " | "), (r" \| ", " & "), (r"~", ""), (r"\|=", "="), (r"^\s*[\w\->\.\[\] ]+ [|&^+-]?= .*;\s*$", "DEL"), (r"^\s*[a-z_0-9]+\(.*\);\s*$", "DEL"), (r"<<", ">>"), (r"\bbreak;", ";")]
def sites():
    out = []
    for i in range(lo - 1, min(hi, len(orig))):
        l = orig[i]
        if "log_" in l or l.lstrip().startswith(("/*", "*", "//", "#", "case", "static", "int ", "uint", "struct", "char")): continue
        c = l.split("/*")[0]
        for rx, to in OPS:
            for m in re.finditer(rx, c): out.append((i, m, to))
    return out
S = sites(); random.shuffle(S)
done = 0
for i, m, to in S:
    if done >= count: break
    l = orig[i]
    if to == "HEX":
        v = int(m.group(1), 16); r = "0x%x" % (v ^ (1 << random.randrange(max(1, v.bit_length()))))
    elif to == "DEC":
        r = str(int(m.group(1)) + random.choice([1, -1, 1]))
        if r.startswith("-"): r = "1"
    elif to == "DEL": r = ";"
    else: r = to
    n = l[:m.start()] + r + l[m.end():]
    if n == l: continue
    new = list(orig); new[i] = n
    open(p, "w").write("\n".join(new))
    t = subprocess.run(["gcc", "-fsyntax-only", "-w", "-I" + W + "/repo/_build/src", "-I" + W + "/repo/src", "-I" + W + "/repo/src/device", "-I" + W + "/repo/src/panel", "-I" + W + "/repo/src/model1052", "-I" + W + "/repo/_build/" + os.path.dirname(f), "-I" + os.path.dirname(p), p], capture_output=True)
    if t.returncode: continue
    done += 1
    killed = None
    for c in checks:
        r = subprocess.run(["./check.sh", c], cwd=W + "/verif", env=dict(os.environ, MC_REPO=W + "/repo"), capture_output=True, text=True, errors="replace")
        if r.returncode:
            k = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "sig" in x][:1]
            killed = c + (" rc%d" % r.returncode if r.returncode != 1 else ""); break
    print("%s %s:%d: %s   ->   %s" % ("killed " + killed if killed else "SURVIVED", f, i + 1, l.strip(), n.strip()), flush=True)
shutil.rmtree(W)
