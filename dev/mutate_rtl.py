#!/usr/bin/env python3
"""Token mutations of the hardware cells (development only): which does C29 not report?

  python3 dev/mutate_rtl.py [CELL...]"""
import os, re, shutil, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from usa import hw, scen      # noqa: E402

SUBS = [(r"(?<![&=<>!])&(?![&{])", ["|"]), (r"\|(?!\|)", ["&"]), (r"\^", ["&"]), (r"~", [""]), (r"(?<![+:])\+(?![+:])", ["-"]), (r"(?<![-:])-(?![-:1])", ["+"]), (r"\b1\b(?!')", ["0"]), (r"1'b1", ["1'b0"]), (r"1'b0", ["1'b1"]),
        (r"<= 0;", ["<= 1;"]), (r"> ", [">= "]), (r"cntFull\b", ["cntEmpty"]), (r"cntEmpty\b", ["cntFull"]), (r"\bin0\b", ["in1"]), (r"\bdividend\b", ["divisor"]), (r"\bout\b", ["in"]), (r"\bDEP-1\b", ["DEP-2"]), (r"\? ", ["? 0 & "])]


def sites(text):
    body = text.index(");") if ");" in text else 0
    clean = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: " " * len(m.group()), text, flags=re.S)
    for pat, reps in SUBS:
        for m in re.finditer(pat, clean):
            if m.start() > body and "include" not in clean[clean.rfind("\n", 0, m.start()) + 1:m.end()]:
                for r in reps:
                    yield m.start(), m.end(), r


def one(a):
    cell, rel, st, en, r = a
    tmp = tempfile.mkdtemp(prefix="mrtl_")
    try:
        shutil.copytree("/repo/hw/kernel", tmp + "/hw/kernel", ignore=shutil.ignore_patterns("old"))
        shutil.copytree("/repo/hw/stream", tmp + "/hw/stream", ignore=shutil.ignore_patterns("old"))
        p = os.path.join(tmp, rel)
        s = open(p, newline="").read()
        ln = s[:st].count("\n") + 1
        t = s[:st] + r + s[en:]
        open(p, "w", newline="").write(t)
        scen.ROOT = tmp
        out = []
        for par in hw.CELLS[cell][2](False):
            try:
                x = hw.decide(cell, par)
                out.append(x.status)
                if x.status == "VIOLATION":
                    return cell, ln, None, x.why
            except Exception as e:
                out.append("%s %s" % (type(e).__name__, e))
        return cell, ln, s[st:en] + " -> " + r + " | " + t.splitlines()[ln - 1].strip(), ",".join(sorted(set(out)))
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    jobs = []
    for c in sys.argv[1:] or hw.CELLS:
        rel = hw.CELLS[c][0]
        jobs += [(c, rel) + x for x in sites(open("/repo/" + rel, newline="").read())]
    n = bad = 0
    with ProcessPoolExecutor(7) as ex:
        for cell, ln, what, why in ex.map(one, jobs, chunksize=2):
            n += 1
            if what:
                bad += 1
                print("%s:%d %s  [%s]" % (cell, ln, what, why), flush=True)
    print(n, "mutants", bad, "not reported")
