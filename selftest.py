#!/usr/bin/env python3
"""Every rule must fire on its deliberately broken unit in fixtures/ and hold on the correct one."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from usa import scen, hw as HW, effects as E, terms as T, tensor as TT   # noqa: E402
from usa import refs as R                                      # noqa: E402
from usa.refs import BlockRef                                 # noqa: E402
from usa.scen import Scn, In, analyse                          # noqa: E402
from usa.catalog import T_                                     # noqa: E402
from usa.compare import check                                  # noqa: E402
from usa.terms import ZERO, ONE                                # noqa: E402

F = "float32"


class OrBlock(R.Block):


    def init(self):
        return {"a": [ZERO, ZERO]}


def Or():
    """reference for the correct unit"""
    def run(st, new, ins):
        new["a"] = [T.pmax(s, x) for s, x in zip(st["a"], ins["x"])]
        return [T_((2,), F, new["a"])]
    return BlockRef([OrBlock("o", 2)], run)


def unit(name, width=2, **k):
    return Scn(name, "kernel." + name, lambda env: env.make("kernel." + name, env.cfg({"width": width})), [In("x", (2,), F)], **k)


def grad():
    return Scn("BadGrad", "kernel.BadGrad", lambda env: env.make("kernel.BadGrad", env.param("w", (1, 2), F)), [In("x", (1, 2), F, "real", -1, 1)])


def mix(s):
    return E.independent(s, lambda t, j: {("x", j)})


RULES = {
    "C01": [(lambda s: E.bits(s, F), "CountsUp")],
    "C03": [(E.caller_writes, "WritesInput")],
    "C04": [(E.config_writes, "WritesConfig"), (E.config_writes, "KeepsConfig"), (E.config_writes, "SharesState")],
    "C05": [(E.snapshots, "ReturnsState")],
    "C06": [(E.ambient, "Random")],
    "C13": [(mix, "Mixes")],
    "C28": [(E.runs, "Crashes")],
}


def run(prop=None):
    """-> list of complaints"""
    bad = []
    n = 0
    old, olds = scen.ROOT, dict(scen.SOURCES)
    scen.ROOT = os.path.join(HERE, "fixtures")
    scen.SOURCES.clear()
    try:
        for p, l in RULES.items():
            if prop not in (None, p):
                continue
            for rule, name in l:
                n += 2
                r = rule(unit(name))
                if r.status != "VIOLATION":
                    bad.append("%s: the rule does not fire on %s (%s %s)" % (p, name, r.status, r.why))
                r = rule(unit("Good"))
                if r.status != "PROVED":
                    bad.append("%s: the rule does not hold on the correct unit (%s %s)" % (p, r.status, r.why))
        if prop in (None, "C14"):
            n += 1
            r = E.ste(grad())
            if r.status != "VIOLATION":
                bad.append("C14: the rule does not fire (%s %s)" % (r.status, r.why))
        if prop in (None, "C18"):
            n += 2
            if E.rejects(unit("Good", 7)).status != "VIOLATION":
                bad.append("C18: the rule does not fire")
            if E.rejects(unit("Strict", 7)).status != "PROVED":
                bad.append("C18: the rule does not hold on a unit that checks")
        if prop in (None, "C29"):
            for cell, par, want in (("Sign", {"DEP": 3}, "VIOLATION"), ("Abs", {"DEP": 3}, "VIOLATION"), ("JKFF", {}, "PROVED")):
                n += 1
                r = HW.decide(cell, par)
                if r.status != want:
                    bad.append("C29: the cell rule gives %s on %s (%s)" % (r.status, cell, r.why))
        if prop not in RULES and prop not in ("C14", "C18", "C29"):
            n += 2
            r = check(analyse(unit("Good")), Or())
            if r.status != "PROVED":
                bad.append("equivalence: correct unit is %s %s" % (r.status, r.why))
            r = check(analyse(unit("CountsUp")), Or())
            if r.status != "VIOLATION":
                bad.append("equivalence: broken unit is %s %s" % (r.status, r.why))
    finally:
        scen.ROOT = old
        scen.SOURCES.clear()
        scen.SOURCES.update(olds)
    return bad, n


if __name__ == "__main__":
    b, n = run()
    for x in b:
        print(x)
    print("%d rule checks on the fixtures, %d wrong" % (n, len(b)))
    sys.exit(1 if b else 0)
