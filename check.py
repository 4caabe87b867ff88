#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property of the tree in /repo
check.py --replay FILE                    decide one recorded obligation again

Reads the current source of /repo (never imports or runs it).  Exit 0: every decided obligation
holds; 1: a violation (VIOLATION line); 2: the analysis itself is broken (vanished anchor,
nothing decided)."""
import ast
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from usa import items as IT          # noqa: E402
from usa import scen                 # noqa: E402
from usa.scen import STATS, Undecided, MissingAnchor  # noqa: E402
from usa.tensor import Unmodelled    # noqa: E402
from usa.terms import TermTooBig     # noqa: E402

EVID = os.environ.get("USA_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
LIMIT = {"quick": 100, "thorough": 240}          # seconds for one obligation group
TOTAL = {"quick": 420, "thorough": 800}          # seconds for the property
AFTER = {"quick": 15, "thorough": 60}            # seconds to look for further violations
if os.environ.get("USA_FAST"):                   # development: stop at the first violation
    AFTER = {"quick": 0, "thorough": 0}

TECH = ("abstract interpretation of the Python syntax trees: per configuration, a least fixpoint over abstract heap phases yields the unit's "
        "transfer functions in value-numbered normal form; the rule is decided on those transfer functions")

TECH29 = ("the SystemVerilog hierarchy is parsed and flattened into a dataflow graph with bit-accurate widths and unknown values; the transition function it defines is decided against a "
          "reference automaton on the least fixpoint of jointly reachable register valuations, for every input in each of them")


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


LIST = []
TIER = "quick"


def work(k):
    it = LIST[k]
    t0 = time.time()
    out = {"k": k, "label": it.label(), "why": "", "witness": None, "site": None, "rule": it.rname, "stats": {}, "unit": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT[TIER])
    try:
        STATS.__init__()
        r = it.run()
        out.update(status=r.status, why=r.why, witness=r.witness, stats={a: b for a, b in (r.stats or {}).items() if isinstance(b, (int, str))}, site=getattr(r, "site", None),
                   rule=getattr(r, "rule", None) or it.rname, name=r.scn.name, unit=r.scn.unit)
    except TimeUp:
        out.update(status="UNDECIDED", why="time limit of %d s" % LIMIT[TIER])
    except (Undecided, Unmodelled, TermTooBig, RecursionError, MemoryError) as e:
        out.update(status="UNDECIDED", why="%s: %s" % (type(e).__name__, str(e)[:300]))
    except MissingAnchor as e:
        out.update(status="ANCHOR", why=str(e))
    except Exception:
        out.update(status="UNDECIDED", why="analyser: " + traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    out["files"], out["funcs"], out["calls"], out["steps"] = sorted(STATS.files), sorted(map(str, STATS.funcs)), STATS.calls, STATS.steps
    out["s"] = time.time() - t0
    if out["site"]:
        out["site"] = list(out["site"])
    return out


def known():
    """finding: property=C27 item=round_ construct=RoundSTE.forward contains="lshift_cpu" -- text"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) item=(\S+) construct=(\S+) contains="([^"]*)" -- (.*)$', line.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(prop, r, ks):
    site = (r["site"] or ["?"])[0]
    for p, item, construct, contains, text in ks:
        if p == prop and (": " + item + ("" if "(" in item else "(")) in r["label"] and construct in ("*", site) and contains in r["why"]:
            return (p, item, construct, contains, text)
    return None


def place(r):
    s = r["site"]
    if s and s[0] != "?":
        return "%s (%s:%s)" % (s[0], s[1], s[2])
    u = r["unit"]
    mod, _, name = u.rpartition(".")
    try:
        for f in sorted(os.listdir(os.path.join(scen.ROOT, *mod.split(".")))) if os.path.isdir(os.path.join(scen.ROOT, *mod.split("."))) else [None]:
            rel = "%s/%s" % (mod.replace(".", "/"), f) if f else mod.replace(".", "/") + ".py"
            if not rel.endswith(".py"):
                continue
            for d in ast.parse(open(os.path.join(scen.ROOT, rel), encoding="utf-8").read()).body:
                if isinstance(d, (ast.ClassDef, ast.FunctionDef)) and d.name == name:
                    m = next((x for x in getattr(d, "body", []) if isinstance(x, ast.FunctionDef) and x.name == "forward"), None)
                    return "%s (%s:%s)" % (name + ".forward" if m else name, rel, (m or d).lineno)
    except (OSError, SyntaxError):
        pass
    return u


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def run(prop, tier, only=None):
    global LIST, TIER
    TIER = tier
    t0 = time.time()
    import selftest
    broken, nself = selftest.run(prop)
    if broken:
        print("analysis broken: %s" % "; ".join(broken))
        return 2
    LIST = IT.items(prop, tier == "thorough")
    if only is not None:
        LIST = [i for i in LIST if i.label() == only]
    n = len(LIST)
    os.makedirs(EVID, exist_ok=True)
    res = []
    ks = known()
    first = None
    scen.preload()
    procs = min(8, os.cpu_count() or 1, max(1, n))
    skipped = 0
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        # spread over the whole list, so that every family is reached early even where the analysis is slow
        it = pool.imap_unordered(work, sorted(range(n), key=lambda k: k * 0.6180339887498949 % 1), 1)
        for _ in range(n):
            left = t0 + TOTAL[tier] - time.time()
            if first is not None:
                left = min(left, first + AFTER[tier] - time.time())
            try:
                r = it.next(timeout=max(left, 0.05))
            except mp.TimeoutError:
                break
            res.append(r)
            if r["status"] == "VIOLATION" and first is None and is_known(prop, r, ks) is None:
                first = time.time()
        pool.terminate()
    again = [r["k"] for r in res if r["status"] == "UNDECIDED" and not r["why"].startswith("time limit")]
    if again and first is None and time.time() - t0 < TOTAL[tier] / 2:
        # the order of the normal form depends on what the process analysed before: decide these alone
        with mp.get_context("fork").Pool(min(procs, len(again)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(work, again, 1)
            for _ in again:
                try:
                    r = it.next(timeout=max(t0 + TOTAL[tier] - time.time(), 0.05))
                except mp.TimeoutError:
                    break
                if r["status"] != "UNDECIDED":
                    res = [r if x["k"] == r["k"] else x for x in res]
            pool.terminate()
    skipped = n - len(res)
    proved = [r for r in res if r["status"] == "PROVED"]
    viol = [r for r in res if r["status"] == "VIOLATION"]
    und = [r for r in res if r["status"] == "UNDECIDED"]
    anchor = [r for r in res if r["status"] == "ANCHOR"]
    seen_known, new = {}, []
    for r in viol:
        k = is_known(prop, r, ks)
        if k:
            seen_known.setdefault(k, []).append(r)
        else:
            new.append(r)
    wall = time.time() - t0

    files, funcs = set(), set()
    for r in res:
        files |= set(r["files"])
        funcs |= set(r["funcs"])
    obl = sum(r["stats"].get("out_obligations", 0) + r["stats"].get("state_obligations", 0) for r in proved)
    cov = {
        "explanation": "%s. Rule(s): %s. %d configurations of the units were analysed; for each the obligation is quantified over all inputs, all histories and all constructor operands within their declared ranges. "
                       "Functions analysed are those reached from the configured units in /repo's current source." % (TECH29 if prop == "C29" else TECH, ", ".join(sorted({r["rule"] for r in res})), len(res)),
        "configurations": n,
        "rule_checks_on_fixtures": nself,
        "configurations_holding": len(proved),
        "configurations_undecided": len(und) + skipped,
        "configurations_known_findings": sum(len(v) for v in seen_known.values()),
        "equalities_and_effects_checked": obl,
        "abstract_heap_phases": sum(r["stats"].get("phases", 0) for r in proved if isinstance(r["stats"].get("phases", 0), int)),
        "functions_analysed": len(funcs),
        "abstract_calls": sum(r["calls"] for r in res),
        "abstract_steps": sum(r["steps"] for r in res),
        "source_files": sorted(files),
        "functions": sorted(funcs)[:200],
        "samples": [{"configuration": r.get("name", r["label"]), "status": r["status"], "obligations": r["stats"]} for r in sorted(proved, key=lambda r: r["k"])[:: max(1, len(proved) // 12)][:12]],
        "undecided": [{"configuration": r["label"], "why": r["why"][:400]} for r in und[:20]],
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
          "assumptions": ["two-valued inputs after reset; parameters beyond those listed behave alike"] if prop == "C29" else ["float arithmetic is exact real arithmetic", "the torch operations behave as in the analyser's operation table", "one representative shape per configuration stands for the shapes of its kind"]}
    if only is None:
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1, sort_keys=True)
            f.write("\n")

    print("%s %s: %d configurations, %d hold, %d undecided, %d functions in %d files, %.1f s" % (prop, tier, n, len(proved), len(und) + skipped, len(funcs), len(files), wall))
    for k, rs in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s [%s; %d configuration(s)]" % (prop, k[4], place(rs[0]), len(rs)))
    for r in und[:5]:
        print("undecided: %s: %s" % (r["label"], r["why"].strip().splitlines()[-1][:200]))
    shown = set()
    for r in sorted(new, key=lambda r: r["k"]):
        key = (place(r), r["rule"])
        if key in shown:
            continue
        shown.add(key)
        if len(shown) > 6:
            break
        path = os.path.join(EVID, "replay-%s-%d.json" % (prop, len(shown)))
        with open(path, "w") as f:
            json.dump(jsonable({"property": prop, "tier": tier, "item": r["label"], "configuration": r.get("name"), "construct": place(r), "rule": r["rule"], "why": r["why"], "witness": r["witness"]}), f, indent=1, sort_keys=True)
            f.write("\n")
        print("violated: %s" % r["rule"])
        print("  construct: %s" % place(r))
        print("  configuration: %s" % r.get("name", r["label"]))
        print("  finding: %s" % r["why"][:600])
        if r["witness"]:
            print("  witness: %s" % json.dumps(jsonable(r["witness"]))[:800])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if new:
        return 1
    if anchor:
        print("analysis broken: %s" % anchor[0]["why"])
        return 2
    if not proved and not seen_known:
        print("analysis broken: nothing could be decided")
        return 2
    return 0


def main(a):
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        return run(d["property"], d["tier"], d["item"])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if not a or a[0] not in IT.PROPS or tier not in LIMIT:
        print(__doc__)
        return 2
    return run(a[0], tier)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same order of every set in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    sys.exit(main(sys.argv[1:]))
