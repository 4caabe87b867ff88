#!/usr/bin/env python3
"""Definitions of the planted bugs (development only; no check reads this or /verif/seeded).

  python3 dev/plants.py write [IDS]   write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
  python3 dev/plants.py try  [IDS]    validate: applies, 19 stable tests, demo both ways, check result
"""
import difflib, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PLANTS = []

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
ln -s "$(pwd)" "$d/UnarySim"
PYTHONPATH="$d" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


for f in sorted(os.listdir(os.path.join(HERE, "plants.d"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(HERE, "plants.d", f)).read(), f, "exec"))


def edited(p, base=REPO):
    out = {}
    for file, old, new in p["edits"]:
        src = out.get(file)
        if src is None:
            src = open(os.path.join(base, file), newline="").read()
        if "\r\n" in src:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if src.count(old) != 1:
            raise SystemExit(f"{p['id']}: {file}: {src.count(old)} matches of {old!r}")
        out[file] = src.replace(old, new)
    return out


def folder(p):
    # the gate runs planted bugs in Python sources only: those in the cells live apart
    return os.path.join(*([HERE, "rtl_plants"] if p["prop"] == "C29" else [VERIF, "seeded"]), p["id"])


def write(p):
    d = folder(p)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "--shared", REPO, tmp + "/r"], check=True)
    for f, s in edited(p).items():
        open(os.path.join(tmp, "r", f), "w", newline="").write(s)
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff", "--binary"], capture_output=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(p["demo"].lstrip("\n"))
    if p["prop"] == "C29":
        # the demonstration evaluates the cells with its own copy of the register-transfer front end
        shutil.copy(os.path.join(VERIF, "usa", "rtl.py"), os.path.join(d, "rtl.py"))
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)


def run(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def attempt(p):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        root = tmp + "/repo"
        shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.symlink(root, tmp + "/UnarySim")
        d = folder(p)
        rc0, o0 = run(["bash", d + "/demo.sh"], root)
        rc, o = run(["git", "apply", d + "/patch.diff"], root)
        if rc:
            return p["id"], "APPLY FAILED " + o
        rc1, o1 = run(["bash", d + "/demo.sh"], root)
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2")
        base = json.load(open("/opt/vp/BASELINE.json"))
        rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600",
                     "--continue-on-collection-errors", "--disable-warnings",
                     "--ignore=test/kernel/test_kernel_fsuadd.py", "--ignore=test/kernel/test_kernel_fsuconv2d.py",
                     "test"], root, env)
        tests = [l for l in o.splitlines() if "passed" in l and "failed" in l][-1:]
        env = dict(os.environ, USA_ROOT=root, USA_EVIDENCE=tmp + "/ev")
        os.makedirs(tmp + "/ev")
        rcc, oc = run(["python3", VERIF + "/check.py", p["prop"], "quick"], VERIF, env, 1200)
        v = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
        w = [l for l in oc.splitlines() if "VIOLATED" in l or "violat" in l.lower()][:3]
        ok = rc0 == 0 and rc1 != 0
        return p["id"], f"{p['prop']} demo {rc0}/{rc1} {'ok' if ok else 'BAD DEMO ' + (o0 if rc0 else o1)[-600:]} tests {tests} check rc={rcc} {'CAUGHT' if rcc == 1 and v else 'MISSED ' + oc[-500:]}\n      {w}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[2:]
    sel = [p for p in PLANTS if not ids or p["id"] in ids]
    if sys.argv[1] == "write":
        for p in sel:
            write(p)
    else:
        with cf.ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(attempt, sel):
                print(i, r, flush=True)
