#!/usr/bin/env python3
"""Edits that keep the behaviour (development only): every check must stay quiet on them.

  python3 dev/refactors.py SET [PROPS...]      patch a scratch copy, run the quick checks on it"""
import os, shutil, subprocess, sys, tempfile, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SETS = {}
for f in sorted(os.listdir(os.path.join(HERE, "refactors.d"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(HERE, "refactors.d", f)).read(), f, "exec"))


def patched(edits, root):
    for file, old, new in edits:
        p = os.path.join(root, file)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n == 0 or n > 1 and not file.endswith("conv.py") and not file.endswith("linear.py"):
            raise SystemExit("%s: %d matches of %r" % (file, n, old))
        s = s.replace(old, new)
        open(p, "w", newline="").write(s)
    for file in {e[0] for e in edits if e[0].endswith(".py")}:
        compile(open(os.path.join(root, file)).read(), file, "exec")


if __name__ == "__main__":
    name = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="refac_")
    root = tmp + "/repo"
    shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    patched(SETS[name], root)
    if sys.argv[2:] == ["tests"]:
        os.symlink(root, tmp + "/UnarySim")
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--continue-on-collection-errors", "--disable-warnings",
                            "--ignore=test/kernel/test_kernel_fsuadd.py", "--ignore=test/kernel/test_kernel_fsuconv2d.py", "test"], cwd=root, env=env, capture_output=True, text=True)
        print(name, r.stdout.splitlines()[-1], [l for l in r.stdout.splitlines() if l.startswith("FAILED")])
    else:
        os.makedirs(tmp + "/ev")
        for p in sys.argv[2:] or ["C%02d" % i for i in range(1, 30)]:
            r = subprocess.run(["python3", VERIF + "/check.py", p, "quick"], env=dict(os.environ, USA_ROOT=root, USA_EVIDENCE=tmp + "/ev"), capture_output=True, text=True)
            l = r.stdout.splitlines()
            und = int(re.search(r"(\d+) undecided", r.stdout).group(1)) if "undecided" in r.stdout else -1
            print(name, p, "rc=%d" % r.returncode, l[0] if l else "", flush=True)
            if r.returncode or und:
                for x in l[1:14]:
                    print("     ", x[:400], flush=True)
            if r.stderr:
                print(r.stderr[-500:])
    shutil.rmtree(tmp)
