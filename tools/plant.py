"""Development tool (no check uses it): plant the bugs described in a bugs file
into scratch copies of /repo, confirm them, and store them under /verif/seeded.

  plant.py BUGSFILE [ids...] [--no-tests] [--check] [-j N]
"""
import argparse, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO_SH = '#!/bin/bash\n# cwd: the repository. Exit 0 when the behaviour is right.\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NO_GCE_CHECK=true\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NO_GCE_CHECK="true")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def stable():
    for k in ("stable", "passed", "tests", "pass"):
        if k in BASE:
            return BASE[k]
    return BASE


def run_tests(copy):
    home = tempfile.mkdtemp(prefix="home")
    shutil.copy(f"{copy}/tests/solver/.optigan.yml", home)
    xml = f"{home}/j.xml"
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:anyio", "-p", "no:cacheprovider", "--timeout=120", "--tb=line", "--disable-warnings", f"--junitxml={xml}"], cwd=copy, env={"HOME": home})
    tail = r.stdout.strip().splitlines()
    fails = sorted(l for l in tail if l.startswith("FAILED"))
    shutil.rmtree(home)
    return tail[-1] if tail else r.stderr[-300:], fails


KNOWN = None


def do(bug, opts):
    out = [f"== {bug['id']} ({bug['property']})"]
    copy = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    shutil.rmtree(copy)
    shutil.copytree(REPO, copy, symlinks=True)
    try:
        for f, old, new in bug["edits"]:
            p = f"{copy}/{f}"
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                out.append(f"  EDIT MATCHES {n} times in {f}: {old[:60]!r}")
                return "\n".join(out)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=copy).stdout
        dst = f"{SEEDED}/{bug['id']}"
        d = tempfile.mkdtemp(prefix="demo_")
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        open(f"{d}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        ok = True
        r0 = sh(["bash", f"{d}/demo.sh"], cwd=REPO, timeout=300)
        r1 = sh(["bash", f"{d}/demo.sh"], cwd=copy, timeout=300)
        if r0.returncode != 0:
            ok = False
            out.append("  demo fails on clean tree: " + (r0.stdout + r0.stderr)[-700:])
        if r1.returncode == 0:
            ok = False
            out.append("  demo passes on patched tree")
        else:
            out.append("  demo patched: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        if ok and not opts.no_tests:
            last, fails = run_tests(copy)
            out.append("  tests: " + last)
            new = [f for f in fails if not any(k in f for k in opts.known)]
            if new:
                ok = False
                out += ["    NEW FAIL " + f[:160] for f in new[:5]]
        if ok:
            os.makedirs(dst, exist_ok=True)
            open(f"{dst}/patch.diff", "w").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(f"{d}/{f}", dst)
            os.chmod(f"{dst}/demo.sh", 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{dst}/meta.json", "w"), indent=1)
            open(f"{dst}/meta.json", "a").write("\n")
            out.append("  KEPT")
        else:
            out.append("  REJECTED")
        if opts.check:
            with LOCK:
                r = sh([PY, "/verif/run.py", bug["property"], "--tier", "quick"], cwd="/verif", env={"VP_REPO": copy})
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            out.append(f"  CHECK rc={r.returncode} {lines[:1] or r.stdout[-300:] + r.stderr[-300:]}")
        shutil.rmtree(d)
    finally:
        shutil.rmtree(copy)
    return "\n".join(out)


import threading
LOCK = threading.Lock()

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("ids", nargs="*"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--check", action="store_true"); ap.add_argument("-j", type=int, default=6)
    o = ap.parse_args()
    r = sh([PY, "-c", "print(1)"])
    o.known = []
    kf = "/tmp/known_fails.txt"
    if not os.path.exists(kf) and not o.no_tests:
        _, f = run_tests(REPO)
        open(kf, "w").write("\n".join(x.split(" ")[1] for x in f))
    if os.path.exists(kf):
        o.known = [l for l in open(kf).read().splitlines() if l]
    spec = importlib.util.spec_from_file_location("bugs", o.file)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    todo = [b for b in m.BUGS if not o.ids or b["id"] in o.ids]
    with ThreadPoolExecutor(o.j) as ex:
        for res in ex.map(lambda b: do(b, o), todo):
            print(res, flush=True)
