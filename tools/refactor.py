"""Development only: behaviour-preserving rewrites, applied to scratch copies; every check must stay quiet (exit 0, no VIOLATION)."""
import concurrent.futures
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    groups = ns["GROUPS"]
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    tests = "--no-tests" not in sys.argv
    for g, edits in groups.items():
        if want and g not in want:
            continue
        d = f"/tmp/ref_{g}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        ok = True
        for fn, old, new in edits["edits"]:
            p = os.path.join(d, fn)
            s = open(p).read()
            if s.count(old) < 1:
                print("NOT FOUND", g, fn, old[:60])
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        if tests:
            r = subprocess.run([PY, "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "-p", "no:anyio", *edits.get("tests", ["tests"])], cwd=d, capture_output=True, text=True,
                               env={**os.environ, "PYTHONPATH": d})
            print(g, "tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:])
            for ln in r.stdout.splitlines():
                if ln.startswith("FAILED"):
                    print("   ", ln)
        for c in edits.get("checks", [f"C{i:02d}" for i in range(1, 31)]):
            ev = f"/tmp/ref_ev_{g}"
            r = subprocess.run([PY, "run.py", c, "--tier", "quick"], cwd="/verif", capture_output=True, text=True, env={**os.environ, "VP_REPO": d})
            out = (r.stdout + r.stderr).strip().splitlines()
            ex = "exhaustive=True" in r.stdout
            if r.returncode != 0 or "VIOLATION" in r.stdout or not ex:
                print(g, c, "exit", r.returncode, "exhaustive" if ex else "NOT EXHAUSTIVE", "|", [ln[:300] for ln in out if not ln.startswith("  ")][-3:])
            else:
                print(g, c, "quiet")
            sys.stdout.flush()
        if "--keep" not in sys.argv:
            shutil.rmtree(d, ignore_errors=True)


main()
