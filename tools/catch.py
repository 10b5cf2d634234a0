"""Development tool: run the checks on scratch copies of /repo with a planted change.
  catch.py [--all-props] ids...      (default: every bug in /verif/seeded, its own property)"""
import json, os, shutil, subprocess, sys, tempfile, time
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
allp = "--all-props" in sys.argv
for i in ids:
    d = f"/verif/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    copy = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
    shutil.rmtree(copy); shutil.copytree("/repo", copy, symlinks=True)
    subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=copy, check=True)
    props = [f"C{k:02d}" for k in range(1, 40) if os.path.exists(f"/verif/props/c{k:02d}.py")] if allp else [meta["property"]]
    for p in props:
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", p, "--tier", "quick"], cwd="/verif", env=dict(os.environ, VP_REPO=copy), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        if not allp or r.returncode:
            print(f"{i:32s} {p} rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
    shutil.rmtree(copy)
