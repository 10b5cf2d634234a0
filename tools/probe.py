#!/opt/venv/bin/python
"""Quick mutation probes: apply each small edit in a scratch copy of /repo and run one property's check against it.
usage: probe.py PROBESFILE [ids] [-j N].  A probes file defines PROBES = [(id, property, [(file, old, new), ...]), ...]."""
import concurrent.futures as cf, importlib.util, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(pr):
    id, prop, edits = pr
    d = tempfile.mkdtemp(prefix="probe-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__", ".venv", "node_modules"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return id, prop, "NOAPPLY", f
            open(p, "w").write(s.replace(old, new, 1))
        out = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "run.py"), prop, "--tier", "quick"], cwd=HERE, env={**os.environ, "VP_REPO": r, "VP_JOBS": "3", "VP_EVIDENCE": d}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=880)
        st = {0: "MISSED", 1: "CAUGHT"}.get(out.returncode, f"rc={out.returncode}")
        tail = [l for l in out.stdout.splitlines() if "VIOLATION" in l or "Error" in l][-1:] or out.stdout.splitlines()[-1:]
        return id, prop, st, (tail or [""])[0][:160]
    except Exception as e:
        return id, prop, "ERR", repr(e)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)

spec = importlib.util.spec_from_file_location("p", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
args = sys.argv[2:]
j = 3
if "-j" in args:
    i = args.index("-j"); j = int(args[i + 1]); del args[i:i + 2]
todo = [p for p in m.PROBES if not args or any(p[0].startswith(a) for a in args)]
with cf.ThreadPoolExecutor(j) as ex:
    for f in cf.as_completed([ex.submit(one, p) for p in todo]):
        print(*f.result(), flush=True)
