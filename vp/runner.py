"""Drives one property's check: explores every harness symbolically with 8
worker processes, replays counterexamples on the unmodified code, validates
sampled paths, writes the evidence file, prints the verdict."""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
TOTAL = {"quick": 300.0, "thorough": 780.0}


class Concrete:
    """pool of replay processes"""

    def __init__(self, n):
        self.procs = [self._spawn() for _ in range(n)]
        self.i = 0

    def _spawn(self):
        envp = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        return subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "vp", "concrete.py")], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=envp, cwd=HERE)

    def run(self, prop, unit, asg, strict, timeout=60):
        self.i = (self.i + 1) % len(self.procs)
        p = self.procs[self.i]
        try:
            p.stdin.write(json.dumps({"prop": prop, "unit": unit, "asg": asg, "strict": strict}) + "\n")
            p.stdin.flush()
            if not mpc.wait([p.stdout], timeout):
                raise OSError("replay timed out")
            line = p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            try:
                p.kill()
            except OSError:
                pass
            self.procs[self.i] = self._spawn()
            return {"status": "replay-error", "detail": repr(e), "observed": [], "labels": [], "label": None}

    def close(self):
        for p in self.procs:
            try:
                p.kill()
            except OSError:
                pass


def worker(conn, units, seed, timeout_ms):
    from vp import engine

    ctxs = {}
    prof_done = set()
    while True:
        task = conn.recv()
        if task is None:
            os._exit(0)
        ui, prefixes, slice_s, want = task
        u = units[ui]
        if ui not in ctxs:
            ctxs[ui] = engine.SymCtx(timeout_ms=timeout_ms, seed=seed, realize_float_max=u.realize_float)
        ctx = ctxs[ui]
        ctx.stats = engine.Stats()
        ctx.notes = {}
        work = [(p, None) for p in prefixes]
        labels = {}
        cands, samples, funcs, known = [], [], set(), {}
        t0 = time.monotonic()
        npath = 0
        try:
            while work and (time.monotonic() - t0 < slice_s or npath == 0):
                prefix, model = work.pop()
                ctx.known_hits = []
                if ui not in prof_done:
                    prof_done.add(ui)

                    def prof(frame, ev, arg):
                        if ev == "call":
                            fn = frame.f_code.co_filename
                            if "/sawatabi/" in fn:
                                funcs.add(fn.split("/sawatabi/", 1)[1] + ":" + frame.f_code.co_qualname)

                    sys.setprofile(prof)
                res = engine.run_sym_path(ctx, u.fn, prefix, model)
                sys.setprofile(None)
                npath += 1
                work.extend(ctx.alts)
                if len(work) > 4000:
                    pass
                for lb in ctx.pathlabels:
                    labels[lb] = labels.get(lb, 0) + 1
                for k in ctx.known_hits:
                    known[k] = known.get(k, 0) + 1
                if res.status == "found" and len(cands) < 3:
                    got = []
                    for nice in (True, False):
                        c = None
                        try:
                            c = ctx.concretize([res.bad] if res.bad is not None else [], want_nice=nice)
                        except Exception as e:  # noqa: BLE001
                            ctx.note("concretize-failed:" + type(e).__name__)
                        if c:
                            got.append(c[0])
                    cands.append({"unit": u.name, "label": res.label, "detail": str(res.detail), "exc": res.exc, "asgs": got,
                                  "prefix": [str(x) for x in ctx.trace]})
                elif res.status == "found":
                    cands.append({"unit": u.name, "label": res.label, "detail": str(res.detail), "exc": res.exc, "asgs": [],
                                  "prefix": []})
                elif res.status.startswith("abort"):
                    ctx.note("path-" + res.status)
                    if res.status == "abort:unknown":
                        ctx.stats["inconclusive"] += 1
                elif len(samples) < want and (npath % 3 == 1 or not work):
                    try:
                        c = ctx.concretize([])
                        if c:
                            samples.append({"asg": c[0], "obs": [[n, v] for n, v in ctx.observed_under(c[1])],
                                            "labels": list(ctx.pathlabels)})
                    except Exception as e:  # noqa: BLE001
                        ctx.note("sample-failed:" + type(e).__name__)
        except BaseException as e:  # noqa: BLE001
            conn.send(("error", ui, traceback.format_exc(), [p for p, _ in work]))
            if isinstance(e, KeyboardInterrupt):
                os._exit(1)
            continue
        conn.send(("done", ui, {
            "left": [p for p, _ in work], "stats": dict(ctx.stats), "notes": ctx.notes, "labels": labels, "cands": cands,
            "samples": samples, "funcs": sorted(funcs), "known": known, "time": time.monotonic() - t0}))


def load_known(prop):
    fn = os.path.join(HERE, "known_findings.json")
    out = {}
    if os.path.exists(fn):
        for f in json.load(open(fn))["findings"]:
            if f["property"] == prop and f["status"] == "known":
                out[f["id"]] = f["what"]
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--unit", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)

    if a.replay:
        return replay(prop, a.replay)

    from vp import env, engine

    conc = Concrete(2)
    try:
        env.load(symbolic=True)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print("ERROR: cannot load the code under /repo")
        conc.close()
        return 2
    mod = importlib.import_module("props." + prop.lower())
    units = [u for u in mod.UNITS if (u.tier == "quick" or tier == "thorough") and (a.unit is None or u.name == a.unit)]
    total = a.budget or getattr(mod, "BUDGET", TOTAL)[tier]
    timeout_ms = 8000 if tier == "quick" else 30000

    U = [{"queue": [[]], "running": 0, "spent": 0.0, "stats": engine.Stats(), "labels": {}, "notes": {}, "funcs": set(),
          "samples": 0, "valid": 0, "known": {}, "bad": [], "slices": 0, "err": []} for _ in units]
    ctx = mp.get_context("fork")
    workers = []
    for _ in range(a.jobs):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, units, seed, timeout_ms), daemon=True)
        p.start()
        cc.close()
        workers.append({"p": p, "c": pc, "ui": None})
    deadline = t0 + total
    violation = None
    spurious, samples_kept, replays = [], [], 0
    sample_q = []
    vfail = []

    def handle_cand(c):
        nonlocal violation, replays
        if violation:
            return
        for asg in c["asgs"]:
            if replays > 60:
                return
            replays += 1
            r = conc.run(prop, c["unit"], asg, True)
            if r["status"] == "found":
                violation = {"property": prop, "unit": c["unit"], "label": r["label"], "detail": r["detail"], "asg": asg,
                             "solver_label": c["label"], "trace": r.get("trace")}
                return
        spurious.append({k: c[k] for k in ("unit", "label", "detail", "exc")} | {"asgs": c["asgs"][:1]})

    def handle_sample(ui, s):
        nonlocal violation
        if violation:
            return
        u = units[ui]
        r = conc.run(prop, u.name, s["asg"], False)
        if r["status"] == "found":
            r2 = conc.run(prop, u.name, s["asg"], False)
            if r2["status"] == "found":
                violation = {"property": prop, "unit": u.name, "label": r["label"], "detail": r["detail"], "asg": s["asg"],
                             "solver_label": "path model", "trace": r.get("trace")}
            return
        if r["status"] != "ok":
            vfail.append({"unit": u.name, "asg": s["asg"], "why": r["status"] + ":" + str(r.get("detail"))})
            return
        got = r["observed"]
        if len(got) == len(s["obs"]) and all(x[0] == y[0] and engine.obs_equal(json.loads(json.dumps(x[1])), y[1])
                                             for x, y in zip(s["obs"], got)):
            U[ui]["valid"] += 1
            if len(samples_kept) < 8:
                samples_kept.append({"unit": u.name, "inputs": s["asg"], "observed": got[:6]})
        else:
            d = [(x, y) for x, y in zip(s["obs"], got) if not engine.obs_equal(json.loads(json.dumps(x[1])), y[1])]
            vfail.append({"unit": u.name, "asg": s["asg"], "why": "observed values differ", "diff": repr(d[:2])[:600]})

    while True:
        now = time.monotonic()
        idle = [w for w in workers if w["ui"] is None]
        if violation or now > deadline:
            break
        # unit with least time spent first
        for w in idle:
            best = None
            for i, s in enumerate(U):
                if s["queue"] and (units[i].budget is None or tier == "thorough" or s["spent"] < units[i].budget * a.jobs):
                    if best is None or s["spent"] + s["running"] < U[best]["spent"] + U[best]["running"]:
                        best = i
            if best is None:
                break
            s = U[best]
            n = max(1, min(40, len(s["queue"]) // (2 * a.jobs)))
            batch = [s["queue"].pop() for _ in range(n)]
            s["running"] += 1
            s["slices"] += 1
            want = 1 if s["samples"] < units[best].validate * (1 if tier == "quick" else 4) else 0
            s["samples"] += want
            slice_s = 0.3 if s["slices"] < 3 * a.jobs else 2.0
            w["ui"] = best
            w["c"].send((best, batch, slice_s, want))
        busy = [w for w in workers if w["ui"] is not None]
        if not busy:
            break
        ready = mpc.wait([w["c"] for w in busy], timeout=1.0)
        for w in busy:
            if w["c"] not in ready:
                continue
            ui = w["ui"]
            try:
                kind, _, *rest = w["c"].recv()
            except EOFError:
                U[ui]["err"].append("worker died")
                U[ui]["running"] -= 1
                w["ui"] = None
                workers.remove(w)
                continue
            w["ui"] = None
            s = U[ui]
            s["running"] -= 1
            if kind == "error":
                s["err"].append(rest[0])
                if len(s["err"]) < 20:
                    s["queue"].extend(rest[1])
                continue
            d = rest[0]
            s["queue"].extend(d["left"])
            s["spent"] += d["time"]
            s["stats"].merge(d["stats"])
            for k, v in d["notes"].items():
                s["notes"][k] = s["notes"].get(k, 0) + v
            for k, v in d["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            for k, v in d["known"].items():
                s["known"][k] = s["known"].get(k, 0) + v
            s["funcs"] |= set(d["funcs"])
            for c in d["cands"]:
                s["bad"].append(c)
                handle_cand(c)
            for smp in d["samples"]:
                sample_q.append((ui, smp))
        # validate while workers run
        if sample_q and not violation:
            ui, smp = sample_q.pop()
            handle_sample(ui, smp)
    for ui, smp in sample_q[:80]:
        if violation or time.monotonic() > deadline + 30:
            break
        handle_sample(ui, smp)
    for w in workers:
        w["p"].kill()

    # ---------------------------------------------------------------- verdict
    st = engine.Stats()
    for s in U:
        st.merge(s["stats"])
    funcs = sorted(set().union(*[s["funcs"] for s in U])) if U else []
    left = sum(len(s["queue"]) for s in U)
    known_listed = load_known(prop)
    known_hit = {}
    for s in U:
        for k, v in s["known"].items():
            known_hit[k] = known_hit.get(k, 0) + v
    unlisted = [k for k in known_hit if k not in known_listed]
    vac = []
    for u, s in zip(units, U):
        for lb in u.labels:
            if lb not in s["labels"] and ("reach:" + lb) not in s["labels"]:
                vac.append(f"{u.name}:{lb}")
    exhaustive = left == 0 and not any(st[k] for k in ("truncated", "inconclusive")) and not spurious and not any(s["err"] for s in U)
    wall = time.monotonic() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": st["paths"], "transitions": st["decisions"], "traces_validated_against_impl": sum(s["valid"] for s in U),
            "samples": samples_kept[:6],
            "explanation": "states = symbolic end states (feasible path conditions), transitions = branch decisions resolved by the "
                           "solver; each path's assertions are decided by z3 for every value of the symbolic inputs on that path",
            "exhaustive": bool(exhaustive),
            "solver": {"queries": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "unknown": st["unknown"],
                       "assertions": st["checks"], "assertion_queries": st["check_queries"],
                       "assertions_on_concrete_values": st["trivial_checks"], "solver_s": round(st["solver_s"], 2)},
            "functions_encoded": funcs,
            "units": [{"unit": u.name, "bounds": u.bounds, "paths": s["stats"]["paths"], "unexplored_prefixes": len(s["queue"]),
                       "validated": s["valid"], "notes": s["notes"],
                       "labels": {k: v for k, v in sorted(s["labels"].items())[:40]}} for u, s in zip(units, U)],
            "realized": st["realized"], "truncated": st["truncated"], "inconclusive": st["inconclusive"],
            "assume_dead_paths": st["assume_dead"], "unreproduced_candidates": spurious[:5],
            "unreproduced_candidate_count": len(spurious), "validation_mismatches": vfail[:5],
            "known_findings_seen": known_hit,
        },
        "assumptions": ["float arithmetic idealised to exact reals (rounding outside the claim)"] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": 1 if (violation or unlisted) else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"{prop} [{tier}] paths={st['paths']} decisions={st['decisions']} queries={st['queries']} checks={st['checks']} "
          f"solver={st['solver_s']:.1f}s validated={sum(s['valid'] for s in U)} left={left} spurious={len(spurious)} "
          f"vfail={len(vfail)} exhaustive={exhaustive} wall={wall:.1f}s")
    if a.v:
        for u, s in zip(units, U):
            print(f"  {u.name}: paths={s['stats']['paths']} left={len(s['queue'])} spent={s['spent']:.1f} valid={s['valid']} "
                  f"q={s['stats']['queries']} notes={s['notes']} realized={s['stats']['realized']} inc={s['stats']['inconclusive']}")
            for e in s["err"][:2]:
                print("   ERR", e)
        for x in spurious[:4]:
            print("  SPURIOUS", json.dumps(x, default=str)[:1500])
        for x in vfail[:4]:
            print("  VFAIL", json.dumps(x, default=str)[:1500])
    try:
        if violation:
            rp = os.path.join(EVID, f"{prop}.replay.json")
            with open(rp, "w") as f:
                json.dump(violation, f, indent=1, default=str)
            print(f"  unit={violation['unit']} label={violation['label']} detail={violation['detail']}")
            print(f"  inputs={json.dumps(violation['asg'])[:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        for k in sorted(known_hit):
            if k in known_listed:
                print(f"KNOWN-FINDING: property={prop} {k}: {known_listed[k]}")
        if unlisted:
            rp = os.path.join(EVID, f"{prop}.replay.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "unlisted_findings": unlisted}, f)
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        for s in U:
            for e in s["err"][:1]:
                print("ERROR in worker:", e)
        if spurious:
            print(f"INCONCLUSIVE: {len(spurious)} solver candidates did not reproduce on the real code; those paths are not claimed")
        if vfail:
            print(f"INCONCLUSIVE: {len(vfail)} validated paths where the encoding and the code differ; see evidence")
        if vac:
            print("ERROR: assertions never reached (vacuous):", vac)
            if not spurious and not left and not any(k.startswith("path-abort") for q in U for k in q["notes"]):
                return 2
        if st["paths"] == 0 or any(s["stats"]["paths"] == 0 for s in U):
            print("ERROR: a harness explored no path")
            return 2
        for u, s in zip(units, U):
            if len(s["bad"]) >= s["stats"]["paths"]:
                print("INCONCLUSIVE: every path of", u.name, "- replays of the solver's candidates found no violation, nothing is claimed for it")
        return 0
    finally:
        conc.close()


def replay(prop, path):
    """Re-run a recorded counterexample on the current, unmodified code."""
    v = json.load(open(path))
    c = Concrete(1)
    r = c.run(prop, v["unit"], v["asg"], True)
    c.close()
    print(json.dumps(r, indent=1))
    if r["status"] == "found":
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
