#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough]

Decides one property on the current tree of /repo:
 1. every obligation of every contract the property rests on (the contracts tagged with it, and the contracts of
    everything they call) is generated afresh from /repo's source and discharged;
 2. meanwhile the real code is run on generated inputs against independent oracles (bounded; it supplies the failing
    input when there is one, and never turns a failed obligation into a pass).
Exit 0: every obligation discharged and no failing input.  Exit 1: a VIOLATION line."""
import argparse, json, os, signal, subprocess, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get("PYDV_REPO", "/repo")
PY = "/opt/venv/bin/python"
JIT_PROPS = {"C05", "C07", "C08", "C09", "C10", "C11", "C12"}


# ------------------------------------------------------------------ proofs
def prove_task(task):
    target, ci, timeout, deadline = task
    from pydv import engine
    from pydv.engine import VC, CONTRACTS, STAT, Oblig
    import contracts.all  # noqa
    t0 = time.time()
    con = CONTRACTS[target]
    vc = VC(timeout_ms=timeout, deadline=deadline)
    STAT["solver"], STAT["queries"] = 0.0, 0
    try:
        if ci is None:
            vc.verify(con)
        else:
            con.cases, saved = (con.cases[ci],), con.cases
            try:
                vc.verify(con)
            finally:
                con.cases = saved
    except engine.Deadline:
        vc.report.obligs.append(Oblig(target, "time budget", "failed", detail="time budget exhausted"))
    except Exception as e:          # an obligation that could not even be generated is not discharged
        vc.report.obligs.append(Oblig(target, "obligation generation", "failed", detail=f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]))
    r = vc.report
    return dict(target=target, ci=ci, case=None if ci is None else str(con.cases[ci]), secs=time.time() - t0,
                solver=STAT["solver"], queries=STAT["queries"], covers=r.covers, functions=dict(r.functions),
                inlined=sorted(r.inlined), used=sorted(r.used), assumptions=sorted(r.assumptions),
                obligs=[dict(fn=o.fn, name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), detail=o.detail[:1500]) for o in r.obligs])


def split(target):
    from pydv.engine import CONTRACTS
    n = len(CONTRACTS[target].cases)
    return [(target, i) for i in range(n)]


def prove_all(prop, tier, t_end, workers):
    """-> list of task results (the last attempt of each)"""
    from pydv.engine import CONTRACTS
    import contracts.all  # noqa
    first = 10000 if tier == "quick" else 30000
    done, seen = {}, set()
    todo = [t for t, con in CONTRACTS.items() if prop in con.props]
    attempts = {}
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        pend = {}

        def submit(target, ci, timeout):
            attempts[(target, ci)] = attempts.get((target, ci), 0) + 1
            pend[ex.submit(prove_task, (target, ci, timeout, t_end))] = (target, ci)

        def add(target):
            if target in seen or target not in CONTRACTS:
                return
            seen.add(target)
            for t, ci in split(target):
                submit(t, ci, first)
        for t in sorted(todo, key=lambda t: -getattr(CONTRACTS[t], "cost", 1)):
            add(t)
        retry = []
        while pend:
            ready, _ = wait(list(pend), return_when=FIRST_COMPLETED)
            for f in ready:
                k = pend.pop(f)
                try:
                    res = f.result()
                except Exception as e:
                    res = dict(target=k[0], ci=k[1], case=None, secs=0, solver=0, queries=0, covers=0, functions={}, inlined=[], used=[], assumptions=[],
                               obligs=[dict(fn=k[0], name="obligation generation", status="failed", backend="", secs=0, detail=f"worker died: {e!r}")])
                done[k] = res
                for u in res["used"]:
                    add(u)
                if any(o["status"] != "proved" for o in res["obligs"]) and attempts[k] < 2:
                    retry.append(k)
            if not pend and retry and time.time() < t_end - 20:
                # a second attempt with longer time-outs, so that a slow machine is not taken for a failed proof
                for k in retry:
                    if any(o["detail"].startswith(("function not found", "parameters")) for o in done[k]["obligs"]):
                        continue
                    submit(k[0], k[1], first * 3)
                retry = []
    return list(done.values())


# ------------------------------------------------------------------ falsification
class Falsifier:
    def __init__(self, prop, seed, tier, budget, nojit, scratch, kill_after):
        self.prop, self.nojit, self.kill_at = prop, nojit, time.time() + kill_after
        self.dir = os.path.join(scratch, "nojit" if nojit else "jit")
        os.makedirs(self.dir, exist_ok=True)
        self.cur = os.path.join(self.dir, "current.json")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", FALSIFY_SCRATCH=self.dir, FALSIFY_CURRENT=self.cur, PYTHONHASHSEED="0",
                   NUMBA_CACHE_DIR=os.path.join(self.dir, "numba"), OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="8")
        if nojit:
            env["NUMBA_DISABLE_JIT"] = "1"
        else:
            env.pop("NUMBA_DISABLE_JIT", None)
        self.err = open(os.path.join(self.dir, "stderr"), "w")
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "falsify", "run.py"), prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget)],
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=True, cwd=self.dir)

    def finish(self):
        """-> (summary or None, violation or None, note)"""
        hung = False
        try:
            out, _ = self.p.communicate(timeout=max(1, self.kill_at - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(self.p.pid, signal.SIGKILL)
            out, _ = self.p.communicate()
        self.err.close()
        try:
            res = json.loads(out.decode().strip().splitlines()[-1])
            return res, (res["violations"][0] if res["violations"] else None), ""
        except (IndexError, ValueError):
            pass
        case = None
        try:
            case = json.load(open(self.cur))
        except (OSError, ValueError):
            pass
        rc = self.p.returncode
        if case and (hung or rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE)):
            # re-run that single case alone before believing it
            f = os.path.join(self.dir, "case.json")
            json.dump(case, open(f, "w"))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(self.dir, "numba"), OPENBLAS_NUM_THREADS="1")
            env.pop("FALSIFY_SCRATCH", None)
            try:
                r = subprocess.run([PY, os.path.join(VERIF, "falsify", "run.py"), "--replay", f], env=env, capture_output=True, timeout=90).returncode
            except subprocess.TimeoutExpired:
                r = "timeout"
            if r == 1 or r == "timeout" or (isinstance(r, int) and r < 0 and r != -9):
                what = "the call does not return" if r == "timeout" else f"the process dies (signal {-rc})"
                return None, dict(case, message=what), ""
        tail = open(os.path.join(self.dir, "stderr")).read()[-1500:]
        return None, None, f"run without a result (exit {rc}{', out of time' if hung else ''}): {tail}"


def falsify(prop, seed, tier, budget, scratch, kill_after):
    runs = [Falsifier(prop, seed, tier, budget, False, scratch, kill_after)]
    if prop in JIT_PROPS:
        runs.append(Falsifier(prop, seed, tier, budget, True, scratch, kill_after))
    return runs


# ------------------------------------------------------------------ known findings
def known(prop, v):
    try:
        ks = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except OSError:
        return None
    for k in ks:
        if k.get("status") == "open" and k["property"] == prop and k.get("check") == v.get("check") and k.get("match") and k["match"] in v.get("message", ""):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import tempfile, shutil
    from checks.meta import META, TRUSTED
    scratch = tempfile.mkdtemp(prefix="bm25s-check-")
    try:
        rc = decide(prop, tier, seed, t0, scratch, META[prop], TRUSTED)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def decide(prop, tier, seed, t0, scratch, meta, TRUSTED):
    quick = tier == "quick"
    runs = falsify(prop, seed, tier, 45 if quick else 240, scratch, 300 if quick else 500)
    t_end = t0 + (560 if quick else 620)
    results = prove_all(prop, tier, t_end, 7 if quick else 8)
    viols, fsum, notes = [], [], []
    for r in runs:
        s, v, note = r.finish()
        if s:
            fsum.append((("nojit" if r.nojit else "jit") if prop in JIT_PROPS else "run", s))
        if v:
            viols.append(v)
        if note:
            notes.append(note)
    obl = [o for r in results for o in r["obligs"]]
    failed = [o for o in obl if o["status"] != "proved"]
    targets = {r["target"] for r in results}
    if meta["level"] == "proof" and not obl:
        failed.append(dict(fn=prop, name="non-vacuity", status="failed", detail="no obligation was generated", backend="", secs=0))
    if not fsum and not viols:
        # the bounded run must not be silently empty
        runs = falsify(prop, seed + 1, tier, 45, os.path.join(scratch, "again"), 150)
        for r in runs:
            s, v, note = r.finish()
            if s:
                fsum.append(("again", s))
            if v:
                viols.append(v)
            if note:
                notes.append(note)
    if failed and not viols:
        left = t0 + 800 - time.time()
        if left > 40:
            b = min(120, left - 30)
            for r in falsify(prop, seed + 7919, "thorough", b, os.path.join(scratch, "deep"), b + 25):
                s, v, note = r.finish()
                if s:
                    fsum.append(("extended", s))
                if v:
                    viols.append(v)
    lines, rc = [], 0
    fresh = []
    for v in viols:
        k = known(prop, v)
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            fresh.append(v)
    rep_dir = os.path.join(VERIF, "replays")
    if fresh:
        path = os.path.join(rep_dir, f"{prop}.json")
        write(path, dict(property=prop, **{k: fresh[0].get(k) for k in ("check", "case", "message", "nojit")},
                         failed_obligations=[dict(fn=o["fn"], obligation=o["name"], solver_output=o["detail"]) for o in failed],
                         how_to_replay=f"{PY} {VERIF}/falsify/run.py --replay {path}"))
        lines.append(f"# {fresh[0].get('check')}: {str(fresh[0].get('message'))[:400]}")
        for o in failed[:5]:
            lines.append(f"# failed obligation: {o['fn']} :: {o['name']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif failed:
        path = os.path.join(rep_dir, f"{prop}.json")
        write(path, dict(property=prop, failed_obligations=[dict(fn=o["fn"], obligation=o["name"], backend=o["backend"], solver_output=o["detail"]) for o in failed],
                         note="no failing input was found by the bounded search on the real code"))
        for o in failed[:8]:
            lines.append(f"# failed obligation: {o['fn']} :: {o['name']} | {o['detail'][:200]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1
    elif not fsum:
        path = os.path.join(rep_dir, f"{prop}.json")
        write(path, dict(property=prop, failed_obligations=[], note="the bounded run of the real code gave no result", notes=notes))
        lines.append("# " + " / ".join(n.replace("\n", " ")[-300:] for n in notes))
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1

    by = {}
    for o in obl:
        if o["status"] == "proved":
            by[o["backend"] or "simplifier"] = by.get(o["backend"] or "simplifier", 0) + 1
    evals = sum(s["evaluations"] for _, s in fsum)
    cov = dict(obligations=len(obl), discharged=sum(by.values()), by_backend=by,
               checker_cmd=f"python3-vt checks/run.py {prop} --tier {tier}",
               functions_under_contract=sorted(t for t in targets if not any(r["functions"].get(t, "").startswith(("absent", "signature")) for r in results if r["target"] == t)),
               tagged_but_absent=sorted({f"{t}: {w}" for r in results for t, w in r["functions"].items() if w.startswith(("absent", "signature"))}),
               functions_inlined_into_their_callers=sorted({x for r in results for x in r["inlined"]} - targets),
               paths_completed=sum(r["covers"] for r in results), solver_s=round(sum(r["solver"] for r in results), 2),
               solver_queries=sum(r["queries"] for r in results),
               slowest=[f"{o['fn']} :: {o['name']}: {o['secs']}s ({o['backend']})" for o in sorted(obl, key=lambda o: -o["secs"])[:5]],
               trusted_base=TRUSTED + meta.get("trusted", []),
               evaluations=evals, distinct_nontrivial=sum(s["distinct"] for _, s in fsum),
               rule="bounded companion run of the real code (not counted as proof): generated cases per falsifier, distinct by their JSON text; "
                    "cases outside the property's precondition are skipped and not counted",
               bounded_runs={n: s["checks"] for n, s in fsum},
               samples=[x for _, s in fsum for x in s["samples"]][:5],
               bounded_parts=meta.get("bounded", []))
    if meta["level"] != "proof":
        cov["explanation"] = meta.get("explanation", meta["note"])
    assumptions = sorted({x for r in results for x in r["assumptions"]}) + meta.get("assumptions", [])
    write(os.path.join(VERIF, "evidence", f"{prop}.json"),
          dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov, assumptions=assumptions,
               wall_s=round(time.time() - t0, 2), violations=len(fresh) + (1 if rc and not fresh else 0), notes=notes))
    for l in lines:
        print(l)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged over {len(cov['functions_under_contract'])} contracts, "
          f"{evals} bounded evaluations, {time.time() - t0:.0f}s")
    return rc


if __name__ == "__main__":
    main()
