#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]: decides one property on /repo's tree.

Proof part:   every contract of the property is verified against the source in
              /repo (pyvc, see DESIGN.md); all obligations must be discharged.
Bounded part: the same specifications are evaluated on generated inputs run
              through the real code; this also searches the failing input for
              an obligation which is not discharged.
"""
import os
import sys

if not sys.flags.dont_write_bytecode:
    sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import json  # noqa: E402
import multiprocessing as mp  # noqa: E402
import re  # noqa: E402
import signal  # noqa: E402
import tempfile  # noqa: E402
import shutil  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

import registry  # noqa: E402

CORES = min(8, os.cpu_count() or 1)


class Late(BaseException):
    pass


def alarm(sig, frm):
    raise Late()


# -- proof jobs -------------------------------------------------------------------
def load_contracts():
    from rt import real

    real.load()
    import importlib

    for m in registry.CONTRACT_MODULES:
        importlib.import_module(m)
    from pyvc.verify import TASKS

    return TASKS


def proof_job(job):
    """verify one contract in a fresh process"""
    name, opt, budget, cross = job["name"], job["opt"], job["budget"], job["cross"]
    out = {"job": job, "obligations": [], "seconds": 0.0, "meta": {}}
    t0 = time.time()
    try:
        tasks = load_contracts()
        from pyvc.verify import verify

        c = next(t for t in tasks if t.name == name)
        c.inline = set(c.inline) | set(job.get("inline", ()))
        ex = verify(c, modular=opt != "flat", budget=budget, cross=cross, peel=opt == "peel", small=2 if opt == "small" else 0)
        out["obligations"] = [(o.name, o.status, o.backend, round(o.seconds, 3), o.detail[:1200]) for o in ex.obligations]
        if job.get("form") and (c.yields or c.returns or c.written):
            # the property is about the form of the results only: other behaviour than specified leaves it open
            out["obligations"] = [(n, "unknown" if s == "failed" and not any(w in n for w in registry.FORM) else s, b, t, d) for n, s, b, t, d in out["obligations"]]
        out["meta"] = {"paths": ex.paths, "completed": ex.completed, "used": sorted(map(str, ex.contracts_used)), "inlined": sorted(map(str, ex.inlined)),
                       "trusted": sorted(map(str, ex.trusted)), "solver_s": round(ex.stats.solver_s, 2), "checks": ex.stats.checks, "cross": ex.cross}
        out["key"] = c.key
    except BaseException as e:  # noqa: BLE001
        out["obligations"].append((name + ":engine", "unsupported", "engine", 0.0, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-800:]}"))
        out["key"] = job.get("key")
    out["seconds"] = round(time.time() - t0, 2)
    return out


def status(r):
    st = [o[1] for o in r["obligations"]]
    if not st:
        return "unknown"
    if all(s == "discharged" for s in st):
        return "discharged"
    return "failed" if "failed" in st else "open"


def run_proofs(pool_map, jobs):
    return pool_map(proof_job, jobs)


# -- search jobs ------------------------------------------------------------------
def search_job(job):
    from rt import real

    out = {"evaluations": 0, "nontrivial": 0, "samples": [], "violations": [], "errors": [], "distinct": 0}
    seen = set()
    try:
        real.load()
        import importlib

        m = importlib.import_module(job["module"])
        scratch = real.Scratch()
    except Exception as e:  # noqa: BLE001
        out["errors"].append(f"{type(e).__name__}: {e}")
        return out
    signal.signal(signal.SIGALRM, alarm)
    try:
        end = time.time() + job["seconds"]
        for k in range(job["count"]):
            if time.time() > end:
                break
            seed = f"{job['seed']}:{job['worker']}:{k}"
            signal.alarm(40)
            try:
                nt, sample, bad = m.run_one(job["pid"], seed, scratch)
            except Late:
                bad, nt, sample = {"complaints": ["did not terminate within 40 s"], "seed": seed}, True, seed
            except Exception as e:  # noqa: BLE001
                out["errors"].append(f"seed {seed}: {type(e).__name__}: {e} {traceback.format_exc()[-700:]}")
                if len(out["errors"]) > 5:
                    break
                continue
            finally:
                signal.alarm(0)
            out["evaluations"] += 1
            key = hash(str(sample))
            if nt and key not in seen:
                seen.add(key)
                out["nontrivial"] += 1
            if nt and len(out["samples"]) < 2:
                out["samples"].append(str(sample)[-1500:])
            if bad:
                known = registry.known(job["pid"], bad)
                bad["module"] = job["module"]
                if known:
                    bad["known"] = known
                out["violations"].append(bad)
                if not known:
                    break
    finally:
        scratch.close()
    return out


# -- driver -----------------------------------------------------------------------
def run_pool(fn, jobs, limit, until=None):
    """run jobs, each in its own process; a job over its time limit is ended,
    and all that are left when the time is `until`"""
    ctx = mp.get_context("fork")
    todo, running, done = list(enumerate(jobs)), [], {}
    while todo or running:
        while todo and len(running) < CORES:
            i, j = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, j, wr))
            p.start()
            wr.close()
            running.append((i, j, p, rd, time.time()))
        still = []
        late = until is not None and time.time() > until
        if late:
            todo = []
        for i, j, p, rd, t0 in running:
            if rd.poll(0.01):
                try:
                    done[i] = rd.recv()
                except EOFError:
                    done[i] = None
                p.join()
            elif not p.is_alive() and not rd.poll(0.05):
                done[i] = None
            elif late or time.time() - t0 > limit:
                p.kill()
                p.join()
                done[i] = None
            else:
                still.append((i, j, p, rd, t0))
        running = still
    return [done.get(i) for i in range(len(jobs))]


def _child(fn, job, wr):
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("CHECK_DEBUG"):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    r = fn(job)
    wr.send(r)
    wr.close()
    os._exit(0)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="spexcheck")
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        rc = decide(pid, tier, seed, t0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def search(pid, seed, spec, factor, workers=CORES):
    mods = registry.SEARCH.get(pid, [])
    jobs = []
    per = max(1, workers // max(1, len(mods)))
    for module, count, seconds in mods:
        for w in range(per):
            jobs.append({"pid": pid, "module": module, "seed": f"{seed}/{spec}", "worker": w, "count": max(1, int(count * factor / per)), "seconds": seconds * factor})
    limit = max([j["seconds"] for j in jobs] + [1]) + 120
    res = [r for r in run_pool(search_job, jobs, limit)]
    tot = {"evaluations": 0, "nontrivial": 0, "samples": [], "violations": [], "errors": []}
    for r, j in zip(res, jobs):
        if r is None:
            tot["errors"].append(f"worker {j['worker']} of {j['module']} was ended")
            continue
        for k in ("evaluations", "nontrivial"):
            tot[k] += r[k]
        for k in ("violations", "errors"):
            tot[k] += r[k]
        if len(tot["samples"]) < 3:
            tot["samples"] += r["samples"][:1]
    return tot


def decide(pid, tier, seed, t0):
    thorough = tier == "thorough"
    props = registry.PROOFS
    names = props.get(pid)
    if names is None:
        names = discover(pid)
    factor = 10 if thorough else 1
    jobs = [{"name": n, "form": pid in registry.FORM_ONLY, "opt": "modular", "budget": b * (3 if thorough else 1), "cross": thorough} for n, b in names]
    ends = (lambda n: None) if thorough else lambda n: t0 + n  # what the steps of the quick tier may take together
    proofs = run_pool(proof_job, jobs, 400, ends(420)) if jobs else []
    proofs = [p or {"job": j, "obligations": [(j["name"] + ":engine", "unknown", "engine", 0.0, "ended after its time limit")], "seconds": 0, "meta": {}, "key": None} for p, j in zip(proofs, jobs)]
    notes = []
    bad = [p for p in proofs if status(p) != "discharged"]
    final = {p["job"]["name"]: p for p in proofs}
    if bad:
        # a helper whose contract does not hold any more is inlined into its
        # callers; loops are peeled; what then discharges is accepted
        keys = [p["key"] for p in bad if p.get("key")]
        retry = []
        for p in bad:
            n = p["job"]["name"]
            if "lemma" in n:
                continue
            for opt in ("modular",) if p["job"].get("form") else ("modular", "peel", "flat"):
                retry.append(dict(p["job"], opt=opt, inline=[k for k in keys if k != p.get("key")], budget=max(60, p["job"]["budget"])))
        rr = run_pool(proof_job, retry, 200, ends(500))
        for r in rr:
            if r is not None and status(r) == "discharged":
                n = r["job"]["name"]
                if status(final[n]) != "discharged":
                    final[n] = r
                    notes.append(f"{n}: discharged with options {r['job']['opt']}, inlining {r['job']['inline']}")
        left = [p for p in final.values() if status(p) != "discharged"]
        roots = [(n, b) for n, b in names if registry.is_root(n)]
        if left and roots and all(not registry.is_root(p["job"]["name"]) for p in left):
            keys = [p["key"] for p in left if p.get("key")]
            rr = run_pool(proof_job, [{"name": n, "form": pid in registry.FORM_ONLY, "opt": o, "budget": max(90, b), "cross": False, "inline": keys} for n, b in roots for o in ("modular", "peel")], 240, ends(600))
            ok = {r["job"]["name"] for r in rr if r is not None and status(r) == "discharged"}
            if ok >= {n for n, _ in roots}:
                for r in rr:
                    if r is not None and status(r) == "discharged":
                        final[r["job"]["name"]] = r
                for p in left:
                    notes.append(f"{p['job']['name']}: its contract no longer holds; every caller was re-verified with it inlined")
                    del final[p["job"]["name"]]
    proofs = list(final.values())
    # what the loop rule does not cover any more: are there counter-models with sequences of at most two elements?
    doubt = [p for p in proofs if status(p) == "open"]
    if doubt:
        keys = [p["key"] for p in proofs if status(p) != "discharged" and p.get("key")]
        jobs2 = []
        for p in doubt:
            others = [k for k in keys if k != p.get("key")]
            jobs2 += [dict(p["job"], opt="small", inline=i, budget=60) for i in ([[], others] if others else [[]])]
        found = {}
        for r in run_pool(proof_job, jobs2, 100, ends(660)):
            if r is not None:
                found.setdefault(r["job"]["name"], []).append([o for o in r["obligations"] if o[1] == "failed"])
        for p in doubt:
            f = found.get(p["job"]["name"], [])
            if f and all(f):
                p["obligations"] = p["obligations"] + [(o[0], o[1], o[2], o[3], "with sequences of at most two elements: " + o[4]) for o in f[0]]
    undischarged = [p for p in proofs if status(p) != "discharged"]
    failed = [p for p in undischarged if status(p) == "failed"]

    s = search(pid, seed, tier, factor)
    if undischarged and not [v for v in s["violations"] if not v.get("known")]:
        more = search(pid, seed, tier + "+", factor * 4)
        for k in ("evaluations", "nontrivial"):
            s[k] += more[k]
        for k in ("violations", "errors"):
            s[k] += more[k]

    new = [v for v in s["violations"] if not v.get("known")]
    lines = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rc = 0
    path = os.path.join(HERE, "replays", f"{pid}.json")
    if os.path.exists(path):
        os.unlink(path)
    fail_text = [{"function": p["job"]["name"], "obligation": o[0], "status": o[1], "backend": o[2], "verifier_output": o[4]} for p in undischarged for o in p["obligations"] if o[1] != "discharged"][:12]
    if new:
        v = min(new, key=lambda v: len(json.dumps(v, default=str)))
        json.dump({"property": pid, "failing_input": v, "failed_obligations": fail_text}, open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif failed:
        json.dump({"property": pid, "failing_input": None, "failed_obligations": fail_text}, open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1
    for k in registry.findings(pid):
        lines.append(f"KNOWN-FINDING: property={pid} {k}")

    obs = [o for p in proofs for o in p["obligations"]]
    dis = [o for o in obs if o[1] == "discharged"]
    backends = {}
    for o in dis:
        backends[o[2]] = backends.get(o[2], 0) + 1
    trusted = sorted({t for p in proofs for t in p["meta"].get("trusted", [])})
    cov = {}
    if names:
        cov = {
            "obligations": len(obs), "discharged": len(dis), "checker_cmd": f"/verif/check.py {pid} {tier}",
            "trusted_base": registry.trusted_base(pid),
            "functions_under_contract": [{"function": p["job"]["name"], "obligations": len(p["obligations"]), "discharged": sum(o[1] == "discharged" for o in p["obligations"]),
                                          "paths": p["meta"].get("paths"), "seconds": p["seconds"], "uses_contracts": p["meta"].get("used"), "inlined": p["meta"].get("inlined")} for p in proofs],
            "library_models_used": trusted, "discharged_by": backends, "solver_seconds": round(sum(p["meta"].get("solver_s", 0) for p in proofs), 1),
            "undischarged": fail_text, "notes": notes,
        }
        cross = {}
        for p in proofs:
            for k, v in p["meta"].get("cross", {}).items():
                cross[k] = cross.get(k, 0) + v
        if cross:
            cov["cvc5_cross_check"] = cross
        vac = [p["job"]["name"] for p in proofs if not p["meta"].get("completed", 1)]
        if vac:
            cov["vacuous"] = vac
    cov.update({
        "bounded": bool(registry.SEARCH.get(pid)), "evaluations": s["evaluations"], "distinct_nontrivial": s["nontrivial"], "rule": registry.rule(pid),
        "samples": s["samples"][:3], "search_errors": s["errors"][:3],
    })
    if not names:
        cov["explanation"] = "bounded runtime contract check only"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": registry.level(pid), "coverage": cov, "assumptions": registry.assumptions(pid),
          "wall_s": round(time.time() - t0, 1), "violations": len(new) + (1 if failed and not new else 0)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1, default=str)
    if len(text) > 60000:
        cov["functions_under_contract"] = [{k: f[k] for k in ("function", "obligations", "discharged", "seconds")} for f in cov["functions_under_contract"]]
        text = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        f.write(text)
    for l in lines:
        print(l)
    print(f"{pid}: {len(dis)}/{len(obs)} obligations of {len(proofs)} contracts discharged, {s['evaluations']} generated cases ({s['nontrivial']} distinct non-trivial), "
          f"{len(s['errors'])} errors, {ev['wall_s']} s")
    for n in notes:
        print("note:", n)
    for e in s["errors"][:2]:
        print("error:", e)
    if rc == 0 and not s["evaluations"] and not obs:
        return 2
    return rc


def discover(pid):
    """contracts of a property, read in a child so that the parent stays small"""
    r = run_pool(_names, [pid], 120)[0]
    if r is None:
        raise SystemExit("cannot load the contracts")
    return r


def _names(pid):
    try:
        return [(c.name, c.budget) for c in load_contracts() if pid in c.props]
    except Exception:
        traceback.print_exc()
        return []


if __name__ == "__main__":
    main()
