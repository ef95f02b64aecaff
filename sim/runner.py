"""Case runner: forked execution, aggregation, minimisation, replay, evidence."""
import hashlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF
PY = sys.executable


def case_rng(seed, check, i):
    return random.Random(f"{seed}/{check}/{i}")


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_jd)


def _jd(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


# ---------------------------------------------------------------------------
def died(msg):
    """The code under test took the simulated process down: a violation of every property."""
    return {"violations": [{"key": "process died", "msg": msg}], "digest": msg, "faults": {}, "counts": {}, "ops": {},
            "trace": [msg]}


def run_forked(check, case, cpu=60, wall=120):
    """Run one case in a forked child.  Returns its result dictionary."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                res = check.run(case)
            except boot.ProcessDied as e:
                res = died(str(e))
            except BaseException as e:  # harness error
                res = {"harness_error": "".join(traceback.format_exception(e))[-3000:]}
            data = jdump(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL)):
        return {"timeout": True}
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in boot.DEATHS:
        return died(f"process died of {signal.Signals(os.WTERMSIG(status)).name}")
    try:
        return json.loads(b"".join(buf))
    except Exception:
        return {"harness_error": f"child ended with status {status} and no result"}


class Helper:
    """A second interpreter (another hash seed, no history) that computes reference outcomes."""

    def __init__(self, check, hashseed=4242):
        self.pid = os.getpid()
        self.p = subprocess.Popen([PY, "-m", "sim.main", check.id, "--serve"], cwd=VERIF, env=subproc_env(hashseed),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, case):
        import base64
        import pickle
        self.p.stdin.write(jdump(case).encode() + b"\n")
        self.p.stdin.flush()
        while True:
            ln = self.p.stdout.readline()
            if not ln:
                raise RuntimeError("the reference interpreter ended")
            if ln.startswith(b"REF "):
                k, v = pickle.loads(base64.b64decode(ln[4:]))
                if k == "died":
                    raise boot.ProcessDied(v)
                if k == "err":
                    raise RuntimeError("reference failed: " + v)
                return v


_HELPER = None


def external(check, case):
    global _HELPER
    if _HELPER is None or _HELPER.pid != os.getpid():
        _HELPER = Helper(check)
    return _HELPER.ask(case)


def serve(check):
    """Answer cases with check.reference(case), each in a forked child."""
    import base64
    import pickle

    from . import common
    for ln in sys.stdin:
        case = json.loads(ln)
        try:
            out = ("ok", common.isolated(lambda: check.reference(case)))
        except boot.ProcessDied as e:
            out = ("died", str(e))
        except BaseException as e:
            out = ("err", str(e)[-1500:])
        sys.stdout.write("REF " + base64.b64encode(pickle.dumps(out)).decode() + "\n")
        sys.stdout.flush()


def run_case(check, case):
    if check.external:
        try:
            check.ext = external(check, case)
        except boot.ProcessDied as e:
            return died(str(e))
        except RuntimeError as e:
            return {"harness_error": str(e)}
    res = run_forked(check, case, *check.limits)
    if res.get("timeout"):
        if check.bounded:
            # Decide by steps, not by time: repeat under a line budget.
            c2 = dict(case)
            c2["_budget"] = check.step_budget
            r2 = run_forked(check, c2, 300, 400)
            if any(v["key"].startswith("unbounded") for v in r2.get("violations", ())):
                return r2
        return {"discarded": "timeout", "violations": []}
    return res


def sweep(check, seed, tier, n, workers, wall_cap):
    """Run cases 0..n-1 on forked workers; returns {i: result} in index order."""
    t0 = time.monotonic()
    pipes = []
    pids = []
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                if check.pin:        # dependencies size their thread pools by the cores they may use
                    cpus = sorted(os.sched_getaffinity(0))
                    os.sched_setaffinity(0, {cpus[wk % len(cpus)]})
                out = os.fdopen(w, "w", buffering=1)
                for i in range(wk, n, workers):
                    if time.monotonic() - t0 > wall_cap:
                        break
                    try:
                        case = check.gen(case_rng(seed, check.id, i), i, tier)
                        res = run_case(check, case)
                    except BaseException:
                        res = {"harness_error": traceback.format_exc()[-3000:]}
                    out.write(json.dumps([i, res]) + "\n")
                out.flush()
            finally:
                os._exit(0)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    bufs = {r: b"" for r in pipes}
    results = {}
    openp = set(pipes)
    while openp:
        rd, _, _ = select.select(list(openp), [], [], 5.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                openp.discard(r)
                continue
            bufs[r] += b
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                i, res = json.loads(ln)
                results[i] = res
    for r in pipes:
        os.close(r)
    for p in pids:
        os.waitpid(p, 0)
    return dict(sorted(results.items()))


# ---------------------------------------------------------------------------
def same_violation(res, key):
    return any(v["key"] == key for v in res.get("violations", ()))


def minimise(check, case, key, deadline, max_runs=250):
    cur = case
    runs = 0
    improved = True
    while improved and runs < max_runs and time.monotonic() < deadline:
        improved = False
        for cand in check.shrink(cur):
            if runs >= max_runs or time.monotonic() > deadline:
                break
            runs += 1
            try:
                res = run_case(check, cand)
            except Exception:
                continue
            if same_violation(res, key):
                cur = cand
                improved = True
                break
    return cur, runs


def load_known():
    out = {}
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith("known:"):
                parts = dict(p.split("=", 1) for p in ln[6:].split()[:2])
                out[(parts["property"], parts["key"])] = ln.split(None, 3)[3]
    except FileNotFoundError:
        pass
    return out


def subproc_env(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = VERIF
    return e


def digests_elsewhere(check, seed, tier, idx, hashseed):
    """Digests of the given case indices computed in a fresh interpreter."""
    p = subprocess.run([PY, "-m", "sim.main", check.id, "--digests", ",".join(map(str, idx)), "--seed", str(seed),
                        "--tier", tier], cwd=VERIF, env=subproc_env(hashseed), capture_output=True, text=True,
                       timeout=600)
    for ln in p.stdout.splitlines():
        if ln.startswith("DIGESTS "):
            return json.loads(ln[8:])
    return {"error": (p.stdout + p.stderr)[-500:]}


def main(check, seed, tier):
    t0 = time.monotonic()
    n = check.cases(tier)
    workers = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
    wall_cap = 420 if tier == "quick" else 3000
    results = sweep(check, seed, tier, n, workers, wall_cap)
    t_sweep = time.monotonic() - t0

    errors = [(i, r["harness_error"]) for i, r in results.items() if "harness_error" in r]
    faults, counts, sigs, ops = {}, {}, set(), {}
    nontrivial = set()
    viol = {}
    discarded = 0
    for i, r in results.items():
        if r.get("discarded"):
            discarded += 1
        for f, c in r.get("faults", {}).items():
            faults[f] = faults.get(f, 0) + c
        for f, c in r.get("counts", {}).items():
            counts[f] = counts.get(f, 0) + c
        for f, c in r.get("ops", {}).items():
            ops[f] = ops.get(f, 0) + c
        if r.get("sig"):
            sigs.add(r["sig"])
            if r.get("nontrivial"):
                nontrivial.add(r["sig"])
        for v in r.get("violations", ()):
            viol.setdefault(v["key"], (i, v))

    # determinism self check in another interpreter with another hash seed
    det = {"checked": 0, "mismatch": []}
    if results and check.self_check and not viol:
        idx = [i for i in list(results)[:: max(1, len(results) // check.self_check)]
               if "digest" in results[i]][:check.self_check]
        other = digests_elsewhere(check, seed, tier, idx, 12345)
        det["checked"] = len(idx)
        if "error" in other:
            det["error"] = other["error"]
        else:
            det["mismatch"] = [i for i in idx if other.get(str(i)) != results[i]["digest"]]
        if det["mismatch"] and check.digest_is_property:
            i = det["mismatch"][0]
            viol.setdefault("hashseed", (i, {"key": "hashseed", "msg": "result depends on the interpreter's hash "
                                             "seed or on the process"}))

    known = load_known()
    status = 0
    reported = []
    deadline = time.monotonic() + (120 if tier == "quick" else 600)
    new = []
    for key, (i, v) in sorted(viol.items(), key=lambda kv: kv[1][0]):
        if (check.id, key) in known:
            print(f"KNOWN-FINDING: property={check.id} {known[(check.id, key)]}")
            continue
        new.append((key, i, v))
    for key, i, v in new[:4]:
        case = check.gen(case_rng(seed, check.id, i), i, tier)
        runs = 0
        if key != "hashseed":
            case, runs = minimise(check, case, key, deadline)
            res = run_case(check, case)
            vv = next((x for x in res.get("violations", ()) if x["key"] == key), v)
        else:
            res, vv = {"digest": None}, v
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha256(jdump([key, case]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{check.id}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": check.id, "key": key, "violation": vv, "seed": seed, "index": i, "tier": tier,
                       "case": case, "digest": res.get("digest"), "trace": res.get("trace"),
                       "minimisation_runs": runs}, f, indent=1, default=_jd)
        conf = subprocess.run([PY, "-m", "sim.replay", path], cwd=VERIF, env=subproc_env(777), capture_output=True,
                              text=True, timeout=900)
        reproduced = conf.returncode == 1
        print(f"  {check.id} case {i}: {vv['msg']}")
        print(f"  key={key} minimised in {runs} runs; replay in a fresh process: "
              f"{'reproduced' if reproduced else 'NOT reproduced'}")
        print(f"VIOLATION property={check.id} replay={path}")
        reported.append({"key": key, "case": i, "msg": vv["msg"], "replay": path, "reproduced": reproduced})
        status = 1
    if len(new) > 4:
        print(f"  ... and {len(new) - 4} more kinds of violation")
    if errors and status == 0:
        print(f"HARNESS ERROR in {len(errors)} case(s), first: case {errors[0][0]}\n{errors[0][1]}")
        status = 2
    if not results:
        print("HARNESS ERROR: no case ran")
        status = 2

    wall = time.monotonic() - t0
    done = len(results)
    samples = []
    for i in list(results)[:: max(1, done // 3)][:3]:
        c = check.gen(case_rng(seed, check.id, i), i, tier)
        samples.append({"index": i, "case": c, "digest": results[i].get("digest")})
    samples = json.loads(jdump(samples))
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(nontrivial),
        "rule": check.rule,
        "samples": samples,
        "seed_range": f"VERIF_SEED={seed}, case indices 0..{max(results) if results else -1}",
        "cases_planned": n,
        "cases_discarded_timeout": discarded,
        "runs_per_hour": round(done / max(t_sweep, 1e-9) * 3600),
        "faults_fired": dict(sorted(faults.items())),
        "faults_fired_total": sum(faults.values()),
        "operations": dict(sorted(ops.items())),
        "distinct_signatures": len(sigs),
        "signature_measure": check.sig_measure,
        "measured": counts,
        "simulated_time": "the library reads no clock; progress is measured in executed library lines and "
                          "dependency calls (see measured)",
        "real_components": check.real,
        "stub_components": check.stubs,
        "determinism_self_check": det,
        "workers": workers,
    }
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
    if reported:
        ev["coverage"]["reported"] = reported
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jd)
    print(f"{check.id} {tier}: {done} runs, {len(nontrivial)} distinct non-trivial, "
          f"{sum(faults.values())} faults fired, {wall:.1f}s, self-check {det['checked']} "
          f"({len(det['mismatch'])} mismatches), exit {status}")
    return status
