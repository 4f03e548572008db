"""Explorer runtime: runs every case of a finite case list on the real code, gathers
coverage and violations, writes evidence and replay files."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

MAX_REPORT = 5
DEADLINE_S = float(os.environ.get("VERIF_DEADLINE", "780"))
FAILFAST = os.environ.get("VERIF_FAILFAST") == "1"  # stop at the first violation (for experiments)


class Ctx:
    """Per-case recorder handed to a property's run_case."""

    def __init__(self, prop, case):
        self.prop = prop
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = set()
        self.violations = []

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def evaluated(self, n=1):
        self.evals += n

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def fail(self, sig, msg):
        if len(self.violations) < 50:
            self.violations.append({"sig": str(sig), "msg": str(msg)[:2000]})


def _canon(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        if o.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                return [list(o.shape), [float("%.7g" % v) + 0.0 for v in o.ravel().tolist()]]
        return [list(o.shape), o.ravel().tolist()]
    if isinstance(o, (float, np.floating)):
        return float("%.7g" % o) + 0.0
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, dict):
        return [[str(k), _canon(v)] for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))]
    if isinstance(o, (list, tuple)):
        return [_canon(v) for v in o]
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return repr(o)


def digest(o):
    return hashlib.blake2b(repr(_canon(o)).encode(), digest_size=8).hexdigest()


_MODULE = None


def _worker_init():
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    except OSError:
        pass


def run_one(module, prop, case):
    ctx = Ctx(prop, case)
    try:
        module.run_case(case, ctx)
    except Exception as exc:  # the property implies these calls succeed
        ctx.fail(
            "exception:" + type(exc).__name__,
            "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:],
        )
    return ctx


def _run_chunk(args):
    prop, chunk = args
    import warnings

    warnings.filterwarnings("ignore")
    out = []
    for idx, case in chunk:
        t = time.time()
        ctx = run_one(_MODULE, prop, case)
        out.append(
            (idx, ctx.violations, ctx.states, ctx.transitions, ctx.traces, ctx.evals, ctx.outcomes, time.time() - t)
        )
    return out


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    out = []
    try:
        with open(path) as fh:
            for e in json.load(fh).get("findings", []):
                if e.get("property") == prop and e.get("status", "open") == "open":
                    out.append(e)
    except FileNotFoundError:
        pass
    return out


def _jsonable(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    return o


def write_replay(prop, tier, idx, case, violations):
    d = os.path.join(env.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{idx}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "case_index": idx,
                "case": _jsonable(case),
                "violations": violations,
                "how": f"/verif/run.sh {prop} --tier {tier} --replay {path}",
            },
            fh,
            indent=1,
            default=str,
        )
    return path


def main(module, prop, tier, replay=None, profile=False):
    global _MODULE
    _MODULE = module
    t0 = time.time()
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    cases = list(module.cases(tier))
    if replay is not None:
        idx = json.load(open(replay))["case_index"]
        ctx = run_one(module, prop, cases[idx])
        for v in ctx.violations:
            print(f"{v['sig']}: {v['msg']}")
        print("replayed case", idx, "violations:", len(ctx.violations))
        return 1 if ctx.violations else 0
    warm = getattr(module, "warmup", None)
    problems = []  # (idx, case, violations)
    known_sigs = {k["sig"] for k in load_known(prop)}
    if warm is not None:
        try:
            warm()
        except Exception as exc:
            problems.append((-1, "warmup", [{"sig": "exception:" + type(exc).__name__, "msg": traceback.format_exc()[-1800:]}]))
    states, outcomes = set(), set()
    transitions = traces = evals = done = 0
    times = {}
    nproc = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
    indexed = list(enumerate(cases))
    if not problems:
        csize = max(1, min(getattr(module, "CHUNK", 64), -(-len(indexed) // (nproc * 6))))
        # interleave so that neighbouring (similarly expensive) cases spread over the workers
        nchunks = -(-len(indexed) // csize)
        chunks = [indexed[k::nchunks] for k in range(nchunks)]
        ctxm = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(nproc, mp_context=ctxm, initializer=_worker_init)
        futs = {ex.submit(_run_chunk, (prop, c)): c for c in chunks}
        try:
            for f in cf.as_completed(futs, timeout=max(1.0, DEADLINE_S - (time.time() - t0)) if tier == "quick" else None):
                for idx, viol, st, tr, tc, ev, oc, dt in f.result():
                    done += 1
                    states |= st
                    outcomes |= oc
                    transitions += tr
                    traces += tc
                    evals += ev
                    times[idx] = dt
                    if viol:
                        problems.append((idx, cases[idx], viol))
                if FAILFAST and any(v["sig"] not in known_sigs for p in problems for v in p[2]):
                    for p in list((ex._processes or {}).values()):
                        p.kill()
                    break
        except cf.TimeoutError:
            todo = [c[0][0] for f, c in futs.items() if not f.done()]
            problems.append((todo[0] if todo else -1, "deadline", [{"sig": "timeout", "msg": f"no answer within {DEADLINE_S}s; unfinished chunks start at cases {todo[:5]}"}]))
            for p in list((ex._processes or {}).values()):
                p.kill()
        except cf.process.BrokenProcessPool:
            problems.append((-1, "worker died", [{"sig": "crash", "msg": "a worker process died while executing the code under test"}]))
        # all results are in (or given up): leave no worker behind that would keep the pipes open
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
                p.join(timeout=5)
            except Exception:
                pass
    known = load_known(prop)
    known_hit = {}
    reported = []
    for idx, case, viol in sorted(problems, key=lambda x: x[0]):
        rest = []
        for v in viol:
            hit = next((k for k in known if k["sig"] == v["sig"]), None)
            if hit is not None:
                known_hit[hit["sig"]] = hit
            else:
                rest.append(v)
        if rest:
            reported.append((idx, case, rest))
    wall = time.time() - t0
    level = getattr(module, "LEVEL", "model_checking")
    sample_ids = sorted({0, len(cases) // 3, (2 * len(cases)) // 3, max(0, len(cases) - 1)}) if cases else []
    samples = [{"case_index": i, "case": _jsonable(cases[i])} for i in sample_ids]
    if level == "exploration":
        coverage = {
            "evaluations": evals,
            "distinct_nontrivial": len(states),
            "rule": module.RULE,
            "samples": samples,
            "exhaustive": True,
        }
    else:
        coverage = {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples,
            "exhaustive": True,
        }
    coverage["cases"] = done
    coverage["distinct_outcomes"] = len(outcomes)
    coverage["bounds"] = module.BOUNDS(tier) if callable(module.BOUNDS) else module.BOUNDS
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    n_sum = f"cases={done} states={len(states)} transitions={transitions} traces={traces} evaluations={evals} outcomes={len(outcomes)} wall={wall:.1f}s"
    print(f"[{prop}/{tier}] {n_sum}")
    if profile:
        for i, dt in sorted(times.items(), key=lambda kv: -kv[1])[:12]:
            print(f"  {dt:7.2f}s case {i}: {str(cases[i])[:160]}")
        print("  total cpu", round(sum(times.values()), 1))
    if reported:
        for idx, case, viol in reported[:MAX_REPORT]:
            path = write_replay(prop, tier, idx, case, viol)
            print(f"  case {idx}: {str(case)[:300]}")
            for v in viol[:3]:
                print("   -", v["sig"], ":", v["msg"][-500:].replace("\n", "\n     "))
            print(f"VIOLATION property={prop} replay={path}")
        if len(reported) > MAX_REPORT:
            print(f"  ... and {len(reported) - MAX_REPORT} more failing cases")
        return 1
    return 0
