"""Driver shared by all checks: job fan-out, crash isolation, known findings, evidence, replay."""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import warnings

warnings.filterwarnings("ignore")
import traceback
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
KNOWN = VERIF / "known_findings.json"
JOB_TIMEOUT = 400


class Res:
    """What one job covered. key: identity of the failing case; replay: JSON-able job to re-run it alone."""

    def __init__(self):
        self.states = 0          # distinct inputs / model states reached
        self.transitions = 0     # steps taken in the model
        self.traces = 0          # model runs compared with a run of the real code
        self.viol = {}           # key -> (message, replay case)
        self.outcomes = collections.Counter()
        self.samples = []
        self.extra = collections.Counter()

    def bad(self, key, msg, case=None):
        self.outcomes["VIOLATION"] += 1
        if key not in self.viol and len(self.viol) < 400:
            self.viol[key] = (str(msg)[:2000], case)

    def sample(self, s, n=2):
        if len(self.samples) < n:
            self.samples.append(s)

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        self.outcomes.update(o.outcomes)
        self.extra.update(o.extra)
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)


def chunks(seq, n):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


_MOD = None


def _work(job):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(JOB_TIMEOUT)
    try:
        return _MOD.run(job)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # a harness bug or a panic that escaped: never silently lost
        r = Res()
        r.bad(f"job:{_jkey(job)}:{type(e).__name__}", f"job failed: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", job)
        return r
    finally:
        signal.alarm(0)


def _jkey(job):
    return hashlib.sha256(json.dumps(job, sort_keys=True, default=str).encode()).hexdigest()[:12]


def _alone(job):
    """Run one job in its own process; a dead process is reported as a violation of whatever it ran."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def go():
        b.send(_work(job))
        b.close()
    p = ctx.Process(target=go)
    p.start()
    b.close()
    res = None
    try:
        if a.poll(JOB_TIMEOUT + 20):
            res = a.recv()
    except EOFError:
        pass
    p.join(5)
    if p.is_alive():
        p.kill()
        p.join()
    if res is None:
        res = Res()
        res.bad(f"crash:{_jkey(job)}", f"the process died or hung (exit {p.exitcode}) while running {json.dumps(job, default=str)[:1500]}", job)
    return res


def run_jobs(jobs, deadline, workers=8):
    total = Res()
    jobs = list(jobs)
    done = 0
    left = list(range(len(jobs)))
    ctx = mp.get_context("fork")
    try:
        with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
            futs = {ex.submit(_work, jobs[i]): i for i in left}
            for f in cf.as_completed(futs):
                total.merge(f.result())
                done += 1
                left.remove(futs[f])
    except BrokenProcessPool:
        # find the culprit(s) by isolating the jobs that had not finished
        crashed = 0
        for i in list(left):
            if crashed >= 3 or time.time() > deadline:
                break
            r = _alone(jobs[i])
            if any(k.startswith("crash:") for k in r.viol):
                crashed += 1
            total.merge(r)
            done += 1
    return total, done, len(jobs)


def load_known(pid):
    if not KNOWN.exists():
        return {}
    return {e["key"]: e for e in json.loads(KNOWN.read_text())["findings"] if e["property"] == pid and e.get("status") != "fixed"}


def main(pid, argv):
    global _MOD
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    it = iter(argv)
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = next(it)
    os.environ["RUST_BACKTRACE"] = "0"
    os.environ["RUST_LIB_BACKTRACE"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    from . import build
    pkg = build.ensure()
    sys.path.insert(0, str(pkg))
    sys.path.insert(0, str(VERIF / "lib" / "fakespark"))
    tb = time.time()
    sys.setrecursionlimit(20000)
    _MOD = importlib.import_module(f"checks.{pid.lower()}")
    budget = 780 if tier == "quick" else 4 * 3600
    if replay:
        jobs = [json.loads(Path(replay).read_text())["job"]]
    else:
        jobs = list(_MOD.jobs(tier))
    # a fixed number of jobs, all of them run: nothing is sampled and nothing is cut off
    total, done, n = run_jobs(jobs, t0 + budget)
    if hasattr(_MOD, "finish") and not replay:
        _MOD.finish(tier, total)
    known = load_known(pid)
    seen_known, new = [], []
    for k, (msg, case) in sorted(total.viol.items()):
        (seen_known if k in known else new).append((k, msg, case))
    for k, msg, case in seen_known:
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']} [{k}]")
    rdir = VERIF / ".build" / "replay"
    rdir.mkdir(parents=True, exist_ok=True)
    paths = []
    for k, msg, case in new[:25]:
        p = rdir / f"{pid}-{hashlib.sha256(k.encode()).hexdigest()[:12]}.json"
        p.write_text(json.dumps({"property": pid, "key": k, "message": msg, "job": case}, indent=1, default=str))
        paths.append((p, k, msg))
    wall = time.time() - t0
    stale = [k for k in known if k not in total.viol] if not replay else []
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": getattr(_MOD, "LEVEL", "model_checking"),
        "coverage": {
            "states": total.states, "transitions": total.transitions, "traces_validated_against_impl": total.traces,
            "samples": total.samples[:12], "jobs": n, "jobs_finished": done, "exhaustive": done == n,
            "bounds": _MOD.bounds(tier), "outcomes": dict(total.outcomes.most_common(60)), **{k: v for k, v in total.extra.items()},
        },
        "wall_s": round(wall, 2), "build_s": round(tb - t0, 2),
        "violations": len(new), "known_findings": [k for k, _, _ in seen_known], "known_findings_not_reproduced": stale,
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
    }
    if not replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} [{tier}] states={total.states} transitions={total.transitions} traces_validated={total.traces} jobs={done}/{n} "
          f"violations={len(new)} known={len(seen_known)} wall={wall:.1f}s (build {tb - t0:.1f}s)")
    print("outcomes:", dict(total.outcomes.most_common(20)))
    if new:
        for p, k, msg in paths[:10]:
            print(f"  {k}\n    {msg[:700]}")
        for p, k, msg in paths:
            print(f"VIOLATION property={pid} replay={p}")
        sys.exit(1)
    if done != n:
        print("INCOMPLETE: not every job finished")
        sys.exit(2)
    sys.exit(0)
