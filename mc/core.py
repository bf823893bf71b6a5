"""Check driver: parallel tasks, evidence, violations, known findings, replay."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import boot
from .choice import LEAVES, HarnessError, TaskTimeout, TooLarge, alarm

EVID = os.path.join(boot.VERIF, "evidence")
TASK_LIMIT = {"quick": 250, "thorough": 4 * 3600}      # a quick task takes well below 60 s; beyond: it does not end, or (if it still advances) is cut
STUCK = 60        # seconds (of CPU time) without any advance
TOTAL_LIMIT = {"quick": 800, "thorough": 1e9}    # beyond: what is left is reported as not run, which is not a verdict
AFTER_VIOLATION = 30      # seconds to go on after the first violation (other tasks may hang on a defective tree)
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Task:
    """Accumulates what one unit of work covered; `violation` records a counterexample."""

    def __init__(self, replay=None, tier=None):
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.outcomes = set()
        self.violations = []
        self.case = None
        self.replay = replay   # when replaying: the case to run (others may be skipped)

    def violation(self, message, case=None, **detail):
        self.violations.append(dict(message=message, case=case, detail=detail))
        if len(self.violations) >= 3:
            raise Enough()

    def check(self, ok, message, case=None, **detail):
        if not ok:
            self.violation(message, case, **detail)
        return bool(ok)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def known(self, key):
        self.extra.setdefault("known", {})
        self.extra["known"][key] = self.extra["known"].get(key, 0) + 1


class Enough(Exception):
    """Enough violations in this task."""


def describe_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(boot.REPO + os.sep)]
    f = (where or list(tb))[-1]
    return f"{type(e).__name__}: {str(e)[:200]} at {os.path.relpath(f.filename, boot.REPO) if where else f.filename}:{f.lineno} in {f.name}"


class Pulse:
    """When did the task last advance?"""

    def __init__(self, task):
        self.task, self.last, self.at = task, None, 0.0

    def beat(self, *_):
        t = self.task
        now = (t.states, t.transitions, t.traces, len(t.outcomes), LEAVES[0])
        if now != self.last:
            self.last, self.at = now, time.process_time()

    def stuck(self):
        self.beat()
        return time.process_time() - self.at > STUCK

    def __enter__(self):
        self.beat()
        signal.signal(signal.SIGVTALRM, self.beat)
        signal.setitimer(signal.ITIMER_VIRTUAL, 2.0, 2.0)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def run_task(arg):
    modname, func, params, replay, tier = arg
    t0 = time.time()
    task = Task(replay, tier)
    err = None
    try:
        mod = importlib.import_module(modname)
        with Pulse(task) as pulse, alarm(TASK_LIMIT[tier], TaskTimeout):
            getattr(mod, func)(task, **params)
    except Enough:
        pass
    except TooLarge:
        task.count("cut")
    except TaskTimeout as e:
        if pulse.stuck():
            task.violations.append(dict(message=f"the library does not return: {e}", case=task.case, detail=dict(traceback=traceback.format_exc()[-3000:])))
        else:
            task.count("cut")
    except HarnessError as e:
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()
    except (MemoryError, ImportError):
        err = traceback.format_exc()
    except Exception as e:   # a result no execution may return (comp.Bad), or the library raised (or returned something unusable) where it must not
        task.violations.append(dict(message=str(e) if type(e).__name__ == "Bad" else "unexpected failure: " + describe_exception(e),
                                    case=task.case,
                                    detail=dict(traceback=traceback.format_exc()[-3000:])))
    return dict(func=func, params=params, states=task.states, transitions=task.transitions,
                traces=task.traces, extra=task.extra, samples=task.samples, outcomes=task.outcomes,
                violations=task.violations, err=err, wall=time.time() - t0)


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [jsonable(v) for v in x]
        return repr(x)


def known_findings(pid):
    """key -> description, for this property (fixed entries suppress nothing)"""
    out = {}
    p = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, desc = rest.split(" ", 1)
                out[key.removeprefix("key=")] = desc
    return out


def main(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "mc.checks." + pid.lower()
    mod = importlib.import_module(modname)
    os.makedirs(EVID, exist_ok=True)
    tasks = [(modname, f, p, None, tier) for f, p in mod.tasks(tier)]
    if replay is not None:
        tasks = [(modname, replay["func"], replay["params"], replay.get("case"), tier)]
    tot = dict(states=0, transitions=0, traces=0)
    extra, samples, outcomes, viols, errs, slow, known = {}, [], set(), [], [], [], {}
    ctx = mp.get_context("fork")

    def take(r):
        for k in tot:
            tot[k] += r[k]
        for k, v in r["extra"].items():
            if k == "known":
                for kk, n in v.items():
                    known[kk] = known.get(kk, 0) + n
            elif k.startswith("max_"):
                extra[k] = max(extra.get(k, 0), v)
            elif isinstance(v, (int, float)):
                extra[k] = extra.get(k, 0) + v
            else:
                extra[k] = v
        samples.extend(r["samples"][:2])
        outcomes.update(r["outcomes"])
        if r["err"]:
            errs.append((r["func"], r["params"], r["err"]))
        for v in r["violations"]:
            viols.append((r["func"], r["params"], v))
        slow.append((round(r["wall"], 1), r["func"], str(r["params"])[:80]))

    if len(tasks) == 1 or WORKERS == 1:
        for t in tasks:
            take(run_task(t))
    else:
        with ctx.Pool(WORKERS, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(run_task, tasks, chunksize=1)
            deadline, done = None, 0
            while True:
                try:
                    take(it.next(timeout=max(0.1, (deadline or t0 + TOTAL_LIMIT[tier]) - time.time())))
                    done += 1
                except StopIteration:
                    break
                except mp.TimeoutError:
                    if deadline is None:        # nothing is concluded from the rest
                        extra["cut"] = extra.get("cut", 0) + 1
                        extra["tasks_not_finished"] = len(tasks) - done
                    break
                if viols and deadline is None:
                    deadline = time.time() + AFTER_VIOLATION
                if len(viols) >= 5:
                    break
            pool.terminate()
    listed = known_findings(pid)
    for k in sorted(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]} [{k}, {known[k]} cases]")
        else:
            viols.append(("known", {}, dict(message=f"violation {k!r} is not a listed finding", case=None, detail={})))
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(states=tot["states"], transitions=tot["transitions"],
               traces_validated_against_impl=tot["traces"],
               distinct_outcomes=len(outcomes), tasks=len(tasks),
               exhaustive=not viols and not errs and not extra.get("cut"),
               bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
               samples=jsonable(samples[:8]), **jsonable(extra))
    if level == "exploration":
        cov["evaluations"] = tot["traces"]
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = mod.RULE
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "numpy and scipy linear algebra are correct to about 1e-12",
                  "bounds as stated in coverage.bound; values outside the stated alphabets are not covered"],
              wall_s=round(wall, 2), violations=len(viols))
    if replay is None:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
    print(f"{pid} {tier}: states={tot['states']} transitions={tot['transitions']} traces={tot['traces']} "
          f"outcomes={len(outcomes)} tasks={len(tasks)} wall={wall:.1f}s extra={extra}")
    if os.environ.get("MC_VERBOSE"):
        for s in sorted(slow, reverse=True)[:8]:
            print("  slow", s)
    for func, params, e in errs[:3]:
        print(f"HARNESS-ERROR property={pid} task={func} {params}\n{e}", file=sys.stderr)
    if viols:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for i, (func, params, v) in enumerate(viols[:5]):
            path = os.path.join(EVID, "replay", f"{pid}-{i + 1}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, func=func, params=jsonable(params), case=jsonable(v["case"]),
                               message=v["message"], detail=jsonable(v["detail"])), f, indent=1, ensure_ascii=False)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {func} {str(params)[:300]}: {v['message']}")
            if v["case"] is not None:
                print(f"  case: {str(jsonable(v['case']))[:600]}")
            for k, d in list(v["detail"].items())[:6]:
                print(f"  {k}: {str(jsonable(d))[:500]}")
        return 1
    return 2 if errs else 0


def cli():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        return main(d["property"], d.get("tier", "quick"), d)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return main(pid, tier)
