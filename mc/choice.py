"""Choice-tree explorer: stateless, exhaustive exploration of everything an execution may choose.

An execution asks `Path.choose(weights)`; the explorer re-runs it once per leaf of the tree of choices.
Alternatives of weight zero are impossible and skipped.  With `deviations=k`, only executions are explored
which depart at most k times from the default alternative at each point (given by `default`).
"""
import signal
import time


class HarnessError(Exception):
    """The harness (not the code under test) is wrong or out of its depth."""


class Divergence(HarnessError):
    """A replayed prefix did not meet the same choice points: uncontrolled nondeterminism."""


class TooLarge(Exception):
    """More executions than can be explored (no verdict)."""


class Horizon(BaseException):
    """The execution asked for more choices than the stated horizon (cut, not a verdict)."""


class ExecutionTimeout(Exception):
    """A single execution did not finish in time."""


class Point:
    __slots__ = ("alts", "weights", "pos", "label")

    def __init__(self, alts, weights, pos, label):
        self.alts = alts        # possible alternatives, default first
        self.weights = weights  # their probabilities
        self.pos = pos
        self.label = label


class Path:
    def __init__(self, prefix=(), default=None, horizon=None, cells=None, scale_cells=None):
        self.prefix = prefix
        self.points = []
        self.default = default
        self.horizon = horizon
        self.cells = cells or DEFAULT_CELLS
        self.scale_cells = scale_cells
        self.weight = 1.0
        self.draws = 0

    def choose(self, weights, label=""):
        i = len(self.points)
        if self.horizon is not None and i >= self.horizon:
            raise Horizon()
        alts = [k for k, w in enumerate(weights) if w > 0.0]
        if not alts:
            raise HarnessError("choice without alternatives: " + label)
        if self.default is not None and len(alts) > 1:
            d = self.default(i, len(alts), label)
            alts = alts[d:] + alts[:d]
        if i < len(self.prefix):
            pos, n, lab = self.prefix[i]
            if n is not None and (n != len(alts) or lab != label):
                raise Divergence(f"point {i}: had {n} x {lab!r}, now {len(alts)} x {label!r}")
        else:
            pos = 0
        k = alts[pos]
        self.points.append(Point(alts, weights, pos, label))
        self.weight *= weights[k]
        return k

    def weight_from(self, i):
        w = 1.0
        for p in self.points[i:]:
            w *= p.weights[p.alts[p.pos]]
        return w

    def trace(self):
        """The chosen alternatives (absolute indices)."""
        return tuple(p.alts[p.pos] for p in self.points)

    def positions(self):
        return [[p.pos, len(p.alts), p.label] for p in self.points]


# menu for a uniform number in [0,1) that must become a plain float: (value, weight)
TOP = 1.0 - 2.0 ** -53
DEFAULT_CELLS = ((0.0, 0.25), (0.3, 0.25), (0.7, 0.25), (TOP, 0.25))   # symmetric under u -> 1-u


LEAVES = [0]      # executions so far in this process, a sign of life


def explore(run, deviations=None, default=None, horizon=None, cells=None, max_leaves=None,
            stats=None, timeout=60, base=()):
    """Yields (path, result) for every complete execution; result is run(path)'s return value.

    `base`: positions of a common prefix all executions share (not enumerated).
    Executions cut by the horizon are counted in stats['cut'] and not yielded.
    """
    base = [list(b) for b in base]
    prefix = list(base)
    n = 0
    while True:
        path = Path(prefix, default, horizon, cells)
        cut = False
        with alarm(timeout):
            try:
                result = run(path)
            except Horizon:
                cut = True
        if len(path.points) < len(prefix):
            raise Divergence(f"execution ended after {len(path.points)} choices, prefix has {len(prefix)}")
        n += 1
        LEAVES[0] += 1
        if stats is not None:
            stats["executions"] = stats.get("executions", 0) + 1
            new = len(path.points) - max(len(prefix) - 1, 0) if prefix else len(path.points)
            stats["choices"] = stats.get("choices", 0) + new
            if cut:
                stats["cut"] = stats.get("cut", 0) + 1
        if not cut:
            yield path, result
        # next leaf
        pts = path.points
        while len(pts) > len(base):
            p = pts[-1]
            if p.pos + 1 < len(p.alts):
                devs = sum(1 for q in pts[len(base):-1] if q.pos != 0) + 1
                if deviations is None or devs <= deviations:
                    break
            pts.pop()
        if len(pts) <= len(base):
            return
        prefix = [[q.pos, len(q.alts), q.label] for q in pts]
        prefix[-1][0] += 1
        if max_leaves is not None and n >= max_leaves:
            raise TooLarge(f"more than {max_leaves} executions; the stated bound is not exhaustive")


class TaskTimeout(Exception):
    """A whole task did not finish in time."""


class alarm:
    """Bounds wall time; an inner alarm may only shorten what is left of the outer one."""
    stack = []      # (deadline, exception)

    def __init__(self, seconds, exc=ExecutionTimeout):
        self.seconds, self.exc = seconds, exc

    @classmethod
    def _arm(cls):
        if not cls.stack:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return
        deadline, exc, sec = min(cls.stack, key=lambda x: x[0])

        def on(_s, _f):
            raise exc(f"no end after {sec} s")
        signal.signal(signal.SIGALRM, on)
        signal.setitimer(signal.ITIMER_REAL, max(deadline - time.monotonic(), 0.001))

    def __enter__(self):
        alarm.stack.append((time.monotonic() + self.seconds, self.exc, self.seconds))
        self._arm()

    def __exit__(self, *a):
        alarm.stack.pop()
        self._arm()
        return False
