"""Shared exploration primitives."""

import itertools

import numpy as np

MAXV = 10


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, pid, task, tier):
        self.pid, self.task, self.tier = pid, task, tier
        self.states = self.transitions = self.traces = self.nontrivial = 0
        self.violations, self.samples, self.notes = [], [], {}
        self._nv = {}

    def count(self, states=0, transitions=0, traces=0, nontrivial=None):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)
        self.nontrivial += int(states if nontrivial is None else nontrivial)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def note_max(self, name, v):
        v = float(v)
        self.notes[name] = max(self.notes.get(name, v), v)

    def violation(self, key, **detail):
        # capped per key, so that a known finding never crowds out anything else
        key = str(key).replace(" ", "")
        self._nv[key] = self._nv.get(key, 0) + 1
        if self._nv[key] <= MAXV:
            self.violations.append(dict(key=key, detail=detail))

    def check(self, cond, key, **detail):
        if not cond:
            self.violation(key, **detail)
            return False
        return True

    def close(self, got, want, key, tol=1e-10, rtol=0.0, detail=None, labels=None):
        """Elementwise comparison; reports the worst element.  NaN != number."""
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            try:
                w = np.broadcast_to(w, g.shape)
                if np.ndim(want) and np.shape(want) != g.shape:
                    raise ValueError
            except ValueError:
                self.violation(key + ":shape", got=g.shape, want=np.shape(want))
                return False
        tolarr = np.asarray(tol) + rtol * np.abs(w)
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(g - w) <= tolarr)
        # identical non-finite values count as equal
        bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
        err = np.abs(np.where(np.isfinite(g) & np.isfinite(w), g - w, 0.0))
        if err.size:
            self.note_max("max_err:" + key.split("[")[0], err.max())
        if bad.any():
            ratio = np.where(
                bad, np.where(np.isfinite(g - w), np.abs(g - w), np.inf), -1
            )
            idx = np.unravel_index(np.argmax(ratio), g.shape)
            d = dict(detail or {})
            d.update(
                got=g[idx].tolist(),
                want=w[idx].tolist(),
                index=[int(i) for i in idx],
                nbad=int(bad.sum()),
                of=int(g.size),
            )
            if labels is not None:
                d["at"] = {
                    k: np.broadcast_to(np.asarray(v), g.shape)[idx].tolist()
                    for k, v in labels.items()
                }
            self.violation(key, **d)
            return False
        return True

    def result(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            evals=self.states,
            nontrivial=self.nontrivial,
            violations=self.violations,
            samples=self.samples,
            notes=self.notes,
        )


def raises(fn, *a, exc=Exception, **k):
    try:
        fn(*a, **k)
    except exc as e:
        return e
    return None


def deviations(default, menus, k):
    """Breadth-first search over configurations: the transition relation is "set one
    parameter to one value of its menu"; returns every configuration within k
    transitions of the default (canonical: a tuple of menu indices) plus the number of
    transitions taken.  Default is menu entry 0 for every parameter."""
    names = list(menus)
    start = tuple(0 for _ in names)
    seen = {start: 0}
    frontier = [start]
    ntrans = 0
    for depth in range(k):
        nxt = []
        for s in frontier:
            for i, n in enumerate(names):
                for v in range(len(menus[n])):
                    if v == s[i]:
                        continue
                    t = s[:i] + (v,) + s[i + 1 :]
                    ntrans += 1
                    if t not in seen:
                        seen[t] = depth + 1
                        nxt.append(t)
        frontier = nxt
    configs = [
        {**default, **{n: menus[n][s[i]] for i, n in enumerate(names)}}
        for s in sorted(seen, key=lambda s: (seen[s], s))
    ]
    return configs, ntrans


def product(menus):
    names = list(menus)
    return [dict(zip(names, v)) for v in itertools.product(*menus.values())]


def mag(q, unit=None):
    """Magnitude of a quantity, converted to unit if given."""
    if hasattr(q, "_magnitude"):
        if unit is not None:
            q = q.to(unit)
        return np.asarray(q.magnitude)
    return np.asarray(q)


def is_quantity(q):
    return hasattr(q, "_magnitude")
