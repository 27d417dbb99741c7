"""Concurrent callers get what they get alone."""

import itertools
import sys
import threading

import numpy as np

LEVEL = "model_checking"
RULE = (
    "two operations on two threads under a controlled scheduler that switches only where it is told, at lines of the library: every "
    "ordered pair of operations x lines of the first as the point of a preemption (all of its first visits in the thorough tier, evenly spaced ones in the quick tier), where the second runs to its end; "
    "and for pairs of operations that share modules, every pair of points with the operations overlapping (first, second, first to "
    "its end, second); memo tables cold; each operation returns what it returns alone, and does so again afterwards"
)
ASSUME = [
    "switches inside JAX, numpy, mpmath and pint are not explored, only between lines of the library",
    "the working precision of mpmath is global: operations in multiple precision are nested in one another, but never overlap (mpmath does not allow it)",
    "a preemption bound of one (two in overlapping schedules)",
]

OPS = ["product", "product-other", "wigner", "wigner-other", "pijk", "basis", "mp-flux", "mp-flux-other", "mp-rotation", "orbit", "orbit-other", "system", "ttv", "lightcurve", "lightcurve-other", "integrated", "spot", "surface", "surface-other", "units"]
HEAVY = {"surface", "surface-other", "spot", "lightcurve", "lightcurve-other", "integrated", "system", "ttv", "orbit", "orbit-other", "units"}
PURE = [o for o in OPS if o not in HEAVY]
SLOW = {"mp-flux", "mp-flux-other", "mp-rotation", "surface", "surface-other", "spot"}
# operations that go through the same modules: overlapping schedules
SAME = [("product", "product-other"), ("wigner", "wigner-other"), ("pijk", "product"), ("basis", "mp-flux")]


def tasks(tier):
    t = [dict(name=f"{a}|all", a=a, bs=OPS, cost=16 if a in SLOW else 8 if a in HEAVY else 3) for a in OPS]
    t += [dict(name=f"overlap:{a}|{b}", a=a, b=b, overlap=True, cost=4) for x, y in SAME for a, b in ((x, y), (y, x), (x, x))]
    return t


def operations():
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.transforms import integrate
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry.core.basis import A1, A2_inv
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.core.wigner3j import Wigner3jCalculator
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.multiprecision import flux, rotation, utils
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm, ylm_spot
    from jaxoplanet.units import unit_registry as ureg

    def product(a, b):
        p = Ylm({(0, 0): 1.0, (1, 0): a, (2, 1): 0.3}) * Ylm({(0, 0): 1.0, (1, 1): b})
        return [float(p.data[k]) for k in sorted(p.data)]

    def wigner(j2, j3, m2, m3):
        return np.array(Wigner3jCalculator(j2, j3).calculate(j2, j3, m2, m3))

    def pijk():
        p = Pijk.from_dense(np.arange(1.0, 10.0)) * Pijk.from_dense(np.array([0.3, -1.0, 2.0, 0.1]))
        return [float(p.data[k]) for k in sorted(p.data)]

    def mpflux(b, r, u, obl):
        y = np.array([1.0, 0.2, -0.1, 0.3])
        return float(flux.flux(ydeg=1, udeg=1, inc=1.2, obl=obl)(b, r, y=y, u=(u,)))

    def orbit(P, e):
        o = OrbitalBody(Central(mass=1.0, radius=1.1), Body(period=P, eccentricity=e, omega_peri=0.3, impact_param=0.2, radius=0.1))
        return np.array([v.magnitude for v in o.relative_position(0.3)])

    def system():
        s = System(Central()).add_body(period=3.0, radius=0.1).add_body(period=5.0, radius=0.2, mass=0.1)
        return np.array([v.magnitude for v in s.relative_position(0.3)])

    def ttv():
        o = TTVOrbit(transit_times=(jnp.array([0.0, 3.02, 6.0]),), duration=0.2, impact_param=0.3, radius_ratio=0.1)
        return np.array([v.magnitude for v in o.relative_position(2.9)])

    def transit(k):
        return TransitOrbit(period=3.0, duration=0.2, time_transit=0.0, impact_param=0.3, radius_ratio=k)

    def surface(a, u):
        s = Surface(y=Ylm({(0, 0): 1.0, (1, 0): a}), inc=1.2, obl=0.2, u=u)
        return np.asarray(surface_light_curve(s, r=0.1, x=0.3, y=0.2, z=1.0, theta=0.4, order=10))

    def units():
        c = Central(mass=2e30 * ureg.kg, radius=700000.0 * ureg.km)
        return np.array([c.density.to(ureg.g / ureg.cm**3).magnitude, c.mass.magnitude])

    return {
        "product": lambda: product(0.5, 0.2),
        "product-other": lambda: product(-0.7, 1.3),
        "wigner": lambda: wigner(3, 2, 1, -1),
        "wigner-other": lambda: wigner(2, 4, 0, 2),
        "pijk": pijk,
        "basis": lambda: np.concatenate([A1(2).toarray(), A2_inv(2).toarray()]),
        "mp-flux": lambda: mpflux(0.4, 0.1, 0.3, 0.1),
        "mp-flux-other": lambda: mpflux(0.7, 0.2, -0.1, 0.4),
        "mp-rotation": lambda: np.concatenate([utils.to_numpy(m).ravel() for m in rotation.get_R("R_inc", 1, obl=0.1, inc=0.9)]),
        "orbit": lambda: orbit(3.0, 0.2),
        "orbit-other": lambda: orbit(5.0, 0.0),
        "system": system,
        "ttv": ttv,
        "lightcurve": lambda: np.asarray(limb_dark_light_curve(transit(0.1), 0.3, 0.2)(jnp.array([0.0, 0.05]))),
        "lightcurve-other": lambda: np.asarray(limb_dark_light_curve(transit(0.2), 0.1)(jnp.array([0.0, 0.09, 1.0]))),
        "integrated": lambda: np.asarray(integrate(limb_dark_light_curve(transit(0.1), 0.3), exposure_time=0.02, num_samples=3)(jnp.array([0.05]))),
        "spot": lambda: np.asarray(ylm_spot(2)(0.3, 0.5, 0.2, 0.4).todense()),
        "surface": lambda: surface(0.2, (0.3,)),
        "surface-other": lambda: surface(-0.4, (0.1, 0.2)),
        "units": units,
    }


class Scheduler:
    """Runs two operations on two threads, one at a time; ``plan`` lists (thread, stop) where stop is the index
    of the line of the library before which the thread is stopped, or None for its end."""

    WAIT = 5.0

    only = None

    @classmethod
    def get(cls, root):
        """One scheduler for a process: it holds a monitoring tool of the interpreter."""
        if cls.only is None:
            cls.only = cls(root)
        return cls.only

    def __init__(self, root):
        self.root = root
        self.index = {}
        self.watch()

    def watch(self):
        """Line events for the code of the library, on every thread; none for other code."""
        mon, tool = sys.monitoring, sys.monitoring.DEBUGGER_ID
        mon.use_tool_id(tool, "schedules")
        watched = set()

        def start(code, offset):
            if code not in watched and code.co_filename.startswith(self.root):
                watched.add(code)
                mon.set_local_events(tool, code, mon.events.LINE)
            return mon.DISABLE

        def line(code, number):
            i = self.index.get(threading.get_ident())
            if i is not None:
                self.count[i] += 1
                self.lines[i].append((code.co_filename, number))
                if self.count[i] == self.stop[i]:
                    self.stopped[i].set()
                    self.go[i].wait()
                    self.go[i].clear()

        mon.register_callback(tool, mon.events.PY_START, start)
        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.PY_START)

    def thread(self, i, f):
        def body():
            self.go[i].wait()
            self.go[i].clear()
            self.index[threading.get_ident()] = i
            try:
                self.result[i] = f()
            except BaseException as e:  # noqa: BLE001
                self.result[i] = e
            finally:
                del self.index[threading.get_ident()]
                self.done[i] = True
                self.stopped[i].set()

        t = threading.Thread(target=body, daemon=True)
        t.start()
        return t

    def run(self, fs, plan):
        n = len(fs)
        self.count, self.stop, self.done, self.result = [0] * n, [None] * n, [False] * n, [None] * n
        self.lines = [[] for _ in fs]
        self.go = [threading.Event() for _ in fs]
        self.stopped = [threading.Event() for _ in fs]
        threads = [self.thread(i, f) for i, f in enumerate(fs)]
        blocked = False
        for i, stop in plan:
            if self.done[i]:
                continue
            self.stop[i] = stop
            self.stopped[i].clear()
            self.go[i].set()
            # a thread that waits for a lock of the other one: let the other go on
            if not self.stopped[i].wait(self.WAIT):
                blocked = True
        for i in range(n):
            self.stop[i] = None
            self.go[i].set()
        for t in threads:
            t.join(60)
        if any(t.is_alive() for t in threads):
            raise RuntimeError("deadlock")
        return self.result, blocked


def same(a, b):
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return False
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * (1 + np.abs(b))))


def run(task, ctx):
    import os

    import jaxoplanet
    from jaxoplanet.starry.multiprecision import basis, flux, rotation, solution

    ops = operations()
    root = os.path.dirname(os.path.abspath(jaxoplanet.__file__))
    tables = [t for m in (basis, flux, rotation, solution) for t in (getattr(m, "CACHED_MATRICES", None), getattr(m, "FAC_CACHE", None)) if t is not None]

    def cold():
        for t in tables:
            t.clear()

    cold()
    alone = {k: ops[k]() for k in ({task["a"], *task.get("bs", [task.get("b")])})}
    for k, v in alone.items():
        cold()
        if not ctx.check(same(ops[k](), v), "repeatable", op=k):
            return
    S = Scheduler.get(root + os.sep)

    def points(k, visits):
        """Indices of the lines of an operation at which to switch: the first visits to each line."""
        cold()
        S.run([ops[k]], [(0, None)])
        seen, out = {}, []
        for j, ln in enumerate(S.lines[0], 1):
            seen[ln] = seen.get(ln, 0) + 1
            if seen[ln] <= visits:
                out.append(j)
        return out, len(S.lines[0])

    def judge(names, plan, result, blocked):
        ctx.count(states=1, transitions=len(plan), traces=1)
        if blocked:
            ctx.note_max("schedules where a lock was waited for", 1)
        for k, r in zip(names, result, strict=True):
            if not same(r, alone[k]):
                ctx.violation("concurrent-" + k, operations=names, schedule=plan, got=repr(r)[:300], want=repr(alone[k])[:300])
                return False
        return True

    thorough = ctx.tier == "thorough"

    def few(p, n):
        """At most n of the points, evenly over the operation (all of them in the thorough tier)."""
        return p if thorough or len(p) <= n else [p[int(i)] for i in np.linspace(0, len(p) - 1, n)]

    a = task["a"]
    slow = SLOW & {a, task.get("b")}
    if task.get("overlap"):
        b = task["b"]
        pa, na = points(a, 1 if not thorough else 3)
        pb, nb = points(b, 1 if not thorough else 3)
        pa, pb = few(pa, 20 if slow else 60), few(pb, 20 if slow else 60)
        for i, j in itertools.product(pa, pb):
            cold()
            plan = [(0, i), (1, j), (0, None), (1, None)]
            judge([a, b], plan, *S.run([ops[a], ops[b]], plan))
        ctx.note_max(f"lines of {a}", na)
    else:
        for b in task["bs"]:
            fast = a in PURE and b in PURE
            slow = SLOW & {a, b}
            near = b in (a, a + "-other") or a == b + "-other"
            pa, na = points(a, (10 if fast else 1) * (3 if thorough else 1))
            pa = few(pa, 40 if slow else 400) if fast else few(pa, (10 if near else 2) if slow else (60 if near else 16))
            for i in pa:
                cold()
                plan = [(0, i), (1, None), (0, None)]
                judge([a, b], plan, *S.run([ops[a], ops[b]], plan))
            # and nothing was left behind
            for k in (a, b):
                ctx.check(same(ops[k](), alone[k]), "afterwards-" + k, operations=[a, b])
        ctx.note_max(f"lines of {a}", na)
    ctx.sample(dict(operations=[a, task.get("b", "all")], lines=na))
