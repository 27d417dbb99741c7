"""Expected transit times."""

import itertools
from fractions import Fraction as F

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of windows (every ordered pair of a lattice, including zero-width, empty and "
    "boundary-aligned) x periods x epochs (inside, before, after, many periods away) on "
    "dyadic values where the window test is exact, plus non-dyadic values where only times "
    "within 1e-9 of an edge are optional; 1-3 planets with shared parameters; non-trivial = "
    "at least one transit in the window"
)
ASSUME = ["the window's start does not follow its end", "exact rational arithmetic"]


def tasks(tier):
    s = 2 if tier == "quick" else 4
    return [dict(name=f"dyadic-{i}", lo=i, of=6, step=s) for i in range(6)] + [dict(name="decimal"), dict(name="planets"), dict(name="f32", x64=False)]


def lattice(lo, hi, p, t0):
    """all t0 + k p in [lo, hi] for exact rationals"""
    if hi < lo:
        return []
    k0 = -((t0 - lo) // p)  # ceil((lo - t0)/p)
    k1 = (hi - t0) // p
    return [t0 + k * p for k in range(int(k0), int(k1) + 1)]


def run(task, ctx):
    import jax.numpy as jnp
    from jaxoplanet.orbits.ttv import compute_expected_transit_times as fn

    name = task["name"]
    if name.startswith("dyadic") or name == "f32":
        f32 = name == "f32"
        step = task.get("step", 1)
        edges = [F(n, step) for n in range(-4 * step, 5 * step)] if not f32 else [F(n) for n in range(-4, 5)]
        periods = [F(1), F(1, 2), F(3, 4), F(2), F(5, 2), F(7), F(3), F(41, 8)]
        epochs = [F(0), F(1), F(1, 2), F(-7, 2), F(100), F(-100), F(9), F(403, 4)]
        cases = [(a, b) for a, b in itertools.product(edges, edges) if a <= b]
        for i, (lo, hi) in enumerate(cases):
            if not f32 and i % task["of"] != task["lo"]:
                continue
            pe = list(itertools.product(periods, epochs))
            got = fn(float(lo), float(hi), jnp.array([float(p) for p, _ in pe]), jnp.array([float(e) for _, e in pe]))
            ctx.check(isinstance(got, tuple) and len(got) == len(pe), "planets")
            for (p, t0), g in zip(pe, got):
                want = np.array([float(x) for x in lattice(lo, hi, p, t0)])
                g = np.asarray(g)
                ctx.count(states=1, traces=1, nontrivial=len(want) > 0)
                if not (g.shape == want.shape and np.array_equal(g, want)):
                    ctx.violation("exact", lo=str(lo), hi=str(hi), period=str(p), t0=str(t0), got=g.tolist(), want=want.tolist())
        ctx.sample(dict(lo=str(lo), hi=str(hi), period=str(p), t0=str(t0), n=len(want)))
    elif name == "decimal":
        for lo, hi in ((0.0, 27.4), (-3.3, 0.1), (2458321.123, 2458348.9), (0.1, 0.1), (-1000.0, 1000.0)):
            for p, t0 in itertools.product([0.1, 0.3, 3.4567, 11.2, 365.2422], [0.0, 0.1, -0.7, 2458325.5, 1234.5678, 1e-9]):
                if (hi - lo) / p > 25000:
                    continue
                (g,) = fn(lo, hi, p, t0)
                g = np.asarray(g)
                want = np.array([float(x) for x in lattice(F(lo), F(hi), F(p), F(t0))])
                eps = 1e-9 * max(1, abs(t0), abs(lo)) if abs(t0) < 1e5 and abs(lo) < 1e5 else 3e-9 * 1e4
                wide = np.array([float(x) for x in lattice(F(lo) - F(eps), F(hi) + F(eps), F(p), F(t0))])
                core = np.array([float(x) for x in lattice(F(lo) + F(eps), F(hi) - F(eps), F(p), F(t0))])
                d = dict(lo=lo, hi=hi, p=p, t0=t0)
                near = lambda a, s: np.array([np.min(np.abs(s - v)) if s.size else np.inf for v in a])
                ctx.check((near(core, g) < eps).all(), "missing", **d)
                ctx.check((near(g, wide) < eps).all(), "outside", **d)
                ctx.check((np.diff(g) > 0).all(), "order", **d)
                ctx.check(((g >= lo) & (g <= hi)).all(), "window", **d)
                ctx.check(len(core) <= len(g) <= len(wide), "number", got=len(g), core=len(core), **d)
                ctx.count(states=1, traces=1, nontrivial=len(want) > 0)
        ctx.sample("BJD epochs")
    else:
        for n in (1, 2, 3):
            P = [F(3, 2), F(4), F(1, 2)][:n]
            E = [F(1), F(-5), F(33, 4)][:n]
            for perm in itertools.permutations(range(n)):
                for ps, es in itertools.product((0, 1), repeat=2):
                    pp = [P[i] for i in perm]
                    ee = [E[i] for i in perm]
                    if ps:
                        pp = [pp[0]] * n
                    if es:
                        ee = [ee[0]] * n
                    if ps and es and n > 1:
                        continue
                    pa = float(pp[0]) if ps else np.array([float(x) for x in pp])
                    ea = float(ee[0]) if es else [float(x) for x in ee]
                    for conv in (lambda v: v, lambda v: jnp.asarray(v)):
                        got = fn(-3.5, 10.0, conv(pa), conv(np.asarray(ea)))
                        ctx.check(len(got) == n, "planets", n=n, got=len(got))
                        for g, p, t0 in zip(got, pp, ee):
                            want = np.array([float(x) for x in lattice(F(-7, 2), F(10), p, t0)])
                            ctx.check(np.array_equal(np.asarray(g), want), "planets:times", n=n, shared=(ps, es), got=np.asarray(g).tolist(), want=want.tolist())
                            ctx.count(states=1, traces=1)
        ctx.sample("three planets, shared epoch")
