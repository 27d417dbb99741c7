"""Interpolated light curves."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of periods x epochs x durations (default, equal to and shorter than the period) "
    "x table sizes 2-9 and 50 x output shapes x times (every node, between nodes at several "
    "fractions, many periods either side, outside the tabulated span); unit forms and extra "
    "arguments; non-trivial = every point"
)
ASSUME = ["the tabulated function repeats with the period (equal at both ends of the table)"]


def tasks(tier):
    t = [dict(name=f"table-{i}", period=p, cost=2) for i, p in enumerate([3.0, 0.7, 12.5])]
    t += [dict(name="outputs"), dict(name="args"), dict(name="forms"), dict(name="lightcurve"), dict(name="f32", x64=False)]
    return t


def table(fn, P, t0, D, n, t):
    """explicit periodic piecewise-linear model"""
    grid = np.linspace(-0.5, 0.5, n) * D
    vals = fn(t0 + grid)
    d = t - t0
    d = d - P * np.rint(d / P)
    dd = np.clip(d, grid[0], grid[-1])
    i = np.clip(np.searchsorted(grid, dd, side="right") - 1, 0, n - 2)
    f = (dd - grid[i]) / (grid[i + 1] - grid[i])
    f = f.reshape(f.shape + (1,) * (vals.ndim - 1))
    return vals[i] * (1 - f) + vals[i + 1] * f


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import is_quantity, mag, raises
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    if name.startswith("table") or name == "f32":
        f32 = name == "f32"
        P = task.get("period", 3.0)
        for t0 in (0.0, 0.4, -17.3, 101.0) if not f32 else (0.0, 0.4):
            def fn(t, xp=np):
                q = 2 * np.pi * (t - t0) / P
                return xp.cos(q) + 0.3 * xp.cos(2 * q)  # even: equal at both ends of any centred span

            def fa(t, xp=np):  # not even, periodic
                q = 2 * np.pi * (t - t0) / P
                return xp.sin(q) + 0.3 * xp.cos(2 * q - 1)

            for D in (None, P, 0.6 * P, 0.1 * P):
                for n in (2, 3, 4, 5, 6, 7, 8, 9, 50):
                    span = D or P
                    nodes = t0 + span * np.linspace(-0.5, 0.5, n)
                    mids = np.concatenate([nodes[:-1] * (1 - f) + nodes[1:] * f for f in (0.01, 0.25, 0.5, 0.9)])
                    out = t0 + P * np.array([0.49, -0.49, 0.35, -0.3, 0.06])
                    base = np.concatenate([nodes, mids, out])
                    cyc = (0, 1, -1, 7, -40) if not f32 else (0, 1, -1)
                    t = np.concatenate([base + k * P for k in cyc])
                    for F in (fn, fa) if span == P else (fn,):
                        g = interpolate(lambda time: F(time.magnitude, jnp), period=P, time_transit=t0, num_samples=n, duration=D)
                        want = table(F, P, t0, span, n, t)
                        slope = np.abs(np.diff(F(nodes))).max() / (span / (n - 1)) + 1
                        ctx.close(g(t), want, "table", tol=1e-12 * slope * (100 + abs(t0)) if not f32 else 1e-4 * slope, labels=dict(t=t), detail=dict(P=P, t0=t0, D=D, n=n))
                        ctx.close(g(nodes), F(nodes), "nodes", tol=1e-12 * slope * (100 + abs(t0)) if not f32 else 1e-4 * slope, detail=dict(P=P, t0=t0, D=D, n=n))
                        ctx.count(states=t.size, traces=1)
        ctx.sample(dict(P=P, t0=t0, D=D, n=n))
    elif name == "outputs":
        P, t0, n = 2.5, 0.3, 11
        for shp in ((), (1,), (2,), (3,), (11,), (2, 3), (11, 11), (1, 2, 2)):
            c = np.arange(1.0, 1 + int(np.prod(shp))).reshape(shp)
            for q in (False, True):
                def fn(t, xp=np):
                    # one value per output for each of the times
                    a = 2 * np.pi * (t[(...,) + (None,) * len(shp)] - t0) / P
                    return c * xp.cos(c * a) + 0.1 * xp.sin(a)

                def f(time):
                    v = fn(time.magnitude, jnp)
                    return v * ureg.m if q else v

                g = interpolate(f, period=P, time_transit=t0, num_samples=n)
                for tsh in ((), (1,), (5,), (11,), (2, 3), (0,)):
                    t = np.linspace(-4, 9, int(np.prod(tsh)) or 1).reshape(tsh) if np.prod(tsh) else np.zeros(tsh)
                    v = g(jnp.asarray(t))
                    ctx.check(is_quantity(v) == q, "outputs:quantity", shp=shp)
                    want = table(fn, P, t0, P, n, t.reshape(-1)).reshape(tsh + shp)
                    ctx.close(mag(v, "m") if q else v, want, "outputs", tol=1e-11 * (1 + c.max()), detail=dict(out=shp, time=tsh))
                    ctx.count(states=max(t.size, 1), traces=1)
        ctx.sample(dict(out=(2, 3), time=(2, 3)))
    elif name == "args":
        P, t0, n = 3.0, 0.5, 8

        def f(time, a=1.0, *r, k=0.0, flag=None):
            w = jnp.cos(2 * np.pi * (time.magnitude - t0) / P)
            return a * w + sum(r) + 10 * k + (100 if flag else 0)

        t = np.linspace(-5, 5, 23)
        for args in ((), (2.0,), (2.0, 3.0), [2.0, 3.0]):
            for kwargs in (None, {}, dict(k=2.0), dict(k=1.0, flag=True)):
                kw = {}
                if len(args):
                    kw["args"] = args
                if kwargs is not None:
                    kw["kwargs"] = kwargs
                g = interpolate(f, period=P, time_transit=t0, num_samples=n, **kw)
                a = args[0] if len(args) else 1.0
                k = (kwargs or {}).get("k", 0.0)
                fn = lambda x: a * np.cos(2 * np.pi * (x - t0) / P) + sum(args[1:]) + 10 * k + (100 if (kwargs or {}).get("flag") else 0)
                want = table(fn, P, t0, P, n, t)
                ctx.close(g(t), want, "args", tol=1e-11, detail=dict(args=args, kwargs=kwargs))
                # arguments at call time are ignored, the model is already computed
                ctx.close(g(t, 5.0, k=3.0), want, "args:late", tol=1e-11)
                ctx.count(states=t.size, traces=1)
        ctx.sample("args=(2, 3), kwargs=dict(k=1, flag=True)")
    elif name == "forms":
        P, t0, n = 3.0, 0.5, 12
        fn = lambda x: np.cos(2 * np.pi * (x - t0) / P)
        f = lambda time: jnp.cos(2 * np.pi * (time.to("day").magnitude - t0) / P)
        t = np.linspace(-5, 5, 23)
        q = lambda v, u, s: ureg.Quantity(v * s, u)
        forms = (lambda v: v, lambda v: v * ureg.day, lambda v: q(v, "hour", 24.0), lambda v: q(v, "s", 86400.0), lambda v: jnp.asarray(v))
        for a, b, c in itertools.product(range(5), repeat=3):
            for D in (P, 1.2):
                g = interpolate(f, period=forms[a](P), time_transit=forms[b](t0), duration=forms[c](D), num_samples=n)
                want = table(fn, P, t0, D, n, t)
                tq = forms[(a + b + c) % 5](t)
                ctx.close(g(tq), want, "forms", tol=1e-10, detail=dict(a=a, b=b, c=c))
                ctx.count(states=t.size, traces=1)
        for kw in (dict(period=1.0 * ureg.m, time_transit=0.0), dict(period=1.0, time_transit=1.0 * ureg.kg), dict(period=1.0, time_transit=0.0, duration=1.0 * ureg.m)):
            ctx.check(raises(interpolate, f, num_samples=4, **kw) is not None, "forms:dimension")
        # parameters may be traced; the derivative is that of the table
        Ps = np.array([2.0, 3.0, 4.5])
        h = jax.jit(jax.vmap(lambda p, s: interpolate(lambda time: jnp.cos(2 * np.pi * (time.magnitude - s) / p), period=p, time_transit=s, num_samples=n)(t)))
        got = h(Ps, np.array([0.1, -3.0, 7.0]))
        for p, s, v in zip(Ps, (0.1, -3.0, 7.0), got):
            ctx.close(v, table(lambda x: np.cos(2 * np.pi * (x - s) / p), p, s, p, n, t), "forms:traced", tol=1e-10)
        ctx.sample("period in hours, epoch in seconds")
    else:
        s1 = System(Central()).add_body(period=3.0, radius=0.1, impact_param=0.2, time_transit=0.2)
        s2 = s1.add_body(period=3.0, radius=0.3, time_transit=0.25)
        t = np.concatenate([np.linspace(-0.1, 0.5, 61), np.linspace(5.9, 6.5, 31), [1.7, -1.3, 100.0]])
        for s in (s1.bodies[0], s1, s2):
            base = limb_dark_light_curve(s, 0.3, 0.1)
            for D, n in ((None, 301), (0.8, 101)):
                fn = lambda x: np.asarray(base(x))
                g = interpolate(base, period=3.0, time_transit=0.2, duration=D, num_samples=n)
                ctx.close(g(t), table(fn, 3.0, 0.2, D or 3.0, n, t), "lightcurve", tol=1e-10, detail=dict(D=D, n=n))
                ctx.count(states=t.size, traces=1)
            # composed with exposure integration, both ways round
            g = integrate(interpolate(base, period=3.0, time_transit=0.2, num_samples=301), 0.05, 0, 3)
            tab = lambda x: table(fn, 3.0, 0.2, 3.0, 301, x)
            want = sum(tab(t + 0.05 * d) for d in (-1 / 3, 0, 1 / 3)) / 3
            ctx.close(g(t), want, "composed", tol=1e-10)
            ctx.count(states=t.size, traces=1)
        ctx.sample("two planets, 0.8 d table")
