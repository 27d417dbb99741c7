"""Exposure-time integration."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of integration orders (and invalid ones) x sample counts 1-14 x exposures (none, "
    "zero, short, long, any unit) x integrand shapes (scalar to rank 3, quantities) x time "
    "shapes x argument passings; plus vectorize alone; non-trivial = exposure not zero"
)
ASSUME = ["explicit quadrature nodes and weights (even sample counts round up to odd, as the stencils need)"]


def tasks(tier):
    n = 14 if tier == "quick" else 30
    return [dict(name="stencil-0", order=0, n=n), dict(name="stencil-1", order=1, n=n), dict(name="stencil-2", order=2, n=n),
            dict(name="shapes", cost=3), dict(name="args"), dict(name="forms"), dict(name="refuse"), dict(name="lightcurve"), dict(name="vectorize"),
            dict(name="f32", x64=False)]


def stencil(order, n):
    n += 1 - n % 2
    if n == 1:
        return np.zeros(1), np.ones(1)
    if order == 0:
        return (np.arange(n) + 0.5) / n - 0.5, np.full(n, 1 / n)
    x = np.linspace(-0.5, 0.5, n)
    if order == 1:
        w = np.ones(n)
        w[[0, -1]] = 0.5
    else:
        w = np.array([1.0] + [4.0, 2.0] * ((n - 3) // 2) + [4.0, 1.0])
    return x, w / w.sum()


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import is_quantity, mag, raises
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.transforms import integrate
    from jaxoplanet.light_curves.utils import vectorize
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    T = np.array([-1.3, -0.05, 0.0, 0.4, 2.7])

    def avg(fn, t, tau, order, n):
        x, w = stencil(order, n)
        return np.tensordot(w, np.stack([fn(t + tau * xi) for xi in x]), 1)

    if name.startswith("stencil"):
        order = task["order"]
        fns = dict(
            const=lambda t: 0 * t + 2.0, linear=lambda t: 3 * t - 1, quadratic=lambda t: t**2, cubic=lambda t: t**3 - t,
            quintic=lambda t: t**5, sine=lambda t: np.sin(3 * t), step=lambda t: (t > 0.013) * 1.0, spike=lambda t: np.exp(-((t / 0.02) ** 2)),
        )
        jf = dict(fns, sine=lambda t: jnp.sin(3 * t), step=lambda t: jnp.where(t > 0.013, 1.0, 0.0), spike=lambda t: jnp.exp(-((t / 0.02) ** 2)))
        for n in range(1, task["n"] + 1):
            for tau in (0.0, 1e-3, 0.3, 5.0):
                for k in fns:
                    f = jf[k]
                    got = integrate(lambda t: f(t.magnitude), exposure_time=tau, order=order, num_samples=n)(T)
                    want = avg(fns[k], T, tau, order, n)
                    ctx.close(got, want, f"stencil:{k}", tol=1e-12, rtol=1e-12, detail=dict(order=order, n=n, tau=tau))
                    if tau == 0.0:
                        ctx.close(got, fns[k](T), "identity", tol=1e-12, rtol=1e-12)
                    if k in ("const", "linear"):
                        ctx.close(got, fns[k](T), f"exact:{k}", tol=1e-11, rtol=1e-11)
                    if order == 2 and n >= 2 and k in ("quadratic", "cubic"):
                        ex = T**2 + tau**2 / 12 if k == "quadratic" else T**3 + T * tau**2 / 4 - T
                        ctx.close(got, ex, f"exact:{k}", tol=1e-11, rtol=1e-11)
                    ctx.count(states=T.size, traces=1, nontrivial=T.size * (tau > 0))
        # default sample count and order
        got = integrate(lambda t: jnp.sin(3 * t.magnitude), exposure_time=0.3)(T)
        ctx.close(got, avg(fns["sine"], T, 0.3, 0, 7), "default", tol=1e-12)
        # convergence at the order of the rule
        exact = (np.cos(3 * (T - 0.15)) - np.cos(3 * (T + 0.15))) / 0.9
        for n in (5, 11, 21, 41):
            er = np.abs(np.asarray(integrate(lambda t: jnp.sin(3 * t.magnitude), exposure_time=0.3, order=order, num_samples=n)(T)) - exact).max()
            ctx.check(er < (0.9 / (n - 1)) ** 2 * 0.1 if order < 2 else er < (0.9 / (n - 1)) ** 4 * 0.02, "converges", n=n, err=float(er), order=order)
        ctx.sample(dict(order=order, n=14, tau=5.0, fn="step"))
    elif name == "shapes" or name == "f32":
        tol = 1e-12 if name == "shapes" else 1e-5
        for shp in ((), (1,), (2,), (3,), (7,), (2, 3), (7, 7), (5, 1, 2)):
            c = np.arange(1.0, 1 + int(np.prod(shp))).reshape(shp)
            for tsh in ((), (1,), (4,), (7,), (2, 3)):
                t = np.linspace(-1, 1, int(np.prod(tsh))).reshape(tsh)
                for order, n in ((0, 7), (1, 3), (2, 5), (0, 1)):
                    for q in (False, True):
                        def f(time):
                            v = c * jnp.sin(time.magnitude * 2 + c)
                            return v * ureg.m if q else v

                        g = integrate(f, exposure_time=0.7, order=order, num_samples=n)(jnp.asarray(t))
                        ctx.check(is_quantity(g) == q, "shapes:quantity", shp=shp)
                        x, w = stencil(order, n)
                        tt = t[..., None] + 0.7 * x
                        tt = tt.reshape(tsh + (1,) * len(shp) + (len(x),))
                        want = (c[..., None] * np.sin(2 * tt + c[..., None])) @ w
                        ctx.close(mag(g, "m") if q else g, want, "shapes", tol=tol * (1 + c.max()), detail=dict(out=shp, time=tsh, order=order, n=n))
                        ctx.count(states=1, traces=1)
        ctx.sample(dict(out=(5, 1, 2), time=(2, 3)))
    elif name == "args":
        seen = []

        def f(time, a, b=2.0, *rest, k=5.0, flag=None, arr=None):
            seen.append((a, b, rest, k, flag, arr is None))
            v = time.magnitude * jnp.asarray(a) + b + 10 * k + 100 * sum(rest) + (1000 if flag == "yes" else 0)
            return v if arr is None else v + arr

        for tau in (0.2, 0.0, None):
            g = integrate(f, exposure_time=tau, num_samples=5)
            for pos in ((1.0,), (1.0, 3.0), (1.0, 3.0, 7.0), (1.0, 3.0, 7.0, 8.0), ()):
                for kw in itertools.product((None, dict(k=1.0)), (None, dict(flag="yes")), (None, dict(arr=np.array([1.0, 2.0]))), (None, dict(b=4.0)), (None, dict(a=2.0))):
                    kws = {}
                    for d in kw:
                        kws.update(d or {})
                    if ("a" in kws) == (len(pos) >= 1) or ("b" in kws and len(pos) >= 2):
                        continue
                    t = jnp.array([0.0, 0.5, -2.0])
                    a = pos[0] if pos else kws["a"]
                    b = pos[1] if len(pos) > 1 else kws.get("b", 2.0)
                    want = np.asarray(t) * a + b + 10 * kws.get("k", 5.0) + 100 * sum(pos[2:]) + (1000 if "flag" in kws else 0)
                    if "arr" in kws:
                        want = want[:, None] + kws["arr"]
                    if tau is None:
                        ctx.check(g is f, "none-identity")
                        continue
                    seen.clear()
                    got = g(t, *pos, **kws)
                    ctx.close(got, want, "args", tol=1e-11, detail=dict(pos=pos, kw=str(kws)))
                    ctx.check(all(s[4] == kws.get("flag") and s[2] == pos[2:] for s in seen) and seen, "args:seen", pos=pos)
                    ctx.count(states=1, traces=1)
            if tau is not None:
                ctx.check(raises(g, jnp.array([0.0]), exc=TypeError) is not None, "args:missing")
        ctx.sample("f(time, 1.0, k=1.0, flag='yes', arr=[1, 2])")
    elif name == "forms":
        f = lambda time: jnp.sin(3 * time.to("day").magnitude)
        for sec in (0.0, 60.0, 3600.0, 86400.0):
            want = avg(lambda t: np.sin(3 * t), T, sec / 86400, 0, 7)
            for e in (sec / 86400, np.float64(sec / 86400), jnp.asarray(sec / 86400), ureg.Quantity(sec, "s"), ureg.Quantity(sec / 60, "minute"),
                      ureg.Quantity(sec / 3600, "hour"), ureg.Quantity(sec / 86400, "day"), sec / 86400 * ureg.day):
                for call in (lambda: integrate(f, e), lambda: integrate(f, exposure_time=e), lambda: integrate(func=f, exposure_time=e, order=0, num_samples=7)):
                    g = call()
                    for tq in (T, ureg.Quantity(T * 24, "hour"), T * ureg.day, jnp.asarray(T)):
                        ctx.close(g(tq), want, "forms", tol=1e-12, detail=dict(sec=sec, e=str(e)))
                        ctx.count(states=1, traces=1, nontrivial=sec > 0)
                ctx.close(g(0.4), want[3], "forms:scalar", tol=1e-12)
        taus = np.array([0.0, 0.1, 0.5, 2.0, 3.0])
        for order, n in ((0, 7), (1, 5), (2, 9)):
            got = jax.jit(jax.vmap(lambda t, e: integrate(f, e, order, n)(t)))(T, taus)
            want = [avg(lambda t: np.sin(3 * t), a, b, order, n) for a, b in zip(T, taus)]
            ctx.close(got, want, "forms:vmap", tol=1e-12)
            d = jax.grad(lambda e: integrate(f, e, order, n)(0.4))(0.3)
            x, w = stencil(order, n)
            ctx.close(d, np.sum(w * 3 * x * np.cos(3 * (0.4 + 0.3 * x))), "forms:grad", tol=1e-11)
            ctx.count(states=6, traces=2)
        ctx.check(integrate(f) is f and integrate(f, None) is f and integrate(f, exposure_time=None, order=2) is f, "none-identity")
        # nested: integrating twice averages twice
        g = integrate(integrate(f, 0.3, 0, 5), 0.2, 1, 3)
        want = avg(lambda t: avg(lambda s: np.sin(3 * s), t, 0.3, 0, 5), T, 0.2, 1, 3)
        ctx.close(g(T), want, "forms:nested", tol=1e-12)
        ctx.sample("60 s as a quantity")
    elif name == "refuse":
        f = lambda time: time.magnitude
        for o in (-1, 3, 4, 10, "1", 1.5, None):
            ctx.check(isinstance(raises(integrate, f, 0.1, o), ValueError), "refuse:order", order=o)
            ctx.count(states=1, traces=1)
        for e in (np.zeros(1), np.zeros(3), np.zeros((2, 2)), ureg.Quantity(np.zeros(2), "s")):
            for o in (0, 1, 2):
                ctx.check(isinstance(raises(integrate, f, e, o), ValueError), "refuse:shape", shape=np.shape(e))
                ctx.count(states=1, traces=1)
        for u in ("m", "kg", "1/day", "dimensionless"):
            ctx.check(raises(integrate, f, ureg.Quantity(0.1, u)) is not None, "refuse:unit", unit=u)
            ctx.check(raises(integrate(f, 0.1), ureg.Quantity(0.1, u)) is not None, "refuse:time-unit", unit=u)
            ctx.count(states=1, traces=1)
        ctx.sample("order 3")
    elif name == "lightcurve":
        s1 = System(Central()).add_body(period=3.0, radius=0.1, impact_param=0.2)
        s2 = s1.add_body(period=5.0, radius=0.3, time_transit=0.1)
        t = np.linspace(-0.15, 0.25, 41)
        for s in (s1, s2, s2.bodies[1]):
            base = limb_dark_light_curve(s, 0.3, 0.1)
            for order, n, tau in ((0, 7, 0.02), (1, 9, 0.1), (2, 11, 0.05), (0, 1, 0.1), (2, 4, 0.0)):
                got = integrate(base, tau, order, n)(t)
                x, w = stencil(order, n)
                want = np.tensordot(w, np.asarray(base(t[None, :] + tau * x[:, None])), 1)
                ctx.close(got, want, "lightcurve", tol=1e-12, detail=dict(order=order, n=n, tau=tau))
                ctx.count(states=want.size, traces=1)
        ctx.sample("two planets, Simpson")
    else:
        def f(time, a, *r, k=1.0):
            assert jnp.ndim(mag_(time)) == 0
            return mag_(time) * jnp.asarray(a) * k + sum(r)

        mag_ = lambda t: t.magnitude if is_quantity(t) else t
        for tsh in ((), (1,), (3,), (2, 3), (0,), (2, 1, 2)):
            t = jnp.asarray(np.linspace(-1, 1, int(np.prod(tsh))).reshape(tsh))
            for q in (False, True):
                for a in (2.0, np.array([1.0, 2.0]), np.ones((2, 2))):
                    for r in ((), (3.0,), (3.0, 4.0)):
                        for kw in ({}, dict(k=3.0)):
                            for outq in (False, True):
                                fn = vectorize((lambda *x, **y: f(*x, **y) * ureg.kg) if outq else f)
                                g = fn(t * ureg.hour if q else t, a, *r, **kw)
                                want = np.asarray(t)[(...,) + (None,) * np.ndim(a)] * np.asarray(a) * kw.get("k", 1.0) + sum(r)
                                ctx.check(is_quantity(g) == outq, "vectorize:quantity")
                                ctx.close(mag(g, "kg") if outq else g, want, "vectorize", tol=1e-13, detail=dict(t=tsh, a=np.shape(a)))
                                ctx.count(states=1, traces=1)
        ctx.sample("time (2, 1, 2), output (2, 2)")
