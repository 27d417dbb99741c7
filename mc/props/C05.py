"""Central bodies: mass, radius and density."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "every subset of {mass, radius, density} x value forms (bare float, int, numpy and jax "
    "scalars, every unit of the menu) x magnitudes; every subset of the optional arguments "
    "of the orbit-based constructor x value forms; each construction also under jit with "
    "traced values; ill-posed subsets, non-scalars and wrong dimensions must raise"
)
ASSUME = ["unit values from IAU/CODATA tables in mc/oracles.py"]
UN = dict(
    mass=["M_sun", "M_earth", "M_jup", "kg", "g"],
    length=["R_sun", "R_earth", "R_jup", "au", "m", "km"],
    time=["day", "hour", "s", "year"],
    density=["M_sun/R_sun**3", "kg/m**3", "g/cm**3", "M_earth/R_earth**3", "M_jup/R_sun**3"],
)
BASE = dict(mass="M_sun", length="R_sun", time="day", density="M_sun/R_sun**3")


def si(expr):
    from oracles import SI

    return eval(expr, {}, SI)


def forms(kind, x, rich):
    """(label, builder) for the value x given in base units"""
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg

    yield "bare", float(x)
    if rich:
        yield "np64", np.float64(x)
        yield "np0d", np.array(float(x))
        yield "jnp0d", jnp.asarray(float(x))
        if float(x) == int(x):
            yield "int", int(x)
            yield "intq", int(x) * ureg.parse_units(BASE[kind]) if hasattr(ureg, "parse_units") else int(x)
    for u in UN[kind] if rich else UN[kind][:1] + UN[kind][-2:-1]:
        f = si(BASE[kind]) / si(u)
        q = 1.0 * (x * f)
        yield u, ureg.Quantity(q, u)


def tasks(tier):
    return [
        dict(name="two-of-three"), dict(name="from-orbit"), dict(name="refuse"),
        dict(name="traced"), dict(name="f32", x64=False),
    ]


def vals(c):
    from framework import mag

    return (
        float(mag(c.mass, "M_sun")), float(mag(c.radius, "R_sun")),
        float(mag(c.density, "M_sun/R_sun**3")),
    )


def model(m, r, d):
    """The reference: returns (m, r, d) or None when ill-posed."""
    if m is None and r is None:
        r = 1.0
        if d is None:
            m = 1.0
    n = sum(v is None for v in (m, r, d))
    if n != 1:
        return None
    if d is None:
        d = 3 * m / (4 * np.pi * r**3)
    elif r is None:
        r = (3 * m / (4 * np.pi * d)) ** (1 / 3)
    else:
        m = 4 * np.pi / 3 * r**3 * d
    return m, r, d


def verify(ctx, c, want, key, rtol=1e-9, **detail):
    got = vals(c)
    for n, g, w in zip(("mass", "radius", "density"), got, want):
        ctx.check(abs(g - w) <= rtol * abs(w), f"{key}-{n}", got=got, want=want, **detail)
    u = [str(q.units) for q in (c.mass, c.radius, c.density)]
    ctx.check(
        u == ["M_sun", "R_sun", "M_sun / R_sun ** 3"], f"{key}-units", got=u, **detail
    )
    ctx.check(c.shape == (), f"{key}-shape", got=c.shape)
    ctx.count(states=1, transitions=len(detail), traces=1)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import raises
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg
    from oracles import GRAV

    name = task["name"]
    M = [1.0, 0.1, 3.0, 1e-3, 50.0]
    R = [1.0, 0.05, 2.0, 30.0]
    D = [1.0, 0.2, 100.0, 1e-4]
    if name in ("two-of-three", "f32"):
        rt = 1e-9 if name != "f32" else 2e-5
        q = ctx.tier == "quick"
        for combo in (("mass", "radius"), ("mass", "density"), ("radius", "density"), ("density",), ()):
            val = dict(mass=M, radius=R, density=D)
            kind = dict(mass="mass", radius="length", density="density")
            for xs in itertools.product(*(val[c][: 3 if q else 9] for c in combo)):
                rich = all(x == val[c][0] or x == val[c][2] for c, x in zip(combo, xs))
                fs = [list(forms(kind[c], x, rich and name != "f32")) for c, x in zip(combo, xs)]
                if name == "f32":  # SI magnitudes overflow single precision
                    fs = [[f for f in ff if "g" not in f[0] and f[0] not in ("m",)] for ff in fs]
                for sel in itertools.product(*fs):
                    kw = {c: s[1] for c, s in zip(combo, sel)}
                    given = dict(zip(combo, xs))
                    want = model(given.get("mass"), given.get("radius"), given.get("density"))
                    lab = {c: [x, s[0]] for c, x, s in zip(combo, xs, sel)}
                    verify(ctx, Central(**kw), want, f"{name}:{'+'.join(combo) or 'none'}", rt, **lab)
        d = System().central
        verify(ctx, d, model(None, None, None), name + ":default-system", rt)
        ctx.sample(dict(mass="2 M_earth", radius="bare 1.0"))
    elif name == "traced":
        for combo in (("mass", "radius"), ("mass", "density"), ("radius", "density"), ("density",)):
            def build(xs):
                c = Central(**dict(zip(combo, xs)))
                return c.mass.magnitude, c.radius.magnitude, c.density.magnitude

            val = dict(mass=M, radius=R, density=D)
            grid = np.array(list(itertools.product(*(val[c] for c in combo))))
            want = np.array([model(*(dict(zip(combo, g)).get(k) for k in ("mass", "radius", "density"))) for g in grid])
            got = np.stack(jax.vmap(build)(tuple(grid.T)), -1)
            got2 = np.array([jax.jit(build)(tuple(jnp.asarray(x) for x in g)) for g in grid])
            for k, g in (("vmap", got), ("jit", got2)):
                ctx.close(g / want, np.ones_like(want), f"traced-{k}:{'+'.join(combo)}", tol=1e-9)
                ctx.count(states=len(grid), transitions=len(grid), traces=len(grid))
    elif name == "from-orbit":
        P = [1.0, 365.25, 0.2, 4000.0]
        A = [10.0, 215.0, 2.0]
        for p, a, r, bm in itertools.product(P, A, [None, 1.0, 0.3], [None, 0.0, 1e-3, 0.4]):
            mtot = 4 * np.pi**2 * a**3 / (GRAV * p**2)
            if bm is not None:
                bm = bm * mtot
            want_m = mtot - (bm or 0.0)
            want_r = 1.0 if r is None else r
            want = (want_m, want_r, 3 * want_m / (4 * np.pi * want_r**3))
            rich = p == 365.25 and a == 10.0 and r in (None, 1.0)
            fs = [
                list(forms("time", p, rich)), list(forms("length", a, rich)),
                [("none", None)] if r is None else list(forms("length", r, False)),
                [("none", None)] if bm is None else list(forms("mass", bm, False)),
            ]
            for sel in itertools.product(*fs):
                kw = {}
                for k, s in zip(("period", "semimajor", "radius", "body_mass"), sel):
                    if s[1] is not None:
                        kw[k] = s[1]
                c = Central.from_orbital_properties(**kw)
                verify(ctx, c, want, "from-orbit", 1e-9, case=[p, a, r, bm], forms=[s[0] for s in sel])
    elif name == "refuse":
        q = {"none": None, "scalar": 2.0}
        vec = [np.array([1.0]), jnp.array([1.0, 2.0]), np.ones((2, 2)), np.array([1.0, 2.0]) * ureg.dimensionless]
        n = 0
        for m, r, d in itertools.product([None, 2.0], repeat=3):
            want = model(m, r, d)
            e = raises(Central, mass=m, radius=r, density=d)
            n += 1
            if want is None:
                ctx.check(isinstance(e, ValueError), "refuse:subset", given=[m, r, d], got=repr(e))
            else:
                ctx.check(e is None, "refuse:legal", given=[m, r, d], got=repr(e))
        unit = dict(mass=ureg.M_sun, radius=ureg.R_sun, density=ureg.M_sun / ureg.R_sun**3)
        for combo in (("mass", "radius"), ("mass", "density"), ("radius", "density")):
            for bad in combo:
                for v in vec[:3]:
                    for asq in (False, True):
                        kw = {c: 1.0 for c in combo}
                        kw[bad] = v * unit[bad] if asq else v
                        e = raises(Central, **kw)
                        n += 1
                        ctx.check(isinstance(e, ValueError), "refuse:nonscalar", combo=combo, bad=bad, shape=np.shape(v), got=repr(e))
                for u in ("day", "M_sun", "R_sun", "M_sun/R_sun**3", "radian", "kg*m"):
                    kw = {c: 1.0 for c in combo}
                    kw[bad] = ureg.Quantity(1.0, u)
                    if u == str(unit[bad]).replace(" ", ""):
                        continue
                    e = raises(Central, **kw)
                    n += 1
                    ctx.check(e is not None, "refuse:dimension", combo=combo, bad=bad, unit=u)
        base = dict(period=1.0, semimajor=4.0, radius=1.0, body_mass=0.1)
        for bad in base:
            for v in vec[:3]:
                e = raises(Central.from_orbital_properties, **{**base, bad: v})
                n += 1
                ctx.check(isinstance(e, ValueError), "refuse:orbit-nonscalar", bad=bad, got=repr(e))
            for u in ("day", "R_sun", "M_sun"):
                good = dict(period="day", semimajor="R_sun", radius="R_sun", body_mass="M_sun")[bad]
                if u != good:
                    e = raises(Central.from_orbital_properties, **{**base, bad: ureg.Quantity(1.0, u)})
                    n += 1
                    ctx.check(e is not None, "refuse:orbit-dimension", bad=bad, unit=u)
        ctx.count(states=n, transitions=n, traces=n)
        ctx.sample("mass=[1,2], radius=1 raises ValueError")
