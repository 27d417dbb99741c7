"""Surface systems: every column against its own surface, whatever the assembly history."""

import itertools

import numpy as np

from props.C26 import reference

LEVEL = "model_checking"
RULE = (
    "breadth-first over histories of adding bodies to a system with a surface: alphabet of 6 "
    "(body, surface) pairs (no surface, uniform, limb darkened, rotating maps of degree 1 and 2, "
    "pole-on, larger than the star) x 5 ways of adding x central surfaces; states = histories, "
    "transitions = adds; at each state the light curve at a fixed lattice of times through "
    "transits, eclipses and quadratures of every body; each column compared with direct "
    "integration of that surface, the columns' order, shape and independence of the other bodies "
    "included; siblings and parents re-observed"
)
ASSUME = [
    "orbital positions are decided by C08 and taken from single-body orbits",
    "simultaneous occultations of the star add up (the deficits of bodies that overlap on the "
    "sky are not merged)",
    "the flux of one surface is decided by C26's reference integration",
]
CENTRAL = dict(mass=1.3, radius=1.1)
# (body, surface or None)
ITEMS = dict(
    a=(dict(period=1.0, radius=0.2, mass=0.01, impact_param=0.3), None),
    b=(dict(period=1.7, radius=0.5, mass=0.2, time_transit=0.1), dict(u=(0.3,), amplitude=0.4, normalize=False)),
    c=(dict(period=1.3, radius=0.8, mass=0.1, impact_param=-0.7, time_transit=-0.2),
       dict(y=[1.0, 0.2, -0.3, 0.4], u=(0.2, 0.1), inc=1.2, obl=0.3, period=0.9, phase=0.5, amplitude=0.6, normalize=False)),
    d=(dict(period=0.9, radius=0.3, mass=0.05, eccentricity=0.2, omega_peri=0.6, inclination=1.5),
       dict(y=[0.7, 0.1, 0.2, 0.3, -0.2, 0.1, 0.25, -0.1, 0.15], inc=None, obl=-0.5, period=-1.4)),
    e=(dict(period=1.1, radius=1.6, mass=0.6, asc_node=0.7, time_transit=0.05), dict(amplitude=0.3, normalize=False)),
    f=(dict(period=1.3, radius=0.8, mass=0.1, impact_param=-0.7, time_transit=-0.2), dict(y=[0.5, 0.2, 0.1, -0.2], inc=0.9, period=2.2)),
)
CENTRALS = dict(
    plain=None,
    ld=dict(u=(0.4, 0.2), amplitude=2.0, normalize=False),
    map=dict(y=[1.5, 0.3, -0.2, 0.5, 0.1, 0.2, -0.3, 0.1, 0.2], u=(0.3,), inc=1.1, obl=0.2, period=0.8, phase=-0.4),
)
HOWS = ["body", "kwargs", "surfacebody", "orbital", "constructor"]


def times(names):
    t = [0.0]
    for k in sorted(set(names)):
        b = ITEMS[k][0]
        t0, P = b.get("time_transit", 0.0), b["period"]
        t += [t0 + P * f for f in (-0.03, -0.012, 0.004, 0.2, 0.46, 0.49, 0.505, 0.53, 1.02, 7.0)]
    return np.array(t)


def tasks(tier):
    t = []
    names = "abcdef"
    for n, h in enumerate(itertools.product(names, repeat=2)):
        if tier == "quick" and "".join(h) in ("dd", "ff", "df", "fd", "fc"):
            continue  # left to the thorough tier
        t.append(dict(name="hist-" + "".join(h), hist=h, k=n, cost=10))
    for n, h in enumerate(names):
        t.append(dict(name="hist-" + h, hist=(h,), k=n, cost=6))
    deep = ["aab", "cab", "bda", "ccc", "abce", "bacbe"] if tier == "quick" else ["".join(h) for h in itertools.product(names, repeat=3)] + ["abce", "bacbe", "fedcba", "aaaa"]
    for n, h in enumerate(deep):
        t.append(dict(name="hist-" + h, hist=tuple(h), k=n, cost=16))
    t += [dict(name="nobodies", cost=5), dict(name="forms", cost=30), dict(name="transforms", cost=30), dict(name="routes", cost=30), dict(name="siblings", cost=30)]
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag, raises
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
    from jaxoplanet.starry.light_curves import light_curve
    from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    central = Central(**CENTRAL)

    def surface(d):
        if d is None:
            return None
        d = dict(d)
        if "y" in d:
            d["y"] = Ylm.from_dense(jnp.asarray(d["y"]), normalize=False)
        return Surface(**d)

    def flux(d, t, occ):
        """model of one surface: d its parameters"""
        d = d or {}
        y = np.array(d.get("y", [1.0]), float)
        amp = d.get("amplitude", 1.0) if not d.get("normalize", True) else 1.0
        P = d.get("period")
        th = d.get("phase", 0.0) + 2 * np.pi * t / P if P is not None else 0.0
        inc = d.get("inc", np.pi / 2)
        return amp * reference(y, d.get("u", ()), 0.0 if inc is None else inc, d.get("obl") or 0.0, th, occ)

    _pos = {}

    def position(k, T):
        key = (k, T.tobytes())
        if key not in _pos:
            o = OrbitalBody(central, Body(**ITEMS[k][0]))
            _pos[key] = np.stack([mag(v, "R_sun") for v in o.relative_position(T)])
        return _pos[key]

    def model(hist, cname, T):
        out = np.zeros((len(T), 1 + len(hist)))
        R = CENTRAL["radius"]
        for i, t in enumerate(T):
            f0 = flux(CENTRALS[cname], t, None)
            out[i, 0] = f0
            for j, k in enumerate(hist):
                x, y, z = position(k, T)[:, i]
                rad = ITEMS[k][0]["radius"]
                if z > 0 and np.hypot(x, y) < R + rad:
                    out[i, 0] += flux(CENTRALS[cname], t, (x / R, y / R, rad / R, 1.0)) - f0
                if ITEMS[k][1] is not None:
                    hidden = z < 0 and np.hypot(x, y) < R + rad
                    out[i, 1 + j] = flux(ITEMS[k][1], t, (-x / rad, -y / rad, R / rad, 1.0) if hidden else None)
        return out

    def add(s, k, how):
        b, d = ITEMS[k]
        sf = surface(d)
        if how == "body":
            return s.add_body(Body(**b), sf)
        if how == "kwargs":
            return s.add_body(surface=sf, **b)
        if how == "surfacebody":
            return s.add_body(SurfaceBody(**b, surface=sf))
        if how == "orbital":
            return s.add_body(OrbitalBody(central, Body(**b)), sf)
        return SurfaceSystem(central, s.central_surface, bodies=[*zip(s.bodies, s.body_surfaces), (Body(**b), sf)])

    def build(hist, cname, k):
        s = SurfaceSystem(central, surface(CENTRALS[cname]))
        for j, h in enumerate(hist):
            s = add(s, h, HOWS[(k + j) % 5] if k is not None else "body")
            ctx.count(transitions=1)
        return s

    def observe(s, hist, cname, key, T=None, tol=3e-7):
        T = times(hist) if T is None else T
        got = np.asarray(light_curve(s, order=60)(T))
        want = model(hist, cname, T)
        ok = ctx.close(got, want, key, tol=tol, detail=dict(history="".join(hist), central=cname), labels=dict(time=T[:, None], column=np.arange(1 + len(hist))) if got.shape == want.shape else None)
        for j, k in enumerate(hist):
            ctx.check((s.body_surfaces[j] is None) == (ITEMS[k][1] is None), key + ":surfaces", history="".join(hist))
        ctx.count(states=1, traces=1)
        return ok

    if name.startswith("hist"):
        k = task["k"]
        cname = list(CENTRALS)[k % 3]
        hist = task["hist"]
        observe(build(hist, cname, k), hist, cname, "history")
        ctx.sample(dict(history=hist, central=cname, times=times(hist)[:4]))
    elif name == "nobodies":
        T = np.array([0.0, 0.3, -2.0])
        for cname in CENTRALS:
            observe(SurfaceSystem(central, surface(CENTRALS[cname])), (), cname, "no-bodies", T)
        s = SurfaceSystem()
        ctx.close(np.asarray(light_curve(s)(0.3)), np.array([1.0]), "default", tol=1e-12)
        ctx.sample(dict(history=[]))
    elif name in ("forms", "transforms"):
        # scalar, n-d and quantity times
        hist, cname = ("a", "b"), "ld"
        s = build(hist, cname, None)
        T = times(hist)[:12]
        want = model(hist, cname, T)
        lc = light_curve(s, order=60)
        forms = (
            ("scalar", float(T[1]), want[1]), ("0d", jnp.asarray(T[2]), want[2]), ("2d", T.reshape(3, 4), want.reshape(3, 4, 3)),
            ("hours", T * 24 * ureg.hour, want), ("day", jnp.asarray(T) * ureg.day, want),
            ("integer", 0, want[0]),
        )
        for nm, t, w in forms if name == "forms" else ():
            g = np.asarray(lc(t))
            ctx.close(g, w, "form-" + nm, tol=3e-7)
            ctx.count(states=1, traces=1, transitions=1)
        if name == "transforms":
            ctx.close(np.asarray(jax.jit(lc)(T)), want, "form-jit", tol=3e-7)
            ctx.close(np.asarray(jax.vmap(lc)(T)), want, "form-vmap", tol=3e-7)
            ctx.close(np.asarray(jax.jit(lambda s, t: light_curve(s, order=60)(t))(s, T)), want, "form-jit-system", tol=3e-7)
            ctx.count(states=3, traces=3, transitions=3)
        ctx.check(raises(lc, 1.0 * ureg.R_sun) is not None, "wrong-dimension")
        ctx.sample(dict(history=hist))
    elif name == "routes":
        # every pair of ways of adding gives the same system
        hist = ("b", "a")
        T = times(hist)[:14]
        want = model(hist, "ld", T)
        for h1, h2 in itertools.product(HOWS, repeat=2) if ctx.tier != "quick" else zip(HOWS, HOWS[2:] + HOWS[:2]):
            s = add(add(SurfaceSystem(central, surface(CENTRALS["ld"])), "b", h1), "a", h2)
            ctx.close(np.asarray(light_curve(s, order=60)(T)), want, "route", tol=3e-7, detail=dict(ways=[h1, h2]))
            ctx.count(states=1, traces=1, transitions=2)
        # an explicit surface wins over the one attached to the body
        b, d = ITEMS["b"]
        s = SurfaceSystem(central, surface(CENTRALS["ld"])).add_body(SurfaceBody(**b, surface=surface(ITEMS["e"][1])), surface(d))
        ctx.close(np.asarray(light_curve(s, order=60)(T)), model(("b",), "ld", T), "explicit-surface", tol=3e-7)
        ctx.sample(dict(ways=[h1, h2]))
    else:
        # a parent and its children do not see one another; adding never changes the parent
        T = times("abe")
        p = build(("b",), "map", 0)
        c1 = add(p, "a", "body")
        c2 = add(p, "e", "surfacebody")
        observe(c1, ("b", "a"), "map", "sibling", T)
        observe(c2, ("b", "e"), "map", "sibling", T)
        observe(p, ("b",), "map", "parent", T)
        ctx.check(len(p.bodies) == 1 and len(p.body_surfaces) == 1, "parent-length")
        # identical bodies with identical surfaces (one stack) and different surfaces
        observe(build(("c", "f"), "ld", 0), ("c", "f"), "ld", "same-orbit", T)
        ctx.sample(dict(history=["c", "a"]))
