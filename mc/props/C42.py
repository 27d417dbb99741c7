"""Derivatives of the observables are the derivatives of their values."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "for every function of the library: a product grid over its parameters in which the exact coincidences are listed (mid-transit and "
    "mid-eclipse, occultor exactly centred, on the axes or behind, exact contacts, circular, edge-on, angles at whole quarters, absent "
    "features); forward and reverse derivatives with respect to every parameter are finite, agree with each other, and equal the "
    "fourth-order central difference of the values wherever two step sizes agree (where the value has a kink or the difference "
    "is not defined, the derivative only has to be finite)"
)
ASSUME = [
    "double precision",
    "derivatives through the Euler decomposition exactly at its gimbal points are not asked for (C30)",
    "the derivative of a limb-darkened flux within 1e-3 of b = 0, r = 1 is not asked for",
]
H = np.pi / 2

# the grids of C41, with the exact values that single precision cannot hold
T = [0.05, 0.4, 0.47, 1.1, 1.9, 2.5, -7.3]
W = [0.0, 0.7, H, -H, np.pi]
E_ = [0.0, 0.3, 0.8]
XY = [0.0, 0.2, -0.45, 0.8, 1.7]
OWN = {
    "position": dict(t=T, P=[3.0], e=E_, w=W, i=[H, 1.5], t0=[0.4]),
    "velocity": dict(t=T, P=[3.0], e=E_, w=W, i=[H, 1.5], t0=[0.4]),
    "circular": dict(t=T, P=[3.0, 0.7], i=[H, 1.5], t0=[0.4, 0.0]),
    "rv": dict(t=T, P=[3.0], e=E_, w=W, K=[30.0, 0.0]),
    "parallax": dict(t=T, e=E_, w=W, node=[0.0, H, 0.9], p=[0.01]),
    "impact": dict(t=T, e=E_, w=W, b=[0.0, 0.3, 1.05]),
    "transit": dict(t=[0.05, 0.4, 0.3, 0.5, 1.8, 2.4, -5.6], P=[3.0], d=[0.2], b=[0.0, 0.3, 0.99], k=[0.1, 0.01], t0=[0.4]),
    "transit-speed": dict(t=[0.05, 0.4, 0.3, 0.5, 1.8, 2.4, -5.6], P=[3.0], s=[9.0], b=[0.0, 0.3, 0.99], k=[0.1, 0.01], t0=[0.4]),
    "lc-kepler": dict(t=[0.4, 0.42, 0.47, 1.9, 3.4], e=[0.0, 0.3], w=W, b=[0.0, 0.3, 0.9], k=[0.01, 0.1, 0.5], u1=[0.3, 0.0], u2=[0.2]),
    "lc-transit": dict(t=[0.4, 0.42, 0.49, 1.7, 1.9, 3.4], d=[0.2], b=[0.0, 0.3, 0.9], k=[0.01, 0.1, 0.5], u1=[0.3, 0.0], u2=[0.2, 0.0]),
    "lc-ttv": dict(t=[0.4, 0.42, 3.4, 3.45], d=[0.2], b=[0.0, 0.3], k=[0.01, 0.1]),
    "lc-integrated": dict(t=[0.4, 0.42, 0.49, 1.8], d=[0.2], b=[0.0, 0.3], k=[0.01, 0.1], x=[0.02, 0.1]),
    "project": dict(inc=[1.2, 0.3, 3.0], obl=[0.1, 0.4, -3.0], tz=[0.0, 1.3], th=[0.0, 0.5, 5.5]),
    "spot": dict(c=[0.1, 0.9], r=[0.2, 0.5, 1.2], lat=[0.1, 0.4, -1.5], lon=[0.1, 0.3, 3.1]),
    "intensity": dict(lat=[0.0, 0.4, -1.5], lon=[0.0, 0.3, 3.1], inc=[1.2, 0.9], u1=[0.0, 0.3]),
    "emission": dict(t=[0.4, 0.45, 1.9, 1.95, 2.5], e=[0.0, 0.2], k=[0.05, 0.2], a=[0.5]),
    "emission-eclipse": dict(t=[0.4, 0.45, 1.9, 1.95, 2.5], k=[0.05, 0.2], a=[0.5], u=[0.0, 0.3]),
    "xy-uniform": dict(x=XY, y=XY, r=[0.1, 0.6, 1.4], z=[1.0, -1.0]),
    "xy-limb": dict(x=XY, y=XY, r=[0.1, 0.6, 1.4], z=[1.0, -1.0], u1=[0.0, 0.3]),
    "xy-map": dict(x=XY, y=XY, r=[0.1, 0.6, 1.4], z=[1.0, -1.0], inc=[1.2], th=[0.0, 2.0]),
    "xy-map-limb": dict(x=XY, y=XY, r=[0.1, 0.6], z=[1.0, -1.0], u1=[0.3], amp=[1.0], a=[0.2]),
    "xy-doppler": dict(x=XY, y=XY, r=[0.1, 0.6], z=[1.0, -1.0], inc=[1.2], obl=[0.2], sh=[0.0, 0.2]),
    "system-map": dict(t=[0.4, 0.45, 1.9, 1.95, 2.5], k=[0.05, 0.2], b=[0.0, 0.3], a=[0.5]),
}
DROP = {"rotation", "lc-interpolated", "surface", "surface-limb", "doppler"}
HEAVY = {"xy-map", "xy-map-limb", "xy-doppler", "system-map", "solution-4", "solution-1", "project", "intensity"}
# what may be perturbed below zero
POSITIVE = {"r", "k", "e", "P", "d", "m", "s"}


def grids():
    from props import C41

    return {**{k: v for k, v in C41.GRIDS.items() if k not in DROP}, **OWN}


def tasks(tier):
    return [dict(name=n, cost=6 if n in HEAVY else 2) for n in grids()]


def functions():
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits.keplerian import Body, Central
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry.doppler import surface_radial_velocity
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from props import C41

    one = lambda v: jnp.ravel(jnp.asarray(getattr(v, "magnitude", v)))  # noqa
    ylm = lambda a=0.2: Ylm({(0, 0): 1.0, (1, -1): a, (1, 0): -0.1, (1, 1): 0.3, (2, 0): 0.1, (2, -2): -0.15})  # noqa

    def at(s, x, y, z, r, th=0.3):
        return one(surface_light_curve(s, r=r, x=x, y=y, z=z, theta=th))

    def ttv(t, d, b, k):
        o = TTVOrbit(transit_times=(jnp.array([-2.6, 0.4, 3.4, 6.4]),), duration=d, impact_param=b, radius_ratio=k)
        return one(limb_dark_light_curve(o, 0.3, 0.2)(t[None]))

    def em(t, k, a, u):
        s = SurfaceSystem(Central(), Surface(amplitude=1.0, normalize=False, u=(u, 0.1)))
        s = s.add_body(Body(period=3.0, time_transit=0.4, radius=k, impact_param=0.0), Surface(amplitude=a, normalize=False, u=(u,)))
        return one(emission(s)(t[None]))

    def system(t, k, b, a):
        s = SurfaceSystem(Central(), Surface(normalize=False, u=(0.2,)))
        s = s.add_body(Body(period=3.0, time_transit=0.4, radius=k, impact_param=b), Surface(y=Ylm({(0, 0): 1.0, (1, 0): 0.2}), amplitude=a, normalize=False, period=3.0))
        return one(light_curve(s, order=10)(t[None]))

    return {
        **C41.functions(),
        "lc-ttv": ttv,
        "emission-eclipse": em,
        "xy-uniform": lambda x, y, r, z: at(Surface(amplitude=0.7, normalize=False), x, y, z, r),
        "xy-limb": lambda x, y, r, z, u1: at(Surface(u=(u1, 0.2)), x, y, z, r),
        "xy-map": lambda x, y, r, z, inc, th: at(Surface(y=ylm(), inc=inc, obl=0.2), x, y, z, r, th),
        "xy-map-limb": lambda x, y, r, z, u1, amp, a: at(Surface(y=ylm(a), inc=1.2, obl=0.2, u=(u1,), amplitude=amp, normalize=False), x, y, z, r),
        "xy-doppler": lambda x, y, r, z, inc, obl, sh: one(surface_radial_velocity(Surface(y=ylm(), inc=inc, obl=obl, u=(0.3,), period=2.0, shear=sh), r=r, x=x, y=y, z=z, theta=0.3)),
        "system-map": system,
    }


def run(task, ctx):
    import jax
    import jax.numpy as jnp

    name = task["name"]
    f = functions()[name]
    grid = grids()[name]
    if ctx.tier == "thorough":
        grid = {k: sorted({*v, *(() if k in ("t", "z") else (0.5 * (a + b) for a, b in itertools.pairwise(sorted(v))))}) for k, v in grid.items()}
    names = list(grid)
    X = np.array(list(itertools.product(*grid.values())), float)
    g = lambda x: f(*x)  # noqa
    value = jax.jit(jax.vmap(g))
    D = {m: np.asarray(jax.jit(jax.vmap(d(g)))(jnp.asarray(X))) for m, d in (("forward", jax.jacfwd), ("reverse", jax.jacrev))}
    v0 = np.asarray(value(jnp.asarray(X)))
    ctx.check(np.isfinite(v0).all(), "value")
    size = np.maximum(1.0, np.abs(v0).max(1))
    off = lambda k: X[:, names.index(k)] if k in names else None  # noqa
    b = off("b")
    if name.startswith("xy"):
        b = np.hypot(off("x"), off("y"))
    r = off("r") if off("r") is not None else off("k")
    skip = np.zeros(len(X), bool)
    if b is not None and r is not None:
        skip = np.abs(b) + np.abs(r - 1) < 1e-3
    centred = np.zeros(len(X), bool)
    if name in ("xy-map", "xy-map-limb", "xy-doppler"):
        centred = (b == 0) & (off("z") > 0)
    compared = total = 0
    for i, k in enumerate(names):
        if k == "z":
            continue
        h0 = 2e-3 * np.where(X[:, i] != 0, np.minimum(np.abs(X[:, i]), 1.0), 0.5)
        if k in ("t", "P", "t0"):
            h0 = np.full(len(X), 1e-3)

        def moved(s, i=i):
            Y = X.copy()
            Y[:, i] += s
            return np.asarray(value(jnp.asarray(Y)))

        def difference(h):
            return (8 * (moved(h) - moved(-h)) - (moved(2 * h) - moved(-2 * h))) / (12 * h[:, None])

        with np.errstate(all="ignore"):
            A, B = difference(h0), difference(h0 / 2)
            gap = np.abs(A - B)
            floor = 1e-13 * size[:, None] / h0[:, None] * 100
            scale = np.maximum(np.abs(B), size[:, None])
            smooth = np.isfinite(gap) & (gap < 1e-5 * scale)
            if k in ("b", "r") and r is not None and b is not None:
                # not across a contact
                smooth &= (np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - 1 - r)) > 4 * h0)[:, None]
            if k in POSITIVE or (k == "b" and name.startswith("solution")):
                smooth &= (X[:, i] > 0)[:, None]
        for m, J in D.items():
            d = J[:, :, i]
            fin = np.isfinite(d).all(1)
            for key, bad in ((f"centred-map-{k}" if k in "xy" else f"{m}-centred-map-{k}", ~fin & centred), (f"{m}-finite-{name}", ~fin & ~centred)):
                if bad.any():
                    j = int(np.argmax(bad))
                    ctx.violation(key, parameter=k, mode=m, observable=name, inputs=dict(zip(names, X[j].tolist(), strict=True)), got=d[j].tolist(), n=int(bad.sum()))
            ok = smooth & fin[:, None] & ~skip[:, None]
            err = np.abs(d - B)
            tol = 1e-6 * scale + 20 * gap + floor
            wrong = ok & ~(err <= tol)
            ctx.note_max("fraction of the tolerance", np.where(ok, err / tol, 0).max())
            if wrong.any():
                j = int(np.argmax(np.where(wrong, err / tol, 0).max(1)))
                ctx.violation(m + "-" + name, parameter=k, inputs=dict(zip(names, X[j].tolist(), strict=True)), got=d[j].tolist(), want=B[j].tolist(), n=int(wrong.any(1).sum()))
            compared += int(ok.all(1).sum())
            total += len(X)
        fr, rv = D["forward"][:, :, i], D["reverse"][:, :, i]
        with np.errstate(all="ignore"):
            bad = ((np.abs(fr - rv) > 1e-8 * (size[:, None] + np.abs(fr))) & ~skip[:, None]).any(1)
        if bad.any():
            j = int(np.argmax(bad))
            ctx.violation("modes-" + name, parameter=k, inputs=dict(zip(names, X[j].tolist(), strict=True)), forward=fr[j].tolist(), reverse=rv[j].tolist())
        ctx.count(states=2 * len(X), traces=2 * len(X))
    ctx.note_max("points compared: " + name, compared / max(total, 1))
    ctx.sample(dict(function=name, inputs=dict(zip(names, X[len(X) // 2].tolist(), strict=True))))
