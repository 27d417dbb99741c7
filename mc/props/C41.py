"""Single precision results follow double precision."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "for every function of the library: a product grid over its parameters (ordinary, extreme and coinciding values), rounded "
    "to single precision; the single-precision value, compiled, is finite wherever the double-precision one at the same inputs "
    "is, and differs from it by at most a constant times the effect of one rounding of each input (from the double-precision "
    "derivatives) and of the value itself; forward and reverse derivatives are finite and follow theirs"
)
ASSUME = [
    "the double-precision results are decided by the other properties",
    "the constants (50 roundings for values, 2000 for derivatives) are the only tolerance", "the derivative is not compared within 1e-3 of b = 0, r = 1, where it is singular",
]

EPS = float(np.finfo(np.float32).eps)

# name -> parameters.  A grid per parameter; the product is enumerated.
T = [0.05, 0.4, 0.47, 0.6, 1.1, 1.9, 2.4, -7.3, 100.3]
P, E_, W, I = [3.0, 0.7, 400.0], [0.0, 1e-3, 0.3, 0.8], [0.0, 0.7, 1.5707964, -2.8], [1.5707964, 1.5, 1.0]
B = [0.0, 1e-6, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.9, 0.95, 0.999, 1.0, 1.001, 1.05, 1.1, 1.3, 1.49, 1.8, 3.0]
R = [1e-4, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 3.0]
U1 = [0.0, 0.3, 1.0]
U2 = [0.0, 0.2, -0.4]

GRIDS = {
    "kepler": dict(M=list(np.linspace(-7, 7, 57)) + [0.0, 1e-5, 3.1415927], e=[0.0, 1e-4, 0.1, 0.5, 0.9, 0.99]),
    "limb-2": dict(b=B, r=R, u1=U1, u2=U2),
    "limb-4": dict(b=B, r=R, u1=[0.3], u2=[0.2], u3=[0.0, 0.1], u4=[0.0, -0.1]),
    "position": dict(t=T, P=P, e=E_, w=W, i=I, t0=[0.4]),
    "velocity": dict(t=T, P=P, e=E_, w=W, i=I, t0=[0.4]),
    "circular": dict(t=T, P=P, i=I, t0=[0.4, 0.0]),
    "rv": dict(t=T, P=P, e=E_, w=W, K=[30.0]),
    "parallax": dict(t=T, e=E_, w=W, node=[0.0, 0.9], p=[0.01]),
    "impact": dict(t=T, e=E_, w=W, b=[0.0, 0.3, 1.05]),
    "sizes": dict(m=[1.0, 0.1, 30.0], r=[1.1, 0.1, 20.0], P=P, mb=[0.0, 1e-3, 0.5]),
    "transit": dict(t=T[:5] + [1.8, 2.4, -7.3], P=[3.0], d=[0.2, 0.01], b=[0.0, 0.3, 0.99], k=[0.1, 0.01], t0=[0.4]),
    "transit-speed": dict(t=T[:5] + [1.8, 2.4, -7.3], P=[3.0], s=[9.0, 1.0], b=[0.0, 0.3, 0.99], k=[0.1, 0.01], t0=[0.4]),
    "ttv": dict(t=[0.38, 0.41, 1.7, 3.2, 3.43, 6.28, 8.0, -4.0], d=[0.2], b=[0.0, 0.3], a=[-0.05, 0.0, 0.1], c=[0.0, 0.1]),
    "lc-kepler": dict(t=[0.4, 0.42, 0.47, 0.5, 1.9, 6.45], e=[0.0, 0.3], w=W, b=[0.0, 0.3, 0.9], k=[0.01, 0.1, 0.5], u1=[0.3], u2=[0.2]),
    "lc-transit": dict(t=[0.4, 0.42, 0.49, 0.5, 1.9, 6.45], d=[0.2], b=[0.0, 0.3, 0.9], k=[0.01, 0.1, 0.5], u1=[0.3], u2=[0.2]),
    "lc-integrated": dict(t=[0.4, 0.42, 0.49, 0.5, 1.9], d=[0.2], b=[0.0, 0.3], k=[0.01, 0.1], x=[0.02, 0.1]),
    "lc-interpolated": dict(t=[0.4, 0.42, 0.49, 0.5, 1.9, -5.55], d=[0.2], b=[0.0, 0.3], k=[0.01, 0.1]),
    "solution-1": dict(b=B, r=R),
    "solution-4": dict(b=B, r=R),
    "rotation": dict(lat=[0.0, 1.5707964, -0.4, 1.2], lon=[0.0, 0.9, -2.5], th=[0.0, 1e-4, 0.3, 1.5707964, 3.1415927, -2.0, 6.0]),
    "project": dict(inc=[1.5707964, 1.2, 0.3, 3.0], obl=[0.0, 0.4, -3.0], tz=[0.0, 1.3], th=[0.0, 0.5, 3.1415927, 5.5]),
    "rz": dict(th=[0.0, 1e-4, 0.3, 1.5707964, 3.1415927, -2.0, 100.0]),
    "basis": dict(a=[1.0, 0.3], b=[0.0, -0.2], c=[0.5]),
    "spot": dict(c=[0.1, 0.9], r=[0.2, 0.5, 1.2], lat=[0.0, 0.4, -1.5], lon=[0.0, 0.3, 3.1]),
    "intensity": dict(lat=[0.0, 0.4, -1.5], lon=[0.0, 0.3, 3.1], inc=[1.5707964, 1.2], u1=[0.0, 0.3]),
    "surface": dict(b=B, r=[0.01, 0.1, 0.5, 1.0, 1.5], inc=[1.5707964, 1.2], th=[0.0, 2.0]),
    "surface-limb": dict(b=B, r=[0.01, 0.1, 0.5, 1.0], u1=[0.0, 0.3], u2=[0.2], th=[0.0, 2.0]),
    "doppler": dict(b=B, r=[0.01, 0.1, 0.5], inc=[1.5707964, 1.2], obl=[0.0, 0.3], sh=[0.0, 0.2]),
    "emission": dict(t=[0.4, 0.45, 1.9, 1.95, 2.5], e=[0.0, 0.2], k=[0.05, 0.2], a=[0.5]),
}
HEAVY = {"solution-1", "solution-4", "surface", "surface-limb", "doppler", "emission", "limb-4", "intensity", "project", "rotation", "spot"}


# derivatives of these are a matter of the Euler angles (C30), or of the nodes of the table
VALUE_ONLY = {"rotation"}
FINITE_ONLY = {"lc-interpolated"}
CV, CD = 50.0, 2000.0


def tasks(tier):
    return [dict(name=n, x64=False, cost=6 if n in HEAVY else 2) for n in GRIDS]


def functions():
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    from jaxoplanet.core.limb_dark import light_curve as limb_dark
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry.core.basis import A1, A2_inv
    from jaxoplanet.starry.core.rotation import dot_rotation_matrix, dot_rz, left_project
    from jaxoplanet.starry.core.solution import solution_vector
    from jaxoplanet.starry.doppler import surface_radial_velocity
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm, ylm_spot

    mag = lambda v: jnp.asarray(getattr(v, "magnitude", v))  # noqa
    vec = lambda v: jnp.stack([mag(x) for x in v])  # noqa
    one = lambda v: jnp.ravel(mag(v))  # noqa
    dense = np.array([1.0, 0.2, -0.1, 0.3, 0.1, -0.05, 0.15, 0.02, -0.12])
    ylm = lambda s=1.0: Ylm({(0, 0): 1.0, (1, -1): 0.2 * s, (1, 0): -0.1 * s, (1, 1): 0.3 * s, (2, 0): 0.1 * s, (2, -2): -0.15 * s})  # noqa
    star = lambda: Central(mass=1.0, radius=1.1)  # noqa

    def kep(P=3.0, e=0.0, w=0.0, t0=0.4, **k):
        return OrbitalBody(star(), Body(period=P, eccentricity=e, omega_peri=w, time_transit=t0, **k))

    def transit(d, b, k, t0=0.4, P=3.0):
        return TransitOrbit(period=P, duration=d, time_transit=t0, impact_param=b, radius_ratio=k)

    def sizes(m, r, P, mb):
        c = Central(mass=m, radius=r)
        o = OrbitalBody(c, Body(period=P, mass=mb))
        c2 = Central.from_orbital_properties(period=P, semimajor=o.semimajor, radius=r, body_mass=mb)
        return jnp.stack([mag(x) for x in (c.density, o.semimajor, o.semimajor / c.radius, c2.mass, c2.density, o.total_mass)])

    def ttv(t, d, b, a, c):
        o = TTVOrbit(transit_times=(jnp.array([-2.6, 0.4, 3.4, 6.4]) + jnp.stack([a, 0 * a, c, 2 * a]),), duration=d, impact_param=b, radius_ratio=0.1)
        return vec(o.relative_position(t))

    def rotation(lat, lon, th):
        return dot_rotation_matrix(2, jnp.cos(lat) * jnp.cos(lon), jnp.cos(lat) * jnp.sin(lon), jnp.sin(lat), th)(jnp.asarray(dense))

    def surf(inc=1.2, obl=0.2, u=(), sh=None):
        return Surface(y=ylm(), inc=inc, obl=obl, u=u, period=2.0, shear=sh) if sh is not None else Surface(y=ylm(), inc=inc, obl=obl, u=u, period=2.0)

    def em(t, e, k, a):
        c = star()
        s = SurfaceSystem(c, Surface(amplitude=1.0, normalize=False)).add_body(Body(period=3.0, time_transit=0.4, radius=k, eccentricity=e, omega_peri=0.7), Surface(amplitude=a, normalize=False))
        return one(emission(s)(t[None]))

    a1, a2 = A1(2).toarray(), A2_inv(2).toarray()
    return {
        "kepler": lambda M, e: vec(kepler(M, e)),
        "limb-2": lambda b, r, u1, u2: one(limb_dark(jnp.stack([u1, u2]), b, r)),
        "limb-4": lambda b, r, u1, u2, u3, u4: one(limb_dark(jnp.stack([u1, u2, u3, u4]), b, r)),
        "position": lambda t, P, e, w, i, t0: vec(kep(P, e, w, t0, inclination=i).relative_position(t)),
        "velocity": lambda t, P, e, w, i, t0: vec(kep(P, e, w, t0, inclination=i).relative_velocity(t)),
        "circular": lambda t, P, i, t0: vec(OrbitalBody(star(), Body(period=P, time_transit=t0, inclination=i)).relative_position(t)),
        "rv": lambda t, P, e, w, K: one(kep(P, e, w, radial_velocity_semiamplitude=K).radial_velocity(t)),
        "parallax": lambda t, e, w, node, p: vec(kep(3.0, e, w, asc_node=node).relative_position(t, parallax=p)),
        "impact": lambda t, e, w, b: vec(kep(3.0, e, w, impact_param=b).relative_position(t)),
        "sizes": sizes,
        "transit": lambda t, P, d, b, k, t0: vec(transit(d, b, k, t0, P).relative_position(t)),
        "transit-speed": lambda t, P, s, b, k, t0: vec(TransitOrbit(period=P, speed=s, time_transit=t0, impact_param=b, radius_ratio=k).relative_position(t)),
        "ttv": ttv,
        "lc-kepler": lambda t, e, w, b, k, u1, u2: one(limb_dark_light_curve(kep(3.0, e, w, impact_param=b, radius=1.1 * k), u1, u2)(t[None])),
        "lc-transit": lambda t, d, b, k, u1, u2: one(limb_dark_light_curve(transit(d, b, k), u1, u2)(t[None])),
        "lc-integrated": lambda t, d, b, k, x: one(integrate(limb_dark_light_curve(transit(d, b, k), 0.3, 0.2), exposure_time=x)(t[None])),
        "lc-interpolated": lambda t, d, b, k: one(interpolate(limb_dark_light_curve(transit(d, b, k), 0.3, 0.2), period=3.0, time_transit=0.4, num_samples=300, duration=0.6)(t[None])),
        "solution-1": lambda b, r: solution_vector(1)(b, r),
        "solution-4": lambda b, r: solution_vector(4)(b, r),
        "rotation": rotation,
        "project": lambda inc, obl, tz, th: left_project(2, inc, obl, th, tz, jnp.asarray(dense)),
        "rz": lambda th: dot_rz(2, th)(jnp.asarray(dense)),
        "basis": lambda a, b, c: jnp.concatenate([a1 @ (jnp.asarray(dense) * a + b), a2 @ (jnp.asarray(dense) * c + b)]),
        "spot": lambda c, r, lat, lon: ylm_spot(4)(c, r, lat, lon).todense(),
        "intensity": lambda lat, lon, inc, u1: one(surf(inc, 0.2, (u1,)).intensity(lat, lon)),
        "surface": lambda b, r, inc, th: one(surface_light_curve(surf(inc), r=r, x=0.6 * b, y=0.8 * b, z=1.0, theta=th)),
        "surface-limb": lambda b, r, u1, u2, th: one(surface_light_curve(surf(1.2, 0.2, (u1, u2)), r=r, x=0.6 * b, y=0.8 * b, z=1.0, theta=th)),
        "doppler": lambda b, r, inc, obl, sh: one(surface_radial_velocity(surf(inc, obl, (0.3,), sh), r=r, x=0.6 * b, y=0.8 * b, z=1.0, theta=0.3)),
        "emission": em,
    }


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jax.experimental import enable_x64

    name = task["name"]
    f = functions()[name]
    grid = GRIDS[name]
    if ctx.tier == "thorough":
        # midpoints too (not of times, which meet ties)
        grid = {k: sorted({*v, *(() if k == "t" else (0.5 * (a + b) for a, b in itertools.pairwise(sorted(v))))}) for k, v in grid.items()}
    X = np.array(list(itertools.product(*grid.values())), np.float32)
    g = lambda x: f(*x)  # noqa
    G = lambda h: jax.jit(jax.vmap(h))  # noqa
    modes = dict(value=g, forward=jax.jacfwd(g), reverse=jax.jacrev(g))
    with enable_x64():
        X64 = jnp.asarray(X.astype(np.float64))
        want = {k: np.asarray(G(h)(X64)) for k, h in (("value", g), ("d", jax.jacfwd(g)), ("dd", jax.jacfwd(jax.jacfwd(g))))}
        assert want["value"].dtype == np.float64
    ax = np.abs(X.astype(float))
    # the magnitudes that are added up: of the largest component of a vector, of the unocculted flux, of the semi-amplitude
    size = np.maximum(np.abs(want["value"]).max(1, keepdims=True), 30.0 if name == "rv" else 1.0)
    # effect of one rounding of each input and of the result (of the size of the largest component of a vector)
    unit = EPS * (size + np.einsum("nki,ni->nk", np.nan_to_num(np.abs(want["d"])), ax))
    with np.errstate(all="ignore"):
        natural = np.where(ax > 0, size / np.where(ax > 0, ax, 1), size)[:, None, :]
        dunit = EPS * (np.abs(want["d"]).max(1, keepdims=True) + np.einsum("nkij,nj->nki", np.abs(want["dd"]), ax) + natural)
    ctx.check(np.isfinite(want["value"]).all(), "double-precision-value", n=int((~np.isfinite(want["value"])).sum()))
    for mode, h in modes.items():
        if mode != "value" and name in VALUE_ONLY:
            continue
        got = np.asarray(G(h)(jnp.asarray(X)))
        ctx.check(got.dtype == np.float32, mode + "-dtype", got=str(got.dtype))
        w, c = (want["value"], CV * unit) if mode == "value" else (want["d"], CD * dunit)
        if mode != "value" and name in FINITE_ONLY:
            c = np.where(np.isfinite(w), np.inf, c)
        if mode != "value" and "r" in grid and "b" in grid:
            c = np.where((np.abs(X[:, list(grid).index("b")]) + np.abs(X[:, list(grid).index("r")] - 1) < 1e-3)[:, None, None], np.inf, c)
        with np.errstate(all="ignore"):
            # a derivative that is not defined in double precision either is another property's
            bad = np.isfinite(w) & ~(np.abs(got - w) <= np.where(np.isfinite(c), c, np.inf))
            bad |= np.isfinite(w) & ~np.isfinite(got)
            ratio = np.where(np.isfinite(w - got), np.abs(got - w) / c, 0.0)
        ctx.note_max("fraction of the bound: " + mode, ratio.max())
        for i in np.unique(np.argwhere(bad)[:, 0]):
            ctx.violation(mode, inputs=dict(zip(grid, X[i].tolist(), strict=True)), got=got[i].tolist(), want=w[i].tolist(), bound=np.asarray(c[i]).tolist(), nbad=int(bad.any(axis=tuple(range(1, bad.ndim))).sum()))
        ctx.count(states=len(X), traces=len(X))
    ctx.sample(dict(function=name, inputs=dict(zip(grid, X[len(X) // 2].tolist(), strict=True))))
