"""Doppler observables against flux-weighted velocities."""

import itertools

import numpy as np

from oracles import Sky, limb_darkening, real_sph, sky_intensity, surface_point
from props.C26 import ORIENT, UU, dense, geoms

LEVEL = "exploration"
RULE = (
    "every combination of map degree, number of limb-darkening coefficients, differential "
    "rotation given/absent, given/absent inclination, obliquity, rotation angle and occultor, "
    "times the product of orientations x occultor geometries (contacts, every quadrant, in "
    "front/behind); the flux-weighted line-of-sight velocity of the visible unocculted disk by "
    "direct integration; amplitudes and normalization; velocity maps and rendered velocity "
    "images pixel by pixel; systems of 0-3 (thorough 0-4) bodies in every order over orbits x surfaces x times"
)
ASSUME = [
    "velocities are positive when receding; solid rotation plus shear: v = veq (1 - alpha sin^2 lat), "
    "prograde about the spin axis; units R_sun / day with veq = 2 pi R / period",
    "not compared where less than 1e-3 of the flux is visible",
    "the image of the velocity is intensity times velocity",
]


def tasks(tier):
    t = []
    for l in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4, 6):
        for nu in (0, 2) if tier == "quick" else (0, 1, 2, 3):
            for sh in (0, 1):
                t.append(dict(name=f"rv-{l}-{nu}-{'shear' if sh else 'solid'}", l=l, nu=nu, sh=sh, cost=10 + l + nu + 3 * sh))
    for h in range(8):
        t.append(dict(name=f"absent-{h}", h=h, cost=14 + 4 * (h % 2)))
    t += [dict(name="amplitude", cost=20), dict(name="velocity-map", cost=8)]
    t += [dict(name=f"image-{k}", k=k, cost=12) for k in range(3)]
    # systems: every ordered choice of distinct bodies up to the depth, around every star
    words = [w for n in range(5) for w in itertools.permutations(range(4), n)]
    if tier == "quick":
        words = [w for w in words if len(w) < 2] + [(0, 1), (1, 0), (2, 3), (3, 2, 0), (1, 3)]
    for i, w in enumerate(words):
        for k in range(4) if tier != "quick" else ((w[0],) if len(w) == 1 else (i % 4,)):
            t.append(dict(name="system-" + "".join(map(str, w)) + f"-star{k}", word=(*w, k), cost=6 + 14 * len(w)))
    t += [dict(name="uniform-0", nu=0, cost=30), dict(name="uniform-3", nu=3, cost=30), dict(name="f32", x64=False, cost=6)]
    return t


def patterns(tier):
    """given (True) or absent: inclination, obliquity, angle, occultor, shear"""
    p = list(itertools.product((False, True), repeat=5))
    # quick: everything within two changes of all-absent or one of all-given
    return p if tier != "quick" else [q for q in p if sum(q) <= 2 or sum(q) >= 4]


_sky = {}


def sky(L):
    if L not in _sky:
        _sky[L] = Sky(L)
    return _sky[L]


def velocity(X, inc, obl, veq, alpha):
    """line-of-sight velocity (receding) of the surface point seen at X, explicit kinematics"""
    n = np.array([-np.sin(obl) * np.sin(inc), np.cos(obl) * np.sin(inc), np.cos(inc)])
    sl = n @ X
    om = veq * (1 - (alpha or 0.0) * sl**2)
    v = np.cross(n, X, axisb=0, axisc=0) if X.ndim > 1 else np.cross(n, X)
    return -om * v[2]


def rv_model(y, u, inc, obl, theta, occ, veq, alpha):
    """(flux-weighted velocity, visible fraction of the flux)"""
    l = int(round(np.sqrt(len(y)))) - 1
    S = sky(l + len(u) + (3 if alpha is not None else 1))
    o = None if occ is None or occ[3] <= 0 else occ[:3]
    X, w = S.weights(o)
    I = sky_intensity(X, y, u, inc, obl, theta)
    f = w @ I
    full = S.flux(lambda X: sky_intensity(X, y, u, inc, obl, theta))
    return w @ (I * velocity(X, inc, obl, veq, alpha)) / f if f else np.nan, abs(f / full)


def positive(l):
    y = dense(l) * 0.12
    y[0] = 1.0
    return y


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag
    from jaxoplanet.starry.doppler import radial_velocity, rv_map_expansion, surface_radial_velocity
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    name = task["name"]

    def surf(y, u=(), inc=np.pi / 2, obl=None, **kw):
        kw.setdefault("normalize", False)
        return Surface(y=Ylm.from_dense(jnp.asarray(y), normalize=False), u=u, inc=inc, obl=obl, **kw)

    G = np.array(geoms(ctx.tier))
    P0, R0 = 2.5, 1.3
    veq = 2 * np.pi * R0 / P0
    if name.startswith("rv-"):
        l, nu, sh = task["l"], task["nu"], task["sh"]
        u, y = UU[nu], positive(l)
        O = ORIENT[(l + nu // 2 + sh) % 3 :: 3] if ctx.tier == "quick" else ORIENT
        geo = G[(l + sh) % 2 :: 2] if ctx.tier == "quick" else G
        P = np.array([(*o, *g) for o in O for g in geo])
        al = 0.25 if sh else None
        for order in (20, 200) if nu == 0 else (200,):

            def one(p):
                s = surf(y, u, p[0], p[1], period=P0, radius=R0, shear=al, amplitude=0.7)
                return surface_radial_velocity(s, p[5], p[3], p[4], p[6], p[2], order=order)

            got = np.asarray(jax.jit(jax.vmap(one))(P))
            m = [rv_model(y, u, p[0], p[1], p[2], p[3:], veq, al) for p in P]
            want, vis = np.array(m).T
            s = vis > 1e-3
            tol = {20: 1e-5, 200: 2e-8}[order] * (1 + l / 2) / np.maximum(vis, 1e-3)
            ctx.close(got[s], want[s], f"rv-o{order}", tol=tol[s], detail=dict(l=l, u=u, shear=al),
                      labels=dict(zip(("inc", "obl", "theta", "x", "y", "r", "z"), P[s].T)))
            ctx.count(states=int(s.sum()), traces=len(P), transitions=len(P), nontrivial=int((vis < 1 - 1e-9).sum()))
        ctx.sample(dict(l=l, u=u, shear=al, config=P[3].tolist()))
    elif name.startswith("absent"):
        y, u = positive(2), UU[1]
        geo = G[4::9]
        for pi, po, pt, pg, ps in patterns(ctx.tier)[task["h"] :: 8]:
            vals = list(itertools.product([0.0, 0.6] if pi else [0.0], [0.0, 0.4] if po else [0.0], [0.0, -7.5] if pt else [0.0]))
            P = np.array([(*v, *g) for v in vals for g in (geo if pg else geo[:1])])
            al = 0.3 if ps else None

            def one(p):
                s = surf(y, u, p[0] if pi else None, p[1] if po else None, period=P0, radius=R0, shear=p[3] * 0 + 0.3 if ps else None)
                th = p[2] if pt else None
                if pg:
                    return surface_radial_velocity(s, p[5], p[3], p[4], p[6], th, order=100)
                return surface_radial_velocity(s, theta=th, order=100)

            got = np.asarray(jax.jit(jax.vmap(one))(P))
            want, vis = np.array([rv_model(y, u, p[0], p[1], p[2], p[3:] if pg else None, veq, al) for p in P]).T
            s = vis > 1e-2
            ctx.close(got[s], want[s], "absent", tol=1e-5, detail=dict(given=dict(inc=pi, obl=po, theta=pt, occultor=pg, shear=ps)), labels=dict(zip(("inc", "obl", "theta", "x", "y", "r", "z"), P[s].T)))
            ctx.count(states=int(s.sum()), traces=len(P), transitions=len(P))
        ctx.sample(dict(given=dict(inc=pi, obl=po, theta=pt, occultor=pg, shear=ps)))
    elif name == "amplitude":
        V = np.array(list(itertools.product((1.0, 0.25, 3.0), (1.0, 0.2, 50.0))))
        for nu, al in ((0, None), (2, 0.2)):
            for occ in (None, (0.3, -0.5, 0.4, 1.0)):
                kw = {} if occ is None else dict(x=occ[0], y=occ[1], r=occ[2], z=occ[3])

                def one(v):
                    y = jnp.asarray(positive(2)) * v[0]
                    a = surface_radial_velocity(surf(y, UU[nu], 0.6, 0.4, period=P0, radius=R0, shear=al, amplitude=v[1]), theta=1.1, order=100, **kw)
                    b = surface_radial_velocity(surf(y, UU[nu], 0.6, 0.4, period=P0, radius=R0, shear=al, normalize=True), theta=1.1, order=100, **kw)
                    return a, b

                want, _ = rv_model(positive(2), UU[nu], 0.6, 0.4, 1.1, occ, veq, al)
                for k, g in zip(("amplitude", "normalized"), jax.jit(jax.vmap(one))(V)):
                    ctx.close(np.asarray(g), np.full(len(V), want), k, tol=1e-7, detail=dict(u=UU[nu], shear=al, occulted=occ is not None), labels=dict(scale=V[:, 0], amplitude=V[:, 1]))
                    ctx.count(states=len(V), traces=len(V), transitions=len(V))
        ctx.sample(dict(u=UU[2]))
    elif name == "velocity-map":
        from oracles import sphere_points

        X = sphere_points(120)
        X = X[:, X[2] > 0]
        for inc, obl, al in itertools.product([None, np.pi / 2, 0.6, 2.5, 0.0], [None, 0.0, 0.4, -2.0], [None, 0.0, 0.3, -0.5]):
            for v in (1.0, 4.2):
                c = np.asarray(rv_map_expansion(veq=v, inc=inc, obl=obl, alpha=al))
                # absent inclination: equator-on for this function
                w = velocity(X, np.pi / 2 if inc is None else inc, obl or 0.0, v, al)
                ctx.close(real_sph(1 if al is None else 3, *X) @ c * 2 / np.sqrt(np.pi), w, "velocity-map", tol=1e-12, detail=dict(inc=inc, obl=obl, alpha=al, veq=v))
                ctx.count(states=X.shape[1], traces=1, transitions=1)
        ctx.close(np.asarray(rv_map_expansion()), np.zeros(4), "velocity-map-none", tol=0)
        ctx.sample(dict(inc=inc, obl=obl))
    elif name.startswith("image"):
        nu, al = [(0, None), (2, None), (1, 0.3)][task["k"]]
        res = 11
        g = np.linspace(-1, 1, res)
        X, Y = np.meshgrid(g, g)
        ins = (X**2 + Y**2 < 1).ravel()
        p3 = np.stack([X.ravel(), Y.ravel(), np.sqrt(np.maximum(0, 1 - X.ravel() ** 2 - Y.ravel() ** 2))])[:, ins]
        P = np.array(ORIENT)
        for l in (0, 2) if ctx.tier == "quick" else (0, 1, 2, 4):
            y = positive(l)
            f = jax.jit(jax.vmap(lambda p: surf(y, UU[nu], p[0], p[1], period=P0, radius=R0, shear=al, amplitude=0.7).render(p[2], res, rv=True)))
            got = np.asarray(f(P)).reshape(len(P), -1)[:, ins]
            want = np.array([0.7 * sky_intensity(p3, y, UU[nu], *p) * velocity(p3, p[0], p[1], veq, al) for p in P])
            ctx.close(got, want, "velocity-image", tol=1e-9, detail=dict(l=l, u=UU[nu], shear=al), labels=dict(inc=P[:, :1], obl=P[:, 1:2], theta=P[:, 2:], x=p3[0], y=p3[1]))
            ctx.count(states=got.size, traces=len(P), transitions=len(P))
        ctx.sample(dict(l=l, u=UU[nu], shear=al))
    elif name.startswith("uniform"):
        # an unocculted uniform star has no velocity; a star that does not rotate has none ever
        for nu in (task["nu"],):
            for l, al in ((0, None), (2, 0.3)) if ctx.tier == "quick" else itertools.product((0, 2), (None, 0.3)):
                y = np.eye((l + 1) ** 2)[0]
                P = np.array(ORIENT)
                f = jax.jit(jax.vmap(lambda p: surface_radial_velocity(surf(y, UU[nu], p[0], p[1], period=P0, radius=R0, shear=al), theta=p[2])))
                ctx.close(np.asarray(f(P)), np.zeros(len(P)), "uniform", tol=1e-12, detail=dict(l=l, u=UU[nu], shear=al))
                f = jax.jit(jax.vmap(lambda p: surface_radial_velocity(surf(positive(l), UU[nu], p[0], p[1], shear=al), 0.3, 0.2, -0.4, 1.0, p[2])))
                ctx.close(np.asarray(f(P)), np.zeros(len(P)), "not-rotating", tol=1e-12, detail=dict(l=l, u=UU[nu], shear=al))
                ctx.count(states=2 * len(P), traces=2 * len(P), transitions=2 * len(P))
        ctx.sample(dict(u=UU[3]))
    elif name.startswith("system"):
        from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
        from jaxoplanet.starry.orbit import SurfaceSystem
        from jaxoplanet.units import unit_registry as ureg

        c = Central(mass=1.3, radius=1.1)
        cases = [
            (dict(period=1.7, radius=0.5, mass=0.2, impact_param=0.3), None, dict(y=positive(1), u=(0.3,), inc=1.1, obl=0.2, period=5.0, phase=0.4, radius=1.1)),
            (dict(period=1.0, radius=0.8, mass=0.4, eccentricity=0.3, omega_peri=0.5), dict(y=positive(1), u=(0.2,), period=2.0, radius=0.8), dict(u=(0.3, 0.1), period=4.0, radius=1.1, obl=-0.5)),
            (dict(period=1.3, radius=0.3, mass=0.1, asc_node=0.4), dict(y=positive(1), inc=0.7, obl=0.3, period=-1.0, radius=0.3, shear=0.2), dict(u=(0.4,), inc=None, period=3.0, radius=1.1)),
            (dict(period=1.5, radius=0.4, radial_velocity_semiamplitude=2.0), dict(u=(0.1,), period=1.0, radius=0.4), dict(period=3.0, radius=1.1, shear=0.3, inc=1.0, amplitude=4.0, normalize=False)),
        ]
        *word, k = task["word"] if "word" in task else (task["k"], task["k"])
        cd = cases[k][2]
        bodies = [cases[i][:2] for i in word]

        def mk(d):
            if d is None:
                return None
            d = dict(d)
            if "y" in d:
                d["y"] = Ylm.from_dense(jnp.asarray(d["y"]), normalize=False)
            return Surface(**d)

        def model(d, t, occ):
            inc = d.get("inc", np.pi / 2)
            th = d.get("phase", 0.0) + 2 * np.pi * t / d["period"]
            v, vis = rv_model(d.get("y", np.ones(1)), d.get("u", ()), 0.0 if inc is None else inc, d.get("obl") or 0.0, th, occ, 2 * np.pi * d["radius"] / d["period"], d.get("shear"))
            return v if vis > 1e-3 else np.nan

        orbs = [OrbitalBody(c, Body(**b)) for b, _ in bodies]
        T = np.array([0.31])
        for (b, _), o in zip(bodies, orbs):
            T = np.concatenate([T, float(mag(o.time_transit)) + b["period"] * np.array([-0.05, -0.02, 0.004, 0.2, 0.46, 0.49, 0.505, 0.55, 7.0])])
        want = np.zeros((len(T), 1 + len(bodies)))
        dark = np.array([model(cd, t, (0.0, 0.0, 0.1, -1.0)) for t in T])
        want[:, 0] = dark
        for j, ((b, bd), o) in enumerate(zip(bodies, orbs)):
            x, yv, z = (mag(v, "R_sun") for v in o.relative_position(T))
            want[:, 0] += mag(o.radial_velocity(T), "R_sun/day")
            for i, t in enumerate(T):
                R, r = 1.1, b["radius"]
                want[i, 0] += model(cd, t, (x[i] / R, yv[i] / R, r / R, z[i])) - dark[i]
                if bd is not None:
                    want[i, j + 1] = model(bd, t, (-x[i] / r, -yv[i] / r, R / r, -z[i]))
        s = SurfaceSystem(c, mk(cd))
        for b, bd in bodies:
            s = s.add_body(Body(**b), mk(bd))
        got = np.asarray(radial_velocity(s, order=100)(T))
        ok = np.isfinite(want)
        ctx.check(got.shape == want.shape, "system-shape", got=got.shape)
        if got.shape == want.shape:
            col = np.broadcast_to(np.arange(want.shape[1]), want.shape)
            ctx.close(got[ok], want[ok], "system", tol=1e-5, detail=dict(bodies=word, star=k), labels=dict(time=np.broadcast_to(T[:, None], want.shape)[ok], column=col[ok]))
            ctx.close(np.asarray(radial_velocity(s, order=100)(T * 24 * ureg.hour))[ok], want[ok], "system-hours", tol=1e-5)
            one = np.asarray(radial_velocity(s, order=100)(float(T[1])) if len(T) > 1 else radial_velocity(s, order=100)(float(T[0])))
            i = min(1, len(T) - 1)
            ctx.check(one.shape == want[i].shape, "system-scalar-time-shape", got=one.shape)
            ctx.close(one[ok[i]], want[i][ok[i]], "system-scalar-time", tol=1e-5)
        ctx.count(states=want.size, traces=len(T), transitions=len(T))
        ctx.sample(dict(bodies=word, star=k, time=T[0]))
    else:
        u, y = UU[2], positive(2)
        geo = G[(G[:, 2] <= 2)][::3]
        P = np.array([(*o, *g) for o in ORIENT[::4] for g in geo])
        f = jax.jit(jax.vmap(lambda p: surface_radial_velocity(surf(y.astype(np.float32), u, p[0], p[1], period=P0, radius=R0, shear=0.3), p[5], p[3], p[4], p[6], p[2])))
        got = np.asarray(f(P.astype(np.float32)))
        want, vis = np.array([rv_model(y, u, p[0], p[1], p[2], p[3:], veq, 0.3) for p in P]).T
        s = vis > 0.3
        ctx.check(got.dtype == np.float32, "f32-dtype", got=str(got.dtype))
        ctx.close(got[s], want[s], "f32", tol=5e-3, labels=dict(zip(("inc", "obl", "theta", "x", "y", "r", "z"), P[s].T)))
        ctx.count(states=int(s.sum()), traces=len(P))
        ctx.sample(dict(u=u))
