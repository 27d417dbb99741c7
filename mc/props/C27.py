"""Rendered images and intensities."""

import itertools

import numpy as np

from oracles import limb_darkening, real_sph, sky_intensity

LEVEL = "exploration"
RULE = (
    "every degree x number of limb-darkening coefficients x given/absent inclination, obliquity "
    "and rotation angle x normalization, times the product of orientations x every pixel of "
    "images of several resolutions; every unit map; intensity at a latitude-longitude lattice "
    "(poles, date line) for every orientation; rotational phases over period x phase x time"
)
ASSUME = [
    "image rows run from the bottom of the sky upwards, columns to the right; the sky frame and "
    "the sense of the angles are those of C23",
    "longitude increases to the right of the centre seen equator-on",
    "the image is not normalized by the flux of the limb-darkening law",
    "intensity(lat, lon) is compared for maps without limb darkening (with it, only where the "
    "point is on the visible side at zero rotation angle)",
]
INC = [np.pi / 2, 0.0, 0.6, 2.5, np.pi, -0.4, 7.0]
OBL = [0.0, 0.4, -2.0, np.pi]
TH = [0.0, 1.1, -7.5, np.pi]
UU = {0: (), 1: (0.35,), 2: (0.4, 0.26), 3: (0.2, -0.3, 0.5), 5: (0.2, -0.1, 0.3, 0.1, -0.2)}


def tasks(tier):
    t = []
    for l in (0, 1, 2, 3, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 10, 15):
        for nu in (0, 2, 3) if tier == "quick" else (0, 1, 2, 3, 5):
            if tier == "quick" and l == 5 and nu != 2:
                continue
            t.append(dict(name=f"render-{l}-{nu}", l=l, nu=nu, cost=5 + l))
    for l in (0, 1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 4, 6, 10):
        for pi in (True, False):
            t.append(dict(name=f"latlon-{l}-{int(pi)}", l=l, pi=pi, cost=20 + l))
    t += [dict(name="absent", cost=40), dict(name="units", cost=5), dict(name="normalize", cost=5)]
    t += [dict(name="phase", cost=4), dict(name="f32", x64=False, cost=4), dict(name="eager", cost=30), dict(name="grid", cost=4)]
    return t


def dense(l):
    i = np.arange((l + 1) ** 2)
    y = np.cos(1.3 * i + 0.4) * (1 + 0.02 * i)
    y[0] = 1.4
    return y


def image(res, y, u, inc, obl, theta):
    g = -1 + 2 * np.arange(res) / max(res - 1, 1)
    X, Y = np.meshgrid(g, g)
    r2 = X**2 + Y**2
    out = r2 > 1 + 1e-12
    Z = np.sqrt(np.maximum(0, 1 - r2))
    w = sky_intensity(np.stack([X.ravel(), Y.ravel(), Z.ravel()]), y, u, inc, obl, theta).reshape(res, res)
    w[out] = np.nan
    edge = np.abs(r2 - 1) <= 1e-12
    return w, edge


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    name = task["name"]

    def surf(y, u=(), inc=np.pi / 2, obl=None, **kw):
        kw.setdefault("normalize", False)
        return Surface(y=Ylm.from_dense(jnp.asarray(y), normalize=False), u=u, inc=inc, obl=obl, **kw)

    def compare(img, w, edge, key, tol, d, rows=None):
        img = np.asarray(img)
        if not ctx.check(img.shape == w.shape, key + ":shape", got=img.shape, **d):
            return
        # pixels exactly on the limb may be drawn or not
        img = np.where(edge & np.isnan(img), w, img)
        ctx.close(img, w, key, tol=tol, detail=d)
        ctx.count(states=img.size, traces=1, transitions=1, nontrivial=int((~np.isnan(w)).sum()))

    if name.startswith("render"):
        l, nu = task["l"], task["nu"]
        u, y = UU[nu], dense(l)
        P = np.array(list(itertools.product(INC, OBL, TH)))
        for res in (9, 16) if ctx.tier == "quick" else (2, 3, 9, 16, 41):
            f = jax.jit(jax.vmap(lambda p: surf(y, u, p[0], p[1], amplitude=0.7).render(p[2], res)))
            got = np.asarray(f(P))
            for p, g in zip(P, got):
                w, e = image(res, y, u, *p)
                near = 0 < abs(np.sin(p[0])) < 1e-6
                compare(g, 0.7 * w, e, "render", (1e-12 if not near else 3e-6) * (1 + l) ** 2 * 10, dict(l=l, u=u, res=res, inc=p[0], obl=p[1], theta=p[2]))
        ctx.sample(dict(l=l, u=u, res=res, inc=p[0], obl=p[1], theta=p[2]))
    elif name.startswith("latlon"):
        l = task["l"]
        y = dense(l)
        lat = np.array([0.0, 0.3, -0.7, 1.2, np.pi / 2, -np.pi / 2, 1e-9])
        lon = np.array([0.0, 0.5, -2.0, 3.0, np.pi, -np.pi, 7.0, np.pi / 2, -1.0])
        la, lo = (v.ravel() for v in np.meshgrid(lat, lon, indexing="ij"))
        P = np.stack([np.cos(la) * np.sin(lo), np.sin(la), np.cos(la) * np.cos(lo)])
        want = real_sph(l, *P) @ y * 2 / np.sqrt(np.pi)
        for pi, po in itertools.product((task["pi"],), (True, False)):
            O = np.array(list(itertools.product(INC if pi else [0.0], OBL if po else [0.0])))
            if pi:
                # spin axes close to, and at, the places where the change of frame is the identity
                near = [np.pi - 0.004, np.pi + 3e-4, np.pi - 1e-6, 5 * np.pi, 3 * np.pi - 0.003]
                O = np.concatenate([O, list(itertools.product(near, (0.0, -0.002, 2 * np.pi) if po else (0.0,)))])

            def one(p):
                s = surf(y, (), p[0] if pi else None, p[1] if po else None, amplitude=0.7)
                return s.intensity(jnp.asarray(la), jnp.asarray(lo)), jax.vmap(s.intensity)(jnp.asarray(la), jnp.asarray(lo))

            A, B = (np.asarray(v) for v in jax.jit(jax.vmap(one))(O))
            for k, G in (("array", A), ("scalar", B)):
                ctx.close(G, np.broadcast_to(0.7 * want, G.shape), f"intensity-{k}", tol=1e-11 * (1 + l) ** 2,
                          detail=dict(l=l, inc_given=pi, obl_given=po), labels=dict(lat=la, lon=lo, inc=O[:, :1], obl=O[:, 1:]))
                ctx.count(states=G.size, traces=len(O), transitions=len(O))
        # limb darkening: on the visible side it is that of the point's place on the sky
        u = UU[2]
        for inc, obl in ((np.pi / 2, 0.0),) if task["pi"] else ((0.6, 0.4),):
            from oracles import surface_point

            s = surf(y, u, inc, obl)
            M = np.stack([surface_point(np.eye(3)[:, i], inc, obl, 0.0, 0.0) for i in range(3)], 1)
            z = (M.T @ P)[2]
            v = z > 0
            got = np.asarray(s.intensity(jnp.asarray(la), jnp.asarray(lo)))
            ctx.close(got[v], (want * limb_darkening(u, z))[v], "intensity-ld", tol=1e-11 * (1 + l) ** 2, detail=dict(l=l, u=u, inc=inc, obl=obl))
            ctx.count(states=int(v.sum()), traces=1)
        ctx.sample(dict(l=l, lat=0.3, lon=-2.0))
    elif name == "absent":
        y, u = dense(2), UU[1]
        for pi, po, pt in itertools.product((True, False), repeat=3):
            P = np.array(list(itertools.product([0.6, 0.0] if pi else [0.0], [0.4, -2.0] if po else [0.0], [1.1, 0.0] if pt else [0.0])))
            f = lambda p: surf(y, u, p[0] if pi else None, p[1] if po else None).render(p[2] if pt else None, 8)  # noqa
            got = np.asarray(jax.jit(jax.vmap(f))(P))
            for p, g in zip(P, got):
                w, e = image(8, y, u, *p)
                compare(g, w, e, "absent", 1e-10, dict(inc_given=pi, obl_given=po, theta_given=pt, angles=p.tolist()))
        # default inclination is equator-on
        g = Surface(y=Ylm.from_dense(jnp.asarray(y), normalize=False), normalize=False).render(0.3, 8)
        w, e = image(8, y, (), np.pi / 2, 0.0, 0.3)
        compare(g, w, e, "default", 1e-10, {})
        g = Surface().render(res=5)
        w, e = image(5, [1.0], (), 0.0, 0.0, 0.0)
        compare(g, w, e, "default-surface", 1e-12, {})
        ctx.sample(dict(angles=p.tolist()))
    elif name == "units":
        for l in (1, 2, 3):
            N = (l + 1) ** 2
            f = jax.jit(jax.vmap(lambda y: surf(y, (), 0.6, 0.4).render(1.1, 11)))
            for n, g in enumerate(np.asarray(f(np.eye(N)))):
                w, e = image(11, np.eye(N)[n], (), 0.6, 0.4, 1.1)
                compare(g, w, e, "unit-map", 1e-10, dict(l=l, n=n))
        ctx.sample(dict(l=l, n=3))
    elif name == "normalize":
        V = np.array(list(itertools.product((1.0, 0.25, 3.0, -1.5), (1.0, 0.2))))
        for l, nu in itertools.product((0, 2), (0, 2)):

            def one(v):
                y = jnp.asarray(dense(l)).at[0].set(v[0])
                a = surf(y, UU[nu], 0.6, 0.4, amplitude=v[1]).render(1.1, 7)
                s = surf(y, UU[nu], 0.6, 0.4, amplitude=v[1], normalize=True)
                return a, s.render(1.1, 7), s.intensity(0.3, 0.5) if nu == 0 else 0.0

            A, B, I = (np.asarray(g) for g in jax.jit(jax.vmap(one))(V))
            for v, a, b, i in zip(V, A, B, I):
                y = dense(l)
                y[0] = v[0]
                w, e = image(7, y, UU[nu], 0.6, 0.4, 1.1)
                d = dict(l=l, u=UU[nu], y00=v[0], amplitude=v[1])
                compare(a, v[1] * w, e, "amplitude", 1e-10, d)
                compare(b, w, e, "normalized", 1e-10, d)
                if nu == 0:
                    P = np.array([np.cos(0.3) * np.sin(0.5), np.sin(0.3), np.cos(0.3) * np.cos(0.5)])
                    ctx.close(i, real_sph(l, *P) @ y * 2 / np.sqrt(np.pi), "normalized-intensity", tol=1e-10, detail=d)
        ctx.sample(d)
    elif name == "phase":
        T = np.array([0.0, 1.0, -3.3, 100.25, 1e-3])
        for per, ph, tform in itertools.product((1.0, 0.3, 27.0, -2.0), (0.0, 0.7, -4.0), ("array", "scalar", "int", "2d")):
            s = surf(dense(1), (), 0.6, 0.4, period=per, phase=ph)
            t = dict(array=jnp.asarray(T), scalar=1.7, int=3, **{"2d": jnp.asarray(T)[:, None]})[tform]
            got = np.asarray(s.rotational_phase(t))
            ctx.close(got, 2 * np.pi * np.asarray(t) / per + ph, "phase", tol=1e-12, rtol=1e-14, detail=dict(period=per, phase=ph, form=tform))
            # one period later the surface shows the same face
            a = np.asarray(s.rotational_phase(np.asarray(t) + per)) - got
            ctx.close(a, np.full(a.shape, 2 * np.pi), "one-turn", tol=1e-9, detail=dict(period=per, phase=ph))
            ctx.count(states=2 * np.size(got), traces=2)
        ctx.check(surf(dense(1)).rotational_phase(1.0) is None, "no-period")
        # the image at a phase shows what has come into view: prograde rotation
        s = surf(dense(2), (), 1.2, 0.3, period=2.0, phase=0.4)
        for t in T:
            w, e = image(9, dense(2), (), 1.2, 0.3, 2 * np.pi * t / 2.0 + 0.4)
            compare(s.render(s.rotational_phase(t), 9), w, e, "phase-image", 1e-9, dict(time=t))
        ctx.sample(dict(period=per, phase=ph))
    elif name == "grid":
        # the coordinates of the pixels
        from jaxoplanet.starry.utils import ortho_grid

        for res in range(1, 24) if ctx.tier == "quick" else range(1, 80):
            g = np.linspace(-1, 1, res)
            X, Y = (v.ravel() for v in np.meshgrid(g, g))
            r2 = X**2 + Y**2
            ok, edge = r2 <= 1 - 1e-12, np.abs(r2 - 1) < 1e-12
            (lat, lon), xyz = ortho_grid(res)
            Z = np.sqrt(np.maximum(0, 1 - r2))
            want = dict(lat=np.arcsin(np.clip(Y, -1, 1)), lon=np.arctan2(X, Z), x=X, y=Y, z=Z)
            for k, v in dict(lat=lat, lon=lon, x=xyz[0], y=xyz[1], z=xyz[2]).items():
                v = np.asarray(v)
                if ctx.check(v.size == X.size, "grid:shape", res=res, which=k, got=v.shape):
                    ctx.close(v.ravel()[ok], want[k][ok], "grid", tol=1e-7, detail=dict(res=res, which=k), labels=dict(x=X[ok], y=Y[ok]))
                    if k in ("lat", "lon", "z"):
                        ctx.check(np.isnan(v.ravel()[~ok & ~edge]).all(), "grid:outside", res=res, which=k)
            ctx.count(states=X.size, traces=1, transitions=1)
        ctx.sample(dict(res=res))
    elif name == "eager":
        y = np.zeros(9)
        y[[0, 2, 5]] = [1.0, 0.3, -0.2]
        sp = Ylm({(0, 0): 1.0, (1, 0): 0.3, (2, -1): -0.2})
        for u in ((), (0.3,), [0.3, 0.1], np.array([0.3, 0.1]), jnp.array([0.2, 0.1, 0.05])):
            for inc, obl, th in ((1.0, 0.4, 2.0), (1, 0, 2), (jnp.array(1.0), np.float64(0.4), np.float64(2.0)), (None, None, None)):
                s = Surface(y=sp, u=u, inc=inc, obl=obl)
                w, e = image(6, y, tuple(np.asarray(u, float)), float(inc or 0), float(obl or 0), float(th or 0))
                compare(s.render(th, 6), w, e, "eager", 1e-10, dict(u=str(u), angles=str((inc, obl, th))))
        ctx.sample(dict(u="(0.3,)"))
    else:
        u, y = UU[2], dense(3)
        P = np.array(list(itertools.product(INC, OBL, TH)))
        f = jax.jit(jax.vmap(lambda p: surf(y.astype(np.float32), u, p[0], p[1]).render(p[2], 10)))
        got = np.asarray(f(P.astype(np.float32)))
        ctx.check(got.dtype == np.float32, "f32-dtype", got=str(got.dtype))
        for p, g in zip(P, got):
            w, e = image(10, y, u, *p)
            compare(g, w, e, "f32", 2e-3, dict(angles=p.tolist()))
        ctx.sample(dict(angles=p.tolist()))
