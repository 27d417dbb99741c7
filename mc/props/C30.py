"""Spot and limb-darkening expansions."""

import itertools

import numpy as np
from numpy.polynomial.legendre import legvander

from oracles import limb_darkening, limb_darkening_norm, real_sph, sphere_points
from props.C26 import reference

LEVEL = "exploration"
RULE = (
    "every degree up to the bound x full product of contrasts (negative, zero, one), radii "
    "(0.05..pi), latitudes (both poles, equator) and longitudes (date line, beyond a turn) for "
    "two resolutions of the fit; the expansion evaluated on a lattice of the sphere against the "
    "smoothed Legendre fit of the profile as a function of the angular distance to the spot; "
    "derivatives; every limb-darkening vector of a family of every length, on the visible disk "
    "and through an occultation"
)
ASSUME = [
    "the profile is the sigmoid 1/(1+exp(-f (d - r))) - 1 of the angular distance d, fitted by "
    "least squares on equispaced distances and smoothed by exp(-l(l+1)s^2/2) with s = 0.5 below "
    "degree 4 and 2/degree above",
    "an unspotted surface has intensity 1/pi (unit flux)",
]
CON = [0.8, -0.3, 0.0, 1.0]
RAD = [0.05, 0.3, 1.0, 2.6, np.pi]
LAT = [0.0, 0.4, -1.2, np.pi / 2, -np.pi / 2]
LON = [0.0, 0.7, -2.5, np.pi, 8.0]


def tasks(tier):
    L = (0, 1, 2, 3, 4, 6, 10) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25)
    t = [dict(name=f"spot-{l}", l=l, cost=5 + l) for l in L]
    t += [dict(name=f"grad-{'64' if x else '32'}", x64=x, cost=10) for x in (True, False)]
    t += [dict(name="limb-darkening", cost=6), *[dict(name=f"limb-darkening-occult-{h}", h=h, cost=30) for h in range(4)], dict(name="forms", cost=9), dict(name="f32", x64=False, cost=5)]
    return t


def zonal(L, npts, fac, r):
    th = np.linspace(0, np.pi, npts)
    B = legvander(np.cos(th), L) * np.sqrt(2 * np.arange(L + 1) + 1)
    b = -1 / (1 + np.exp(np.clip(fac * (th - r), -700, 700)))
    # ridge-regularized least squares by augmentation
    A = np.concatenate([B, np.sqrt(1e-9) * np.eye(L + 1)])
    k = np.linalg.lstsq(A, np.concatenate([b, np.zeros(L + 1)]), rcond=None)[0]
    l = np.arange(L + 1)
    s = 0.5 if L < 4 else 2.0 / L
    return k * np.exp(-0.5 * l * (l + 1) * s * s)


def spot_map(P, L, c, r, lat, lon, npts=300, fac=300):
    cen = np.array([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)])
    k = c * zonal(L, npts, fac, r)
    return (1 + legvander(cen @ P, L) * np.sqrt(2 * np.arange(L + 1) + 1) @ k) / np.pi


def laws():
    for n in range(0, 7):
        if n == 0:
            yield ()
        yield from (tuple(np.round(0.5 * np.cos(1.7 * np.arange(n) + q) / (1 + np.arange(n)), 3)) for q in (0.2, 1.4, 2.9) if n)
    yield (1.0,)
    yield (0.0, 0.0)
    yield (0.5, 0.5)
    yield (-0.4, 0.9)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm, ylm_spot

    name = task["name"]
    P = sphere_points(90)
    if name.startswith("spot"):
        L = task["l"]
        cfg = np.array(list(itertools.product(CON, RAD, LAT, LON)))
        for npts, fac in ((300, 300), (500, 40)) if L <= 4 or ctx.tier != "quick" else ((300, 300),):
            f = ylm_spot(L) if (npts, fac) == (300, 300) else ylm_spot(L, npts=npts, spot_fac=fac)
            Y = np.asarray(jax.jit(jax.vmap(lambda p: f(*p).todense()))(cfg))
            got = Y @ real_sph(L, *P).T * 2 / np.sqrt(np.pi)
            for p, g in zip(cfg, got):
                ctx.close(g, spot_map(P, L, *p, npts=npts, fac=fac), "spot", tol=1e-9, detail=dict(L=L, npts=npts, fac=fac, contrast=p[0], r=p[1], lat=p[2], lon=p[3]))
                ctx.count(states=len(g), traces=1, transitions=1)
        ctx.sample(dict(L=L, spot=cfg[37].tolist()))
    elif name.startswith("grad"):
        for L in (2, 5):
            f = ylm_spot(L)
            cfg = np.array(list(itertools.product((0.8, -0.3), RAD + [0.2, 0.5, 2.0], LAT[:3], LON[:3])))
            g = jax.jit(jax.vmap(lambda p: jnp.stack(jax.jacfwd(lambda *a: f(*a).todense(), (0, 1, 2, 3))(*p))))(jnp.asarray(cfg))
            r = jax.jit(jax.vmap(lambda p: jnp.stack(jax.jacrev(lambda *a: f(*a).todense(), (0, 1, 2, 3))(*p))))(jnp.asarray(cfg))
            g, r = np.asarray(g), np.asarray(r)
            for k, v in (("fwd", g), ("rev", r)):
                bad = ~np.isfinite(v).all((1, 2))
                ctx.check(not bad.any(), "grad-finite-" + k, L=L, at=cfg[bad][:3].tolist())
            # against central differences of the independent expansion
            S = real_sph(L, *P) * 2 / np.sqrt(np.pi)
            x64 = task["x64"]
            for p, a, b in zip(cfg, g, r):
                for i in range(4):
                    if i == 1 and p[1] > 3.1:
                        continue  # at the edge of the fitted range
                    h = 1e-4
                    q, m = p.copy(), p.copy()
                    q[i] += h
                    m[i] -= h
                    w = (spot_map(P, L, *q) - spot_map(P, L, *m)) / (2 * h)
                    # an angle of exactly zero skips the rotation: a known finding of its own
                    for v in (a, b):
                        key = f"grad-of-{'contrast radius lat lon'.split()[i]}"
                        if i > 1 and p[i] == 0 and not v[i].any():
                            key += "-zero-at-zero-angle"
                        ctx.close(S @ v[i], w, key, tol=(1e-3 if x64 else 5e-2), detail=dict(L=L, wrt=i, spot=p.tolist()))
                ctx.count(states=4, traces=8, transitions=8)
        ctx.sample(dict(L=L, spot=p.tolist()))
    elif name == "limb-darkening":
        V = P[:, P[2] >= 0]
        for u in laws():
            y = np.asarray(Ylm.from_limb_darkening(u).todense())
            L = len(u)
            if not ctx.check(y.shape == ((L + 1) ** 2,), "ld-size", got=y.shape, u=u):
                continue
            ctx.close(real_sph(L, *V) @ y * 2 / np.sqrt(np.pi), limb_darkening(u, V[2]) * limb_darkening_norm(u) / np.pi, "limb-darkening", tol=1e-11, detail=dict(u=u))
            # only zonal terms
            idx = [l * l + l for l in range(L + 1)]
            rest = np.delete(y, idx)
            ctx.close(rest, np.zeros_like(rest), "limb-darkening-zonal", tol=1e-13, detail=dict(u=u))
            ctx.count(states=V.shape[1], traces=1, transitions=1)
        ctx.sample(dict(u=u))
    elif name.startswith("limb-darkening-occult"):
        B = np.array([0.0, 0.3, 0.89, 0.9, 1.0, 1.09, 1.2])
        for u in list(laws())[task["h"] :: 8 if ctx.tier == "quick" else 4]:
            y = Ylm.from_limb_darkening(u)
            want = np.array([reference(np.array([1.0]), u, 0.0, 0.0, 0.0, (0.0, b, 0.1, 1.0)) for b in B])
            s = Surface(y=y, normalize=False)
            got = np.asarray(jax.jit(jax.vmap(lambda b: surface_light_curve(s, 0.1, b * 0.6, b * 0.8, 1.0, order=100)))(B))
            ctx.close(got, want, "law-through-occultation", tol=1e-8, detail=dict(u=u), labels=dict(b=B))
            ctx.close(np.asarray(surface_light_curve(s)), 1.0, "law-flux", tol=1e-12, detail=dict(u=u))
            ctx.count(states=len(B) + 1, traces=len(B) + 1, transitions=len(B) + 1)
        ctx.sample(dict(u=u))
    elif name == "forms":
        # default location, keywords, integers, eager, moving spots rotates the map
        for L in (1, 3, 5):
            f = ylm_spot(L)
            S = real_sph(L, *P) * 2 / np.sqrt(np.pi)
            for nm, y, p in (
                ("default", f(0.8, 0.3), (0.8, 0.3, 0, 0)),
                ("keywords", f(contrast=0.8, r=0.3, lon=1.0), (0.8, 0.3, 0, 1.0)),
                ("integers", f(1, 1, 1, -1), (1, 1, 1, -1)),
                ("lat", f(jnp.array(0.5), np.float64(0.4), lat=-0.6), (0.5, 0.4, -0.6, 0)),
            ):
                ctx.check(isinstance(y, Ylm) and y.deg == L, "form-type")
                ctx.close(S @ np.asarray(y.todense()), spot_map(P, L, *p), "form-" + nm, tol=1e-9, detail=dict(L=L))
                ctx.count(states=1, traces=1, transitions=1)
            # seen through a surface: the darkest point of the image is at the spot
            s = Surface(y=f(0.8, 0.3, 0.4, 0.7))
            a = np.asarray(s.intensity(jnp.array([0.4, -0.4, 0.4, -0.4]), jnp.array([0.7, 0.7, -0.7, -0.7])))
            w = np.array([spot_map(np.array([np.cos(x) * np.sin(z), np.sin(x), np.cos(x) * np.cos(z)]), L, 0.8, 0.3, 0.4, 0.7) for x, z in ((0.4, 0.7), (-0.4, 0.7), (0.4, -0.7), (-0.4, -0.7))])
            ctx.close(a, w.ravel(), "through-intensity", tol=1e-9, detail=dict(L=L))
        ctx.sample(dict(L=L))
    else:
        for L in (2, 5):
            cfg = np.array(list(itertools.product(CON, RAD, LAT[:3], LON[:3])))
            Y = np.asarray(jax.jit(jax.vmap(lambda p: ylm_spot(L)(*p).todense()))(cfg.astype(np.float32)))
            ctx.check(Y.dtype == np.float32, "f32-dtype")
            got = Y @ real_sph(L, *P).T * 2 / np.sqrt(np.pi)
            want = np.array([spot_map(P, L, *p) for p in cfg])
            ctx.close(got, want, "f32", tol=2e-3, labels=dict(contrast=cfg[:, :1], r=cfg[:, 1:2], lat=cfg[:, 2:3], lon=cfg[:, 3:]))
            ctx.count(states=got.size, traces=len(cfg))
        ctx.sample(dict(L=L))
