"""Surface light curves against direct integration of the map over the visible disk."""

import itertools

import numpy as np

from oracles import Sky, limb_darkening, limb_darkening_norm, real_sph, sky_intensity, surface_point

LEVEL = "exploration"
RULE = (
    "every combination of map degree, number of limb-darkening coefficients, given/absent "
    "inclination, obliquity, rotation angle and occultor, and normalization on/off (structures), "
    "times the full product of orientations (incl. pole-on, flipped, multi-turn) x occultor "
    "geometries (radii 0..100, contacts and neighbours, every quadrant, in front/behind), plus "
    "every unit map; against integration over the visible disk of the independently evaluated "
    "map times the limb-darkening law"
)
ASSUME = [
    "limb darkening is normalized so that the flux of a uniform map is its amplitude",
    "sky frame and sense of the angles as in C23; z > 0 is in front",
    "reference: the map times the law is recovered on the sphere by interpolation and its "
    "monomials are integrated by 2-D Gauss quadrature over the blocked region",
]
UU = {0: (), 1: (0.35,), 2: (0.4, 0.26), 3: (0.2, -0.3, 0.5), 4: (0.1, 0.2, 0.1, -0.2)}
ORIENT = list(itertools.product([np.pi / 2, 0.0, 0.6, 2.5], [0.0, 0.4, -2.0], [0.0, 1.1, -7.5]))
ANG = [0.0, 0.9, 2.2, np.pi, -1.4]


def geoms(tier):
    G = [(0.0, 0.3, 0.0, 1.0), (0.2, -0.1, 0.0, 1.0)]
    k = 0
    for r in (1e-3, 0.1, 0.5, 0.95, 1.0, 1.1, 2.0, 10.0, 100.0):
        c = abs(1 - r)
        for b in sorted({0.0, 1e-6, c, c + 1e-3, max(c - 1e-3, 0), c + 0.3 * min(r, 1), r, 1.0, r + 0.4, 1 + r - 1e-3, 1 + r, 1 + r + 0.2}):
            for a in (ANG if tier == "thorough" else ANG[k % 5 : k % 5 + 1]):
                G.append((b * np.sin(a), b * np.cos(a), r, (1.0, 30.0, 1e-3)[k % 3]))
            if k % 4 == 0:
                G.append((b * np.sin(a), b * np.cos(a), r, -1.0))
            k += 1
    return G


def tasks(tier):
    t = []
    L = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8)
    for l in L:
        for nu in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            if tier == "quick" and l == 3 and nu in (1, 3):
                continue
            t.append(dict(name=f"occult-{l}-{nu}", l=l, nu=nu, cost=6 + l + nu))
    for l in (2,) if tier == "quick" else (1, 2, 4):
        for nu in (0, 2):
            t.append(dict(name=f"units-{l}-{nu}", l=l, nu=nu, cost=7))
    pats = list(itertools.product((False, True), repeat=4))
    for h in range(4):
        t.append(dict(name=f"absent-{h}", pats=pats[h::4], cost=12))
    t += [dict(name=f"normalize-{l}", l=l, cost=15) for l in (0, 1, 3)]
    t += [dict(name=f"uniform-{nu}", nu=nu, cost=14) for nu in (0, 1, 2, 4)]
    t += [dict(name=f"eager-{k}", k=k, cost=13) for k in range(5)] + [dict(name="f32", x64=False, cost=5)]
    return t


def dense(l):
    i = np.arange((l + 1) ** 2)
    y = np.cos(1.3 * i + 0.4) * (1 + 0.02 * i)
    y[0] = 1.4
    return y


_sky = {}


def sky(L):
    if L not in _sky:
        _sky[L] = Sky(L)
    return _sky[L]


def reference(y, u, inc, obl, theta, occ=None, amplitude=1.0):
    """occ = (x, y, r, z) or None"""
    l = int(round(np.sqrt(len(y)))) - 1
    S = sky(l + len(u))
    o = None if occ is None or occ[3] <= 0 else (occ[0], occ[1], occ[2])
    return amplitude * limb_darkening_norm(u) * S.flux(lambda X: sky_intensity(X, y, u, inc, obl, theta), o)


def references(Ys, u, orients, geos):
    """array (map, orientation, geometry), sharing the points"""
    l = int(round(np.sqrt(Ys.shape[1]))) - 1
    S = sky(l + len(u))
    out = np.zeros((len(Ys), len(orients), len(geos)))
    for g, (x, yy, r, z) in enumerate(geos):
        p, w = S.weights(None if z <= 0 else (x, yy, r))
        for k, (i, o, t) in enumerate(orients):
            B = real_sph(l, *surface_point(p, i, o, t, 0.0)) * (2 / np.sqrt(np.pi) * limb_darkening(u, p[2]))[:, None]
            out[:, k, g] = limb_darkening_norm(u) * (Ys @ (w @ B))
    return out


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve as ld
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    name = task["name"]

    def ylm(y):
        return Ylm.from_dense(jnp.asarray(y), normalize=False)

    def surf(y, u=(), inc=np.pi / 2, obl=None, **kw):
        kw.setdefault("normalize", False)
        return Surface(y=ylm(y), u=u, inc=inc, obl=obl, **kw)

    G = np.array(geoms(ctx.tier))
    if name.startswith(("occult", "units")):
        l, nu = task["l"], task["nu"]
        u = UU[nu]
        N = (l + 1) ** 2
        if name.startswith("occult"):
            Ys, O, geo = dense(l)[None], ORIENT, G
            if ctx.tier == "quick":
                O = ORIENT[(l + nu) % 2 :: 2]
            orders = (20, 200) if nu % 2 == 0 else (200,)
        else:
            Ys, O, geo = np.eye(N), ORIENT[:: 5], G[::4]
            orders = (200,)
        want = references(Ys, u, O, geo)
        P = [(m, k, g) for m in range(len(Ys)) for k in range(len(O)) for g in range(len(geo))]
        P = np.array(P)
        for order in orders:
            f = jax.jit(jax.vmap(lambda y, o, g: surface_light_curve(surf(y, u, o[0], o[1], amplitude=0.7), g[2], g[0], g[1], g[3], o[2], order=order)))
            got = np.asarray(f(Ys[P[:, 0]], np.array(O)[P[:, 1]], geo[P[:, 2]])).reshape(want.shape)
            tol = {20: 5e-6, 200: 3e-9}[order] * (1 + l / 4)
            ctx.close(got, 0.7 * want, f"flux-l{l}-u{nu}-o{order}", tol=tol, detail=dict(u=u),
                      labels=dict(x=geo[:, 0], y=geo[:, 1], r=geo[:, 2], z=geo[:, 3], inc=np.array(O)[:, 0][:, None], obl=np.array(O)[:, 1][:, None], theta=np.array(O)[:, 2][:, None]))
            ctx.count(states=got.size, traces=got.size, transitions=len(O) * len(geo))
        ctx.sample(dict(l=l, u=u, inc=O[1][0], obl=O[1][1], theta=O[1][2], occultor=geo[5].tolist()))
    elif name.startswith("absent"):
        l, u = 2, UU[1]
        y = dense(l)
        geo = G[::3]
        for pi, po, pt, pg in task["pats"]:
            incs = [0.0, 0.6, np.pi / 2] if pi else [None]
            obls = [0.0, 0.4] if po else [None]
            ths = [0.0, 1.1, -7.5] if pt else [None]
            for i in incs[:1] if not pi else [0]:
                vals = list(itertools.product(*[v if p else [0.0] for v, p in ((incs, pi), (obls, po), (ths, pt))]))
                P = np.array([(*v, *g) for v in vals for g in (geo if pg else geo[:1])])

                def one(p):
                    s = surf(y, u, p[0] if pi else None, p[1] if po else None)
                    th = p[2] if pt else None
                    if pg:
                        return surface_light_curve(s, p[5], p[3], p[4], p[6], th, order=100)
                    return surface_light_curve(s, theta=th, order=100)

                got = np.asarray(jax.jit(jax.vmap(one))(P))
                want = np.array([reference(y, u, p[0], p[1], p[2], p[3:] if pg else None) for p in P])
                ctx.close(got, want, "absent", tol=1e-8, detail=dict(given=dict(inc=pi, obl=po, theta=pt, occultor=pg)), labels=dict(inc=P[:, 0], obl=P[:, 1], theta=P[:, 2], x=P[:, 3], y=P[:, 4], r=P[:, 5], z=P[:, 6]))
                ctx.count(states=len(P), traces=len(P), transitions=len(P))
        ctx.sample(dict(given=dict(inc=pi, obl=po, theta=pt, occultor=pg)))
    elif name.startswith("normalize"):
        # the amplitude and the coefficients: normalize=True takes the flux scale from y00
        occ = (0.3, -0.5, 0.4, 1.0)
        V = np.array(list(itertools.product((1.0, 0.25, 3.0, -1.5), (1.0, 0.2, 4.0))))
        l = task["l"]
        for nu, occd in itertools.product((0, 2), (None, occ)):
            u = UU[nu]
            kw = {} if occd is None else dict(x=occd[0], y=occd[1], r=occd[2], z=occd[3])

            def one(v):
                y = jnp.asarray(dense(l)).at[0].set(v[0])
                # not normalized: amplitude times the expansion as given
                a = surface_light_curve(surf(y, u, 0.6, 0.4, amplitude=v[1]), theta=1.1, order=100, **kw)
                # normalized: the flux of the expansion as given, whatever the amplitude argument
                s = surf(y, u, 0.6, 0.4, normalize=True, amplitude=v[1])
                return a, surface_light_curve(s, theta=1.1, order=100, **kw), s.y[(0, 0)], s.amplitude

            got = [np.asarray(g) for g in jax.jit(jax.vmap(one))(V)]
            for k, (y00, amp) in enumerate(V):
                y = dense(l)
                y[0] = y00
                want = reference(y, u, 0.6, 0.4, 1.1, occd)
                d = dict(l=l, u=u, y00=y00, amplitude=amp, occulted=occd is not None)
                ctx.close(got[0][k], amp * want, "amplitude", tol=1e-7, detail=d)
                ctx.close(got[1][k], want, "normalized", tol=1e-7, detail=d)
                ctx.close(got[2][k], 1.0, "normalized-y00", tol=1e-12, detail=d)
                ctx.close(got[3][k], y00, "normalized-amplitude", tol=1e-12, detail=d)
                ctx.count(states=2, traces=2, transitions=2)
        ctx.sample(d)
    elif name.startswith("uniform"):
        # uniform maps: same as the limb-darkened star, for a degree-0 map and for one of
        # higher degree with vanishing coefficients, whatever the orientation
        lit = G[G[:, 3] > 0]
        b, r = np.hypot(lit[:, 0], lit[:, 1]), lit[:, 2]
        for nu in (task["nu"],):
            u = UU[nu]
            want = 1 + np.asarray(ld(jnp.asarray(u, dtype=float), jnp.asarray(b), jnp.asarray(r), order=100))
            for l in (0, 1, 3):
                y = np.eye((l + 1) ** 2)[0]
                f = jax.jit(jax.vmap(lambda g: surface_light_curve(surf(y, u, 0.6, 0.4, amplitude=2.0), g[2], g[0], g[1], g[3], 0.3, order=100)))
                ctx.close(np.asarray(f(lit)), 2 * want, "uniform", tol=3e-8, detail=dict(u=u, l=l), labels=dict(b=b, r=r))
                ctx.close(np.asarray(surface_light_curve(surf(y, u, 0.6, 0.4, amplitude=2.0))), 2.0, "uniform-unocculted", tol=1e-12, detail=dict(u=u, l=l))
                ctx.count(states=len(lit) + 1, traces=len(lit) + 1)
        # default surface
        ctx.close(np.asarray(surface_light_curve(Surface())), 1.0, "default", tol=1e-14)
        ctx.close(np.asarray(surface_light_curve(Surface(), r=0.1, x=0.0, y=0.2, z=1.0)), 0.99, "default-occulted", tol=1e-12)
        ctx.close(np.asarray(surface_light_curve(Surface(), r=0.1, z=1.0)), 0.99, "position-omitted", tol=1e-12)
        ctx.close(np.asarray(surface_light_curve(Surface(), r=0.1)), 1.0, "position-omitted-z", tol=1e-12)
        ctx.sample(dict(u=u, l=l))
    elif name.startswith("eager"):
        # sparse maps (missing coefficients), lists, integers, arrays of limb darkening, batches
        y = np.zeros(9)
        y[[0, 2, 5]] = [1.0, 0.3, -0.2]
        sp = Ylm({(0, 0): 1.0, (1, 0): 0.3, (2, -1): -0.2})
        occ = (0.3, -0.5, 0.4, 1.0)
        for u in ((), (0.3,), [0.3, 0.1], np.array([0.3, 0.1]), jnp.array([0.2, 0.1, 0.05]))[task["k"] : task["k"] + 1]:
            w = reference(y, tuple(np.asarray(u)), 1.0, 0.4, 2.0, occ)
            s = Surface(y=sp, u=u, inc=1.0, obl=0.4)
            args = (0.4, 0.3, -0.5, 1.0, 2.0)
            for conv in (float, jnp.asarray, np.float64):
                got = surface_light_curve(s, *[conv(v) for v in args], order=100)
                ctx.check(np.shape(got) == (), "eager-shape", got=np.shape(got))
                ctx.close(np.asarray(got), w, "eager", tol=1e-8, detail=dict(u=list(map(float, u)), conv=conv.__name__))
                ctx.count(states=1, traces=1, transitions=1)
            w = reference(y, tuple(np.asarray(u)), 1.0, 0.4, 2.0, (0.0, 1.0, 1.0, 1.0))
            ctx.close(np.asarray(surface_light_curve(s, 1, 0, 1, 1, 2, order=100)), w, "eager-integers", tol=1e-7)
        ctx.sample(dict(u=(0.3,)))
    else:
        u = UU[2]
        y = dense(2)
        O, geo = ORIENT[::4], G[G[:, 2] <= 2]
        b = np.hypot(geo[:, 0], geo[:, 1])
        want = references(y[None], u, O, geo)[0]
        P = np.array([(k, g) for k in range(len(O)) for g in range(len(geo))])
        y32 = y.astype(np.float32)
        f = jax.jit(jax.vmap(lambda o, g: surface_light_curve(surf(y32, u, o[0], o[1]), g[2], g[0], g[1], g[3], o[2])))
        got = np.asarray(f(np.array(O, np.float32)[P[:, 0]], geo.astype(np.float32)[P[:, 1]])).reshape(want.shape)
        ctx.check(got.dtype == np.float32, "f32-dtype", got=str(got.dtype))
        ctx.check(np.isfinite(got).all(), "f32-finite")
        ctx.close(got, want, "f32", tol=2e-3, labels=dict(x=geo[:, 0], y=geo[:, 1], r=geo[:, 2], z=geo[:, 3]))
        ctx.count(states=got.size, traces=got.size)
        ctx.sample(dict(u=u))
