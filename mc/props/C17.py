"""Emission light curves of uniformly emitting bodies."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of orbital elements x radii (body smaller, equal, larger than the star) x "
    "amplitudes x phases; every ordered choice of 1-3 bodies from a pool, with limb-darkened "
    "and uniform surfaces; non-trivial = some disk is hidden"
)
ASSUME = ["surfaces are uniform apart from limb darkening", "points with a body within 1e-9 of the plane of the sky excluded"]


def tasks(tier):
    n = 4 if tier == "quick" else 8
    return [dict(name=f"pair-{i}", part=i, of=n, cost=3) for i in range(n)] + [dict(name="systems-0", part=0), dict(name="systems-1", part=1), dict(name="shapes"), dict(name="sizes"), dict(name="f32", x64=False)]


def circle_overlap(b, r1, r2):
    """area of the lens of two circles (closed form)"""
    b, r1, r2 = np.broadcast_arrays(*(np.asarray(v, float) for v in (b, r1, r2)))
    with np.errstate(all="ignore"):
        a1 = np.arccos(np.clip((b**2 + r1**2 - r2**2) / (2 * b * r1), -1, 1))
        a2 = np.arccos(np.clip((b**2 + r2**2 - r1**2) / (2 * b * r2), -1, 1))
        lens = r1**2 * (a1 - np.sin(a1) * np.cos(a1)) + r2**2 * (a2 - np.sin(a2) * np.cos(a2))
    lens = np.where(b >= r1 + r2, 0.0, np.where(b <= np.abs(r1 - r2), np.pi * np.minimum(r1, r2) ** 2, lens))
    return lens


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import raises
    from jaxoplanet.light_curves.emission import light_curve
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.units import unit_registry as ureg
    from oracles import ld_flux, semimajor, two_body

    name = task["name"]

    def hidden(u, b, r):
        """flux fraction hidden of a disk of radius 1 by a circle of radius r"""
        if len(u) == 0:
            return circle_overlap(b, 1.0, r) / np.pi
        return -ld_flux(u, b, r)

    def model(Xs, rc, rbs, ac, ab, uc, ub):
        cols = [np.ones(Xs[0][0].shape)]
        for X, rb, a, u in zip(Xs, rbs, ab, ub):
            b = np.hypot(X[0], X[1])
            cols[0] = cols[0] - np.where(X[2] > 0, hidden(uc, b / rc, rb / rc + 0 * b), 0)
            cols.append(a * (1 - np.where(X[2] < 0, hidden(u, b / rb, rc / rb + 0 * b), 0)))
        cols[0] = cols[0] * ac
        return np.stack(cols, -1)

    if name.startswith("pair") or name == "f32":
        f32 = name == "f32"
        rows = np.array(list(itertools.product([0.0, 0.4], [0.3, -np.pi / 2, 4.0], [np.pi / 2, 1.5, 1.43, np.pi - 1.45, 0.4], [0.0, 0.8], [0.03, 0.5, 1.0, 1.9], [1.0, 0.6], [0.0, 1e-3, 2.5])))
        rows = rows[task.get("part", 0) :: task.get("of", 4)]
        e, w, inc, Om, rb, rc, amp = rows.T
        P, t0, m, M = 3.0, 0.2, 0.05, 1.1
        a = semimajor(P, m + M)
        ph = np.unique(np.concatenate([np.linspace(-0.5, 0.5, 25), np.linspace(-0.06, 0.06, 15), np.linspace(0.42, 0.58, 17), [3.0, -2.5, 3.01]]))
        t = t0 + P * ph
        X, _ = two_body(t[None], P, e[:, None], w[:, None], inc[:, None], Om[:, None], t0, a)
        for uc, ub in (((), ()), ((0.4, 0.2), ()), ((), (0.3,))):
            def f(e, w, inc, Om, rb, rc, amp):
                s = SurfaceSystem(Central(mass=M, radius=rc), Surface(u=uc))
                s = s.add_body(Body(period=P, time_transit=t0, mass=m, radius=rb, inclination=inc, asc_node=Om, eccentricity=e, omega_peri=w), Surface(u=ub, amplitude=amp, normalize=False))
                return light_curve(s)(t)

            g = np.asarray(jax.jit(jax.vmap(f))(e, w, inc, Om, rb, rc, amp))
            W = model([X], rc[:, None], [rb[:, None]], 1.0, [amp[:, None]], uc, [ub])
            edge = (np.abs(X[2]) < (1e-9 if not f32 else 1e-3) * a)[..., None]
            b = np.hypot(X[0], X[1])
            contact = np.minimum(np.abs(b - rb[:, None] - rc[:, None]), np.abs(np.abs(rb[:, None] - rc[:, None]) - b))[..., None]
            tol = np.where(contact < 1e-3, 3e-5, 8e-6) if (uc or ub) else np.where(contact < 1e-3, 1e-8, 1e-10)
            tol = (tol if not f32 else 5e-3) * (1 + amp[:, None, None])
            lab = dict(e=e[:, None, None], inc=inc[:, None, None], rb=rb[:, None, None], rc=rc[:, None, None], ph=ph[:, None], b=b[..., None])
            ctx.close(np.where(edge, 0, g), np.where(edge, 0, W), "pair", tol=tol, labels=lab, detail=dict(uc=uc, ub=ub))
            if not f32:
                rel = np.where(amp[:, None] > 0, g[..., 1] / np.where(amp > 0, amp, 1)[:, None], 0)
                ctx.check(((rel > -1e-9) & (rel < 1 + 1e-9)).all(), "bounded")
            ctx.count(states=g.size, traces=g.size, nontrivial=int((W != np.stack([np.ones_like(b), amp[:, None] + 0 * b], -1)).sum()))
        ctx.sample(dict(rb=1.9, rc=0.6, amp=2.5))
    elif name == "sizes":
        # disks of very different sizes, edge on: sweep the separation through every contact,
        # behind the star and in front of it
        P = 3.0
        for k, u in itertools.product((1e-4, 2e-3, 0.009, 0.02, 0.98, 1.02, 11.0, 120.0), ((), (0.3, 0.2))):
            rc = 0.7 if k < 5 else 0.02
            big, small = max(rc, k * rc), min(rc, k * rc)
            f = np.concatenate([np.linspace(0, 1, 9), 1 - 10.0 ** np.arange(-3, 0), 1 + 10.0 ** np.arange(-3, 0)])
            x = np.unique(np.concatenate([f * (big - small), big - small + f * 2 * small]))
            x = x[np.minimum(np.abs(x - big + small), np.abs(x - big - small)) > 1e-7 * small]
            s = SurfaceSystem(Central(mass=1.0, radius=rc), Surface(u=u, amplitude=2.0, normalize=False))
            s = s.add_body(Body(period=P, time_transit=0.0, radius=k * rc, mass=0.0), Surface(u=u, amplitude=0.5, normalize=False))
            t = np.arcsin(x / semimajor(P, 1.0)) * P / (2 * np.pi)
            for sg in (1, -1):
                g = np.asarray(light_curve(s)(np.concatenate([sg * t, P / 2 + sg * t])))
                n = len(x)
                w = np.ones((2 * n, 2)) * (2.0, 0.5)
                w[:n, 0] *= 1 - hidden(u, x / rc, k + 0 * x)
                w[n:, 1] *= 1 - hidden(u, x / (k * rc), 1 / k + 0 * x)
                tol = 3e-5 if u else 1e-8
                # a shift of the body by rounding of the position matters in units of its radius
                ctx.close(g, w, "sizes", tol=tol + 1e-12 * big / small, labels=dict(x=np.concatenate([x, x])[:, None]), detail=dict(u=u, k=k))
                ctx.count(states=g.size, traces=g.size, nontrivial=n)
        ctx.sample(dict(k=k))
    elif name.startswith("systems"):
        pool = [
            (dict(period=3.0, time_transit=0.1, radius=0.1), dict(amplitude=0.5)),
            (dict(period=3.0, time_transit=0.13, radius=0.3, impact_param=0.5, mass=0.0), dict(amplitude=2.0, u=(0.2, 0.1))),
            (dict(period=5.0, time_transit=0.0, radius=0.2, eccentricity=0.3, omega_peri=1.0, inclination=1.55, mass=0.1), dict(amplitude=0.0)),
            (dict(semimajor=6.0, time_transit=1.6, radius=1.5, asc_node=0.4, mass=0.02), dict(amplitude=1.0, u=(0.5,))),
        ]
        rc, M = 1.2, 1.1
        t = np.concatenate([np.linspace(-0.2, 0.4, 9), np.linspace(1.4, 1.9, 9), [3.1, 2.5, -2.4, 33.1]])
        n = 0
        for k in (1, 2, 3):
            for pl in itertools.permutations(range(4), k):
                n += 1
                if n % 2 != task["part"]:
                    continue
                ac = (1.0, 3.0)[n % 4 // 2]
                s = SurfaceSystem(Central(mass=M, radius=rc), Surface(u=(0.3,), amplitude=ac, normalize=False))
                Xs = []
                for i in pl:
                    p, q = pool[i]
                    s = s.add_body(Body(**p), Surface(normalize=False, **q))
                    mt = M + (p.get("mass") or 0.0)
                    a = p.get("semimajor", semimajor(p.get("period", 1.0), mt))
                    P = p.get("period", (a / semimajor(1.0, mt)) ** 1.5)
                    inc = p.get("inclination", np.arccos(p.get("impact_param", 0.0) * rc / a))
                    Xs.append(two_body(t, P, p.get("eccentricity", 0.0), p.get("omega_peri", 0.0), inc, p.get("asc_node", 0.0), p["time_transit"], a)[0])
                F = np.asarray(light_curve(s)(t))
                ctx.check(F.shape == (t.size, k + 1), "systems:shape", got=F.shape)
                W = model(Xs, rc, [pool[i][0]["radius"] for i in pl], ac, [pool[i][1]["amplitude"] for i in pl], (0.3,), [pool[i][1].get("u", ()) for i in pl])
                ctx.close(F, W, "systems", tol=2e-5, detail=dict(order=pl, ac=ac))
                ctx.count(states=F.size, traces=1, transitions=k)
        ctx.sample("bodies 2,0,3")
    else:
        # normalised maps take their amplitude from the constant coefficient; shapes; units; order
        for ydata, norm, want in (({(0, 0): 2.0}, True, 2.0), ({(0, 0): 1.0}, False, 0.7), (None, True, 1.0)):
            surf = Surface(y=None if ydata is None else Ylm(ydata), amplitude=0.7, normalize=norm)
            s = SurfaceSystem(Central(), Surface()).add_body(Body(period=2.0, radius=0.1), surf)
            F = np.asarray(light_curve(s)(np.array([0.0, 0.5, 1.0])))
            ctx.close(F, [[0.99, want], [1.0, want], [1.0, 0.0]], "amplitude", tol=1e-9, detail=dict(norm=norm))
            for shp in ((), (1,), (2, 3), (0,)):
                t = np.zeros(shp) + 1.0
                for tq in (t, t * ureg.day, ureg.Quantity(t * 24, "hour")):
                    G = np.asarray(light_curve(s)(tq))
                    ctx.check(G.shape == shp + (2,), "shape", shp=shp, got=G.shape)
                    ctx.close(G, np.broadcast_to([1.0, 0.0], shp + (2,)), "shape:value", tol=1e-9)
                    ctx.count(states=1, traces=1)
        s = SurfaceSystem(Central(), Surface(u=(0.3, 0.1, 0.2))).add_body(Body(period=2.0, radius=0.4, impact_param=0.75), Surface(u=(0.1, 0.1, 0.1, 0.2)))
        from jaxoplanet.core.limb_dark import light_curve as core
        for order in (1, 3, 10, 50):
            F = light_curve(s, order=order)(np.array([0.0, 1.0]))
            ctx.close(F[0, 0], 1 + core(jnp.array([0.3, 0.1, 0.2]), 0.75, 0.4, order=order), "order", tol=1e-9)
            ctx.close(F[1, 1], 1 + core(jnp.array([0.1, 0.1, 0.1, 0.2]), 0.75 / 0.4, 2.5, order=order), "order", tol=1e-9)
            ctx.count(states=4, traces=2)
        ctx.check(raises(light_curve, System(Central()).add_body(period=1.0, radius=0.1)) is not None, "refuse:plain-system")
        ctx.sample("time of shape (2, 3)")
