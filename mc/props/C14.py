"""Transit light curves of orbits."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of orbital elements x companion and star radii x coefficient vectors (0-5, as "
    "scalars, arrays and mixtures) x phases (through transit, through eclipse, all around, "
    "other cycles); every ordered choice of 1-3 alike or different bodies around the system's or their own central; every orbit type "
    "with the same sky path; every time shape and unit; non-trivial = disks overlap on the sky"
)
ASSUME = ["radial-integration flux reference", "points with the body within 1e-9 of the plane of the sky excluded"]


def tasks(tier):
    ws = [0.0, 1.1, np.pi / 2, -np.pi / 2, 4.0] if tier == "quick" else [0.0, 0.5, 1.1, np.pi / 2, 2.5, np.pi, -np.pi / 2, 4.0, 5.5]
    t = [dict(name=f"kepler-{i}", w=w, cost=3) for i, w in enumerate(ws)]
    t += [dict(name="coefs"), dict(name="systems-0", part=0, cost=3), dict(name="systems-1", part=1, cost=3), dict(name="types"), dict(name="shapes"), dict(name="sizes"), dict(name="f32", x64=False)]
    return t


US = [[], [0.4], [0.3, 0.2], [0.3, -0.2, 0.4, 0.1]]


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag, raises
    from jaxoplanet.core.limb_dark import light_curve as core
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg
    from oracles import ld_flux, semimajor, two_body

    name = task["name"]

    def want(u, X, rc, rb):
        b = np.hypot(X[0], X[1]) / rc
        return np.where(X[2] > 0, ld_flux(u, b, rb / rc + 0 * b), 0.0), b

    if name.startswith("kepler") or name == "f32":
        f32 = name == "f32"
        w0 = task.get("w", 1.1)
        inc = [np.pi / 2, 1.5, 1.42, np.pi - 1.5, 0.6, 0.0]
        rows = np.array(list(itertools.product([0.0, 0.3, 0.8], [w0], inc, [0.0, 0.9], [1.0, 0.4], [0.0, 0.07, 0.5, 1.4, 3.0])))
        e, w, inc, Om, rc, rb = rows.T
        P, t0, m, M = 3.0, 0.7, 0.1, 0.9
        ph = np.unique(np.concatenate([np.linspace(-0.04, 0.04, 17), 0.5 + np.linspace(-0.05, 0.05, 11), np.linspace(-0.5, 0.5, 21), 7 + np.linspace(-0.02, 0.02, 5), -3 + np.array([0.0, 0.5])]))
        t = t0 + P * ph
        a = semimajor(P, m + M)
        X, _ = two_body(t[None], P, e[:, None], w[:, None], inc[:, None], Om[:, None], t0, a)
        # eclipse: just before and after each body crosses behind is included in the lattice
        for u in US:
            W, b = want(u, X, rc[:, None], rb[:, None])

            def f(e, w, inc, Om, rc, rb, ecc):
                c = Central(mass=M, radius=rc)
                kw = dict(eccentricity=e, omega_peri=w) if ecc else {}
                o = OrbitalBody(c, Body(period=P, time_transit=t0, mass=m, radius=rb, inclination=inc, asc_node=Om, **kw))
                return limb_dark_light_curve(o, *u)(t), limb_dark_light_curve(o, u, order=60)(t)

            for ecc in (True, False):
                s = np.ones(len(e), bool) if ecc else (e == 0)
                # a circular orbit has no argument of periastron: reference w is the same path only if time is from transit
                g = [np.asarray(q) for q in jax.jit(jax.vmap(lambda *q: f(*q, ecc)))(e[s], w[s], inc[s], Om[s], rc[s], rb[s])]
                edge = np.abs(X[2][s]) < 1e-9 * a if not f32 else np.abs(X[2][s]) < 1e-3
                r = rb / rc
                contact = np.minimum(np.abs(b - 1 - r[:, None]), np.abs(np.abs(b - r[:, None]) - 1))[s]
                lab = dict(e=e[s][:, None], inc=inc[s][:, None], rc=rc[s][:, None], rb=rb[s][:, None], ph=ph, b=b[s], Om=Om[s][:, None])
                tol = np.where(contact < 1e-3, 2e-5, 6e-6) if not f32 else 3e-3
                ctx.close(np.where(edge, 0, g[0]), np.where(edge, 0, W[s]), "flux", tol=tol, labels=lab, detail=dict(u=u, w=w0))
                ctx.close(np.where(edge, 0, g[1]), np.where(edge, 0, W[s]), "flux60", tol=tol / 20 if not f32 else tol, labels=lab, detail=dict(u=u, w=w0))
                behind = (X[2][s] < 0) & ~edge
                ctx.check((g[0][behind] == 0).all() and (g[1][behind] == 0).all(), "behind")
                apart = (b[s] > (1 + r[s][:, None]) * (1 + (1e-9 if not f32 else 1e-4)))
                ctx.check((np.abs(g[0][apart]) < (1e-14 if not f32 else 1e-6)).all(), "apart")
                ctx.count(states=2 * g[0].size, traces=g[0].size, nontrivial=int((~apart).sum()))
        ctx.sample(dict(w=w0, e=0.8, rb=1.4, u=u))
    elif name == "sizes":
        # disks of very different sizes, edge on: sweep the separation through every contact
        P = 3.0
        for rc, k in itertools.product((0.01, 1.0, 30.0), (1e-5, 1e-3, 0.009, 0.02, 0.98, 1.02, 9.0, 11.0, 60.0, 120.0, 700.0)):
            a = semimajor(P, 1.0) * rc * max(1.0, k / 3)
            f = np.concatenate([np.linspace(0, 1, 7), 1 - 10.0 ** np.arange(-3, 0), 1 + 10.0 ** np.arange(-3, 0)])
            b = np.unique(np.abs(np.concatenate([f * abs(1 - k), abs(1 - k) + f * 2 * min(1, k), f * k])))
            b = b[np.minimum(np.abs(b - abs(1 - k)), np.abs(b - 1 - k)) > 1e-9 * (1 + k)]
            for imp in (0.0, 0.3 * min(1.0, k)):
                x = np.sqrt(np.clip(b**2 - imp**2, 0, None))
                t = np.arcsin(x * rc / np.sqrt(a**2 - (imp * rc) ** 2)) * P / (2 * np.pi)
                bb = np.maximum(b, imp)
                o = OrbitalBody(Central(mass=1.0, radius=rc), Body(semimajor=a, radius=k * rc, impact_param=imp, mass=0.0, time_transit=0.0))
                Pb = mag(o.period, "day")
                for u in US:
                    w = ld_flux(u, bb, k + 0 * bb)
                    for s in (1, -1):
                        g = np.asarray(limb_dark_light_curve(o, *u)(s * t * Pb / P))
                        ctx.close(g, w, "sizes", tol=(1e-5 * min(1, k**2) + 2e-10 + 1e-8 * (k > 5)), labels=dict(b=bb), detail=dict(u=u, rc=rc, k=k, imp=imp))
                        ctx.count(states=len(b), traces=len(b), nontrivial=int((w != 0).sum()))
        ctx.sample(dict(k=k, rc=rc))
    elif name == "coefs":
        # every way of writing the same coefficients, every order: equal to the core function
        o = OrbitalBody(Central(mass=1.0, radius=1.3), Body(period=4.0, time_transit=0.0, radius=0.3, impact_param=0.4))
        t = np.array([-0.12, -0.1, -0.03, 0.0, 0.05, 0.11, 1.0, 2.0])
        X = [mag(q, "R_sun") for q in o.relative_position(t)]
        b, r = np.hypot(X[0], X[1]) / 1.3, 0.3 / 1.3
        n = 0
        for k in range(0, 6):
            u = [0.3, 0.2, -0.1, 0.05, 0.15][:k]
            forms = [tuple(u), (jnp.array(u),) if u else ()]
            # all compositions of the list into scalars and arrays
            for cut in itertools.product((0, 1), repeat=max(k - 1, 0)):
                parts, cur = [], u[:1]
                for c, v in zip(cut, u[1:]):
                    if c:
                        parts.append(cur)
                        cur = [v]
                    else:
                        cur = cur + [v]
                if cur:
                    parts.append(cur)
                forms.append(tuple(p[0] if len(p) == 1 else np.array(p) for p in parts))
                if len(parts) == 1:
                    forms.append((list(parts[0]),))
            ref = np.where(X[2] > 0, ld_flux(u, b, r + 0 * b), 0)
            for fm in forms:
                got = limb_dark_light_curve(o, *fm)(t)
                ctx.close(got, ref, "coefs", tol=5e-6, detail=dict(k=k, form=str(fm)))
                n += 1
            for order in (1, 2, 5, 10, 31, 200):
                c = np.where(X[2] > 0, core(jnp.array(u), b, r, order=order), 0)
                ctx.close(limb_dark_light_curve(o, *u, order=order)(t), c, "order", tol=1e-12, detail=dict(order=order, k=k))
                n += 1
        ctx.count(states=n * t.size, traces=n)
        ctx.sample("(0.3, [0.2, -0.1], 0.05)")
    elif name.startswith("systems"):
        pool = [
            dict(period=3.0, time_transit=0.1, radius=0.1, mass=0.0),
            dict(period=3.0, time_transit=0.13, radius=0.3, impact_param=0.5),
            dict(period=5.0, time_transit=0.0, radius=0.2, eccentricity=0.3, omega_peri=1.0, inclination=1.55, mass=0.1),
            dict(semimajor=6.0, time_transit=1.6, radius=1.5, asc_node=0.4, mass=0.02),
        ]
        rc, M = 1.2, 1.1
        t = np.concatenate([np.linspace(-0.2, 0.4, 25), np.linspace(1.4, 1.9, 11), [3.1, 5.02, -2.9, 33.1]])
        n = 0
        for k in (1, 2, 3):
            for pl in itertools.product(range(4), repeat=k):
                if k == 3 and len(set(pl)) < 3:
                    continue
                n += 1
                if n % 2 != task["part"]:
                    continue
                # some of the bodies orbit a central object of their own
                own = [(n // 2 >> j) % 2 == 1 for j in range(k)]
                s = System(Central(mass=M, radius=rc))
                cen = [(0.8, 0.7) if o else (M, rc) for o in own]
                for i, o in zip(pl, own):
                    s = s.add_body(Body(**pool[i]), central=Central(mass=0.8, radius=0.7)) if o else s.add_body(**pool[i])
                F = np.asarray(limb_dark_light_curve(s, 0.3, 0.2)(t))
                ctx.check(F.shape == (t.size, k), "systems:shape", got=F.shape, order=pl)
                G = np.zeros((t.size, k))
                for j, (i, (M_, rc_)) in enumerate(zip(pl, cen)):
                    p = pool[i]
                    mt = M_ + (p.get("mass") or 0.0)
                    a = p.get("semimajor", semimajor(p.get("period", 1.0), mt))
                    P = p.get("period", (a / semimajor(1.0, mt)) ** 1.5)
                    e, w = p.get("eccentricity", 0.0), p.get("omega_peri", 0.0)
                    inc = p.get("inclination", np.arccos(p.get("impact_param", 0.0) * rc_ / a))
                    X, _ = two_body(t, P, e, w, inc, p.get("asc_node", 0.0), p["time_transit"], a)
                    G[:, j] = want([0.3, 0.2], X, rc_, p["radius"])[0]
                ctx.close(F, G, "systems", tol=6e-6, detail=dict(order=pl, own_central=own))
                ctx.count(states=F.size, traces=1, transitions=k, nontrivial=int((G != 0).sum()))
        ctx.sample("bodies 2,0,3")
    elif name == "types":
        P, rc = 10.0, 1.0
        t = np.linspace(-0.3, 0.3, 61)
        for b, r in itertools.product([0.0, 0.5, 0.98], [0.02, 0.3, 1.1]):
            D = 0.25
            o = TransitOrbit(period=P, duration=D, impact_param=b, radius_ratio=r)
            v = 2 * np.sqrt((1 + r) ** 2 - b**2) / D

            class Line:
                central_radius = rc * 2.0 * ureg.R_sun
                radius = 2.0 * r * ureg.R_sun
                shape = ()

                def relative_position(self, time):
                    x = v * time.to("day").magnitude
                    front = jnp.where(jnp.abs(x) < v * D / 2, 1.0, -1.0)
                    return 2.0 * b * ureg.R_sun, -2.0 * x * ureg.R_sun, front * ureg.R_sun

            ref = np.where(np.abs(t) < D / 2, ld_flux([0.5], np.hypot(v * t, b), r + 0 * t), 0)
            ctx.close(limb_dark_light_curve(o, 0.5)(t), ref, "types:transit", tol=6e-6, detail=dict(b=b, r=r))
            ctx.close(limb_dark_light_curve(Line(), 0.5)(t), ref, "types:line", tol=6e-6, detail=dict(b=b, r=r))
            # several planets
            o = TransitOrbit(period=np.array([P, P]), duration=np.array([D, 2 * D]), impact_param=np.array([b, 0.1]), radius_ratio=np.array([r, 0.2]), time_transit=np.array([0.0, 0.1]))
            v2 = 2 * np.sqrt(1.2**2 - 0.01) / (2 * D)
            ref2 = np.where(np.abs(t - 0.1) < D, ld_flux([0.5], np.hypot(v2 * (t - 0.1), 0.1), 0.2 + 0 * t), 0)
            ctx.close(limb_dark_light_curve(o, 0.5)(t), np.stack([ref, ref2], -1), "types:planets", tol=6e-6)
            # body alone, and in a system, and with everything rescaled
            for sc in (1.0, 0.3):
                c = Central(mass=1.0 * sc**3, radius=1.0 * sc)
                kw = dict(period=P, radius=r * sc, impact_param=b)
                ob = OrbitalBody(c, Body(**kw))
                a = semimajor(P, 1.0)
                X, _ = two_body(t, P, 0.0, 0.0, np.arccos(b / a), 0.0, 0.0, a)
                ref = want([0.5], X, 1.0, r)[0]
                ctx.close(limb_dark_light_curve(ob, 0.5)(t), ref, "types:body", tol=6e-6, detail=dict(sc=sc))
                ctx.close(limb_dark_light_curve(System(c).add_body(**kw), 0.5)(t)[:, 0], ref, "types:system", tol=6e-6, detail=dict(sc=sc))
            ctx.count(states=6 * t.size, traces=6)
        ctx.sample("straight line moving along y, radii in stellar units")
    else:
        sys1 = System(Central()).add_body(period=2.0, radius=0.1)
        sys2 = sys1.add_body(period=3.0, radius=0.2, impact_param=0.3)
        for o, tail in ((sys1.bodies[0], ()), (sys1, (1,)), (sys2, (2,)), (TransitOrbit(period=1.0, duration=0.1, radius_ratio=0.1), ()),
                        (TransitOrbit(period=np.array([1.0, 2.0, 3.0]), duration=0.1, radius_ratio=0.1), (3,))):
            f = limb_dark_light_curve(o, 0.2)
            base = np.linspace(-0.05, 0.05, 12)
            flat = np.asarray(f(base))
            ctx.check(flat.shape == (12,) + tail, "shapes", got=flat.shape)
            for shp in ((12,), (3, 4), (2, 3, 2), (1, 12), (12, 1)):
                for tq in (base.reshape(shp), jnp.asarray(base.reshape(shp)), base.reshape(shp) * ureg.day, ureg.Quantity(base.reshape(shp) * 1440.0, "minute")):
                    g = np.asarray(f(tq))
                    ctx.check(g.shape == shp + tail, "shapes", shape=shp, got=g.shape)
                    ctx.close(g.reshape(flat.shape), flat, "shapes:value", tol=1e-9)
                    ctx.count(states=1, traces=1)
            for i in (0, 6, 11):
                for tq in (float(base[i]), base[i] * 24 * ureg.hour, jnp.float64(base[i])):
                    ctx.close(f(tq), flat[i], "shapes:scalar", tol=1e-9)
                    ctx.count(states=1, traces=1)
            ctx.check(np.asarray(f(np.zeros(0))).shape == (0,) + tail, "shapes:empty")
            e = raises(f, base * ureg.m)
            ctx.check(e is not None, "shapes:dimension")
        ctx.sample("time of shape (2, 3, 2) in minutes")
