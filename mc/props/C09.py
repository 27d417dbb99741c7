"""Velocities and radial velocities."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "every structure x element grid x phase grid as for positions; velocity, central and "
    "relative velocity and radial velocity against the derivative of the independent "
    "two-body solution, momentum, and every way of giving a semi-amplitude {attribute, "
    "argument, both} x {bare, R_sun/d, m/s} x {method}; non-trivial = all"
)
ASSUME = ["reference two-body solution in extended precision (mc/oracles.py)"]


def tasks(tier):
    from kepgrid import structures

    t = [dict(name=f"{s['ecc']}-{s['node']}", st=s, cost=3) for s in structures()]
    t += [dict(name="massless", st=dict(ecc="angle", node="angle")),
          dict(name="parallax", st=dict(ecc="angle", node="angle"))]
    t += [dict(name=f"semi-{s['ecc']}-{s['node']}", st=s, cost=2) for s in structures() if s["ecc"] != "sincos"]
    t += [dict(name=f"options-{e}-{n}", st=dict(ecc=e, node=n)) for e, n in (("none", "none"), ("angle", "angle"), ("sincos", "none"))]
    t += [dict(name="semi-units", st=dict(ecc="angle", node="angle"))]
    return t


def options(ctx, el, st):
    """every combination of parallax, semi-amplitude and radius"""
    import itertools

    import jax.numpy as jnp
    from framework import mag
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg
    from kepgrid import body_kwargs
    from oracles import semimajor, two_body

    T = np.array([-3.1, 0.2, 2.0, 40.7])
    au = 1.49597870700e11 / 6.957e8
    Q = ureg.Quantity
    attr = {None: None, 20.0: 20.0, 0.002: 0.002, 1e-6: Q(1e-3, "milliarcsecond")}
    for j in range(len(el["P"])):
        x = {k: float(v[j]) for k, v in el.items()}
        a = semimajor(x["P"], x["m"] + x["M"])
        q = {k: x[k] for k in ("P", "e", "w", "inc", "Om", "t0")}
        V = np.array(two_body(T, **q, a=a)[1])
        V2 = np.array(two_body(T, **{**q, "inc": np.pi / 2}, a=a)[1])
        k0 = 2 * np.pi * a / x["P"] / np.sqrt(1 - x["e"] ** 2)
        fb, q = x["M"] / (x["m"] + x["M"]), x["M"] / x["m"]
        for pa, K, rad in itertools.product(attr, (None, 0.37, 120.0), (None, 0.1)):
            b = OrbitalBody(Central(mass=x["M"], radius=1.0), Body(
                **body_kwargs(st, x, jnp), parallax=attr[pa], radial_velocity_semiamplitude=K, radius=rad))
            sysm = System(b.central).add_body(b)
            sc, unit = (1.0, "R_sun/day") if pa is None or K is not None else (pa / au, "arcsec/day")
            d = dict(parallax=pa, semiamplitude=K, radius=rad, **x)
            for who, src, pick in (("body", b, lambda c: c), ("system", sysm, lambda c: c[0])):
                v = {n: [mag(pick(c), unit) / sc for c in getattr(src, n)(T)] for n in ("velocity", "central_velocity", "relative_velocity")}
                rv = mag(pick(src.radial_velocity(T)), unit) / sc
                if K is None:
                    tol = 1e-9 * k0
                    for n, f in (("velocity", fb), ("central_velocity", fb - 1), ("relative_velocity", 1)):
                        for c in range(3):
                            ctx.close(v[n][c], f * V[c], f"options:{who}:{n}", tol=tol, detail=d)
                    ctx.close(rv, (1 - fb) * V[2], f"options:{who}:radial_velocity", tol=tol, detail=d)
                else:
                    tol = 1e-9 * K * (1 + q)
                    ctx.close(rv, K * V2[2] / k0, f"options:{who}:semi-rv", tol=tol, detail=d)
                    ctx.close(v["central_velocity"][2], -rv, f"options:{who}:semi-central", tol=tol, detail=d)
                    for c in range(3):
                        ctx.close(v["velocity"][c], -q * v["central_velocity"][c], f"options:{who}:semi-velocity", tol=tol, detail=d)
                        ctx.close(v["relative_velocity"][c], -(1 + q) * v["central_velocity"][c], f"options:{who}:semi-relative", tol=tol, detail=d)
                ctx.count(states=4, traces=4)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import is_quantity, mag
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg
    from kepgrid import body_kwargs, elements, phases, reference, select, tolerance

    st, name = task["st"], task["name"]
    el = select(elements(ctx.tier), st)
    semi = name.startswith("semi")
    if semi or name == "parallax":
        keep = el["m"] > 0
        el = {k: v[keep] for k, v in el.items()}
    if name == "massless":
        el["m"] = 0 * el["m"]
    if name.startswith("options"):
        el = {k: v[el["m"] > 0] for k, v in el.items()}
        return options(ctx, {k: v[:: max(1, len(v) // 3)] for k, v in el.items()}, st)
    ph = phases(19 if ctx.tier == "quick" else 101)
    K = 0.37

    def build(x, **extra):
        return OrbitalBody(Central(mass=x["M"], radius=1.0), Body(**body_kwargs(st, x, jnp, mass=name != "massless"), **extra))

    if name == "semi-units":
        x = {k: float(v[5]) for k, v in el.items()}
        t = 0.77
        plain, withK = build(x), build(x, radial_velocity_semiamplitude=K)
        kms = ureg.Quantity(K * 6.957e8 / 86400.0, "m/s")
        withms = build(x, radial_velocity_semiamplitude=kms)
        for meth in ("velocity", "central_velocity", "relative_velocity", "radial_velocity"):
            def comps(b, s=None):
                r = getattr(b, meth)(t) if s is None else getattr(b, meth)(t, semiamplitude=s)
                return r if isinstance(r, tuple) else (r,)

            want = np.array([mag(c, "R_sun/day") for c in comps(withK)])
            variants = {
                "attr-ms": comps(withms), "arg-q": comps(plain, ureg.Quantity(K, "R_sun/day")),
                "arg-ms": comps(plain, kms), "both": comps(build(x, radial_velocity_semiamplitude=9.0), ureg.Quantity(K, "R_sun/day")),
            }
            for k, v in variants.items():
                for c in v:
                    ctx.check(is_quantity(c), f"semi-units:{k}:{meth}:not-a-quantity")
                ctx.close(np.array([mag(c, "R_sun/day") for c in v]), want, f"semi-units:{k}:{meth}", tol=1e-12)
                ctx.count(states=1, traces=1)
            for k, s in (("float", K), ("array", jnp.asarray(K)), ("np", np.float64(K))):
                for b in (plain, withK):
                    v = comps(b, s)
                    for c in v:
                        ctx.check(not is_quantity(c), f"semi-units:bare-{k}:{meth}:is-a-quantity", got=repr(v))
                    ctx.close(np.array([mag(c) for c in v]), want, f"semi-units:bare-{k}:{meth}", tol=1e-12)
                    ctx.count(states=1, traces=1)
        ctx.sample(dict(semiamplitude="0.37 bare / R_sun/d / m/s"))
        return

    t, X, V, a = reference(el, ph)
    k0 = 2 * np.pi * a / el["P"] / np.sqrt(1 - el["e"] ** 2)
    tol = tolerance(el, ph, a) * k0[:, None] * 3
    mt = el["m"] + el["M"]
    fb, fc = (el["M"] / mt)[:, None], -(el["m"] / mt)[:, None]
    lab = {k: v[:, None] for k, v in el.items()} | dict(phase=ph[None])
    names = ["relative_velocity", "velocity", "central_velocity"]
    if name == "massless":
        names = names[:2]
    unit = "arcsec/day" if name == "parallax" else "R_sun/day"

    def f(x, t):
        extra = {}
        if semi:
            extra["radial_velocity_semiamplitude"] = K
        if name == "parallax":
            extra["parallax"] = 20.0
        b = build(x, **extra)
        out = [jnp.stack([c.to(unit).magnitude for c in getattr(b, n)(t)]) for n in names]
        if "central_velocity" in names:
            out.append(b.radial_velocity(t).to(unit).magnitude[None])
            if name != "parallax":
                s = System(b.central, bodies=[b])
                out.append(s.radial_velocity(t).to(unit).magnitude)
        return out

    got = jax.jit(jax.vmap(f))({k: jnp.asarray(v) for k, v in el.items()}, jnp.asarray(t))
    got = [np.moveaxis(np.asarray(g), 1, 0) for g in got]
    n = X[0].size
    frac = dict(relative_velocity=1.0, velocity=fb, central_velocity=fc)
    sc = 1.0
    if name == "parallax":
        sc = 20.0 * 6.957e8 / 1.49597870700e11
    if not semi:
        for i, nm in enumerate(names):
            for c in range(3):
                ctx.close(got[i][c], frac[nm] * V[c] * sc, f"{nm}-{'xyz'[c]}", tol=tol * sc, labels=lab, detail=dict(structure=st))
            ctx.count(states=3 * n, traces=3 * n)
        if len(names) == 3:
            for g in got[3:]:
                ctx.close(g[0], -fc * V[2] * sc, "radial_velocity", tol=tol * sc, labels=lab, detail=dict(structure=st))
                ctx.count(states=n, traces=n)
            mom = el["m"][:, None] * got[1] + el["M"][:, None] * got[2]
            ctx.close(mom, 0 * mom, "momentum", tol=tol * sc * (el["m"] + el["M"])[:, None])
    else:
        # K [cos(f + omega) + e cos omega]: the star's velocity along the line of sight for
        # an orbit seen edge on and scaled to semi-amplitude K
        el2 = dict(el, inc=0 * el["inc"] + np.pi / 2)
        _, _, V2, _ = reference(el2, ph)
        rv = K * V2[2] / k0[:, None]
        tol = tol / k0[:, None] * K
        for g in got[3:]:
            ctx.close(g[0], rv, "semi-radial_velocity", tol=tol, labels=lab, detail=dict(structure=st))
            ctx.count(states=n, traces=n)
        ratio = (el["M"] / el["m"])[:, None]
        ctx.close(got[2][2], -rv, "semi-central-z", tol=tol, labels=lab)
        for c in range(3):
            ctx.close(got[1][c], -ratio * got[2][c], "semi-velocity", tol=tol * (1 + ratio), labels=lab, detail=dict(structure=st))
            ctx.close(got[0][c], -(1 + ratio) * got[2][c], "semi-relative", tol=tol * (1 + ratio), labels=lab, detail=dict(structure=st))
            ctx.count(states=2 * n, traces=2 * n)
    ctx.sample(dict(structure=st, phase=float(ph[3]), want=V[:, 7, 3].tolist(), got=got[0][:, 7, 3].tolist()))
