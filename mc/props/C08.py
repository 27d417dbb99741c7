"""Positions against an independent two-body solution."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "every structure (circular/omega/sin-cos omega x node none/angle/sin-cos) x element "
    "grid (angle product incl. 0, +-pi/2, pi and > pi; period/epoch/mass product) x phase "
    "grid (conjunctions, quadratures, lattice, 100 cycles before to 41 after); every "
    "position-like observable; non-trivial = all (the bodies move)"
)
ASSUME = ["reference two-body solution in extended precision (mc/oracles.py)"]


def tasks(tier):
    from kepgrid import structures

    t = [dict(name=f"{s['ecc']}-{s['node']}", st=s, cost=3) for s in structures()]
    t += [dict(name="parallax", st=dict(ecc="angle", node="angle"), cost=2), dict(name="massless", st=dict(ecc="angle", node="angle")),
          *(dict(name=f"options-{e}-{n}", st=dict(ecc=e, node=n)) for e, n in (("none", "none"), ("angle", "angle"), ("sincos", "none"))),
          dict(name="calling", st=dict(ecc="angle", node="angle")),
          dict(name="f32", st=dict(ecc="angle", node="angle"), x64=False)]
    return t


def calling(ctx, el, st):
    """every way of handing over the times"""
    import jax.numpy as jnp
    from framework import mag
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg
    from kepgrid import body_kwargs
    from oracles import semimajor, two_body

    T = np.array([[-3.0, 0.0, 2.0], [5.0, -41.0, 1.0]])
    forms = {
        "np": T, "jnp": jnp.asarray(T), "int": T.astype(int), "q-day": T * ureg.day, "q-int": T.astype(int) * ureg.day,
        "q-hour": (T * 24) * ureg.hour, "q-s": ureg.Quantity(T * 86400.0, "s"), "row": T[0], "scalar": 2.0, "int-scalar": 2,
        "zero-d": np.array(2.0), "q-scalar": 48.0 * ureg.hour, "empty": np.zeros((0,)), "3d": T[None],
    }
    base = {"row": T[0], "scalar": 2.0, "int-scalar": 2.0, "zero-d": 2.0, "q-scalar": 2.0, "empty": np.zeros(0), "3d": T[None]}
    for j in range(len(el["P"])):
        x = {k: float(v[j]) for k, v in el.items()}
        b = OrbitalBody(Central(mass=x["M"], radius=1.0), Body(**body_kwargs(st, x, jnp)))
        s = System(b.central, bodies=[b])
        a = semimajor(x["P"], x["m"] + x["M"])
        for k, t in forms.items():
            tt = np.asarray(base.get(k, T))
            X, V = two_body(tt, **{q: x[q] for q in ("P", "e", "w", "inc", "Om", "t0")}, a=a)
            fb = x["M"] / (x["m"] + x["M"])
            for nm, src, w, f, unit in (
                ("relative_position", b, X, 1, "R_sun"), ("position", b, X, fb, "R_sun"), ("central_position", b, X, fb - 1, "R_sun"),
                ("velocity", b, V, fb, "R_sun/day"), ("relative_position", s, X, 1, "R_sun"), ("central_velocity", s, V, fb - 1, "R_sun/day"),
            ):
                got = getattr(src, nm)(t)
                for c in range(3):
                    want = np.asarray(w[c]) * f
                    ctx.close(mag(got[c], unit), want[None] if src is s else want, f"calling:{k}:{type(src).__name__}.{nm}",
                              tol=1e-9 * (1 + np.abs(want).max() if want.size else 1), detail=x)
                ctx.count(states=1, traces=1)


def options(ctx, el, st):
    """every combination of the other optional parameters of a body: none changes its positions but the parallax,
    which scales them"""
    import itertools

    import jax.numpy as jnp
    from framework import mag
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg
    from kepgrid import body_kwargs
    from oracles import semimajor, two_body

    T = np.array([-3.1, 0.2, 2.0, 40.7])
    au = 1.49597870700e11 / 6.957e8
    Q = ureg.Quantity
    attr = {None: None, 20.0: 20.0, 0.002: 0.002, 1e-6: Q(1e-3, "milliarcsecond")}
    arg = {None: None, 3.0: 3.0, 0.005: Q(5.0, "milliarcsecond"), 700.0: Q(700.0 / 3600, "degree")}
    for j in range(len(el["P"])):
        x = {k: float(v[j]) for k, v in el.items()}
        a = semimajor(x["P"], x["m"] + x["M"])
        X, _ = two_body(T, **{q: x[q] for q in ("P", "e", "w", "inc", "Om", "t0")}, a=a)
        fb = x["M"] / (x["m"] + x["M"])
        for pa, pg, K, rad in itertools.product(attr, arg, (None, 0.37), (None, 0.1)):
            b = OrbitalBody(Central(mass=x["M"], radius=1.0), Body(
                **body_kwargs(st, x, jnp), parallax=attr[pa], radial_velocity_semiamplitude=K, radius=rad))
            sysm = System(b.central).add_body(b)
            par = pa if pg is None else pg
            sc, unit = (1.0, "R_sun") if par is None else (par / au, "arcsec")
            d = dict(parallax=pa, parallax_arg=pg, semiamplitude=K, radius=rad, **x)
            for nm, f in (("relative_position", 1), ("position", fb), ("central_position", fb - 1)):
                got = [("body", getattr(b, nm)(T, **({} if pg is None else dict(parallax=arg[pg]))))]
                if pg is None:
                    got.append(("system", [c[0] for c in getattr(sysm, nm)(T)]))
                for who, g in got:
                    for c in range(3):
                        ctx.close(mag(g[c], unit) / sc, X[c] * f, f"options:{who}:{nm}", tol=1e-9 * (1 + a), detail=d)
                    ctx.count(states=1, traces=1)
            rho, th = b.relative_angles(T, **({} if pg is None else dict(parallax=arg[pg])))
            ctx.close(mag(rho, unit) / sc, np.hypot(X[0], X[1]), "options:separation", tol=1e-9 * (1 + a), detail=d)
            ctx.count(states=1, traces=1)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
    from jaxoplanet.units import unit_registry as ureg
    from kepgrid import body_kwargs, elements, phases, reference, select, tolerance

    st, name = task["st"], task["name"]
    el = select(elements(ctx.tier), st)
    ph = phases(19 if ctx.tier == "quick" else 101)
    f32 = not task["x64"]
    if name.startswith("options"):
        return options(ctx, {k: v[:: max(1, len(v) // 3)] for k, v in el.items()}, st)
    if name == "calling":
        return calling(ctx, {k: v[:: len(v) // 4] for k, v in el.items()}, st)
    if f32:
        keep = (el["e"] < 0.8)
        el = {k: v[keep].astype(np.float32).astype(float) for k, v in el.items()}
        ph = ph[np.abs(ph) < 3]
    if name == "massless":
        el["m"] = 0 * el["m"]
    t, X, V, a = reference(el, ph)
    tol = tolerance(el, ph, a) * a[:, None]
    if f32:
        t0 = t
        t = t.astype(np.float32).astype(float)
        from oracles import two_body
        X = np.array(two_body(t, **{k: el[k][:, None] for k in ("P", "e", "w", "inc", "Om", "t0")}, a=a[:, None])[0])
        tol = tol * 3e8 + 1e-5 * a[:, None]
    frac_b = (el["M"] / (el["m"] + el["M"]))[:, None]
    frac_c = -(el["m"] / (el["m"] + el["M"]))[:, None]
    par = 20.0 + 0 * el["P"]
    names = ["relative_position", "position", "central_position"]
    if name == "massless":
        names = names[:2]

    def build(x, **extra):
        return OrbitalBody(Central(mass=x["M"], radius=1.0), Body(**body_kwargs(st, x, jnp, mass=name != "massless"), **extra))

    def f(x, t):
        b = build(x)
        out = [jnp.stack([c.to("R_sun").magnitude for c in getattr(b, n)(t)]) for n in names]
        if name == "parallax":
            bp = build(x, parallax=20.0)
            out += [jnp.stack([c.to("arcsec").magnitude for c in getattr(bp, n)(t)]) for n in names]
            out += [jnp.stack([c.to("arcsec").magnitude for c in getattr(b, n)(t, parallax=20.0)]) for n in names]
            # the argument overrides the attribute, any unit is accepted
            out += [jnp.stack([c.to("arcsec").magnitude for c in getattr(bp, n)(t, parallax=ureg.Quantity(40.0, "arcsec"))]) for n in names]
        rho, theta = b.relative_angles(t)
        out += [jnp.stack([mag(rho, "R_sun") if False else rho.to("R_sun").magnitude, theta.to("radian").magnitude])]
        if name == "parallax":
            rho, theta = bp.relative_angles(t)
            out += [jnp.stack([rho.to("arcsec").magnitude, theta.to("radian").magnitude])]
        return out

    got = jax.jit(jax.vmap(f))({k: jnp.asarray(v) for k, v in el.items()}, jnp.asarray(t))
    got = [np.moveaxis(np.asarray(g), 1, 0) for g in got]
    lab = {k: v[:, None] for k, v in el.items()} | dict(phase=ph[None])
    frac = dict(relative_position=1.0, position=frac_b, central_position=frac_c)
    n = X[0].size
    i = 0
    au = 1.49597870700e11 / 6.957e8
    scales = [1.0] if name != "parallax" else [1.0, 20.0 / au, 20.0 / au, 40.0 / au]
    for k, sc in enumerate(scales):
        for nm in names:
            for c in range(3):
                ctx.close(got[i][c], frac[nm] * X[c] * sc, f"{nm}-{'xyz'[c]}{'-parallax' if k else ''}",
                          tol=tol * sc + 1e-13 * a[:, None], labels=lab, detail=dict(structure=st))
            ctx.count(states=3 * n, traces=3 * n)
            i += 1
    for sc in [1.0] if name != "parallax" else [1.0, 20.0 / au]:
        rho = np.hypot(X[0], X[1])
        ctx.close(got[i][0], rho * sc, "separation", tol=(tol + 1e-13 * a[:, None]) * sc, labels=lab)
        # compare the direction as a vector
        for c, fn in enumerate((np.cos, np.sin)):
            ctx.close(rho * fn(got[i][1]), X[c], "angle", tol=2 * tol + 1e-12 * a[:, None], labels=lab)
        ctx.count(states=2 * n, traces=2 * n)
        i += 1
    # geometric facts stated independently of the reference orbit
    z = got[0][2]
    at0 = ph == 0.0
    front = (np.sin(el["inc"]) > 1e-6) & (el["e"] < 0.95)
    ctx.check((z[front][:, at0] > 0).all(), "in-front-at-transit", structure=st)
    ctx.sample(dict(structure=st, elements={k: float(v[7]) for k, v in el.items()}, phase=float(ph[3]),
                    want=X[:, 7, 3].tolist(), got=got[0][:, 7, 3].tolist()))
