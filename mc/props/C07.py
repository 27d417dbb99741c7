"""Equivalent parametrizations of one orbit."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "breadth-first over re-specifications of an orbit: {period | semimajor} x {inclination "
    "| impact parameter | none} x {transit | periastron | none} x {omega | sin,cos | none} x "
    "{node angle | sin,cos | none} x {default units | other units} full product for every "
    "base element set, plus every way of attaching the body to its star; states = "
    "specifications, transitions = parameters re-specified, each state's derived parameters "
    "and positions/velocities compared with the reference orbit"
)
ASSUME = ["reference two-body solution in extended precision (mc/oracles.py)"]
BASES = [
    # P, e, w, inc, Om, t0, m, M, R
    (3.0, 0.3, 0.7, 1.5, 0.4, 1.3, 0.05, 1.0, 1.0),
    (40.0, 0.0, 0.0, 1.55, -2.0, -7.0, 0.0, 0.5, 0.4),
    (0.9, 0.7, -np.pi / 2, 1.3, np.pi, 0.2, 0.4, 2.0, 2.0),
    (300.0, 0.9, 4.0, np.pi / 2, 0.0, 100.0, 1e-3, 1.0, 1.0),
    (3.0, 0.5, np.pi, 1.62, 0.0, 0.0, 1.0, 1.0, 1.0),
    (3.0, 0.6, np.pi / 2, 1.45, 1.0, 0.5, None, 1.0, 0.7),
    (2.0, 0.0, 2.2, 1.5, 1.0, 0.5, 0.01, 1.0, 1.0),
    (11.0, 0.2, 0.0, 1.7, 5.0, 3.0, 0.1, 1.0, 1.0),
    # angles outside the principal range
    (7.0, 0.4, 8.0, -1.4, -9.0, 2.0, 0.2, 1.0, 1.0),
    (5.0, 0.1, -7.0, 4.6, 0.3, -1.0, 0.01, 0.8, 0.9),
]
MENU = dict(
    size=["period", "semimajor"], incl=["inclination", "impact", "none"],
    time=["transit", "peri", "none"], ecc=["angle", "sincos", "none"],
    node=["angle", "sincos", "none"], units=["bare", "other"],
)


def tasks(tier):
    t = [dict(name=f"base{i}", base=i) for i in range(len(BASES))]
    t.append(dict(name="attach"))
    t.append(dict(name="grid", cost=5))
    return t


def truth(base, s):
    """The elements this specification describes (dropping what it leaves out), or None
    when it is not expressible."""
    P, e, w, inc, Om, t0, m, M, R = base
    if s["ecc"] == "none":
        e = w = 0.0
    if s["incl"] == "none":
        inc = np.pi / 2
    if s["incl"] == "impact":
        # an impact parameter stands for the inclination in [0, pi]
        inc = np.arccos(np.cos(inc))
    if s["node"] == "none":
        Om = 0.0
    if s["time"] == "none":
        t0 = 0.0
    return P, e, w, inc, Om, t0, m, M, R


def derived(el):
    from oracles import semimajor

    P, e, w, inc, Om, t0, m, M, R = el
    a = semimajor(P, M + (0.0 if m is None else m))
    f0 = np.pi / 2 - w
    E0 = np.arctan2(np.sqrt(1 - e * e) * np.sin(f0), e + np.cos(f0))
    M0 = E0 - e * np.sin(E0)
    b = a * np.cos(inc) / R * (1 - e * e) / (1 + e * np.sin(w))
    tp = t0 - M0 * P / (2 * np.pi)
    return a, b, tp


def kwargs(el, s, ureg):
    P, e, w, inc, Om, t0, m, M, R = el
    a, b, tp = derived(el)
    o = s["units"] == "other"
    Q = ureg.Quantity
    kw = {}
    if s["size"] == "period":
        kw["period"] = Q(P * 24.0, "hour") if o else P
    else:
        kw["semimajor"] = Q(a * 6.957e8 / 1.49597870700e11, "au") if o else a
    if s["incl"] == "inclination":
        kw["inclination"] = Q(inc * 180 / np.pi, "degree") if o else inc
    elif s["incl"] == "impact":
        kw["impact_param"] = Q(b, "dimensionless") if o else b
    if s["time"] == "transit":
        kw["time_transit"] = Q(t0 * 86400.0, "s") if o else t0
    elif s["time"] == "peri":
        kw["time_peri"] = Q(tp * 1440.0, "minute") if o else tp
    if s["ecc"] != "none":
        kw["eccentricity"] = Q(e, "dimensionless") if o else e
        if s["ecc"] == "angle":
            kw["omega_peri"] = Q(w * 180 / np.pi, "degree") if o else w
        else:
            kw["sin_omega_peri"], kw["cos_omega_peri"] = np.sin(w), np.cos(w)
    if s["node"] == "angle":
        kw["asc_node"] = Q(Om * 180 / np.pi, "degree") if o else Om
    elif s["node"] == "sincos":
        kw["sin_asc_node"], kw["cos_asc_node"] = np.sin(Om), np.cos(Om)
    if m is not None:
        kw["mass"] = Q(m * 1.3271244e20 / 3.986004e14, "M_earth") if o else m
    kw["radius"] = Q(0.1 * 6.957e8 / 6.3781e6, "R_earth") if o else 0.1
    return kw


T = np.array([-17.3, 0.0, 0.11, 1.3, 2.2, 250.0])


def compare(ctx, b, el, key, detail, eccless=False):
    from framework import mag
    from oracles import two_body

    P, e, w, inc, Om, t0, m, M, R = el
    a, bb, tp = derived(el)
    wrap = lambda x: np.arctan2(np.sin(x), np.cos(x))  # noqa

    def eq(name, got, want, tol):
        ctx.check(abs(float(got) - want) <= tol, f"{key}:{name}", got=float(got), want=float(want), **detail)

    eq("period", mag(b.period, "day"), P, 1e-11 * P)
    eq("semimajor", mag(b.semimajor, "R_sun"), a, 1e-11 * a)
    eq("impact_param", mag(b.impact_param, ""), bb, 1e-10 * (1 + a / R))
    inc_got = float(mag(b.inclination, "radian"))
    eq("inclination", wrap(inc_got - inc), 0.0, 1e-9)
    eq("time_transit", mag(b.time_transit, "day"), t0, 1e-10 * (abs(t0) + P))
    # the periastron epoch is defined modulo the period
    tp_got = float(mag(b.time_peri, "day"))
    d = wrap((tp_got - tp) / P * 2 * np.pi)
    eq("time_peri", d, 0.0, 1e-9 * (1 + abs(t0) / P))
    eq("total_mass", mag(b.total_mass, "M_sun"), M + (m or 0.0), 1e-12)
    eq("central_radius", mag(b.central_radius, "R_sun"), R, 1e-12)
    eq("radius", mag(b.radius, "R_sun"), 0.1, 1e-12)
    if eccless:
        ctx.check(b.omega_peri is None, f"{key}:omega-none", **detail)
    else:
        eq("omega_peri", wrap(float(mag(b.omega_peri, "radian")) - w), 0.0, 1e-12)
    third = 4 * np.pi**2 * float(mag(b.semimajor, "m")) ** 3 / (
        6.67430e-11 * float(mag(b.total_mass, "kg")) * float(mag(b.period, "s")) ** 2)
    eq("third-law", third, 1.0, 1e-9)
    X, V = two_body(T, P, e, w, inc, Om, t0, a)
    got = b.relative_position(T)
    amp = (1 + abs(t0 / P) + 250 / P) / (1 - e) ** 1.5 * 1e-12
    for c in range(3):
        ctx.close(mag(got[c], "R_sun"), X[c], f"{key}:position", tol=a * amp + 1e-9 * a, detail=detail)
    got = b.relative_velocity(T)
    k = 2 * np.pi * a / P / np.sqrt(1 - e * e)
    for c in range(3):
        ctx.close(mag(got[c], "R_sun/day"), V[c], f"{key}:velocity", tol=k * amp * 5 + 1e-9 * k, detail=detail)
    # the impact parameter is the sky separation at mid transit in stellar radii
    x0, y0, z0 = (float(mag(c, "R_sun")) for c in b.relative_position(t0))
    eq("impact-is-separation", np.hypot(x0, y0) / R, abs(bb), 1e-8 * (1 + a / R) * (1 + abs(t0 / P)) / (1 - e) ** 1.5)
    ctx.count(states=1, traces=1)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import product
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    if name.startswith("base"):
        base = BASES[task["base"]]
        for s in product(MENU):
            if ctx.tier == "quick" and s["units"] == "other" and sum(
                s[k] != MENU[k][0] for k in ("size", "incl", "time", "ecc", "node")
            ) > 1:
                continue
            el = truth(base, s)
            c = Central(mass=el[7], radius=el[8])
            if s["units"] == "other":
                c = Central(mass=ureg.Quantity(el[7] * 1.3271244e20 / 6.67430e-11, "kg"), radius=ureg.Quantity(el[8] * 6.957e5, "km"))
            b = OrbitalBody(c, Body(**kwargs(el, s, ureg)))
            compare(ctx, b, el, "spec", dict(spec=s, elements=el), eccless=s["ecc"] == "none")
            ctx.count(transitions=sum(s[k] != MENU[k][0] for k in s))
        ctx.sample(dict(elements=base, specification=s))
    elif name == "attach":
        s0 = {k: v[0] for k, v in MENU.items()}
        for base in BASES:
            el = truth(base, s0)
            kw = kwargs(el, s0, ureg)
            c = Central(mass=el[7], radius=el[8])
            other = Central(mass=7.0, radius=3.0)
            B = Body(**kw)
            ways = {
                "orbitalbody": OrbitalBody(c, B),
                "system-bodies": System(c, bodies=[B]).bodies[0],
                "system-bodies-tuple": System(central=c, bodies=(b for b in (B,))).bodies[0],
                "system-orbitalbody": System(c, bodies=[OrbitalBody(c, B)]).bodies[0],
                "add_body": System(c).add_body(B).bodies[0],
                "add_body-kw": System(c).add_body(**kw).bodies[0],
                "add_body-orbitalbody": System(other).add_body(OrbitalBody(c, B)).bodies[0],
                "add_body-central": System(other).add_body(B, central=c).bodies[0],
                "add_body-kw-central": System(other).add_body(central=c, **kw).bodies[0],
                "second": System(c).add_body(period=1.0, radius=0.3).add_body(B).bodies[1],
                "first": System(c).add_body(B).add_body(period=1.0, radius=0.3).bodies[0],
                "reuse": System(c, bodies=System(c, bodies=[B]).bodies).bodies[0],
            }
            for k, b in ways.items():
                compare(ctx, b, el, "attach:" + k, dict(elements=el))
                ctx.count(transitions=1)
        d = System().add_body(period=5.0).bodies[0]
        compare_default = OrbitalBody(Central(), Body(period=5.0))
        ctx.check(float(d.semimajor.magnitude) == float(compare_default.semimajor.magnitude), "attach:default")
        ctx.sample("System(c).add_body(B) vs OrbitalBody(c, B)")
    else:
        # derived parameters over a large element grid for each specification, traced
        P = [0.5, 3.0, 1000.0]
        grid = np.array(list(itertools.product(
            P, [0.0, 0.2, 0.6, 0.95], [0.0, 0.5, np.pi / 2, 3.0, -np.pi / 2, -0.5], [1.571, 1.5, 1.3, 1.65], [0.0, 5.0], [0.0, 0.3], [0.5, 2.0], [0.3, 2.0])))
        k9 = ("P", "e", "w", "inc", "t0", "m", "M", "R")
        for size, incl, time, ecc in itertools.product(MENU["size"], MENU["incl"][:2], MENU["time"][:2], MENU["ecc"][:2]):
            s = dict(size=size, incl=incl, time=time, ecc=ecc, node="none", units="bare")
            cols = dict(zip(k9, grid.T))
            a, bb, tp = derived((cols["P"], cols["e"], cols["w"], cols["inc"], 0.0, cols["t0"], cols["m"], cols["M"], cols["R"]))

            def f(c, a, bb, tp):
                kw = dict(mass=c["m"], eccentricity=c["e"])
                kw.update(period=c["P"]) if size == "period" else kw.update(semimajor=a)
                kw.update(inclination=c["inc"]) if incl == "inclination" else kw.update(impact_param=bb)
                kw.update(time_transit=c["t0"]) if time == "transit" else kw.update(time_peri=tp)
                if ecc == "angle":
                    kw.update(omega_peri=c["w"])
                else:
                    kw.update(sin_omega_peri=jnp.sin(c["w"]), cos_omega_peri=jnp.cos(c["w"]))
                b = OrbitalBody(Central(mass=c["M"], radius=c["R"]), Body(**kw))
                pos = b.relative_position(b.time_transit)
                return [v.magnitude for v in (b.period, b.semimajor, b.impact_param, b.inclination, b.time_transit, b.time_peri, b.omega_peri, *pos)]

            g = [np.asarray(v) for v in jax.jit(jax.vmap(f))(cols, a, bb, tp)]
            lab = cols
            amp = (1 + np.abs(cols["t0"] / cols["P"])) / (1 - cols["e"]) ** 1.5
            rt = a * (1 - cols["e"] ** 2) / (1 + cols["e"] * np.sin(cols["w"]))
            for nm, got, want, tol in (
                ("period", g[0], cols["P"], 1e-11 * cols["P"]), ("semimajor", g[1], a, 1e-11 * a),
                ("impact_param", g[2], bb, 1e-10 * (1 + rt / cols["R"])), ("inclination", g[3], cols["inc"], 1e-8),
                ("time_transit", g[4], cols["t0"], 1e-10 * (cols["P"] + 5)), ("time_peri", g[5], tp, 1e-10 * (cols["P"] + 5)),
                ("omega_peri", np.cos(g[6] - cols["w"]), 1.0 + 0 * a, 1e-12),
                ("transit-separation", np.hypot(g[7], g[8]), np.abs(bb) * cols["R"], 1e-9 * a * amp),
                ("transit-depth", g[9], rt * np.sin(cols["inc"]), 1e-9 * a * amp),
            ):
                if nm == "time_peri":
                    # modulo the period
                    got = want + (got - want) - cols["P"] * np.rint((got - want) / cols["P"])
                ctx.close(got, want, f"grid:{nm}", tol=tol, labels=lab, detail=s)
            ctx.count(states=len(grid), transitions=1, traces=len(grid))
