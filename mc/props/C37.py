"""Different descriptions of the same orbital system give the same observables."""

import numpy as np

from oracles import real_sph, rz, semimajor, sphere_points

LEVEL = "model_checking"
RULE = (
    "BFS from the base systems over all words over the rewrites of the description that describe the same thing seen "
    "(period against semimajor axis, transit against periastron, inclination against impact parameter, angles against "
    "their sines and cosines, absent against zero, whole turns and cycles, other units, reading the parameters back from "
    "the orbit, mass against density against radius of the central; turning, mirroring and reversing the sky and the clock, "
    "scaling lengths and times, order of the bodies, bodies that show nothing, ways to assemble the system) to depth 2 "
    "(thorough 3); in every state positions, velocities, radial velocities, transit, emission and map light curves are "
    "those of the base; a state is a description"
)
ASSUME = ["times within 1e-3 of the radii of contact, and bodies within 1e-6 of the plane of the sky, are not compared in flux"]

PTS = sphere_points(60)


def fit1(l, coords, y):
    return np.linalg.lstsq(real_sph(l, *PTS), real_sph(l, *coords) @ y, rcond=None)[0]


def bases(tier):
    def body(**kw):
        b = dict(P=3.0, t0=0.0, i=np.pi / 2, e=0.0, w=0.5, Om=0.0, m=0.0, r=0.2, ghost=False)
        b.update(size="period", time="transit", orient="incl", ecc="angle", node="angle", mass="value", form="body", units=0)
        b.update(kw)
        return b

    def surf(**kw):
        s = dict(y=np.array([1.0, 0.1, -0.2, 0.15]), u=(0.3, 0.1), inc=1.2, obl=0.2, period=7.0, phase=0.5, amp=1.0)
        s.update(kw)
        return s

    out = dict(
        pair=dict(
            M=0.9, R=1.1,
            bodies=(
                body(P=3.0, t0=0.4, i=1.52, e=0.35, w=0.8, Om=0.3, m=0.05, r=0.15, surf=surf(amp=0.3)),
                body(P=4.5, t0=0.1, i=1.6, e=0.0, w=2.0, Om=-0.4, m=0.1, r=0.35, surf=surf(amp=0.6, u=(0.2, 0.0), obl=1.0, inc=0.7, period=4.5)),
            ),
            surf=surf(),
        ),
        plain=dict(M=1.0, R=1.0, bodies=(body(P=5.0, r=0.3, e=0.0, surf=surf(y=np.array([1.0, 0.0, 0.2, 0.0]), inc=np.pi / 2, obl=0.0, amp=0.5)),), surf=surf(obl=0.0, phase=0.0)),
        grazing=dict(
            M=1.3, R=1.6,
            bodies=(body(P=2.2, t0=-0.7, i=np.pi - 1.35, e=0.5, w=-2.0, Om=2.4, m=0.7, r=0.9, surf=surf(amp=0.8, inc=2.0, obl=-0.5)),),
            surf=surf(u=(0.4, 0.2), inc=0.9, obl=0.8),
        ),
    )
    for s in out.values():
        s.update(central="mr", clock=(1.0, 0.0), k=1.0, sky=np.eye(2), assembly="constructor", flip=1)
        for j, b in enumerate(s["bodies"]):
            b["id"] = j
    return out


def rewrites(nb):
    R = {}

    def add(name, f):
        R[name] = f

    def on(j, f):
        """apply to the j-th body of the description"""

        def g(s):
            if j >= len(s["bodies"]) or s["bodies"][j]["ghost"]:
                return None
            ch = f(s["bodies"][j], s)
            if ch is None:
                return None
            b = list(s["bodies"])
            b[j] = {**b[j], **ch}
            return dict(bodies=tuple(b))

        return g

    for j in range(nb):
        def bod(name, f, j=j):
            add(f"{name}-{j}", on(j, f))

        bod("semimajor", lambda b, s: dict(size="semimajor" if b["size"] == "period" else "period"))
        bod("peri", lambda b, s: dict(time="peri" if b["time"] != "peri" else "transit"))
        bod("no-time", lambda b, s: dict(time="none") if b["t0"] == 0 and b["time"] != "none" else None)
        bod("cycles", lambda b, s: dict(t0=b["t0"] + 3 * b["P"], time="transit" if b["time"] == "none" else b["time"]))
        bod("impact", lambda b, s: dict(orient="impact" if b["orient"] != "impact" else "incl"))
        bod("no-incl", lambda b, s: dict(orient="none") if b["i"] == np.pi / 2 and b["orient"] != "none" else None)
        bod("w-sincos", lambda b, s: dict(ecc="sincos" if b["ecc"] != "sincos" else "angle"))
        bod("w-turn", lambda b, s: dict(w=b["w"] + 2 * np.pi, ecc="angle"))
        bod("no-ecc", lambda b, s: dict(ecc="none") if b["e"] == 0 and b["ecc"] != "none" else None)
        bod("any-w", lambda b, s: dict(w=b["w"] + 1.234, ecc="angle") if b["e"] == 0 else None)
        bod("node-sincos", lambda b, s: dict(node="sincos" if b["node"] != "sincos" else "angle"))
        bod("node-turn", lambda b, s: dict(Om=b["Om"] - 2 * np.pi, node="angle"))
        bod("no-node", lambda b, s: dict(node="none") if b["Om"] == 0 and b["node"] != "none" else None)
        bod("no-mass", lambda b, s: dict(mass="none") if b["m"] == 0 and b["mass"] != "none" else None)
        bod("units", lambda b, s: dict(units=(b["units"] + 1) % 3))
        bod("orbital-body", lambda b, s: dict(form="orbital") if b["form"] == "body" else dict(form="body"))
        bod("again", lambda b, s: dict(form="again"))
        bod("again-peri", lambda b, s: dict(form="again-peri"))

    add("central-density", lambda s: dict(central="md" if s["central"] != "md" else "rd"))
    add("central-radius-density", lambda s: dict(central="rd" if s["central"] != "rd" else "units"))
    add("central-from-orbit", lambda s: dict(central="orbit"))
    add("add-body", lambda s: dict(assembly="add" if s["assembly"] != "add" else "constructor"))
    add("add-body-keywords", lambda s: dict(assembly="keywords"))

    def each(s, f, fs):
        return dict(
            bodies=tuple({**b, **f(b), "surf": {**b["surf"], **fs(b["surf"])}} for b in s["bodies"]),
            surf={**s["surf"], **fs(s["surf"])},
        )

    def timed(b, t0):
        return dict(t0=t0, time="transit" if b["time"] == "none" and t0 != 0 else b["time"])

    def shift(s, d=0.73):
        return dict(clock=(s["clock"][0], s["clock"][1] + d), **each(s, lambda b: timed(b, b["t0"] + d), lambda q: dict(phase=q["phase"] - 2 * np.pi * d / q["period"])))

    def slow(s, c=2.0):
        return dict(
            clock=(s["clock"][0] * c, s["clock"][1] * c), M=s["M"] / c**2,
            **each(s, lambda b: dict(P=b["P"] * c, t0=b["t0"] * c, m=b["m"] / c**2), lambda q: dict(period=q["period"] * c)),
        )

    def long(s, k=3.0):
        return dict(k=s["k"] * k, M=s["M"] * k**3, R=s["R"] * k, **each(s, lambda b: dict(r=b["r"] * k, m=b["m"] * k**3), lambda q: {}))

    def noded(b, Om):
        return dict(Om=Om, node="angle" if b["node"] == "none" and Om != 0 else b["node"])

    def turn(s, d=0.9):
        return dict(sky=rz(d)[:2, :2] @ s["sky"], **each(s, lambda b: noded(b, b["Om"] + d), lambda q: dict(obl=q["obl"] + d)))

    def inclined(b):
        return dict(i=np.pi - b["i"])

    def mirror(s):
        x, y, z = PTS
        return dict(
            sky=np.diag([1.0, -1.0]) @ s["sky"],
            **each(s, lambda b: dict(**inclined(b), Om=-b["Om"]), lambda q: dict(y=fit1(1, (x, -y, z), q["y"]), obl=-q["obl"], inc=np.pi - q["inc"])),
        )

    def reverse(s):
        # time running backwards, in a mirror
        x, y, z = PTS
        c, d = s["clock"]
        return dict(
            clock=(-c, -d), sky=np.diag([-1.0, 1.0]) @ s["sky"], flip=-s["flip"],
            **each(
                s, lambda b: dict(t0=-b["t0"], w=np.pi - b["w"], Om=-b["Om"], ecc="angle" if b["ecc"] != "none" else "none"),
                lambda q: dict(y=fit1(1, (-x, y, z), q["y"]), obl=-q["obl"], phase=-q["phase"]),
            ),
        )

    def swap(s):
        return dict(bodies=s["bodies"][::-1]) if len(s["bodies"]) > 1 else None

    def ghost(how):
        def f(s):
            if any(b["ghost"] for b in s["bodies"]):
                return None
            b = dict(s["bodies"][0])
            b.update(ghost=True, id=-1, P=b["P"] * 1.7, t0=b["t0"] + 0.2, m=0.0)
            if b["time"] == "none":
                b["time"] = "transit"
            b.update(dict(r=0.0) if how == "empty" else dict(i=0.0, P=900.0, e=0.1, w=1.0, ecc="angle", node="none", mass="none", Om=0.0, form="body"))
            if b["orient"] != "incl":
                b["orient"] = "incl"
            return dict(bodies=(b, *s["bodies"]) if how == "far" else (*s["bodies"], b))

        return f

    add("shift-clock", shift)
    add("slow-clock", slow)
    add("longer", long)
    add("turn-sky", turn)
    add("mirror-sky", mirror)
    add("reverse-time", reverse)
    add("swap", swap)
    add("empty-body", ghost("empty"))
    add("far-body", ghost("far"))
    return R


def key(s):
    f = lambda v: tuple(np.round(np.ravel(v).astype(float), 9) + 0.0) if not isinstance(v, str) else v  # noqa
    surf = lambda q: tuple(f(q[k]) for k in sorted(q))  # noqa
    body = lambda b: tuple(surf(b[k]) if k == "surf" else f(b[k]) for k in sorted(b))  # noqa
    return tuple(tuple(map(body, s[k])) if k == "bodies" else surf(s[k]) if k == "surf" else f(s[k]) for k in sorted(s))


def structure(s):
    return tuple((b["ecc"] == "none", b["node"] == "none", b["mass"] == "none") for b in s["bodies"])


def tasks(tier):
    n = dict(pair=8, plain=3, grazing=3) if tier == "quick" else dict(pair=20, plain=12, grazing=12)
    return [dict(name=f"{b}-{k}", base=b, part=k, parts=n[b], cost=3) for b in bases(tier) for k in range(n[b])]


# factors from the library's units, and the unit names handed over
UNITS = [
    dict(t=(1.0, None), l=(1.0, None), m=(1.0, None), a=(1.0, None)),
    dict(t=(24.0, "hour"), l=(695700.0, "km"), m=(1.0, "M_sun"), a=(180 / np.pi, "degree")),
    dict(t=(86400.0, "s"), l=(6.957e8 / 1.495978707e11, "au"), m=(1.3271244e20 / 1.2668653e17, "M_jup"), a=(180 * 3600 / np.pi, "arcsec")),
]


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.starry.light_curves import light_curve as starry
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.units import unit_registry as ureg

    base = bases(ctx.tier)[task["base"]]
    R = rewrites(len(base["bodies"]))

    def spec(b, s):
        """keyword arguments of the description"""
        U = UNITS[b["units"]]

        def q(v, kind):
            f, n = U[kind]
            return v * f if n is None else v * f * ureg(n)

        a = float(semimajor(b["P"], s["M"] + b["m"]))
        kw = dict(radius=q(b["r"], "l"))
        kw.update(period=q(b["P"], "t")) if b["size"] == "period" else kw.update(semimajor=q(a, "l"))
        # without an argument of periastron the orbit is referred to omega = 0
        e, w = b["e"], b["w"] if b["ecc"] != "none" else 0.0
        if b["time"] == "transit":
            kw["time_transit"] = q(b["t0"], "t")
        elif b["time"] == "peri":
            f0 = np.pi / 2 - w
            E0 = np.arctan2(np.sqrt(1 - e * e) * np.sin(f0), e + np.cos(f0))
            kw["time_peri"] = q(b["t0"] - (E0 - e * np.sin(E0)) * b["P"] / (2 * np.pi), "t")
        if b["orient"] == "incl":
            kw["inclination"] = q(b["i"], "a")
        elif b["orient"] == "impact":
            kw["impact_param"] = a / s["R"] * np.cos(b["i"]) * (1 - e * e) / (1 + e * np.sin(w))
        if b["ecc"] != "none":
            kw["eccentricity"] = e
            kw.update(omega_peri=q(w, "a")) if b["ecc"] == "angle" else kw.update(sin_omega_peri=np.sin(w), cos_omega_peri=np.cos(w))
        if b["node"] == "angle":
            kw["asc_node"] = q(b["Om"], "a")
        elif b["node"] == "sincos":
            kw.update(sin_asc_node=np.sin(b["Om"]), cos_asc_node=np.cos(b["Om"]))
        if b["mass"] == "value":
            kw["mass"] = q(b["m"], "m")
        return kw

    def make_central(s):
        M, Rs = s["M"], s["R"]
        rho = 3 * M / (4 * np.pi * Rs**3)
        how = s["central"]
        if how == "orbit":
            b = s["bodies"][0]
            return Central.from_orbital_properties(period=b["P"], semimajor=float(semimajor(b["P"], M + b["m"])), radius=Rs, body_mass=b["m"])
        if how == "units":
            return Central(mass=M * UNITS[2]["m"][0] * ureg.M_jup, radius=Rs * 695700.0 * ureg.km)
        return Central(**dict(mr=dict(mass=M, radius=Rs), md=dict(mass=M, density=rho), rd=dict(radius=Rs, density=rho))[how])

    def again(o, peri):
        """a body described by the attributes of the orbit"""
        kw = dict(period=o.period, time_transit=o.time_transit, inclination=o.inclination, radius=o.radius)
        if peri:
            kw = dict(semimajor=o.semimajor, time_peri=o.time_peri, impact_param=o.impact_param, radius=o.radius)
        if o.mass is not None:
            kw["mass"] = o.mass
        if o.eccentricity is not None:
            kw.update(eccentricity=o.eccentricity)
            if peri:
                kw.update(omega_peri=o.omega_peri)
            else:
                kw.update(sin_omega_peri=o.sin_omega_peri, cos_omega_peri=o.cos_omega_peri)
        if o.cos_asc_node is not None:
            if peri:
                kw.update(sin_asc_node=o.sin_asc_node, cos_asc_node=o.cos_asc_node)
            else:
                kw.update(asc_node=jnp.arctan2(o.sin_asc_node.magnitude, o.cos_asc_node.magnitude))
        return Body(**kw)

    def make_surface(q):
        return Surface(y=Ylm.from_dense(q["y"], normalize=False), u=q["u"], inc=q["inc"], obl=q["obl"], period=q["period"], phase=q["phase"], amplitude=q["amp"], normalize=False)

    def build(s):
        c = make_central(s)
        surf = make_surface(s["surf"])
        kws = [spec(b, s) for b in s["bodies"]]
        bodies, surfs = [], [make_surface(b["surf"]) for b in s["bodies"]]
        for b, kw in zip(s["bodies"], kws):
            x = Body(**kw)
            if b["form"] == "orbital":
                x = OrbitalBody(c, x)
            elif b["form"].startswith("again"):
                x = again(OrbitalBody(c, x), b["form"] == "again-peri")
            bodies.append(x)
        if s["assembly"] == "constructor":
            return System(c, bodies=bodies), SurfaceSystem(c, surf, bodies=list(zip(bodies, surfs)))
        p, q = System(c), SurfaceSystem(c, surf)
        for b, x, kw, sf in zip(s["bodies"], bodies, kws, surfs):
            if s["assembly"] == "keywords" and b["form"] == "body":
                p, q = p.add_body(**kw), q.add_body(surface=sf, **kw)
            else:
                p, q = p.add_body(x), q.add_body(x, sf)
        return p, q

    def watch(p, q, t):
        mags = lambda X, unit: jnp.stack([v.to(unit).magnitude for v in X])  # noqa
        out = dict(
            place=mags(p.relative_position(t), ureg.R_sun), motion=mags(p.relative_velocity(t), ureg.R_sun / ureg.day),
            body=mags(q.position(t), ureg.R_sun), drift=mags(p.velocity(t), ureg.R_sun / ureg.day),
            transit=limb_dark_light_curve(p, *base["surf"]["u"])(t).T,
            emission=emission(q)(t).T, maps=starry(q, order=20)(t).T,
        )
        if all(b.mass is not None for b in p.bodies):
            out.update(star=mags(q.central_position(t), ureg.R_sun), swing=mags(q.central_velocity(t), ureg.R_sun / ureg.day))
            out["rv"] = p.radial_velocity(t).to(ureg.R_sun / ureg.day).magnitude
        return out

    watch = jax.jit(watch)
    # through the transits and eclipses, and all around
    T = []
    for b in base["bodies"]:
        d = 1.3 * b["P"] / np.pi * (base["R"] + b["r"]) / float(semimajor(b["P"], base["M"]))
        T += [b["t0"] + np.linspace(-d, d, 7), b["t0"] + 0.5 * b["P"] + np.linspace(-1.5 * d, 1.5 * d, 9), b["t0"] + b["P"] * np.array([0.2, 0.71, -0.9, 5.03])]
    T = np.concatenate(T) + 0.0123

    def observe(s):
        # the same types whichever way the numbers were given, to compile once per structure
        p, q = jax.tree_util.tree_map(lambda v: np.asarray(v, float), build(s))
        c, d = s["clock"]
        raw = {k: np.asarray(v) for k, v in watch(p, q, c * T + d).items()}
        rows = [[b["id"] for b in s["bodies"]].index(j) for j in range(len(base["bodies"]))]
        out = {}
        for k, v in raw.items():
            if k in ("emission", "maps"):
                out[k] = v[[0] + [1 + r for r in rows]]
            elif k in ("transit", "rv"):
                out[k] = v[rows] * (1.0 if k == "transit" else c / s["k"])
            else:
                v = v[:, rows] / s["k"] * (c if k in ("motion", "swing", "drift") else 1.0)
                out[k] = np.concatenate([np.einsum("ij,jbt->ibt", np.linalg.inv(s["sky"]), v[:2]), v[2:]])
        return out

    want = observe(base)
    # contacts
    skip = np.zeros((len(base["bodies"]), len(T)), bool)
    for j, b in enumerate(base["bodies"]):
        x, y, z = want["place"][:, j]
        s = np.hypot(x, y)
        skip[j] = (np.abs(z) < 1e-6) | (np.minimum(np.abs(s - base["R"] - b["r"]), np.abs(s - abs(base["R"] - b["r"]))) < 1e-3)
    both = np.concatenate([skip.any(0)[None], skip])
    scale = dict(place=np.abs(want["place"]).max(), motion=np.abs(want["motion"]).max(), body=np.abs(want["place"]).max(), drift=np.abs(want["motion"]).max())
    ctx.note_max("in transit", int((want["transit"] < 0).sum()))
    ctx.note_max("in eclipse", int((want["emission"][1:] < np.array([[0.999 * b["surf"]["amp"]] for b in base["bodies"]])).sum()))

    def visit(s, word):
        try:
            got = observe(s)
        except Exception as err:  # noqa: BLE001
            ctx.violation("raised", rewrites=word, base=task["base"], error=repr(err)[:200])
            return
        for k, g in got.items():
            if k not in want:
                continue
            w = want[k]
            tol = 2e-6 if k in ("emission", "transit", "maps") else 1e-8 * (1 + scale.get(k, 1.0))
            if k in ("emission", "maps"):
                g, w = np.where(both, 0, g), np.where(both, 0, w)
            elif k == "transit":
                g, w = np.where(skip, 0, g), np.where(skip, 0, w)
            ctx.close(g, w, k, tol=tol, detail=dict(base=task["base"], rewrites=word), labels=dict(t=T))
            ctx.count(traces=1)

    depth = 2 if ctx.tier == "quick" else 3
    seen, level, states = {key(base)}, [(base, ())], {}
    for _ in range(depth):
        nxt = []
        for s, word in level:
            for name, f in R.items():
                ch = f(s)
                if ch is None:
                    continue
                if task["part"] == 0:
                    ctx.count(transitions=1)
                t = {**s, **ch}
                k = key(t)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((t, (*word, name)))
                states.setdefault(structure(t), []).append(nxt[-1])
        level = nxt
    # the parts share out the structures, the most populous ones also among several parts
    jobs, n = [], sum(map(len, states.values()))
    for st in sorted(states, key=lambda k: (-len(states[k]), k)):
        m = max(1, round(task["parts"] * len(states[st]) / n))
        jobs += [states[st][i::m] for i in range(m)]
    for i, job in enumerate(jobs):
        if i % task["parts"] == task["part"]:
            for s, word in job:
                visit(s, word)
                ctx.count(states=1)
    ctx.note_max("structures", len(states))
    ctx.note_max("descriptions", n)
    ctx.sample(dict(base=task["base"], rewrites=level[len(level) // 2][1]))
