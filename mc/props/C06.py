"""Which argument sets make a Body."""

import itertools

LEVEL = "model_checking"
RULE = (
    "all 2^12 subsets of the interacting arguments against the decision table; all "
    "subsets of the four non-interacting ones on a legal base; every single argument made "
    "non-scalar; via Body(...) and via System.add_body(...)"
)
ASSUME = ["decision table transcribed from the documented rules"]
INTER = [
    "period", "semimajor", "time_transit", "time_peri", "inclination", "impact_param",
    "eccentricity", "omega_peri", "sin_omega_peri", "cos_omega_peri",
    "asc_node", "sin_asc_node", "cos_asc_node",
]
FREE = ["mass", "radius", "radial_velocity_semiamplitude", "parallax"]
VAL = dict(
    period=3.0, semimajor=5.0, time_transit=0.1, time_peri=0.2, inclination=1.5, impact_param=0.3,
    eccentricity=0.2, omega_peri=0.4, sin_omega_peri=0.6, cos_omega_peri=0.8, asc_node=0.5,
    sin_asc_node=0.6, cos_asc_node=0.8, mass=0.01, radius=0.1,
    radial_velocity_semiamplitude=1.0, parallax=10.0,
)


def legal(s):
    s = set(s)

    def angle(a):
        one, pair = a in s, {"sin_" + a, "cos_" + a} & s
        return not (one and pair) and len(pair) in (0, 2)

    has_w = "omega_peri" in s or "sin_omega_peri" in s
    return (
        ("period" in s) != ("semimajor" in s)
        and not {"time_transit", "time_peri"} <= s
        and not {"inclination", "impact_param"} <= s
        and angle("omega_peri")
        and angle("asc_node")
        and ("eccentricity" in s) == has_w
    )


def tasks(tier):
    t = [dict(name=f"subsets-{i}", part=i) for i in range(8)]
    t += [dict(name="nonscalar"), dict(name="free")]
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from framework import mag, raises
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System

    def attempt(s, val=VAL, how="body"):
        kw = {k: val[k] for k in s}
        if how == "body":
            return raises(Body, **kw)
        if how == "none":
            return raises(Body, **{**{k: None for k in VAL}, **kw})
        return raises(System().add_body, **kw)

    def judge(s, how):
        e = attempt(s, how=how)
        ok = legal(s)
        if ok:
            ctx.check(e is None, f"refused-legal:{how}", given=s, got=repr(e))
        else:
            ctx.check(isinstance(e, ValueError), f"accepted-illegal:{how}", given=s, got=repr(e))
        ctx.count(states=1, transitions=len(s), traces=1)

    if task["name"].startswith("subsets"):
        subsets = [
            s for n in range(len(INTER) + 1) for s in itertools.combinations(INTER, n)
        ]
        for i, s in enumerate(subsets):
            if i % 8 != task["part"]:
                continue
            judge(s, "body")
            if len(s) <= 3 or ctx.tier != "quick":
                judge(s, "none")
            if legal(s):
                judge(s, "system")
                b = Body(**{k: VAL[k] for k in s})
                for k in VAL:
                    v = getattr(b, k)
                    if k in s:
                        ctx.check(abs(float(mag(v)) - VAL[k]) < 1e-12, "value:" + k, given=s)
                    else:
                        ctx.check(v is None, "absent:" + k, given=s, got=repr(v))
        ctx.sample(dict(given=subsets[777], legal=legal(subsets[777])))
    elif task["name"] == "nonscalar":
        bases = [
            ("period", "time_transit", "inclination", "eccentricity", "omega_peri", "asc_node", *FREE),
            ("semimajor", "time_peri", "impact_param", "eccentricity", "sin_omega_peri", "cos_omega_peri",
             "sin_asc_node", "cos_asc_node", *FREE),
        ]
        for base in bases:
            for k in base:
                for shape in ((1,), (2,), (0,), (1, 1), (2, 3)):
                    for lib in (np, jnp):
                        for all_of in (False, True):
                            v = dict(VAL)
                            for kk in base if all_of else (k,):
                                v[kk] = lib.full(shape, VAL[kk])
                            e = attempt(base, v)
                            ctx.check(isinstance(e, ValueError), "nonscalar:" + k, shape=shape, got=repr(e))
                            ctx.count(states=1, transitions=1, traces=1)
                for zero_d in (np.array(VAL[k]), jnp.asarray(VAL[k]), np.float64(VAL[k])):
                    e = attempt(base, {**VAL, k: zero_d})
                    ctx.check(e is None, "zero-dim:" + k, got=repr(e))
                    ctx.count(states=1, transitions=1, traces=1)
                # a vectorised body is made by vmap, where every argument is a traced scalar
                f = jax.vmap(lambda x: OrbitalBody(Central(), Body(**{kk: x if kk == k else VAL[kk] for kk in base})).period.magnitude)
                e = raises(f, jnp.full(3, VAL[k]))
                ctx.check(e is None, "vmapped:" + k, got=repr(e))
        ctx.sample("period=[1., 2.] raises ValueError")
    else:
        for n in range(len(FREE) + 1):
            for f in itertools.combinations(FREE, n):
                for base in (("period",), ("semimajor",), ("period", "semimajor"), (), ("period", "eccentricity"),
                             ("semimajor", "eccentricity", "omega_peri"), ("period", "sin_omega_peri")):
                    for how in ("body", "none", "system"):
                        judge(base + f, how)
        ctx.sample(dict(given=["period", *FREE], legal=True))
