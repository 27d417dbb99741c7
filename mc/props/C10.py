"""Systems against their bodies taken one at a time."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "breadth-first over histories of adding bodies: alphabet of 7 bodies (two alike, "
    "different optional parameters, own central, with semi-amplitude) x ways of adding; "
    "every history to depth 3 (4 thorough): states = histories, transitions = adds; at each "
    "state every system observable against the list of per-body values, and the parent "
    "system re-observed; then all in/out axis specifications x homogeneous/heterogeneous "
    "stacks of 1..3 objects against an explicit loop"
)
ASSUME = ["per-body values are themselves decided by C07-C09"]

BODIES = dict(
    a=dict(period=3.0, mass=0.01, radius=0.1),
    b=dict(semimajor=20.0, time_transit=1.0, mass=0.5, radius=0.3, impact_param=0.4),
    c=dict(period=5.0, eccentricity=0.4, omega_peri=1.0, mass=0.1, radius=0.2, inclination=1.2),
    d=dict(period=2.0, asc_node=0.7, mass=0.02, radius=0.05, inclination=1.4),
    e=dict(period=4.0, mass=0.03, radius=0.15),  # with its own central
    f=dict(period=6.0, mass=0.2, radius=0.25, radial_velocity_semiamplitude=0.8, inclination=1.3),
    g=dict(period=8.0, eccentricity=0.1, omega_peri=-2.0, sin_asc_node=0.6, cos_asc_node=0.8, time_peri=2.0, mass=0.3, radius=0.01),
)
METHODS = ["position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity", "radial_velocity"]
TIMES = [np.array(0.3), np.array([0.0, 1.7]), np.array([-5.0, 0.4, 9.0])]


def tasks(tier):
    t = [dict(name=f"hist-{a}", first=a, cost=4) for a in BODIES]
    t += [dict(name="axes"), dict(name="axes-system"), dict(name="immutability")]
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import is_quantity, mag, raises
    from jaxoplanet.object_stack import ObjectStack
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    central = Central(mass=1.3, radius=1.1)
    own = Central(mass=0.4, radius=0.5)

    def single(k):
        return OrbitalBody(own if k == "e" else central, Body(**BODIES[k]))

    def add(s, k, how):
        kw = BODIES[k]
        extra = dict(central=own) if k == "e" else {}
        if how == "kw":
            return s.add_body(**kw, **extra)
        if how == "body":
            return s.add_body(Body(**kw), **extra)
        return s.add_body(single(k))

    cache = {}

    def per_body(k, m, ti):
        if (k, m, ti) not in cache:
            r = getattr(single(k), m)(TIMES[ti])
            r = r if isinstance(r, tuple) else (r,)
            cache[k, m, ti] = [(mag(c), str(c.units)) for c in r]
        return cache[k, m, ti]

    def observe(s, hist, key, methods=METHODS, times=(0, 1, 2)):
        ctx.check(s.shape == (len(hist),) and len(s.bodies) == len(hist), key + ":shape", hist=hist, got=s.shape)
        rad = mag(s.radius, "R_sun")
        ctx.close(rad, np.array([BODIES[k]["radius"] for k in hist]), key + ":radius", tol=1e-14, detail=dict(hist=hist))
        cr = mag(s.central_radius, "R_sun")
        ctx.close(cr, np.array([0.5 if k == "e" else 1.1 for k in hist]), key + ":central_radius", tol=1e-14, detail=dict(hist=hist))
        ctx.check(float(mag(s.central.mass)) == 1.3, key + ":central", hist=hist)
        for i, (k, b) in enumerate(zip(hist, s.bodies)):
            ref = single(k)
            ctx.check(float(mag(b.period)) == float(mag(ref.period)) and float(mag(b.mass)) == float(mag(ref.mass)),
                      key + ":order", hist=hist, i=i)
        for m in methods:
            for ti in times:
                r = getattr(s, m)(TIMES[ti])
                r = r if isinstance(r, tuple) else (r,)
                for c, q in enumerate(r):
                    want = np.stack([per_body(k, m, ti)[c][0] for k in hist])
                    u = per_body(hist[0], m, ti)[c][1]
                    ctx.close(mag(q, u), want, f"{key}:{m}", tol=1e-11 * (1 + np.abs(want)), detail=dict(hist=hist, component=c))
                ctx.count(traces=1)

    if name.startswith("hist"):
        depth = 3 if ctx.tier == "quick" else 4
        hows = ["kw", "body", "orbital"]
        frontier = [((task["first"],), add(System(central), task["first"], "kw"))]
        for d in range(1, depth + 1):
            nxt = []
            for n, (h, s) in enumerate(frontier):
                full = d <= 2 or ctx.tier != "quick"
                # deep states: one position, one velocity, one time each, rotating
                observe(s, h, "history", METHODS if full else [METHODS[n % 7]], (0, 1, 2) if d == 1 else (n % 3,))
                ctx.count(states=1)
                if d < depth:
                    for j, k in enumerate(BODIES):
                        nxt.append((h + (k,), add(s, k, hows[(n + j + d) % 3])))
                        ctx.count(transitions=1)
            frontier = nxt
        ctx.sample(dict(history=h))
    elif name == "immutability":
        for h in itertools.product(BODIES, repeat=2):
            s0 = add(System(central), h[0], "kw")
            before = [np.asarray(x) for x in jax.tree_util.tree_leaves(s0)]
            for how in ("kw", "body", "orbital"):
                s1 = add(s0, h[1], how)
                after = [np.asarray(x) for x in jax.tree_util.tree_leaves(s0)]
                ctx.check(len(before) == len(after) and all(np.array_equal(x, y) for x, y in zip(before, after)) and len(s0.bodies) == 1,
                          "parent-changed", hist=h, how=how)
                # siblings built from the same parent do not see each other
                s2 = add(s0, h[0], how)
                ctx.check(len(s1.bodies) == 2 and len(s2.bodies) == 2, "siblings", hist=h)
                ctx.check(float(mag(s1.bodies[1].period)) == float(mag(single(h[1]).period)), "siblings-value", hist=h)
                ctx.count(states=1, transitions=2, traces=1)
        for h in itertools.product("abcd", repeat=3):
            s = System(central, bodies=[Body(**BODIES[k]) for k in h])
            observe(s, h, "constructor", ["relative_position"], (1,))
            ctx.count(states=1, transitions=3)
        ctx.sample("s0.add_body(x) leaves s0 unchanged")
    elif name == "axes":
        # objects of equal or differing structure; n = number of objects
        def objs(n, het):
            return [dict(a=1.0 + i, **({"b": 0.5} if het and i == n - 1 else {})) for i in range(n)]

        for n, het in itertools.product((1, 2, 3), (False, True)):
            if n == 1 and het:
                continue
            o = objs(n, het)
            st = ObjectStack(*o)
            ctx.check(len(st) == n, "axes:len")
            for nd in (1, 2, 3):
                for ax in list(range(-nd, nd)) + [None]:
                    shape = [4, 5, 6][:nd]
                    if ax is not None:
                        shape[ax] = n
                    x = np.arange(np.prod(shape), dtype=float).reshape(shape) + 1
                    for q in (False, True):
                        X = x * ureg.day if q else jnp.asarray(x)
                        sl = [x if ax is None else np.take(x, i, axis=ax) for i in range(n)]
                        outs = [o[i]["a"] * sl[i] for i in range(n)]
                        ond = outs[0].ndim
                        for oax in range(-ond - 1, ond + 1):
                            want = np.stack(outs, axis=oax)
                            for spec in ([ax] if ax is None else [ax, (ax,), [ax]]):
                                got = st.vmap(lambda b, t: b["a"] * t, in_axes=spec, out_axes=oax)(X)
                                ctx.check(is_quantity(got) == q, "axes:quantity")
                                ctx.close(mag(got), want, "axes:single", tol=0, detail=dict(n=n, het=het, shape=shape, in_axes=ax, out_axes=oax))
                                ctx.count(states=1, transitions=1, traces=1)
                            # a second unmapped argument and several outputs
                            got = st.vmap(lambda b, t, u: {"p": b["a"] * t, "q": u + b["a"]}, in_axes=(ax, None), out_axes={"p": oax, "q": -1})(X, jnp.arange(2.0))
                            ctx.close(mag(got["p"]), want, "axes:dict-p", tol=0, detail=dict(n=n, het=het, in_axes=ax, out_axes=oax))
                            ctx.close(got["q"], np.stack([np.arange(2.0) + o[i]["a"] for i in range(n)], -1), "axes:dict-q", tol=0)
                            ctx.count(states=1, transitions=1, traces=1)
                    # sizes that do not match must be refused as vmap does
                    if ax is not None:
                        bad = list(shape)
                        for wrong in (n + 1, n + 2, 0):
                            bad[ax] = wrong
                            e = raises(st.vmap(lambda b, t: b["a"] * t, in_axes=ax), jnp.ones(bad))
                            ctx.check(e is not None, "axes:size-accepted", n=n, het=het, shape=bad, in_axes=ax)
                            ctx.count(states=1, transitions=1, traces=1)
            # pytree arguments with per-leaf axes
            arg = {"k": jnp.arange(float(n)), "l": jnp.arange(2.0 * n).reshape(2, n)}
            for kl, ll in itertools.product((0, None, -1), (1, -1, None)):
                got = st.vmap(lambda b, u: b["a"] * jnp.sum(u["k"]) + u["l"].sum(), in_axes=({"k": kl, "l": ll},))(arg)
                want = [o[i]["a"] * (np.sum(arg["k"]) if kl is None else arg["k"][i]) + (np.sum(arg["l"]) if ll is None else arg["l"][:, i].sum()) for i in range(n)]
                ctx.close(got, np.array(want), "axes:pytree", tol=1e-12, detail=dict(n=n, het=het))
                ctx.count(states=1, transitions=1, traces=1)
            # no arguments, constant outputs, tuples
            got = st.vmap(lambda b: (b["a"], 2.0))()
            ctx.close(got[0], np.array([1.0 + i for i in range(n)]), "axes:noargs", tol=0)
            ctx.close(got[1], np.full(n, 2.0), "axes:const", tol=0)
        ctx.sample(dict(n=2, in_axes=-1, out_axes=-1))
    else:
        for h in (("a",), ("a", "b"), ("a", "c"), ("c", "a", "d"), ("a", "b", "e"), ("g", "c", "f")):
            s = System(central, bodies=[single(k) for k in h])
            n = len(h)
            T = np.linspace(-2, 5, 4 * n)
            t0 = T.reshape(n, 4)
            ref = np.stack([np.stack([mag(c, "R_sun") for c in single(k).relative_position(t0[i])]) for i, k in enumerate(h)])
            for ax, arr in ((0, t0), (1, t0.T), (-1, t0.T), (-2, t0)):
                for q in (False, True):
                    for j in (False, True):
                        f = s.body_vmap(lambda b, t: b.relative_position(t), in_axes=ax)
                        f = jax.jit(f) if j else f
                        got = f(arr * ureg.day if q else arr)
                        for c in range(3):
                            ctx.close(mag(got[c], "R_sun"), ref[:, c], "axes-system:in", tol=1e-11 * 50, detail=dict(hist=h, ax=ax))
                        ctx.count(states=1, transitions=1, traces=1)
            for oax in (0, 1, -1, -2):
                got = s.body_vmap(OrbitalBody.relative_position, in_axes=None, out_axes=oax)(T)
                for c in range(3):
                    want = np.stack([mag(single(k).relative_position(T)[c], "R_sun") for k in h], axis=oax)
                    ctx.close(mag(got[c], "R_sun"), want, "axes-system:out", tol=1e-11 * 50, detail=dict(hist=h, ax=oax))
                ctx.count(states=1, transitions=1, traces=1)
            got = s.body_vmap(lambda b, t, k: b.position(t)[0] / b.radius * k, in_axes=(None, 0))(T, jnp.arange(1.0, n + 1))
            want = np.stack([mag(single(k).position(T)[0], "R_sun") / BODIES[k]["radius"] * (i + 1) for i, k in enumerate(h)])
            ctx.close(mag(got, ""), want, "axes-system:two", tol=1e-9)
        ctx.sample(dict(history="gcf", in_axes=-1))
