"""Model objects are plain data: they survive every way JAX passes objects around."""

import copy
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "every kind of model object (15 kinds, several structures each) x every word over eleven ways of passing an object on (flatten / "
    "unflatten, tree_map, jit, checkpoint, device_put, partition / combine, vmap of a stack, scan carry, cond, copy, deep copy) "
    "up to depth 2 (thorough 3): type, structure, static data, dtypes and every leaf identical; what it computes after "
    "each single step and as an argument of a compiled function; batches of 1-3 different objects of each kind mapped "
    "with vmap, lax.map, scan and chosen by cond / switch, and built inside vmap and jit, against one by one; "
    "derivatives with respect to a whole object against derivatives through its parameters; a state is an object after a word"
)
ASSUME = ["objects of one batch are built from the same set of parameters"]


def kinds():
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits import TransitOrbit, TTVOrbit
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.doppler import radial_velocity
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem

    T = jnp.array([0.0, 0.05, 1.5])
    m = lambda q: q.magnitude if hasattr(q, "magnitude") else q  # noqa
    mm = lambda qs: [m(q) for q in qs]  # noqa
    U = jnp.array([0.1, 0.2])
    cen = lambda p: Central(mass=0.9 + p[0], radius=1.1)  # noqa
    ecc = lambda p: Body(period=3.0 + p[0], radius=0.1 + p[1], impact_param=0.2, eccentricity=0.1 + p[1], omega_peri=0.3 + p[0], mass=0.01, asc_node=0.4)  # noqa
    circ = lambda p: Body(semimajor=4.0 + p[0], radius=0.2 - p[1], inclination=1.5 - p[1], time_transit=p[0])  # noqa
    rot = lambda p: Surface(y=Ylm({(2, -1): 0.05 + p[1], (0, 0): 1.0 + p[0], (1, 0): 0.1}), u=(0.1 + p[1], 0.2), inc=1.2, obl=0.3 + p[0], period=2.0 + p[0], phase=0.2)  # noqa
    flat = lambda p: Surface(amplitude=0.1 + p[1], normalize=False, u=(0.3 * p[0],))  # noqa
    ttv = dict(impact_param=0.1, radius_ratio=0.1)
    pos = lambda o: mm(o.relative_position(T))  # noqa
    at = lambda t: lambda o: mm(o.relative_position(t))  # noqa
    lc = lambda o: [limb_dark_light_curve(o, U)(T)]  # noqa
    K = {}
    K["central"] = (cen, lambda o: [m(o.mass), m(o.radius), m(o.density)])
    K["body-ecc"] = (ecc, lambda o: pos(OrbitalBody(Central(), o)))
    K["body-circ"] = (lambda p: Body(semimajor=4.0 + p[0], radius=0.2 - p[1], inclination=1.5 - p[1], time_transit=p[0], parallax=0.1 + p[1]), lambda o: pos(OrbitalBody(Central(), o)))
    K["surface-body"] = (lambda p: SurfaceBody(period=3.0 + p[0], radius=0.1, surface=rot(p)), lambda o: [light_curve(SurfaceSystem(Central()).add_body(o))(T)])
    K["orbital-body"] = (lambda p: OrbitalBody(cen(p), ecc(p)), lambda o: pos(o) + mm(o.velocity(T)) + [m(o.radial_velocity(T))])
    K["system-alike"] = (lambda p: System(cen(p)).add_body(circ(p)).add_body(circ(2 * p)), lambda o: pos(o) + lc(o))
    K["system-mixed"] = (lambda p: System(cen(p)).add_body(ecc(p)).add_body(circ(p)), lambda o: pos(o) + lc(o))
    K["system-empty"] = (lambda p: System(cen(p)), lambda o: pos(o.add_body(period=1.0)))
    K["surface-system-mixed"] = (lambda p: SurfaceSystem(cen(p), rot(p)).add_body(ecc(p), flat(p)).add_body(circ(p)), lambda o: [light_curve(o)(T)])
    K["surface-system-alike"] = (lambda p: SurfaceSystem(cen(p), flat(p)).add_body(circ(p), flat(p)).add_body(circ(2 * p), flat(p)), lambda o: [light_curve(o)(T), emission(o)(T)])
    K["surface-system-rv"] = (lambda p: SurfaceSystem(cen(p), rot(p)).add_body(ecc(p)), lambda o: [radial_velocity(o)(T)])
    K["surface"] = (rot, lambda o: [surface_light_curve(o, r=0.1, x=0.2, y=0.1, z=1.0, theta=o.rotational_phase(0.3)), o.render(0.1, 5), m(o.veq)])
    K["surface-bare"] = (flat, lambda o: [surface_light_curve(o, r=0.1, x=0.2, y=0.1, z=1.0), surface_light_curve(o)])
    K["ylm"] = (lambda p: Ylm({(2, 0): 0.3 + p[0], (0, 0): 1.0 + p[1], (1, -1): 0.2}), lambda o: [o.todense(), (o * o).todense(), o.normalize().todense(), (2.0 * o).todense()])
    K["pijk"] = (lambda p: Pijk({(0, 0, 0): 1.0 + p[0], (0, 1, 0): 2.0, (1, 0, 1): 0.4 + p[1]}), lambda o: [o.todense(), (o * o).todense(), (o + o).todense()])
    K["transit"] = (lambda p: TransitOrbit(period=3.0 + p[0], duration=0.1 + p[1], time_transit=0.1, **ttv), lambda o: pos(o) + lc(o))
    K["transit-speed-2"] = (lambda p: TransitOrbit(period=jnp.array([3.0, 4.0]) + p[0], speed=jnp.array([10.0, 9.0]) + p[1], time_transit=jnp.zeros(2), impact_param=jnp.array([0.1, 0.2]), radius_ratio=jnp.array([0.1, 0.05])), lambda o: at(0.02)(o) + lc(o))
    K["ttv-offsets"] = (lambda p: TTVOrbit(period=3.0 + p[0], duration=0.1, ttvs=(jnp.array([0.1, 0.0, -0.1]) * (1 + p[1]),), **ttv), lambda o: pos(o) + lc(o))
    K["ttv-times-2"] = (lambda p: TTVOrbit(duration=jnp.array([0.1, 0.2]), impact_param=jnp.array([0.1, 0.3]), radius_ratio=jnp.array([0.1, 0.2]), transit_times=(jnp.array([0.1, 3.0, 6.1]) + p[0], jnp.array([1.0, 5.1]) + p[1])), lambda o: at(3.02)(o) + lc(o))
    return K


KINDS = ["central", "body-ecc", "body-circ", "surface-body", "orbital-body", "system-alike", "system-mixed", "system-empty", "surface-system-mixed", "surface-system-alike",
         "surface-system-rv", "surface", "surface-bare", "ylm", "pijk", "transit", "transit-speed-2", "ttv-offsets", "ttv-times-2"]
HEAVY = ("surface-system-mixed", "surface-system-rv", "surface-body", "surface", "surface-system-alike")
P = np.array([[0.0, 0.0], [0.05, 0.01], [-0.03, 0.02]])


def operations():
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    tm = jax.tree_util.tree_map
    arr = lambda o: tm(jnp.asarray, o)  # noqa

    def vmapped(o):
        s = jax.vmap(lambda o: o)(tm(lambda *x: jnp.stack(x), o, o))
        return tm(lambda x: x[1], s)

    def partition(o):
        # (eqx.partition itself does not accept objects that hold quantities)
        x, d = jax.tree_util.tree_flatten(o)
        a, b = [v if eqx.is_inexact_array(v) else None for v in x], [None if eqx.is_inexact_array(v) else v for v in x]
        return jax.tree_util.tree_unflatten(d, eqx.combine(a, b))

    def scan(o):
        return jax.lax.scan(lambda c, _: (c, None), arr(o), None, length=2)[0]

    def cond(o):
        z = tm(jnp.zeros_like, arr(o))
        return jax.jit(lambda q, o, z: jax.lax.cond(q, lambda: o, lambda: z))(True, arr(o), z)

    return {
        "flatten": lambda o: jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(o)[::-1]),
        "tree_map": lambda o: tm(lambda x: x, o),
        "jit": lambda o: jax.jit(lambda o: o)(o),
        "checkpoint": lambda o: jax.jit(jax.checkpoint(lambda o: o))(o),
        "device_put": jax.device_put,
        "partition": partition,
        "vmap": vmapped,
        "scan": scan,
        "cond": cond,
        "deepcopy": copy.deepcopy,
        "copy": copy.copy,
    }


def tasks(tier):
    t = []
    for k in KINDS:
        w = 4 if k in HEAVY else 1
        t += [dict(name="words-" + k, kind=k, cost=3), dict(name="values-" + k, kind=k, cost=4 * w), dict(name="batch-" + k, kind=k, cost=6 * w)]
    return t


def run(task, ctx):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    tm = jax.tree_util.tree_map
    kind = task["kind"]
    make, obs = kinds()[kind]
    ops = operations()
    what = task["name"].split("-")[0]
    leaves = jax.tree_util.tree_leaves
    struct = jax.tree_util.tree_structure

    def close(got, want, key, **d):
        if not ctx.check(len(got) == len(want), key + ":outputs", **d):
            return
        for i, (g, w) in enumerate(zip(got, want)):
            g, w = np.asarray(g), np.asarray(w)
            if ctx.check(g.shape == w.shape, key + ":shape", got=g.shape, want=w.shape, **d):
                ctx.close(g, w, key, tol=1e-10 * (1 + np.nanmax(np.abs(w), initial=0)), detail=dict(output=i, **d))

    if what == "words":
        depth = 2 if ctx.tier == "quick" else 3
        for p in P:
            o = make(p)
            ref, s0 = [np.asarray(x) for x in leaves(o)], struct(o)
            frontier = [((), o)]
            for _ in range(depth):
                nxt = []
                for w, x in frontier:
                    for n, op in ops.items():
                        y = op(x)
                        word = (*w, n)
                        ctx.count(states=1, transitions=1, traces=1)
                        ctx.check(type(y) is type(o), "type", word=word, kind=kind, got=type(y).__name__)
                        if ctx.check(struct(y) == s0, "structure", word=word, kind=kind, got=str(struct(y))[:500]):
                            for i, (a, b) in enumerate(zip(leaves(y), ref)):
                                a = np.asarray(a)
                                ctx.check(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True), "leaf", word=word, kind=kind, leaf=i, got=a, want=b)
                        if y is not x:
                            # what was passed on is still what it was
                            ctx.check(all(np.array_equal(np.asarray(a), b, equal_nan=True) for a, b in zip(leaves(x), ref)), "changed-by-passing", word=word, kind=kind)
                        nxt.append((word, y))
                frontier = nxt
        ctx.sample(dict(kind=kind, word=frontier[-1][0]))
    elif what == "values":
        f = jax.jit(obs)
        o = make(P[1])
        want = [np.asarray(v) for v in obs(o)]
        close(f(o), want, "compiled-argument", kind=kind)
        for n, op in ops.items():
            y = op(o)
            close(f(y), want, "value", op=n, kind=kind)
            if ctx.tier != "quick" or (n in ("deepcopy", "jit", "vmap") and kind not in HEAVY):
                close(obs(y), want, "value-eager", op=n, kind=kind)
            ctx.count(states=2, transitions=2, traces=2)
        # derivatives with respect to the object, pulled back to the parameters
        tot = lambda o: sum(jnp.sum(jnp.sin(1 + i + jnp.nan_to_num(v))) for i, v in enumerate(obs(o)))  # noqa
        flo = lambda o: [x for x in leaves(tm(jnp.asarray, o)) if jnp.issubdtype(x.dtype, jnp.inexact)]  # noqa
        x, d = jax.tree_util.tree_flatten(tm(jnp.asarray, o))
        at = [i for i, v in enumerate(x) if jnp.issubdtype(v.dtype, jnp.inexact)]

        def of_leaves(v):
            y = list(x)
            for i, w in zip(at, v):
                y[i] = w
            return tot(jax.tree_util.tree_unflatten(d, y))

        direct = np.asarray(jax.jit(jax.grad(lambda p: tot(make(p))))(jnp.asarray(P[1])))
        g = jax.jit(jax.grad(of_leaves))(flo(o))
        via = np.asarray(jax.vjp(lambda p: flo(make(p)), jnp.asarray(P[1]))[1](g)[0])
        ctx.close(via, direct, "gradient", tol=1e-8 * (1 + np.max(np.abs(direct))), detail=dict(kind=kind))
        ctx.count(states=len(direct), traces=len(direct), transitions=len(direct))
        ctx.sample(dict(kind=kind, ops=list(ops)))
    else:
        f = jax.jit(obs)
        for ps in [c for n in (1, 2, 3) for c in itertools.permutations(range(3), n)] if ctx.tier != "quick" else [(2, 1)] if kind in HEAVY else [(0,), (1, 2), (2, 0, 1)]:
            objs = [make(P[i]) for i in ps]
            want = [np.stack(v) for v in zip(*[[np.asarray(x) for x in f(o)] for o in objs])]
            stack = tm(lambda *x: jnp.stack(x), *objs)
            n = len(ps)
            close(jax.jit(jax.vmap(obs))(stack), want, "batch-vmap", kind=kind, objects=ps)
            close(jax.lax.map(obs, stack), want, "batch-map", kind=kind, objects=ps)
            if ctx.tier != "quick" or kind not in HEAVY:
                close(jax.lax.scan(lambda c, o: (c + 1, obs(o)), 0, stack)[1], want, "batch-scan", kind=kind, objects=ps)
            close(jax.jit(jax.vmap(lambda p: obs(make(p))))(jnp.asarray(P[list(ps)])), want, "batch-built", kind=kind, objects=ps)
            if n > 1:
                pick = jax.jit(lambda k, os: obs(jax.lax.switch(k, [lambda o=o: tm(jnp.asarray, o) for o in os])))
                for i in range(n):
                    close(pick(i, objs), [w[i] for w in want], "batch-switch", kind=kind, objects=ps, index=i)
            else:
                close(jax.jit(lambda p: obs(make(p)))(jnp.asarray(P[ps[0]])), [w[0] for w in want], "built-compiled", kind=kind, objects=ps)
                close(jax.vmap(obs, out_axes=-1)(stack), [np.moveaxis(w, 0, -1) for w in want], "batch-vmap-out", kind=kind, objects=ps)
            ctx.count(states=5 * n, transitions=5 * n, traces=5 * n)
        ctx.sample(dict(kind=kind, objects=3))
