"""Transparency of the program transformations on every public entry point."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "the transition system whose states are programs: from every public entry point (orbits, "
    "transit-timing orbits, light curves, transforms, surfaces, systems with surfaces, spots) and "
    "parameter point, every word of transformations to depth 2 (depth 1 for the surface systems in "
    "the quick tier) over {jit, jit with any one argument traced or any one held, vmap, vmap over one "
    "argument, lax.map, checkpoint, jvp, vjp, linearize} is applied and must return the eager "
    "values; then all first- and second-order compositions of forward and reverse differentiation "
    "with jit/vmap against each other and against extrapolated finite differences of the eager "
    "function; then modules passed as pytrees; then single precision"
)
ASSUME = [
    "derivatives are compared at regular points (not on a contact, an exact alignment or a zero of a rotation angle)",
    "values are asked to be equal to 1e-9 relative: a compiler may reassociate",
]


def entries():
    """name -> (function of a parameter vector, parameter points, float32 tolerance, heavy, names)"""
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    from jaxoplanet.core.limb_dark import light_curve as core_lc
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.core.rotation import dot_rotation_matrix, left_project
    from jaxoplanet.starry.core.solution import solution_vector
    from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
    from jaxoplanet.starry.light_curves import light_curve as surf_lc
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.ylm import ylm_spot
    from jaxoplanet.units import unit_registry as ureg

    def M(q):
        return q.magnitude if hasattr(q, "_magnitude") else q

    def cat(*xs):
        return jnp.concatenate([jnp.ravel(M(x)) for x in xs])

    E = {}

    def entry(name, names, points, tol32=2e-5, heavy=False, nograd=(), step=None, fwd=False):
        def deco(f):
            E[name] = dict(f=f, names=names.split(), points=np.array(points, float), tol32=tol32, heavy=heavy, nograd=nograd, step=step, fwd=fwd)
            return f

        return deco

    @entry("kepler", "M e", [(0.3, 0.1), (-2.0, 0.6), (9.0, 0.0), (3.0, 0.95)], tol32=1e-4)
    def _(p):
        return jnp.stack(kepler(p[0], p[1]))

    @entry("core-ld", "u1 u2 b r", [(0.3, 0.2, 0.4, 0.1), (0.5, -0.1, 0.95, 0.1), (0.0, 0.0, 0.5, 1.2), (0.1, 0.3, 2.0, 0.3), (0.1, 0.3, 0.2, 1.5)], tol32=1e-4)
    def _(p):
        return jnp.atleast_1d(core_lc(p[:2], p[2], p[3]))

    def orbit(p):
        return OrbitalBody(Central(mass=p[0], radius=p[1]), Body(
            period=p[2], time_transit=p[3], eccentricity=p[4], omega_peri=p[5], impact_param=p[6], asc_node=p[7], mass=p[8], radius=p[9], parallax=p[10]))

    ORB = [(1.1, 0.9, 3.0, 0.2, 0.3, 0.7, 0.4, 0.5, 0.1, 0.2, 8.0, 0.9), (0.8, 1.2, 11.0, -1.0, 0.05, -2.0, -0.2, -1.0, 0.01, 0.1, 20.0, -4.0),
           (0.8, 1.2, 5.0, 0.0, 0.0, 1.0, 0.0, 0.3, 0.3, 0.5, 1.0, 1.0)]
    ORBN = "ms rs P t0 e w b node m r plx t"

    @entry("orbit-position", ORBN, ORB, tol32=2e-4)
    def _(p):
        o = orbit(p)
        # without a parallax; on the sky with it
        a = OrbitalBody(Central(mass=p[0], radius=p[1]), Body(period=p[2], time_transit=p[3], eccentricity=p[4], omega_peri=p[5], impact_param=p[6], mass=p[8], radius=p[9]))
        return cat(*o.position(p[11]), *o.relative_position(p[11]), *o.central_position(p[11]), *a.relative_position(p[11]))

    @entry("orbit-velocity", ORBN, ORB, tol32=2e-4)
    def _(p):
        o = orbit(p)
        return cat(*o.velocity(p[11]), *o.relative_velocity(p[11]), *o.central_velocity(p[11]), o.radial_velocity(p[11]))

    @entry("orbit-rv-amplitude", "K e w t parallax", [(3.0, 0.2, 0.4, 0.3, 5.0), (12.0, 0.0, 0.4, 1.3, 5.0)], tol32=2e-4)
    def _(p):
        o = OrbitalBody(Central(), Body(period=2.0, eccentricity=p[1], omega_peri=p[2], radial_velocity_semiamplitude=p[0]))
        q = OrbitalBody(Central(), Body(period=2.0, eccentricity=p[1], omega_peri=p[2], radial_velocity_semiamplitude=p[0], parallax=p[4]))
        return cat(o.radial_velocity(p[3]), *q.central_velocity(p[3]))

    @entry("central", "density radius", [(1.2, 0.8), (0.3, 2.0)])
    def _(p):
        c = Central(density=p[0], radius=p[1])
        d = Central.from_orbital_properties(period=p[0] * 3, semimajor=p[1] * 10, body_mass=p[0] * 0.1)
        return cat(c.mass, d.mass, d.density, d.radius)

    SYS = [(3.0, 0.2, 0.1, 5.0, 0.4, 0.7, 0.9, 0.05), (7.0, -1.0, 0.05, 2.0, 1.0, -2.0, 0.1, 0.3)]

    def system(p):
        return (System(Central(mass=1.2, radius=1.1)).add_body(period=p[0], time_transit=p[1], radius=p[2], mass=0.01)
                .add_body(period=p[3], time_transit=p[4], omega_peri=p[5], eccentricity=0.1, radius=p[7], mass=0.1))

    @entry("system", "P1 t1 r1 P2 t2 w2 t r2", SYS, tol32=2e-4)
    def _(p):
        s = system(p)
        return cat(*s.position(p[6]), *s.velocity(p[6]), s.radial_velocity(p[6]), s.radius)

    @entry("transit-orbit", "P dur t0 b r t", [(3.0, 0.2, 0.1, 0.3, 0.1, 0.12), (10.0, 0.4, -2.0, -0.6, 0.05, 5.5)], tol32=2e-4)
    def _(p):
        o = TransitOrbit(period=p[0], duration=p[1], time_transit=p[2], impact_param=p[3], radius_ratio=p[4])
        q = TransitOrbit(period=p[0], speed=p[1] * 50, impact_param=p[3], radius_ratio=p[4])
        return cat(*o.relative_position(p[5]), o.speed, q.duration, *q.relative_position(p[5]))

    @entry("ttv-offsets", "P t0 d1 d2 d3 t", [(3.0, 0.1, 0.02, -0.05, 0.1, 3.3), (2.0, 1.0, 0.0, 0.1, -0.1, 1.2), (2.0, 1.0, 0.3, 0.1, -0.1, 40.0)], tol32=5e-4)
    def _(p):
        o = TTVOrbit(period=p[:1], time_transit=p[1:2], ttvs=(p[2:5],), duration=0.2, impact_param=0.1, radius_ratio=0.1)
        return cat(*o.relative_position(p[5]), o._warp_times(p[5] * ureg.day), *o.transit_times)

    @entry("ttv-times", "T1 T2 T3 t", [(0.1, 3.15, 6.05, 3.2), (0.0, 2.0, 4.1, 9.0)], tol32=5e-4)
    def _(p):
        o = TTVOrbit(transit_times=(p[:3],), duration=0.2, impact_param=0.1, radius_ratio=0.1)
        return cat(*o.relative_position(p[3]), o._warp_times(p[3] * ureg.day), o.period)

    @entry("limb-dark", "u1 u2 P1 t1 r1 P2 t2 w2 t r2", [(0.3, 0.2, 3.0, 0.2, 0.1, 5.0, 0.4, 0.7, 0.22, 0.05), (0.3, 0.2, 3.0, 0.2, 0.1, 5.0, 0.4, 0.7, 1.7, 0.05), (0.4, -0.1, 3.0, 0.2, 0.1, 5.0, 0.3, 0.0, 0.27, 0.2)], tol32=1e-3)
    def _(p):
        return cat(limb_dark_light_curve(system(p[2:]), *[p[:2]])(p[8]))

    @entry("integrate", "u dt t", [(0.3, 0.1, 0.02), (0.1, 0.01, 0.083)], tol32=1e-3, step=1e-5)
    def _(p):
        o = TransitOrbit(period=3.0, duration=0.2, impact_param=0.2, radius_ratio=0.1)
        lc = limb_dark_light_curve(o, [p[0]])
        return cat(*[integrate(lc, exposure_time=p[1], order=k, num_samples=5)(p[2]) for k in (0, 1, 2)])

    @entry("interpolate", "u t0 t", [(0.3, 0.01, 0.021), (0.1, -0.02, 3.0712)], tol32=1e-3, step=1e-5)
    def _(p):
        o = TransitOrbit(period=3.0, time_transit=p[1], duration=0.2, impact_param=0.2, radius_ratio=0.1)
        return cat(interpolate(limb_dark_light_curve(o, [p[0]]), period=3.0, time_transit=p[1], num_samples=60, duration=0.3)(p[2]))

    @entry("emission", "A B u t", [(1.3, 0.4, 0.2, 0.02), (1.0, 0.1, 0.3, 1.52)], tol32=1e-3)
    def _(p):
        s = SurfaceSystem(Central(), Surface(amplitude=p[0], u=(p[2],), normalize=False)).add_body(Body(period=3.0, radius=0.2), Surface(amplitude=p[1], normalize=False))
        return cat(emission(s)(p[3]))

    @entry("rotation", "x y z angle c1 c2 c3", [(0.6, 0.0, 0.8, 0.4, 0.2, -0.3, 0.5), (0.0, 1.0, 0.0, -2.0, 0.2, 0.1, 0.5), (1.0, 0.0, 0.0, 1.0, 0.2, 0.1, 0.5)], tol32=1e-4, heavy=True)
    def _(p):
        y = jnp.concatenate([jnp.ones(1), p[4:], 0.3 * p[4:], p[5:]])
        return dot_rotation_matrix(2, p[0], p[1], p[2], p[3])(y)

    @entry("project", "inc obl th tz c1 c2", [(1.0, 0.3, 0.4, 0.5, 0.2, 0.4), (2.0, -0.6, -4.0, -1.5, 0.2, 0.4)], tol32=1e-4, heavy=True)
    def _(p):
        y = jnp.concatenate([jnp.ones(1), p[4:], 0.3 * p[4:], p])[:9]
        return left_project(2, p[0], p[1], p[2], p[3], y)

    @entry("occultation-integrals", "b r", [(0.3, 0.1), (0.95, 0.2), (0.7, 1.3), (2.0, 0.5), (0.3, 2.0)], tol32=1e-4, heavy=True)
    def _(p):
        return solution_vector(2, order=20)(p[0], p[1])

    def surf(p, period=2.0):
        y = jnp.concatenate([jnp.ones(1), p[:3], 0.4 * p[:3], p[1:3]])
        return Surface(y=Ylm.from_dense(y, normalize=False), inc=p[3], obl=p[4], u=(p[5], 0.1), period=period, phase=p[6], amplitude=p[7], normalize=False, radius=1.3)

    SURF = [(0.2, -0.1, 0.3, 1.1, 0.3, 0.2, 0.6, 1.4)]
    OCC = [(0.1, 0.3, -0.5, 1.0, 0.7), (0.3, 0.7, 0.6, 3.0, -1.0), (0.2, 2.0, 0.3, 1.0, 0.0), (0.2, 0.3, 0.3, -1.0, 0.4), (1.5, 1.0, 0.4, 1.0, 3.0)]

    @entry("surface-flux", "c1 c2 c3 inc obl u phase A r x y z th", [SURF[0] + o for o in OCC], tol32=2e-4, heavy=True)
    def _(p):
        s = surf(p)
        return jnp.stack([surface_light_curve(s, r=p[8], x=p[9], y=p[10], z=p[11], theta=p[12]), surface_light_curve(s, theta=p[12])])

    @entry("surface-rv", "c1 c2 c3 inc obl u phase A r x y z th", [SURF[0] + o for o in OCC[:4]], tol32=5e-3, heavy=True)
    def _(p):
        return jnp.stack([surface_radial_velocity(surf(p), r=p[8], x=p[9], y=p[10], z=p[11], theta=p[12])])

    @entry("intensity", "c1 c2 c3 inc obl u phase A lat lon", [(*SURF[0], 0.3, 0.4), (*SURF[0], -1.2, 2.0)], tol32=1e-4, heavy=True)
    def _(p):
        return cat(surf(p).intensity(p[8], p[9]), surf(p).rotational_phase(p[8]))

    @entry("render", "c1 c2 c3 inc obl u phase A th", [(*SURF[0], 0.4), (*SURF[0], -5.0)], tol32=1e-3, heavy=True, fwd=True)
    def _(p):
        z = surf(p).render(p[8], res=9)
        return jnp.ravel(jnp.where(jnp.isfinite(z), z, 0.0))

    @entry("spot", "contrast r lat lon", [(0.3, 0.6, 0.4, -1.0), (0.9, 1.2, -1.0, 2.0)], tol32=2e-3, heavy=True)
    def _(p):
        return ylm_spot(3)(p[0], p[1], p[2], p[3]).todense()

    @entry("ylm", "c1 c2 d1 d2 A", [(0.3, 0.6, 0.4, -1.0, 2.0)])
    def _(p):
        a = Ylm.from_dense(jnp.stack([p[4], p[0], p[1], p[0] * 2]), normalize=False)
        b = Ylm.from_dense(jnp.stack([p[4], p[2], p[3], p[2]]), normalize=False)
        return cat((a * b).todense(), a.normalize().todense(), Ylm.from_limb_darkening((p[0], p[1])).todense())

    @entry("surface-system", "A u inc t0 t phase B", [(1.2, 0.2, 1.1, 0.02, 0.03, 0.6, 0.4), (1.2, 0.2, 1.1, 0.02, 0.77, 0.6, 0.4)], tol32=2e-3, heavy=True)
    def _(p):
        y = jnp.stack([p[0], 0.2 * p[0], p[1], p[1]])
        s = Surface(y=Ylm.from_dense(y, normalize=False), inc=p[2], obl=0.2, u=(p[1],), period=1.2, phase=p[5], normalize=False)
        q = Surface(y=Ylm.from_dense(y, normalize=False), inc=p[2], amplitude=p[6], normalize=False, period=0.9)
        sys = SurfaceSystem(Central(), s).add_body(Body(period=1.5, radius=0.2, time_transit=p[3], impact_param=0.3, mass=0.01), q)
        return cat(surf_lc(sys)(p[4]))

    @entry("surface-system-rv", "A u inc t0 t phase", [(1.2, 0.2, 1.1, 0.02, 0.03, 0.6), (1.2, 0.2, 1.1, 0.02, 0.5, 0.6)], tol32=5e-3, heavy=True)
    def _(p):
        y = jnp.stack([p[0], 0.2 * p[0], p[1], p[1]])
        s = Surface(y=Ylm.from_dense(y, normalize=False), inc=p[2], obl=0.2, u=(p[1],), period=1.2, phase=p[5], normalize=False)
        sys = SurfaceSystem(Central(), s).add_body(Body(period=1.5, radius=0.2, time_transit=p[3], impact_param=0.3, mass=0.01))
        return cat(radial_velocity(sys)(p[4]))

    return E


NAMES = ["kepler", "core-ld", "orbit-position", "orbit-velocity", "orbit-rv-amplitude", "central", "system", "transit-orbit", "ttv-offsets", "ttv-times",
         "limb-dark", "integrate", "interpolate", "emission", "rotation", "project", "occultation-integrals", "surface-flux", "surface-rv", "intensity",
         "render", "spot", "ylm", "surface-system", "surface-system-rv"]
HEAVY = {"intensity", "occultation-integrals", "rotation", "project", "surface-flux", "surface-rv", "render", "spot", "surface-system", "surface-system-rv"}


OBJECTS = ["orbitalbody", "circular", "system", "hetero", "transit", "ttv", "surface", "ylm", "surfacesystem"]
TIMEFNS = ["ld_system", "ld_transit", "emission", "surface", "rv", "orbit_rv", "orbit_x"]


def tasks(tier):
    t = []
    for n in NAMES:
        h = n in HEAVY
        t.append(dict(name=f"words-{n}", entry=n, cost=30 if h else 12))
        t.append(dict(name=f"grads-{n}", entry=n, cost=30 if h else 10))
        if tier == "thorough":
            for k in range(4):
                t.append(dict(name=f"words2-{n}-{k}", entry=n, part=k, cost=25))
    t += [dict(name=f"f32-{k}", part=k, x64=False, cost=15) for k in range(4)]
    t += [*[dict(name=f"pytrees-{k}", object=k, cost=10) for k in OBJECTS], *[dict(name=f"times-{k}", fn=k, cost=8) for k in TIMEFNS]]
    return t


def words_basis(pts):
    """one-letter transformations of vector -> vector functions"""
    import jax
    import jax.numpy as jnp

    def vm(f):
        def g(p):
            others = jnp.asarray(pts, dtype=p.dtype)
            q = jnp.concatenate([others[:1], p[None], others[-1:]])
            return jax.vmap(f)(q)[1]

        return g

    def lm(f):
        def g(p):
            others = jnp.asarray(pts, dtype=p.dtype)
            return jax.lax.map(f, jnp.concatenate([others[-1:], p[None], others[:1]]))[1]

        return g

    return dict(
        J=jax.jit, V=vm, M=lm, R=jax.checkpoint,
        P=lambda f: lambda p: jax.jvp(f, (p,), (jnp.ones_like(p),))[0],
        Q=lambda f: lambda p: jax.vjp(f, p)[0],
        L=lambda f: lambda p: jax.linearize(f, p)[0],
    )


def run(task, ctx):
    import jax
    import jax.numpy as jnp

    name = task["name"]
    E = entries()
    assert sorted(E) == sorted(NAMES)

    if name.startswith("words"):
        e = E[task["entry"]]
        f, pts = e["f"], e["points"]
        W = words_basis(pts)
        words = [(a,) for a in W]
        two = list(itertools.product(W, repeat=2))
        if name.startswith("words2"):
            words = two[task["part"]::4]
            if e["heavy"]:
                words = [w for w in words if w[0] in "JV" or w[1] in "JV"]
        elif ctx.tier == "quick":
            # the pairs where one transformation changes what the other traces
            if e["heavy"]:
                pts = pts[:2]
                words = [("J",), ("V", "J"), ("Q", "J")]
            else:
                words += [w for w in two if w in {("J", "V"), ("V", "J"), ("M", "J"), ("J", "J"), ("V", "V"), ("R", "V"), ("V", "M")}]
        eager = [np.asarray(f(jnp.asarray(p))) for p in pts]
        scale = [np.maximum(np.abs(v), 1.0) for v in eager]
        for p, v in zip(pts, eager):
            ctx.check(np.isfinite(v).all(), "finite", entry=task["entry"], at=p.tolist())
            with_lists = np.asarray(f(p)) if not e["heavy"] else v
            ctx.close(with_lists, v, "numpy-arguments", tol=1e-12, rtol=1e-12, detail=dict(entry=task["entry"]))
        for w in words:
            g = f
            for a in w:
                g = W[a](g)
            for k, p in enumerate(pts):
                got = np.asarray(g(jnp.asarray(p)))
                ctx.close(got / scale[k], eager[k] / scale[k], "word", tol=1e-9, detail=dict(entry=task["entry"], word="".join(w), at=p.tolist()))
                ctx.count(states=1, transitions=1, traces=1)
        if name.startswith("words2"):
            return
        # one argument traced with the others concrete Python numbers; vmapped over one argument
        n = pts.shape[1]

        def join(p, i, v):
            return jnp.stack([v if j == i else p[j] for j in range(n)])

        for i in range(n):
            class Mixed:
                """the argument vector as the caller would hold it: numbers, one of them traced"""

                def __init__(self, p, v):
                    self.v = [float(x) for x in p]
                    self.v[i] = v
                    self.dtype = jnp.asarray(0.0).dtype

                def __getitem__(self, k):
                    if isinstance(k, slice):
                        return jnp.stack([jnp.asarray(x) for x in self.v[k]])
                    return self.v[k]

                def __len__(self):
                    return n

            for k, p in enumerate(pts[: 1 if ctx.tier == "quick" else None]):
                try:
                    one = jax.jit(lambda v, p=p: f(Mixed(p, v)))
                    if ctx.tier == "thorough" or not (e["heavy"] or i % 2):
                        if task["entry"] not in ("rotation", "project", "ylm", "surface-system", "surface-system-rv", "intensity", "render", "surface-flux", "surface-rv"):
                            got = np.asarray(one(p[i]))
                            ctx.close(got / scale[k], eager[k] / scale[k], "one-traced", tol=1e-9, detail=dict(entry=task["entry"], traced=e["names"][i], at=p.tolist()))
                            ctx.count(states=1, transitions=1, traces=1)
                except Exception as err:
                    ctx.violation("one-traced", entry=task["entry"], traced=e["names"][i], error=repr(err)[:200])
                if e["heavy"] and (k or (ctx.tier == "quick" and i % 4 != 3)) or (ctx.tier == "quick" and not i % 2):
                    continue
                vv = np.array([p[i], p[i] * 1.01 + 0.001, p[i]])
                got = np.asarray(jax.jit(jax.vmap(lambda v, p=p: f(join(p, i, v))))(vv))
                ctx.close(got[2] / scale[k], eager[k] / scale[k], "one-mapped", tol=1e-9, detail=dict(entry=task["entry"], mapped=e["names"][i], at=p.tolist()))
                ctx.close(got[0], got[2], "one-mapped-lanes", tol=1e-12, rtol=1e-12, detail=dict(entry=task["entry"]))
                if not e["heavy"]:
                    q = p.copy()
                    q[i] = vv[1]
                    ctx.close(got[1] / scale[k], np.asarray(f(jnp.asarray(q))) / scale[k], "one-mapped", tol=1e-9, detail=dict(entry=task["entry"], mapped=e["names"][i], at=q.tolist()))
                ctx.count(states=3, transitions=1, traces=1)
        ctx.sample(dict(entry=task["entry"], words=["".join(w) for w in words[:5]]))
    elif name.startswith("grads"):
        e = E[task["entry"]]
        f, pts = e["f"], e["points"]
        if e["heavy"] and ctx.tier == "quick":
            pts = pts[:3]
        n = pts.shape[1]
        jf = jax.jit(f)
        D, B = jax.jacfwd, jax.jacrev
        V = words_basis(e["points"])["V"]
        first = dict(JD=jax.jit(D(f)), JB=jax.jit(B(f)))
        if not e["heavy"] and ctx.tier == "quick":
            first |= dict(BJ=B(jf), JBV=jax.jit(B(V(f))))
        elif not e["heavy"]:
            first |= dict(DJ=D(jf), BJ=B(jf), VD=V(D(f)), DV=D(V(f)), BV=B(V(f)), BR=B(jax.checkpoint(f)))
        elif ctx.tier == "thorough":
            first |= dict(BJ=B(jf), JBV=jax.jit(B(V(f))), JVB=jax.jit(V(B(f))))
        if e["fwd"]:
            # pixels off the disk are NaN by design, and their cotangents with them
            first = dict(JD=first["JD"])
        for p in pts:
            cols = []
            for i in range(n):
                # Ridders extrapolation of central differences of the compiled (= eager, above) function
                h = e["step"] or (2e-3 if e["heavy"] else 2e-3 * max(1.0, abs(p[i])))
                T = []
                for m in range(4):
                    hp, hm = p.copy(), p.copy()
                    s = h / 2**m
                    hp[i] += s
                    hm[i] -= s
                    T.append((np.asarray(jf(hp)) - np.asarray(jf(hm))) / (2 * s))
                for o in range(1, 4):
                    T = [(4**o * T[q + 1] - T[q]) / (4**o - 1) for q in range(len(T) - 1)]
                cols.append(T[0])
            fd = np.stack(cols, -1)
            J0 = None
            for w, g in first.items():
                J = np.asarray(g(jnp.asarray(p)))
                d = dict(entry=task["entry"], word=w, at=p.tolist())
                ctx.check(np.isfinite(J).all(), "grad-finite", bad=[e["names"][i] for i in np.where(~np.isfinite(J).all(0))[0]], **d)
                sc = np.maximum(1.0, np.abs(fd))
                keep = [i for i in range(n) if e["names"][i] not in e["nograd"]]
                ctx.close((J / sc)[:, keep], (fd / sc)[:, keep], "grad", tol=2e-5, detail=d, labels=dict(wrt=np.array(e["names"])[keep]))
                if J0 is None:
                    J0 = J
                ctx.close(J / sc, J0 / sc, "grad-modes", tol=1e-8, detail=d, labels=dict(wrt=np.array(e["names"])))
                ctx.count(states=J.size, transitions=1, traces=1)
        # second order, contracted with fixed weights
        m = np.asarray(jf(pts[0])).size
        wts = np.cos(1.0 + np.arange(m))
        sc_f = lambda p: jnp.dot(wts, f(p))  # noqa: E731
        second = dict(DB=jax.jit(D(B(sc_f))))
        if ctx.tier == "thorough":
            second |= dict(BB=jax.jit(B(B(sc_f))))
        if not e["heavy"] and ctx.tier == "thorough":
            second |= dict(DD=jax.jit(D(D(sc_f))), BD=jax.jit(B(D(sc_f))))
        if task["entry"] == "ylm":
            # reverse over anything fails inside jax's own sparse arrays (symbolic zero in bcoo_todense)
            second.pop("BB", 0), second.pop("BD", 0)
        if e["heavy"] and ctx.tier == "quick":
            second = dict(DB=second["DB"]) if task["entry"] in ("rotation", "surface-flux", "occultation-integrals") else {}
        if e["fwd"]:
            second = {}
        jg = jax.jit(jax.grad(sc_f))
        for p in pts if second else []:
            cols = []
            for i in range(n):
                h = e["step"] or 1e-3 * max(1.0, abs(p[i]))
                T = []
                for q in range(3):
                    hp, hm = p.copy(), p.copy()
                    hp[i] += h / 2**q
                    hm[i] -= h / 2**q
                    T.append((np.asarray(jg(hp)) - np.asarray(jg(hm))) / (2 * h / 2**q))
                for o in range(1, 3):
                    T = [(4**o * T[q + 1] - T[q]) / (4**o - 1) for q in range(len(T) - 1)]
                cols.append(T[0])
            fd = np.stack(cols, -1)
            sc = np.maximum(1.0, np.abs(fd).max())
            for w, g in second.items():
                H = np.asarray(g(jnp.asarray(p)))
                d = dict(entry=task["entry"], word=w, at=p.tolist())
                keep = [i for i in range(n) if e["names"][i] not in e["nograd"]]
                K = np.ix_(keep, keep)
                ctx.check(np.isfinite(H).all(), "hessian-finite", **d)
                ctx.close((H / sc)[K], (fd / sc)[K], "hessian", tol=2e-4, detail=d)
                ctx.close((H / sc)[K], (H.T / sc)[K], "hessian-symmetric", tol=1e-6, detail=d)
                ctx.count(states=H.size, transitions=1, traces=1)
        ctx.sample(dict(entry=task["entry"], words=list(first) + list(second)))
    elif name.startswith("f32"):
        for n_ in NAMES[task["part"]::4]:
            e = E[n_]
            for p in e["points"]:
                p32 = p.astype(np.float32)
                got = e["f"](jnp.asarray(p32)) if not e["heavy"] else jax.jit(e["f"])(jnp.asarray(p32))
                ctx.check(got.dtype == jnp.float32, "f32-dtype", entry=n_, got=str(got.dtype))
                with jax.experimental.enable_x64():
                    want = np.asarray(jax.jit(e["f"])(jnp.asarray(p32.astype(np.float64))))
                got = np.asarray(got)
                sc = np.maximum(1.0, np.abs(want))
                ctx.check(np.isfinite(got).all(), "f32-finite", entry=n_, at=p.tolist())
                ctx.close(got / sc, want / sc, "f32", tol=e["tol32"], detail=dict(entry=n_, at=p.tolist()))
                ctx.count(states=got.size, transitions=1, traces=1)
        ctx.sample(dict(entries=NAMES[task["part"]::4]))
    elif name.startswith("pytrees"):
        import equinox as eqx
        from jaxoplanet.light_curves import limb_dark_light_curve
        from jaxoplanet.orbits import TransitOrbit
        from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
        from jaxoplanet.orbits.ttv import TTVOrbit
        from jaxoplanet.starry import Surface, Ylm
        from jaxoplanet.starry.light_curves import light_curve as surf_lc
        from jaxoplanet.starry.light_curves import surface_light_curve
        from jaxoplanet.starry.orbit import SurfaceSystem

        def mg(q):
            return q.magnitude if hasattr(q, "_magnitude") else q

        c = Central(mass=1.2, radius=1.1)
        b = Body(period=3.0, radius=0.1, time_transit=0.1, eccentricity=0.2, omega_peri=0.3, mass=0.01)
        y = Ylm.from_dense(jnp.array([1.0, 0.2, -0.1, 0.3]), normalize=False)
        s = Surface(y=y, inc=1.1, obl=0.2, u=(0.3, 0.1), period=1.2, normalize=False)
        t = np.array([0.04, 1.0])
        objects = dict(
            orbitalbody=(OrbitalBody(c, b), lambda o: jnp.stack([mg(v) for v in o.relative_position(t)])),
            circular=(OrbitalBody(c, Body(period=3.0)), lambda o: jnp.stack([mg(v) for v in o.relative_position(t)])),
            system=(System(c).add_body(b).add_body(Body(period=2.0, radius=0.2)), lambda o: limb_dark_light_curve(o, [0.3, 0.1])(t)),
            hetero=(System(c).add_body(b).add_body(Body(semimajor=6.0, radius=0.2, asc_node=0.3)), lambda o: jnp.stack([mg(v) for v in o.relative_position(t)])),
            transit=(TransitOrbit(period=3.0, duration=0.2, radius_ratio=0.1), lambda o: limb_dark_light_curve(o, [0.3, 0.1])(t)),
            ttv=(TTVOrbit(period=jnp.array([3.0]), time_transit=jnp.array([0.1]), ttvs=(jnp.array([0.02, -0.03]),), radius_ratio=0.1, duration=0.2, impact_param=0.1), lambda o: limb_dark_light_curve(o, [0.3, 0.1])(t)),
            surface=(s, lambda o: surface_light_curve(o, r=0.2, x=0.1, y=0.3, z=1.0, theta=0.4)),
            ylm=(y, lambda o: o.todense()),
            surfacesystem=(SurfaceSystem(c, s).add_body(b, Surface(amplitude=0.3, normalize=False)), lambda o: surf_lc(o)(t)),
        )
        assert sorted(objects) == sorted(OBJECTS)
        for k, (o, f) in [(task["object"], objects[task["object"]])]:
            want = np.asarray(f(o))
            leaves, tree = jax.tree_util.tree_flatten(o)
            ctx.check(all(isinstance(x, (float, int, complex, np.ndarray, jax.Array)) for x in leaves), "pytree-leaves", object=k, got=[type(x).__name__ for x in leaves])
            got = np.asarray(f(jax.tree_util.tree_unflatten(tree, leaves)))
            ctx.close(got, want, "pytree-round-trip", tol=1e-14, detail=dict(object=k))
            got = np.asarray(eqx.filter_jit(f)(o))
            ctx.close(got, want, "pytree-jit", tol=1e-10, detail=dict(object=k))
            got = np.asarray(jax.jit(f)(jax.tree_util.tree_map(jnp.asarray, o)))
            ctx.close(got, want, "pytree-jit", tol=1e-10, detail=dict(object=k))
            stack = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 3), o)
            got = np.asarray(jax.jit(jax.vmap(f))(stack))
            ctx.check(got.shape == (3, *want.shape), "pytree-vmap-shape", object=k, got=got.shape)
            for i in range(3):
                ctx.close(got[i], want, "pytree-vmap", tol=1e-10, detail=dict(object=k, lane=i))
            back = jax.jit(lambda q: q)(o)
            ctx.check(jax.tree_util.tree_structure(back) == tree, "pytree-structure", object=k)
            g = jax.grad(lambda q: jnp.sum(f(q) ** 2))(jax.tree_util.tree_map(lambda x: jnp.asarray(x, float), o))
            eps = 1e-6
            jf = jax.jit(lambda q: jnp.sum(f(q) ** 2))
            for i, x in enumerate(leaves):
                if not np.issubdtype(np.asarray(x).dtype, np.floating) or np.size(x) != 1:
                    continue
                L1, L2 = list(leaves), list(leaves)
                L1[i], L2[i] = x + eps, x - eps
                F = [float(jf(jax.tree_util.tree_map(jnp.asarray, jax.tree_util.tree_unflatten(tree, q)))) for q in (L1, L2)]
                fd = (F[0] - F[1]) / (2 * eps)
                gi = float(np.ravel(jax.tree_util.tree_leaves(g)[i])[0])
                ctx.close(gi, fd, "pytree-grad", tol=1e-4 * max(1.0, abs(fd)), detail=dict(object=k, leaf=i, value=float(np.ravel(x)[0])))
                ctx.count(states=1, transitions=1)
            ctx.count(states=6, transitions=5, traces=6)
        ctx.sample(list(objects))
    else:  # the form in which the time is given
        from jaxoplanet.light_curves import limb_dark_light_curve
        from jaxoplanet.light_curves.emission import light_curve as emission
        from jaxoplanet.orbits import TransitOrbit
        from jaxoplanet.orbits.keplerian import Body, Central, System
        from jaxoplanet.starry import Surface, Ylm
        from jaxoplanet.starry.doppler import radial_velocity
        from jaxoplanet.starry.light_curves import light_curve as surf_lc
        from jaxoplanet.starry.orbit import SurfaceSystem
        from jaxoplanet.units import unit_registry as ureg

        def mg(q):
            return np.asarray(q.magnitude if hasattr(q, "_magnitude") else q)

        c = Central(mass=1.2, radius=1.1)
        b = Body(period=3.0, radius=0.1, time_transit=0.1, mass=0.01, eccentricity=0.1, omega_peri=0.4)
        y = Ylm.from_dense(jnp.array([1.0, 0.2, -0.1, 0.3]), normalize=False)
        s = Surface(y=y, inc=1.1, obl=0.2, u=(0.3, 0.1), period=1.2, normalize=False)
        ss = SurfaceSystem(c, s).add_body(b, Surface(amplitude=0.3, normalize=False))
        sysm = System(c).add_body(b)
        fns = dict(
            ld_system=limb_dark_light_curve(sysm, [0.3]), ld_transit=limb_dark_light_curve(TransitOrbit(period=3.0, duration=0.2, radius_ratio=0.1), [0.3]),
            emission=emission(ss), surface=surf_lc(ss), rv=radial_velocity(ss),
            orbit_rv=lambda t: sysm.radial_velocity(t), orbit_x=lambda t: sysm.relative_position(t)[0],
        )
        base = np.array([[0.05, 0.1, 0.13], [1.0, 2.0, 1.6]])
        assert sorted(fns) == sorted(TIMEFNS)
        for k, f in [(task["fn"], fns[task["fn"]])]:
            if k in ("surface", "rv"):
                f = jax.jit(f)
            ref = np.array([[mg(f(v)) for v in row] for row in base])
            lead = k.startswith("orbit")  # body axis first
            for form, val in dict(numpy=base, jax=jnp.asarray(base), days=base * ureg.day, hours=jnp.asarray(base * 24) * ureg.hour, flat=base.ravel(), one=base[:1, :1], column=base[:, :1],
                                  strided=np.asfortranarray(base), f32=None, ints=None).items():
                if k in ("surface", "rv") and ctx.tier == "quick" and form in ("jax", "days", "one", "strided", "f32"):
                    continue
                if form == "f32":
                    val = base.astype(np.float32).astype(np.float64)
                elif form == "ints":
                    val, got, want = np.array([1, 2]), None, None
                    want = np.stack([mg(f(1.0)), mg(f(2.0))], -1 if lead else 0)
                    got = mg(f(val))
                    ctx.close(got, want, "time-form", tol=1e-10, rtol=1e-10, detail=dict(fn=k, form=form))
                    continue
                shape = np.shape(val.magnitude if hasattr(val, "_magnitude") else val)
                if form == "f32":
                    want = ref
                    tol = 1e-5
                else:
                    tol = 1e-9
                    want = ref.reshape(shape + ref.shape[2:]) if form == "flat" else ref[: shape[0], : shape[1]]
                if lead:
                    want = np.moveaxis(want, -1, 0)
                got = mg(f(val))
                ctx.close(got, want, "time-form", tol=tol, rtol=tol, detail=dict(fn=k, form=form))
                ctx.count(states=got.size, transitions=1, traces=1)
            for form, val in dict(quantity=0.1 * ureg.day, zerod=np.array(0.1), npfloat=np.float64(0.1), jaxscalar=jnp.asarray(0.1), minutes=144.0 * ureg.minute).items():
                got = mg(f(val))
                ctx.close(got, ref[0, 1], "time-form", tol=1e-9, rtol=1e-9, detail=dict(fn=k, form=form))
                ctx.count(states=1, transitions=1, traces=1)
            for bad in (0.1 * ureg.kg, 0.1 * ureg.m):
                from framework import raises

                ctx.check(raises(f, bad) is not None, "time-unit-refused", fn=k, unit=str(bad.units))
        ctx.sample(list(fns))
