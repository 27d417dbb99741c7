"""Executes a word of library calls in this (fresh) process: used by props/C34.py.

stdin: JSON dict(x64="start"|"late"|"toggle"|"off", word=[letter...]); stdout: pickle of the list of results.
"""

import json
import os
import pickle
import sys

import numpy as np


def letters():
    """name -> (family, function of nothing returning a pytree of arrays); arguments are numpy arrays created once
    and frozen afterwards by comparison."""
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    from jaxoplanet.core.limb_dark import light_curve as core_lc
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit, compute_expected_transit_times
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.core import basis, rotation, s2fft_rotation
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.core.solution import rT, solution_vector
    from jaxoplanet.starry.core.wigner3j import Wigner3jCalculator
    from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
    from jaxoplanet.starry.light_curves import light_curve as surf_lc
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.ylm import ylm_spot
    from jaxoplanet.units import unit_registry as ureg

    L = {}

    def add(fam, name, fn, *args):
        L[name] = (fam, fn, args)

    T = np.linspace(-0.2, 0.2, 9)
    M, E = np.linspace(-7, 7, 11), np.linspace(0, 0.9, 11)
    B = np.linspace(0.0, 1.3, 9)
    U2, U3 = np.array([0.3, 0.2]), np.array([0.1, 0.2, 0.3])
    mags = lambda q: jax.tree_util.tree_map(lambda v: v.magnitude if hasattr(v, "magnitude") else v, q, is_leaf=lambda v: hasattr(v, "magnitude"))  # noqa

    for dt in ("f8", "f4", "int"):
        m = M.astype("f4") if dt == "f4" else np.arange(-4, 7) if dt == "int" else M
        add("core", "kepler-" + dt, kepler, m, E.astype("f4") if dt == "f4" else E)
    for o in (10, 20):
        add("core", f"core-u2-o{o}", lambda u, b, r, o=o: core_lc(u, b, r, order=o), U2, B, 0.1)
    add("core", "core-u3", core_lc, U3, B, 0.1)
    add("core", "core-r2", core_lc, U2, B, 1.2)
    add("core", "core-grad", lambda u, b: jax.vmap(jax.grad(core_lc, (1, 2)), (None, 0, None))(u, b, 0.1), U2, B)

    def system(kind):
        s = System(Central(mass=0.9, radius=1.1))
        if kind in ("a", "ab", "aa"):
            s = s.add_body(period=3.0, radius=0.1, mass=0.01)
        if kind == "aa":
            s = s.add_body(period=5.0, radius=0.2, mass=0.02)
        if kind in ("b", "ab"):
            s = s.add_body(period=4.0, radius=0.2, eccentricity=0.3, omega_peri=0.4, impact_param=0.3)
        return s

    for k in ("a", "b", "ab", "aa"):
        add("orbit", "pos-" + k, lambda t, k=k: mags([system(k).relative_position(t), system(k).central_velocity(t) if "b" not in k else 0]), T)
        add("orbit", "lc-" + k, lambda t, u, k=k: limb_dark_light_curve(system(k), u)(t), T, U2)
        add("orbit", "em-" + k, lambda t, k=k: emission(_surf_system(system(k)))(t), T)
    add("orbit", "transit", lambda t, u: limb_dark_light_curve(TransitOrbit(period=2.0, duration=0.2, radius_ratio=0.1, impact_param=0.3), u)(t), T, U2)
    add("orbit", "transit-shift", lambda t, u: limb_dark_light_curve(TransitOrbit(period=2.0, duration=0.1, radius_ratio=0.1, time_transit=0.1), u)(t), T, U2)
    add("orbit", "ttv", lambda t, a: mags(TTVOrbit(period=np.array([2.0]), time_transit=np.array([0.0]), duration=np.array([0.2]), impact_param=np.array([0.1]), ttvs=(a,)).relative_position(t)), T, np.array([0.01, -0.02, 0.03]))
    add("orbit", "expected", lambda p, e: compute_expected_transit_times(-3.0, 9.0, p, e), np.array([2.0, 3.3]), np.array([0.1, -5.0]))
    add("orbit", "integrate", lambda t, u: integrate(limb_dark_light_curve(system("a"), u), exposure_time=0.05, order=2, num_samples=5)(t), T, U2)
    add("orbit", "integrate-o0", lambda t, u: integrate(limb_dark_light_curve(system("a"), u), exposure_time=0.05, order=0, num_samples=3)(t), T, U2)
    add("orbit", "interpolate", lambda t, u: interpolate(limb_dark_light_curve(system("a"), u), period=3.0, time_transit=0.0, num_samples=50)(t), T, U2)

    def _surf_system(s):
        out = SurfaceSystem(s.central, Surface(u=(0.3,), amplitude=1.0))
        for i, b in enumerate(s.bodies):
            out = out.add_body(b, Surface(amplitude=0.1 * (i + 1), normalize=False))
        return out

    def y(l, s=1.3):
        return np.cos(s * np.arange((l + 1) ** 2)) + (np.arange((l + 1) ** 2) == 0) * 2

    for l in (0, 2, 4):
        add("map", f"A1-{l}", lambda l=l: [basis.A1(l).todense(), basis.A2_inv(l).todense()])
        add("map", f"rot-{l}", lambda v, l=l: [rotation.dot_rotation_matrix(l, 0.0, 1.0, 0.0, 0.7)(v), rotation.left_project(l, 0.6, 0.4, 1.1, 0.3, v)], y(l))
        add("map", f"s2fft-{l}", lambda l=l: s2fft_rotation.compute_rotation_matrices(l, 0.0, 1.0, 0.0, 0.7))
        add("map", f"rotmat-{l}", lambda l=l: rotation.compute_rotation_matrices(l, 0.6, 0.8, 0.0, 0.7))
        add("map", f"sol-{l}", lambda l=l: [solution_vector(l)(0.4, 0.3), rT(l)])
    add("map", "sol-2-order40", lambda: solution_vector(2, order=40)(0.4, 0.3))
    for l, nu in ((1, 0), (2, 0), (2, 2)):
        u = (0.3, 0.2)[:nu]

        def surf(v, u=u, **kw):
            return Surface(y=Ylm.from_dense(jnp.asarray(v)), u=u, inc=1.1, obl=0.2, period=2.0, **kw)

        add("map", f"slc-{l}-{nu}", lambda v, surf=surf: [surface_light_curve(surf(v), r=0.2, x=0.3, y=0.1, z=1.0, theta=0.4), surface_light_curve(surf(v), theta=0.4)], y(l))
        add("map", f"rv-{l}-{nu}", lambda v, surf=surf: surface_radial_velocity(surf(v, shear=0.2 if v.size == 9 else None), r=0.2, x=0.3, y=0.1, z=1.0, theta=0.4), y(l))
        add("map", f"render-{l}-{nu}", lambda v, surf=surf: [surf(v).render(0.3, 6), surf(v).intensity(0.2, 0.3)], y(l))
    for l, r in ((2, 0.3), (4, 0.3), (4, 0.5)):
        add("map", f"spot-{l}-{r}", lambda l=l, r=r: ylm_spot(l)(0.5, r, 0.2, 0.4).todense())
    for l in (1, 2):
        add("alg", f"ylm-mul-{l}", lambda a, b: (Ylm.from_dense(a) * Ylm.from_dense(b)).todense(), y(l), y(2, 0.7))
        add("alg", f"pijk-mul-{l}", lambda a, b: (Pijk.from_dense(a) * Pijk.from_dense(b)).todense(), y(l), y(1, 0.7))
        add("alg", f"ld-map-{l}", lambda a: Ylm.from_limb_darkening(tuple(a)).todense(), (U2, U3)[l - 1])
    for n in (3, 5):
        add("alg", f"w3j-{n}", lambda n=n: Wigner3jCalculator(n, n).calculate(2, 1, 0, 0))
    add("alg", "product-default", lambda: [Ylm().todense(), Pijk.from_dense(np.array([1.0])).todense()])

    def ssys(mixed):
        s = SurfaceSystem(Central(mass=1.0, radius=1.0), Surface(y=Ylm({(0, 0): 1.0, (1, 0): 0.1}), period=2.0, u=(0.2,)))
        s = s.add_body(Body(period=3.0, radius=0.2, mass=0.01), Surface(y=Ylm({(0, 0): 1.0}), amplitude=0.1, normalize=False, period=1.0))
        return s.add_body(Body(period=5.0, radius=0.1, mass=0.01), None) if mixed else s

    for mixed in (False, True):
        add("system", f"surf_lc-{mixed}", lambda t, m=mixed: surf_lc(ssys(m))(t), T)
        add("system", f"sys_rv-{mixed}", lambda t, m=mixed: mags(radial_velocity(ssys(m))(t)), T)
    # objects made once, at their first use, and given to every call
    made = {}

    class Late:
        def __init__(self, name):
            self.name = name

    make = dict(
        map=lambda: Ylm({(0, 0): 2.0, (1, -1): np.array(0.3), (2, 1): 0.4}),
        dense=lambda: Ylm.from_dense(y(2), normalize=False),
        poly=lambda: Pijk({(0, 0, 0): 1.5, (0, 1, 0): 0.3, (1, 0, 1): 0.4}),
        surface=lambda: Surface(y=obj("dense"), u=(0.3, 0.2), inc=1.1, obl=0.2, period=2.0, phase=0.1, shear=0.2),
        raw=lambda: Surface(y=obj("map"), amplitude=0.4, normalize=False, period=3.0),
        bodies=lambda: system("ab"),
        host=lambda: SurfaceSystem(system("a").central, obj("raw")).add_body(Body(period=3.0, radius=0.2), obj("raw")),
        timing=lambda: TTVOrbit(period=np.array([2.0]), time_transit=np.array([0.0]), duration=np.array([0.2]), impact_param=np.array([0.1]), ttvs=(np.array([0.01, -0.02, 0.03]),)),
        transit=lambda: TransitOrbit(period=2.0, duration=0.2, radius_ratio=0.1, impact_param=0.3),
    )

    def obj(name):
        if name not in made:
            made[name] = make[name]()
        return made[name]

    Late.get = lambda self: obj(self.name)

    def use(name, fn, *objects):
        add("object", name, fn, *(Late(o) for o in objects))

    use("omap-normalize", lambda m, d: [m.normalize().todense(), d.normalize().todense()], "map", "dense")
    use("omap-dense", lambda m, d: [m.todense(), d.todense(), m.tosparse().todense(), m[(0, 0)], m.deg], "map", "dense")
    use("omap-product", lambda m, d: [(m * d).todense(), (d * m).todense(), (2.0 * m).todense()], "map", "dense")
    use("omap-poly", lambda p: [(p * p).todense(), (p + p).todense(), p.todense()], "poly")
    use("omap-surface", lambda m, d: [Surface(y=m).y.todense(), Surface(y=d, normalize=True).amplitude, Surface(y=m, normalize=False, amplitude=3.0).y.todense()], "map", "dense")
    for k in ("surface", "raw"):
        use("osurf-flux-" + k, lambda o: [surface_light_curve(o, r=0.2, x=0.3, y=0.1, z=1.0, theta=0.4), surface_light_curve(o, theta=o.rotational_phase(0.2))], k)
        use("osurf-velocity-" + k, lambda o: surface_radial_velocity(o, r=0.2, x=0.3, y=0.1, z=1.0, theta=0.4), k)
        use("osurf-image-" + k, lambda o: [o.render(0.3, 5), o.intensity(0.2, 0.3), o.veq], k)
    use("osys-grow", lambda s: mags(s.add_body(period=7.0, radius=0.3).relative_position(0.1)), "bodies")
    use("osys-place", lambda s: mags(s.relative_position(T)), "bodies")
    use("osys-transits", lambda s, o: [limb_dark_light_curve(s, 0.3)(T), limb_dark_light_curve(o, 0.3)(T)], "bodies", "transit")
    use("osys-times", lambda o: [mags(o.relative_position(T)), o.transit_times], "timing")
    use("osys-host", lambda h: surf_lc(h)(T[:3]), "host")
    use("osys-host-grow", lambda h: surf_lc(h.add_body(Body(period=5.0, radius=0.1)))(T[:3]), "host")
    add("system", "quantity", lambda t: mags([system("a").relative_position(t * ureg.hour)]), T)
    return L


def value(out):
    import jax

    def leaf(v):
        if hasattr(v, "todense"):
            v = v.todense()
        return np.array(v)

    return [leaf(v) for v in jax.tree_util.tree_leaves(out)]


def contents(v):
    import jax

    leaves, structure = jax.tree_util.tree_flatten(v)
    return str(structure), [np.array(x) for x in leaves]


def same(a, b):
    return a[0] == b[0] and all(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=x.dtype.kind == "f") for x, y in zip(a[1], b[1]))


def main():
    spec = json.load(sys.stdin)
    out_stream = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import jax

    mode = spec["x64"]
    if mode == "start":
        jax.config.update("jax_enable_x64", True)
    elif mode != "off":
        jax.config.update("jax_enable_x64", False)
    import warnings

    warnings.filterwarnings("ignore")
    L = letters()
    import jaxoplanet

    assert os.path.realpath(jaxoplanet.__file__).startswith(os.path.realpath(os.environ["VERIF_SRC"]))
    res = []
    if mode == "late":
        jax.config.update("jax_enable_x64", True)
    for a in spec["word"]:
        if a == "!x64":
            jax.config.update("jax_enable_x64", True)
            continue
        if a == "!x32":
            jax.config.update("jax_enable_x64", False)
            continue
        fam, fn, args = L[a]
        args = [v.get() if hasattr(v, "get") else v for v in args]
        before = [contents(v) for v in args]
        try:
            r = value(fn(*args))
        except Exception as e:
            r = f"{type(e).__name__}: {e}"
        mutated = any(not same(b, contents(v)) for b, v in zip(before, args))
        res.append((a, r, mutated))
    pickle.dump(res, out_stream)
    out_stream.close()


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "list":
        L = letters()
        print(json.dumps({k: v[0] for k, v in L.items()}))
    else:
        main()
