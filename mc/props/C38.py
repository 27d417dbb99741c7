"""The value at a time depends on that time only."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "for every function of time of the library: all words of length 1-3 over an alphabet of ten times (mid-transit, "
    "ingress, out of transit, mid-eclipse, grazing the limb behind, negative, whole, far away, nan, inf), handed over as "
    "arrays of every shape with that many elements (vectors, rows, columns; squares, cubes and empty arrays of fixed words), "
    "numpy, jax and quantities in days and hours, eager and compiled; every element equals the value at that time alone; "
    "and the Jacobian of the words of finite times is diagonal with the derivative at the time alone"
)
ASSUME = ["values agree to 1e-10 of the scale of the observable", "orbits with listed transit times drop axes of length one, so only their values are compared", "no empty arrays for observables of maps (jax cannot batch sparse products over an empty axis)"]

NAMES = [
    "kepler-relative", "kepler-velocity", "kepler-rv", "kepler-parallax", "system-position", "system-central", "system-rv", "system-mixed", "transit-orbit", "transit-orbit-speed", "ttv-orbit",
    "lc-kepler", "lc-system", "lc-transit", "lc-ttv", "lc-integrated", "lc-simpson", "lc-interpolated", "emission", "starry", "starry-pair", "starry-alone", "doppler", "doppler-pair",
]
LETTERS = ["mid", "ingress", "out", "eclipse", "behind", "negative", "whole", "far", "nan", "inf"]


def tasks(tier):
    return [dict(name=n, cost=5 if "star" in n or "dop" in n else 1) for n in NAMES] + [dict(name="f32-" + n, obs=n, x64=False) for n in ("lc-system", "kepler-relative", "emission", "lc-interpolated")]


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry.doppler import radial_velocity
    from jaxoplanet.starry.light_curves import light_curve as starry
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.units import unit_registry as ureg

    obs = task.get("obs", task["name"])
    f32 = not task["x64"]
    P, t0 = 3.0, 0.4
    c = Central(mass=1.0, radius=1.1)
    b1 = Body(period=P, time_transit=t0, radius=0.3, inclination=1.55, eccentricity=0.2, omega_peri=0.7, mass=0.1, asc_node=0.3)
    b2 = Body(period=5.1, time_transit=0.45, radius=0.2, inclination=1.58, eccentricity=0.1, omega_peri=-0.7, mass=0.2, asc_node=-0.3)
    b3 = Body(period=4.0, time_transit=0.38, radius=0.25, mass=0.0)
    o = OrbitalBody(c, b1)
    pair = System(c, bodies=[b1, b2])
    mixed = System(c, bodies=[b1, b3, b2])
    surf = lambda a: Surface(y=Ylm({(0, 0): 1.0, (1, 1): 0.2, (1, 0): -0.1}), u=(0.3, 0.1), inc=1.3, obl=0.2, period=2.7, amplitude=a, normalize=False)  # noqa
    one = SurfaceSystem(c, surf(1.0), bodies=[(b1, surf(0.5))])
    two = SurfaceSystem(c, surf(1.0), bodies=[(b1, surf(0.5)), (b2, surf(0.7))])
    tr = TransitOrbit(period=P, duration=0.2, time_transit=t0, impact_param=0.3, radius_ratio=0.2)
    sp = TransitOrbit(period=P, speed=9.0, time_transit=t0, impact_param=0.3, radius_ratio=0.2)
    ttv = TTVOrbit(transit_times=(jnp.array([-2.7, 0.4, 3.35, 6.5]),), duration=0.2, impact_param=0.3, radius_ratio=0.2)
    u = (0.3, 0.2)
    lc = limb_dark_light_curve(o, *u)
    vec = lambda f: lambda t: jnp.stack([jnp.asarray(getattr(x, "magnitude", x)) for x in f(t)])  # noqa
    mag = lambda f: lambda t: jnp.asarray(getattr(f(t), "magnitude", f(t)))  # noqa
    first = lambda f: lambda t: (lambda v: jnp.moveaxis(v, -1, 0))(f(t))  # noqa  light curves: time axes first
    F = {
        "kepler-relative": vec(o.relative_position), "kepler-velocity": vec(o.relative_velocity), "kepler-rv": mag(o.radial_velocity),
        "kepler-parallax": vec(lambda t: o.relative_position(t, parallax=100 * ureg.arcsec)),
        "system-position": vec(pair.position), "system-central": vec(pair.central_velocity), "system-rv": mag(pair.radial_velocity), "system-mixed": vec(mixed.relative_position),
        "transit-orbit": vec(tr.relative_position), "transit-orbit-speed": vec(sp.relative_position), "ttv-orbit": vec(ttv.relative_position),
        "lc-kepler": lc, "lc-system": first(limb_dark_light_curve(mixed, *u)), "lc-transit": limb_dark_light_curve(tr, *u), "lc-ttv": limb_dark_light_curve(ttv, *u),
        "lc-integrated": integrate(lc, exposure_time=0.04, num_samples=5), "lc-simpson": integrate(limb_dark_light_curve(tr, *u), exposure_time=0.04, order=2, num_samples=3),
        "lc-interpolated": interpolate(limb_dark_light_curve(tr, *u), period=P, time_transit=t0, num_samples=60, duration=0.5),
        "emission": first(emission(two)), "starry": first(starry(one, order=10)), "starry-pair": first(starry(two, order=10)),
        "starry-alone": first(starry(SurfaceSystem(c, surf(1.0)), order=10)), "doppler": first(radial_velocity(one, order=10)), "doppler-pair": first(radial_velocity(two, order=10)),
    }
    f = F[obs]
    times = dict(mid=t0, ingress=t0 + 0.09, out=1.1, eclipse=t0 + 1.63, behind=t0 + 1.53, negative=-2.63, whole=2.0, far=30.47, nan=np.nan, inf=np.inf)
    assert list(times) == LETTERS
    dt = np.float32 if f32 else np.float64
    value = {k: dt(v) for k, v in times.items()}
    jf = jax.jit(f)
    alone = {k: np.asarray(jf(jnp.asarray(v))) for k, v in value.items()}
    lead = alone["mid"].shape
    scale = max(1e-3, float(max(np.abs(alone[k]).max() for k in LETTERS[:7])))
    tol = scale * (1e-10 if not f32 else 3e-4)
    # distinct, so that a value in the wrong place shows
    finite = LETTERS[:8]
    n = sum(np.abs(alone[a] - alone[b]).max() > 10 * tol for a, b in itertools.combinations(finite, 2))
    ctx.note_max("pairs of times told apart", int(n))
    drop = "ttv" in obs
    # maps take long to compile: fewer shapes and containers on every change
    slow = "star" in obs or "dop" in obs
    brief = slow and ctx.tier == "quick"

    def compare(got, word, shape, key, t=tol):
        got = np.asarray(got)
        want = np.stack([alone[k] for k in word], -1) if word else np.zeros((*lead, 0))
        if not drop:
            if not ctx.check(got.shape == (*lead, *shape), key + "-shape", got=got.shape, want=(*lead, *shape), word=word):
                return
        elif not ctx.check(got.size == want.size, key + "-size", got=got.shape, word=word):
            return
        got = got.reshape(want.shape)
        same = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= t)
        if not same.all():
            i = int(np.argmin(same.reshape(-1, len(word)).all(0)))
            ctx.violation(key, word=word, shape=shape, element=i, got=got[..., i].tolist(), want=want[..., i].tolist())

    words = [w for r in (1, 2, 3) for w in itertools.product(LETTERS, repeat=r)]
    shapes = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1), (1, 3)]}
    if brief:
        shapes = {1: [(1,)], 2: [(2,), (2, 1)], 3: [(3,), (3,), (1, 3)]}
    for i, w in enumerate(words):
        arr = np.array([value[k] for k in w], dt)
        # every shape of the shorter words, and the shapes in turn of the longer ones
        for sh in shapes[len(w)] if len(w) < 3 else [shapes[3][0], shapes[3][1 + i % 2]]:
            compare(jf(arr.reshape(sh)), w, sh, "word")
            ctx.count(states=1, traces=1, transitions=len(w))
    # larger shapes, and none
    long = [LETTERS[(7 * i + i * i) % 10] for i in range(24)]
    for sh in ((4,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (1, 2, 3), (24,), (4, 6), (0,), (0, 2), (2, 0)) if not brief else ((2, 2, 2),):
        w = tuple(long[: int(np.prod(sh))])
        if not w and (drop or slow):
            continue
        compare(jf(np.array([value[k] for k in w], dt).reshape(sh)), w, sh, "shape")
        ctx.count(states=1, traces=1)
    # containers, eager
    w = ("ingress", "negative", "whole", "mid")
    arr = np.array([value[k] for k in w], dt)
    hours = 1e-9 if not f32 else 1e-3
    forms = dict(
        numpy=(arr, 0), jax=(jnp.asarray(arr), 0), days=(arr * ureg.day, 0), jax_days=(jnp.asarray(arr) * ureg.day, 0), hours=(arr * 24 * ureg.hour, hours), minutes=(jnp.asarray(arr * 1440) * ureg.minute, hours),
    )
    if brief:
        forms = dict(hours=forms["hours"])
    for k, (t, more) in forms.items():
        for g in (f, jf) if not slow or k in ("jax", "hours") else (jf,):
            compare(g(t), w, (4,), "container-" + k, tol + more * scale)
            ctx.count(states=1, traces=1)
    # whole numbers
    for t in (np.array([2, 2]), jnp.array([2, 2]))[: 1 if brief else 2]:
        compare((jf if slow else f)(t), ("whole", "whole"), (2,), "integers", tol)
    for t in (2, 2.0, np.float64(2.0), np.int64(2), jnp.array(2), 2 * ureg.day, 48.0 * ureg.hour)[1 : 2 if brief else None]:
        try:
            g = np.asarray((jf if slow and not hasattr(t, "units") else f)(t))
        except Exception as err:  # noqa: BLE001
            # light curve functions document arrays; a plain number may be refused, but loudly
            ctx.check(isinstance(err, AttributeError | TypeError | ValueError), "scalar-error", error=repr(err))
            ctx.note_max("scalars refused", 1)
            continue
        compare(g[..., None], ("whole",), (1,), "scalar", tol + hours * scale)
    ctx.count(states=9, traces=9)
    # derivatives: none with respect to the other times
    D = {k: np.asarray(jax.jit(jax.jacfwd(f))(jnp.asarray(value[k]))) for k in finite}
    J = jax.jit(jax.jacfwd(f))
    for w in itertools.product(finite, repeat=2 if ctx.tier == "quick" else 3):
        got = np.asarray(J(np.array([value[k] for k in w], dt)))
        got = got.reshape(*lead, len(w), len(w))
        for i, j in np.ndindex(len(w), len(w)):
            want = D[w[i]] if i == j else np.zeros(lead)
            s = 1 + np.abs(want).max() if i == j else 0.0
            ctx.close(got[..., i, j], want, "jacobian" if i == j else "jacobian-other", tol=s * (1e-8 if not f32 else 3e-2), detail=dict(word=w, i=i, j=j))
        ctx.count(states=1, traces=1, transitions=len(w) ** 2)
    ctx.sample(dict(observable=obs, word=w))
