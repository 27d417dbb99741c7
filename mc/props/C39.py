"""Light curve transformations compose."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "all words over 12 transformations (three integration rules with different exposures, none, two tables with different "
    "epochs, vectorize, jit, vmap, unit declaration, change of unit) applied to one another, to depth 2 (functions of the "
    "library) or 3 (a closed form with extra arguments and several outputs, bare or with units; thorough 3 and 4); each "
    "composition at scalar, 1-d, 2-d and quantity times, and built inside compiled and mapped functions of its exposure; a "
    "state is a composition, compared with an interpreter of the word in numpy"
)
ASSUME = [
    "the values of the untransformed functions are decided by other properties, and are taken from the library one time at a time",
    "functions given to the table repeat with its period",
]
P = 2.0
TAU = 0.15
T = np.array([-3.1, -0.93, -0.04, 0.0, 0.021, 0.07, 0.5, 1.0, 1.04, 5.96])
LETTERS = dict(
    int0=("integrate", 1.0, 0, 3), int1=("integrate", 0.5, 1, 4), int2=("integrate", 2.0, 2, 5), none=("integrate", None, 0, 3),
    tab=("interpolate", 0.0, 7), late=("interpolate", 0.37, 10), vec=("vectorize",), jit=("jit",), map=("vmap",), unit=("unit",), hour=("hour",), swap=("swap",),
)
BASES = ["closed", "speed", "transit", "system", "emission", "map", "rv"]


def stencil(order, n):
    n += 1 - n % 2
    if order == 0:
        return (np.arange(n) + 0.5) / n - 0.5, np.full(n, 1 / n)
    x = np.linspace(-0.5, 0.5, n)
    w = np.ones(n)
    if order == 1:
        w[[0, -1]] = 0.5
    else:
        w[1:-1:2], w[2:-1:2] = 4.0, 2.0
    return x, w / w.sum()


def interpret(word, f, t, tau):
    """value of the composition (innermost first) at the times t"""
    if not word:
        return f(t)
    kind, *par = LETTERS[word[-1]]
    rest = word[:-1]
    if kind == "integrate" and par[0] is not None:
        x, w = stencil(*par[1:])
        v = interpret(rest, f, t[..., None] + tau * par[0] * x, tau)
        return np.tensordot(np.moveaxis(v, t.ndim, -1), w, 1)
    if kind == "interpolate":
        t0, n = par
        g = np.linspace(-0.5, 0.5, n) * P
        v = interpret(rest, f, t0 + g, tau)
        d = t - t0
        d = d - P * np.rint(d / P)
        i = np.clip(np.searchsorted(g, d, side="right") - 1, 0, n - 2)
        q = ((d - g[i]) / (g[i + 1] - g[i])).reshape(d.shape + (1,) * (v.ndim - 1))
        return v[i] * (1 - q) + v[i + 1] * q
    return interpret(rest, f, t, tau)


def tasks(tier):
    quick = tier == "quick"
    t = []
    for b in BASES:
        closed = b in ("closed", "speed")
        depth = (3 if closed else 2) if quick else (4 if b == "closed" else 3 if closed or b == "transit" else 2)
        k = 8 if depth == 3 else 24 if depth == 4 else 2
        if b in ("map", "rv") and not quick:
            k = 4
        for i in range(k):
            t.append(dict(name=f"{b}-{i}", base=b, part=i, parts=k, depth=depth, cost=20))
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    import jpu.numpy as jnpu
    from framework import is_quantity, mag
    from jaxoplanet import units
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.light_curves.utils import vectorize
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.starry.doppler import radial_velocity
    from jaxoplanet.starry.light_curves import light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm
    from jaxoplanet.units import unit_registry as ureg

    base = task["base"]
    args, kwargs = (), {}
    if base in ("closed", "speed"):
        args, kwargs = (0.7,), dict(b=jnp.array([1.0, -2.0, 0.3]))

        @units.quantity_input(time=ureg.day)
        def fn(time, a, b=None):
            q = 2 * jnp.pi * time.magnitude[..., None] / P
            v = jnp.cos(q - a) + b * jnp.sin(2 * q) + jnp.exp(jnp.cos(3 * q))
            return v * ureg.R_sun / ureg.day if base == "speed" else v
    elif base == "transit":
        fn = limb_dark_light_curve(TransitOrbit(period=P, duration=0.3, radius_ratio=0.1, impact_param=0.2), (0.3, 0.2))
    elif base in ("system", "emission"):
        s = System(Central(mass=1.0, radius=1.0)).add_body(period=P, radius=0.1, eccentricity=0.3, omega_peri=0.4).add_body(period=P / 2, radius=0.2, time_transit=0.02, impact_param=0.3)
        if base == "system":
            fn = limb_dark_light_curve(s, (0.3, 0.2))
        else:
            fn = emission(SurfaceSystem(s.central, Surface(u=(0.2,), amplitude=2.0, normalize=False)).add_body(s.bodies[0], Surface(amplitude=0.4, normalize=False)).add_body(s.bodies[1], Surface(amplitude=0.7, normalize=False)))
    else:
        y = Ylm.from_dense(jnp.array([1.0, 0.1, 0.2, 0.15]))
        s = SurfaceSystem(Central(mass=1.0, radius=1.0), Surface(y=y, u=(0.3,), period=P / 2, inc=1.2)).add_body(period=P, radius=0.2, impact_param=0.1, surface=Surface(amplitude=0.3, normalize=False, period=P))
        fn = light_curve(s) if base == "map" else radial_velocity(s)
    one = jax.jit(lambda t: jax.vmap(lambda x: fn(x, *args, **kwargs))(t))
    values = {}

    def f(t):
        flat = np.unique(np.ravel(t))
        new = np.array([x for x in flat if x not in values])
        for k in range(0, len(new), 128):
            part = new[k : k + 128]
            out = one(np.concatenate([part, np.zeros(128 - len(part))]))
            out = out.magnitude if is_quantity(out) else out
            values.update(zip(part, np.asarray(out)))
        w = np.array([values[x] for x in np.ravel(t)])
        return w.reshape(t.shape + w.shape[1:])

    unit = None
    probe = fn(jnp.array(0.0), *args, **kwargs)
    if is_quantity(probe):
        unit = probe.units

    def build(word, tau):
        g = fn
        for w in word:
            kind, *par = LETTERS[w]
            h = g
            if kind == "integrate":
                x = None if par[0] is None else tau * par[0] if w != "int1" else tau * par[0] * 1440 * ureg.minute
                g = integrate(h, exposure_time=x, order=par[1], num_samples=par[2])
            elif kind == "interpolate":
                g = interpolate(h, period=P if w == "tab" else 24 * P * ureg.hour, time_transit=par[0], num_samples=par[1], args=args, kwargs=kwargs)
            elif kind == "vectorize":
                g = vectorize(h)
            elif kind == "jit":
                g = jax.jit(h)
            elif kind == "vmap":

                def g(t, *a, h=h, **k):
                    m = lambda x: h(x, *a, **k)  # noqa
                    for _ in range(jnpu.ndim(t)):
                        m = jax.vmap(m)
                    return m(t)
            elif kind == "unit":
                g = units.quantity_input(time=ureg.day)(lambda time, *a, h=h, **k: h(time, *a, **k))
            elif kind == "hour":
                g = units.quantity_input(time=ureg.day)(lambda time, *a, h=h, **k: h(time.to(ureg.hour), *a, **k))
            else:
                # arguments bound beforehand
                g = lambda t, *a, h=h, **k: (lambda x: h(x, *a, **k))(t)  # noqa
        return g

    def compare(got, want, key, **d):
        if not ctx.check(is_quantity(got) == (unit is not None), key + ":units", **d):
            return
        if unit is not None:
            ctx.check(got.units == unit, key + ":unit", got=str(got.units), **d)
        got = np.asarray(mag(got))
        if ctx.check(got.shape == want.shape, key + ":shape", got=got.shape, want=want.shape, **d):
            ctx.close(got, want, key, tol=1e-9 * (1 + np.abs(want).max()), detail=d)
        ctx.count(traces=1)

    heavy = base in ("map", "rv") and ctx.tier == "quick"
    letters = ["int0", "tab", "jit", "hour"] if heavy else list(LETTERS)
    words = [w for n in range(1, task["depth"] + 1) for w in itertools.product(letters, repeat=n)]
    for n, word in enumerate(words):
        if n % task["parts"] != task["part"]:
            continue
        # two of the three same-valued wrappers in a row say nothing new at the deepest level
        long = len(word) == task["depth"] and len(word) > 2
        if long and sum(LETTERS[w][0] in ("integrate", "interpolate") for w in word) < 1:
            continue
        want = interpret(word, f, T, TAU)
        d = dict(base=base, word=list(word))
        g = build(word, TAU)
        compare(g(T, *args, **kwargs), want, "array", **d)
        if not heavy if not long else n % 5 == 0:
            compare(g(jnp.asarray(T[4]), *args, **kwargs), want[4], "scalar", **d)
            compare(g(jnp.asarray(T).reshape(2, 5), *args, **kwargs), want.reshape((2, 5) + want.shape[1:]), "2d", **d)
            compare(g(T[:3] * 24 * ureg.hour, *args, **kwargs), want[:3], "hours", **d)
        if (len(word) == 1 and not heavy) if base not in ("closed", "speed") else (not long or n % 7 == 0):
            taus = np.array([0.05, TAU])
            out = jax.jit(jax.vmap(lambda tau: build(word, tau)(jnp.asarray(T), *args, **kwargs)))(taus)
            compare(out, np.stack([interpret(word, f, T, x) for x in taus]), "inside", **d)
        ctx.count(states=1, transitions=len(word))
    ctx.sample(d)
