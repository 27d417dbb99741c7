"""Different descriptions of the same surface give the same observables."""

import itertools

import numpy as np

from oracles import limb_darkening, limb_darkening_norm, real_sph, rz, sky_intensity, sphere_points, surface_point

LEVEL = "model_checking"
RULE = (
    "BFS from five base surfaces over all words over 28 rewrites of the description that describe the same thing seen "
    "(amplitude against coefficients against normalization, rotation angle against initial phase against time against "
    "turned coefficients, absent against zero, whole turns, the two ways to write a spin axis, turning or mirroring the sky "
    "with everything on it, zero padding of either expansion, period with radius with time, orientation and limb darkening "
    "folded into the coefficients) to depth 2 (thorough 3); in every state flux with and without occultors, "
    "velocities and the image are those of the base; a state is a description"
)
ASSUME = ["occultors are compared away from exact contact", "integrals of order 100 agree to 1e-6 of the amplitude"]

OCC = np.array(
    [(0.3, 0.2, 0.25, 1.0), (-0.5, 0.6, 0.4, 3.0), (0.7, -0.8, 0.3, 1.0), (0.0, 0.4, 0.3, 2.0), (-0.2, 0.0, 0.15, 1.0), (-0.9, -0.7, 0.9, 1.0), (1.5, 0.4, 1.1, 1.0), (0.1, -0.3, 0.2, -1.0), (2.0, 2.0, 0.5, 1.0), (0.0, 0.0, 0.45, 1.0), (4.0, -2.0, 4.0, 1.0)]
)
RES = 6


def bases(tier):
    y1 = np.array([1.0, 0.12, -0.2, 0.15])
    y2 = np.array([1.2, 0.1, -0.15, 0.12, 0.05, -0.07, 0.09, 0.04, -0.06])
    B = dict(
        general=dict(y=y2, u=(0.3, 0.15), inc=1.1, obl=0.3, phase=0.4, shear=None),
        sheared=dict(y=y1, u=(0.2,), inc=2.3, obl=-0.7, phase=-1.0, shear=0.25),
        plain=dict(y=y2, u=(), inc=np.pi / 2, obl=0.0, phase=0.0, time=0.0, shear=None),
        pole=dict(y=y1, u=(0.4,), inc=0.0, obl=0.0, phase=2.0, shear=0.0),
        uniform=dict(y=np.array([0.8]), u=(0.3, 0.2), inc=0.9, obl=0.0, phase=0.0, shear=0.2),
    )
    if tier != "quick":
        B["deep"] = dict(y=np.concatenate([y2, 0.05 * np.cos(np.arange(16) + 0.3)]), u=(0.1, 0.2, 0.1), inc=-0.4, obl=4.0, phase=9.0, shear=-0.3)
    for b in B.values():
        b.setdefault("time", 0.7)
        b.update(period=3.0, radius=1.2, amp=1.5, normalize=False, how="phase", occ=OCC, sky=np.eye(2), rv=True, image=True)
    B["plain"]["amp"] = -1.5  # a signed map, such as the difference of two
    return B


def deg(y):
    return int(round(np.sqrt(len(y)))) - 1


PTS = sphere_points(150)


def fit(values, l):
    return np.linalg.lstsq(real_sph(l, *PTS) * 2 / np.sqrt(np.pi), values, rcond=None)[0]


def theta(s):
    return s["phase"] + 2 * np.pi * s["time"] / s["period"]


def seen(s, X):
    return sky_intensity(X, s["y"], (), s["inc"] or 0.0, s["obl"] or 0.0, 0.0 if s["how"] == "none" else theta(s))


def rewrites():
    """name -> function of a description returning the changes, or None where it does not apply"""
    R = {}

    def add(f):
        R[f.__name__.replace("_", "-")] = f
        return f

    free = lambda s: not s["normalize"]  # noqa

    @add
    def scale(s):
        return dict(y=s["y"] * 2.5, amp=s["amp"] / 2.5) if free(s) else dict(amp=-3.0)

    @add
    def negate(s):
        return dict(y=-s["y"], amp=-s["amp"]) if free(s) else None

    @add
    def normalized(s):
        # the amplitude is then the first coefficient, and the argument is not used
        return dict(y=s["y"] * s["amp"], amp=77.0, normalize=True) if free(s) else None

    @add
    def unnormalized(s):
        return dict(y=s["y"] / s["y"][0], amp=s["y"][0], normalize=False) if s["normalize"] else None

    @add
    def amplitude_one(s):
        return dict(y=s["y"] * s["amp"], amp=1.0) if free(s) else None

    moving = lambda s: s["how"] != "none"  # noqa

    @add
    def phase_to_time(s):
        d = 0.8
        return dict(phase=s["phase"] - d, time=s["time"] + d * s["period"] / (2 * np.pi))

    @add
    def whole_turn(s):
        return dict(phase=s["phase"] + 2 * np.pi)

    @add
    def period_later(s):
        return dict(time=s["time"] - 2 * s["period"])

    @add
    def explicit_angle(s):
        return dict(how="theta") if s["how"] == "phase" else None

    @add
    def no_angle(s):
        return dict(how="none") if s["how"] != "none" and theta(s) == 0 else None

    @add
    def turn_map(s):
        if not moving(s):
            return None
        a = 1.3
        l = deg(s["y"])
        q = surface_point(PTS, np.pi / 2, 0.0, a, 0.0)
        return dict(y=fit(real_sph(l, *q) @ s["y"] * 2 / np.sqrt(np.pi), l), phase=s["phase"] - a)

    @add
    def turn_map_fully(s):
        # all of the rotation in the coefficients
        if not moving(s) or s["normalize"]:
            return None
        l = deg(s["y"])
        q = surface_point(PTS, np.pi / 2, 0.0, theta(s), 0.0)
        return dict(y=fit(real_sph(l, *q) @ s["y"] * 2 / np.sqrt(np.pi), l), phase=0.0, time=0.0)

    @add
    def scale_clock(s):
        return dict(radius=s["radius"] * 2, period=s["period"] * 2, time=s["time"] * 2)

    @add
    def no_inc(s):
        return dict(inc=None) if s["inc"] == 0 else dict(inc=0.0) if s["inc"] is None else None

    @add
    def no_obl(s):
        return dict(obl=None) if s["obl"] == 0 else dict(obl=0.0) if s["obl"] is None else None

    @add
    def inc_turn(s):
        return None if s["inc"] is None else dict(inc=s["inc"] - 2 * np.pi)

    @add
    def obl_turn(s):
        return None if s["obl"] is None else dict(obl=s["obl"] + 2 * np.pi)

    @add
    def other_axis(s):
        # the same spin axis: inclination of the other sign, obliquity half a turn on
        if s["inc"] is None or not moving(s):
            return None
        return dict(inc=-s["inc"], obl=(s["obl"] or 0.0) + np.pi, phase=s["phase"] + np.pi)

    @add
    def flip_spin(s):
        # the opposite pole as the pole, turning backwards: (x, y, z) -> (x, -y, -z) in the frame of the map
        if s["inc"] is None or not moving(s):
            return None
        l = deg(s["y"])
        x, y, z = PTS
        return dict(
            y=fit(real_sph(l, x, -y, -z) @ s["y"] * 2 / np.sqrt(np.pi), l), inc=np.pi - s["inc"], obl=(s["obl"] or 0.0) + np.pi,
            phase=-s["phase"] + np.pi, period=-s["period"],
        )

    def moved(s, T, **kw):
        o = s["occ"].copy()
        o[:, :2] = o[:, :2] @ T.T
        return dict(occ=o, sky=T @ s["sky"], **kw)

    @add
    def turn_sky(s):
        d = 0.9
        return moved(s, rz(d)[:2, :2], obl=(s["obl"] or 0.0) + d)

    @add
    def turn_sky_quarter(s):
        return moved(s, np.array([[0.0, -1.0], [1.0, 0.0]]), obl=(s["obl"] or 0.0) + np.pi / 2)

    @add
    def mirror_x(s):
        if not moving(s):
            return None
        l = deg(s["y"])
        x, y, z = PTS
        return moved(
            s, np.diag([-1.0, 1.0]), y=fit(real_sph(l, -x, y, z) @ s["y"] * 2 / np.sqrt(np.pi), l),
            obl=None if s["obl"] is None else -s["obl"], phase=-s["phase"], period=-s["period"],
        )

    @add
    def mirror_y(s):
        l = deg(s["y"])
        x, y, z = PTS
        return moved(
            s, np.diag([1.0, -1.0]), y=fit(real_sph(l, x, -y, z) @ s["y"] * 2 / np.sqrt(np.pi), l),
            obl=None if s["obl"] is None else -s["obl"], inc=np.pi - (s["inc"] or 0.0),
        )

    @add
    def pad_map(s):
        l = deg(s["y"])
        return dict(y=np.concatenate([s["y"], np.zeros(2 * l + 3)])) if l < 4 else None

    @add
    def pad_dark(s):
        return dict(u=(*s["u"], 0.0)) if len(s["u"]) < 4 else None

    @add
    def fold_orientation(s):
        if s["normalize"] or (s["inc"] == np.pi / 2 and not s["obl"] and theta(s) == 0):
            return None
        # what is seen is now written equator-on; the spin axis is lost, so no velocities
        return dict(y=fit(seen(s, PTS), deg(s["y"])), inc=np.pi / 2, obl=0.0, phase=0.0, time=0.0, rv=False)

    @add
    def fold_dark(s):
        if s["normalize"] or not s["u"] or deg(s["y"]) + len(s["u"]) > 6:
            return None
        still = s["inc"] == np.pi / 2 and not s["obl"] and theta(s) == 0
        y = fit(seen(s, PTS) * limb_darkening(s["u"], PTS[2]) * limb_darkening_norm(s["u"]), deg(s["y"]) + len(s["u"]))
        # images are not normalized
        return dict(y=y, u=(), inc=np.pi / 2, obl=0.0, phase=0.0, time=0.0, rv=s["rv"] and still, image=False)

    @add
    def zero_shear(s):
        return dict(shear=0.0) if s["shear"] is None else dict(shear=None) if s["shear"] == 0 else None

    return R


def key(s):
    f = lambda v: None if v is None else tuple(np.round(np.ravel(v), 9) + 0.0)  # noqa
    return tuple(f(s[k]) if k not in ("how", "rv", "image", "normalize") else s[k] for k in sorted(s))


def structure(s):
    return (len(s["y"]), len(s["u"]), s["inc"] is None, s["obl"] is None, s["shear"] is None, s["how"] == "none")


def tasks(tier):
    cost = dict(general=30, sheared=34, plain=25, pole=26, uniform=24, deep=60)
    n = 2 if tier == "quick" else 8
    return [dict(name=f"{b}-{k}", base=b, part=k, parts=n, cost=cost[b]) for b in bases(tier) for k in range(n)]


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.doppler import surface_radial_velocity
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    base = bases(ctx.tier)[task["base"]]
    R = rewrites()
    occult = {False: lambda sf, o, th: surface_light_curve(sf, o[2], o[0], o[1], o[3], th, order=100), True: lambda sf, o, th: surface_radial_velocity(sf, o[2], o[0], o[1], o[3], th, order=100)}

    def flux(sf, th, occ):
        return jax.vmap(lambda o: occult[False](sf, o, th))(occ), surface_light_curve(sf, theta=th)

    def velocity(sf, th, occ):
        return jax.vmap(lambda o: occult[True](sf, o, th))(occ), surface_radial_velocity(sf, theta=th)

    def image(sf, th, rv):
        return sf.render(th, RES, rv=rv)

    flux, velocity, image = jax.jit(flux), jax.jit(velocity), jax.jit(image, static_argnums=2)

    def observe(s):
        arr = lambda v: None if v is None else jnp.asarray(v, float)  # noqa
        sf = Surface(
            y=Ylm.from_dense(arr(s["y"]), normalize=False), u=[arr(c) for c in s["u"]], inc=arr(s["inc"]), obl=arr(s["obl"]), phase=arr(s["phase"]),
            period=arr(s["period"]), radius=arr(s["radius"]), amplitude=arr(s["amp"]), shear=arr(s["shear"]), normalize=s["normalize"],
        )
        th = dict(phase=sf.rotational_phase(s["time"]), theta=arr(theta(s)), none=None)[s["how"]]
        out = {}
        out["flux"], out["rotation"] = flux(sf, th, s["occ"])
        if s["rv"]:
            out["velocity"], out["rotation-velocity"] = velocity(sf, th, s["occ"])
        if s["image"]:
            out["image"] = image(sf, th, False)
            if s["rv"]:
                out["velocity-image"] = image(sf, th, True)
        return {k: np.asarray(v) for k, v in out.items()}

    def unmove(img, T):
        """the image as the base shows it; None where pixels do not map to pixels"""
        if not np.allclose(np.abs(T) % 1, 0):
            return None
        g = np.linspace(-1, 1, RES)
        T = np.round(T)
        out = np.empty_like(img)
        for i, j in np.ndindex(RES, RES):
            x, y = T @ (g[j], g[i])
            out[i, j] = img[np.argmin(abs(g - y)), np.argmin(abs(g - x))]
        return out

    want = observe(base)
    tol = dict(flux=2e-6, rotation=1e-9, velocity=2e-5, image=1e-9)
    tol["rotation-velocity"] = tol["velocity-image"] = 1e-8

    def visit(s, word):
        got = observe(s)
        for k, g in got.items():
            w = want[k]
            if "image" in k:
                g = unmove(g, s["sky"])
                if g is None:
                    continue
                m = np.isfinite(w)
                ctx.check(bool((np.isfinite(g) == m).all()), k + "-mask", rewrites=word)
                g, w = np.where(m, g, 0.0), np.where(m, w, 0.0)
            ctx.close(g, w, k, tol=tol[k] * (deg(s["y"]) + 1), detail=dict(base=task["base"], rewrites=word), labels=dict(occultor=np.arange(len(OCC))) if g.shape == (len(OCC),) else None)
            ctx.count(traces=1)

    depth = 2 if ctx.tier == "quick" else 3
    seen_, level, states = {key(base)}, [(base, ())], {}
    for d in range(depth):
        nxt = []
        for s, word in level:
            for name, f in R.items():
                ch = f(s)
                if ch is None:
                    continue
                if task["part"] == 0:
                    ctx.count(transitions=1)
                t = {**s, **ch}
                k = key(t)
                if k in seen_:
                    continue
                seen_.add(k)
                nxt.append((t, (*word, name)))
                states.setdefault(structure(t), []).append(nxt[-1])
        level = nxt
    # the parts share out the structures
    for i, st in enumerate(sorted(states, key=lambda k: (-len(states[k]), k))):
        if i % task["parts"] == task["part"]:
            for s, word in states[st]:
                visit(s, word)
                ctx.count(states=1)
    ctx.note_max("structures", len(states))
    ctx.sample(dict(base=task["base"], rewrites=level[len(level) // 2][1]))
