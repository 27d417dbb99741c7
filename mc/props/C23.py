"""Projecting a map to the sky."""

import itertools

import numpy as np

from oracles import rx, rz, surface_point

LEVEL = "exploration"
RULE = (
    "every combination of given/absent inclination, obliquity, rotation angle and position angle "
    "(16 patterns) times the product of their alphabets (with 0, quarter, half, full turns and "
    "near-degenerate values), for every degree; the projected map compared pointwise on the "
    "sphere with the map at the surface point found by explicit geometry; adjoint, inverse, "
    "direct implementation and axis-angle forms compared with it"
)
ASSUME = [
    "sky frame: x right, y up, z towards the observer; coefficients given in the frame where the "
    "map is seen equator-on, pole up, longitude 0 at the centre; obliquity counter-clockwise; "
    "rotation prograde; position angle theta_z clockwise",
    "within 1e-6 rad of a pole-on view the Euler-angle conversion is good to 3e-6 (L+1)",
]

INC = [0.0, np.pi / 2, 1.1, np.pi, -0.4, 2.5, 1e-9, np.pi / 2 - 1e-6]
OBL = [0.0, 0.3, -0.4, np.pi / 2, np.pi, -2.8]
TH = [0.0, 0.7, -2.0, np.pi, 6.5]
TZ = [0.0, 0.5, -np.pi / 2, np.pi]
# small turns, alone and together
SMALL = [0.0, 1e-6, 3e-4, -6e-3]
THIN = dict(inc=[0.0, np.pi / 2, 1.1, 2.5], obl=[0.0, 0.3, -2.8], th=[0.0, 0.7, -2.0], tz=[0.0, 0.5, -np.pi / 2])


def tasks(tier):
    t = []
    for l in (2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 6, 8):
        for pat in itertools.product((True, False), repeat=4):
            full = tier == "thorough" or l == 2
            t.append(dict(name=f"project-{l}-{''.join('N' if not p else 'v' for p in pat)}", l=l, pat=pat, full=full, cost=2 ** sum(pat) + l))
    t += [dict(name=f"direct-{l}", l=l, cost=8 + l) for l in ((1, 3) if tier == "quick" else (1, 2, 3, 5, 8))]
    return t + [dict(name="axis-angle", cost=20), dict(name="eager", cost=10)]


def coef(n):
    i = np.arange(n)
    return np.cos(1.3 * i + 0.4) * (1 + 0.01 * i)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.core import rotation
    from oracles import real_sph, sphere_points

    X = sphere_points(150)
    name = task["name"]

    def tol(inc, l):
        s = abs(np.sin(inc))
        return (l + 1) * (3e-6 if 0 < s < 1e-6 else 1e-9)

    if name.startswith("project"):
        l, pat = task["l"], task["pat"]
        N = (l + 1) ** 2
        y = coef(N)
        menus = [INC, OBL, TH, TZ] if task["full"] else list(THIN.values())
        cfg = np.array([*itertools.product(*[m if p else [0.0] for m, p in zip(menus, pat)]), *itertools.product(*[SMALL if p else [0.0] for p in pat])])

        def args(p):
            return [p[i] if pat[i] else None for i in range(4)]

        def one(p):
            left = rotation.left_project(l, *args(p), jnp.asarray(y))
            right = rotation.right_project(l, *args(p), jnp.asarray(y[::-1]))
            back = rotation.right_project(l, *args(p), left)
            return left, right, back

        if any(pat):
            L, R, B = (np.asarray(v) for v in jax.jit(jax.vmap(one))(cfg))
        else:
            L, R, B = (np.asarray(v)[None] for v in one(None))
        Y = real_sph(l, *X)
        for p, a, b, c in zip(cfg, L, R, B):
            T = tol(p[0], l)
            d = dict(l=l, inc=p[0] if pat[0] else None, obl=p[1] if pat[1] else None, theta=p[2] if pat[2] else None, theta_z=p[3] if pat[3] else None)
            ctx.close(Y @ a, real_sph(l, *surface_point(X, *p)) @ y, "sky-map", tol=T * np.linalg.norm(y), detail=d)
            ctx.close(c, y, "inverse", tol=3 * T * np.linalg.norm(y), detail=d)
            ctx.close(y[::-1] @ a, b @ y, "adjoint", tol=T * np.linalg.norm(y) ** 2, detail=d)
            ctx.count(states=1, transitions=1, traces=1)
        ctx.sample(d)
    elif name.startswith("direct"):
        l = task["l"]
        y = coef((l + 1) ** 2)
        menus = list(THIN.values()) if ctx.tier == "quick" else [INC, OBL, TH, TZ]
        cfg = np.array([*itertools.product(*menus), *itertools.product(*[SMALL] * 4), *itertools.product([np.pi / 2 + v for v in [*SMALL, 2 * np.pi]], *[SMALL] * 3)])
        F = np.asarray(jax.jit(jax.vmap(lambda p: rotation.fast_direct_left_project(l, p[0], p[1], p[2], p[3], jnp.asarray(y))))(cfg))
        Y = real_sph(l, *X)
        for p, a in zip(cfg, F):
            M = np.stack([surface_point(np.eye(3)[:, i], *p) for i in range(3)], 1)
            s = np.hypot(M[0, 2], M[1, 2])
            # the angle comes from an arccosine: rounding near the identity costs half the digits
            T = (l + 1) * (3e-6 if s < 1e-6 or abs(np.trace(M) - 3) < 1e-6 else 3e-8)
            ctx.close(Y @ a, real_sph(l, *surface_point(X, *p)) @ y, "direct", tol=T * np.linalg.norm(y), detail=dict(l=l, angles=p.tolist()))
            ctx.count(states=1, transitions=1, traces=1)
        ctx.sample(dict(l=l, angles=p.tolist()))
    elif name == "axis-angle":

        def rod(ax, ay, az, t):
            a = np.array([0.0 if v is None else float(v) for v in (ax, ay, az)])
            t = 0.0 if t is None else float(t)
            if t != 0:
                ctx.close((np.linalg.norm(a) - 1) * min(1, abs(t)), 0.0, "axis-norm", tol=1e-9, detail=dict(axis=a.tolist(), t=t))
            K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
            return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K

        menus = [[None] + INC, [None] + OBL, [None] + TH, [None] + TZ] if ctx.tier == "thorough" else [[None] + v for v in THIN.values()]
        full = jax.jit(jax.vmap(lambda p: jnp.stack(rotation.full_rotation_axis_angle(p[0], p[1], p[2], p[3]))))
        cfg = [*itertools.product(*menus), *itertools.product(*[SMALL] * 4), *itertools.product([np.pi / 2 + v for v in [*SMALL, 2 * np.pi]], *[SMALL] * 3)]
        out = np.asarray(full(np.array([[0.0 if v is None else v for v in p] for p in cfg])))
        for p, o in zip(cfg, out):
            q = [0.0 if v is None else v for v in p]
            M = np.stack([surface_point(np.eye(3)[:, i], *q) for i in range(3)], 1)
            ctx.close(rod(*o).T, M, "full-axis-angle", tol=3e-7, detail=dict(angles=str(p)))
            ctx.count(states=1, transitions=1, traces=1)
        for p in cfg[:: max(1, len(cfg) // 40)]:
            q = [0.0 if v is None else v for v in p]
            M = np.stack([surface_point(np.eye(3)[:, i], *q) for i in range(3)], 1)
            ctx.close(rod(*rotation.full_rotation_axis_angle(*p)).T, M, "full-axis-angle-none", tol=3e-7, detail=dict(angles=str(p)))
        for inc in [None] + INC + SMALL[1:]:
            for obl in [None] + OBL + SMALL[1:]:
                i, o = inc or 0.0, obl or 0.0
                M = rx(i) @ rz(-o)
                ctx.close(rod(*rotation.sky_projection_axis_angle(inc, obl)), M, "sky-axis-angle", tol=3e-8, detail=dict(inc=inc, obl=obl))
                ctx.count(states=1, transitions=1, traces=1)
        ctx.sample(dict(angles=str(p)))
    else:
        # eager calls with python scalars, integers and arrays; batch of maps
        l = 2
        y = coef(9)
        Y = real_sph(l, *X)
        for p in [(1, 0, 0, 0), (1.1, None, 2, None), (None, 0.3, None, 1), (None, None, 0.5, None), (0.5, 0.3, None, None), (np.float64(1.2), jnp.array(0.1), np.array(0.2), 0.0)]:
            q = [0.0 if v is None else float(v) for v in p]
            want = real_sph(l, *surface_point(X, *q)) @ y
            ctx.close(Y @ np.asarray(rotation.left_project(l, *p, jnp.asarray(y))), want, "eager", tol=1e-8, detail=dict(angles=str(p)))
            Z = np.asarray(rotation.left_project(l, *p, jnp.stack([y, 2 * y])))
            ctx.close(Y @ Z[1], 2 * want, "eager-batch", tol=1e-8)
            r = np.asarray(rotation.right_project(l, *p, jnp.asarray(Z)))
            ctx.close(r[1], 2 * y, "eager-inverse", tol=1e-8)
            ctx.count(states=1, transitions=3, traces=3)
        ctx.sample(dict(angles=str(p)))
