"""Rotating the coefficients rotates the map."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "explicit-state: all words over the six quarter turns, to fixpoint (the 24 elements of the "
    "octahedral group must be reached, each transition checked against its matrix), and all "
    "turns of 2 pi/n about six axes; plus every (axis, angle) of a dense alphabet with its "
    "degenerate members (poles, zero, half and full turns, unnormalised axes) for every degree, "
    "both implementations, the rotated function compared pointwise on the sphere"
)
ASSUME = [
    "rotated map g(r) = f(R r), R the right-handed rotation by theta about (x, y, z)",
    "within 1e-6 rad of the polar axis the underlying Euler-angle conversion is good to 3e-6 (L+1)",
    "the axis (0, 0, 0) is not a rotation axis",
]

ANG = [0.0, 0.7, -0.7, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 2 * np.pi, 3.1415926, 5.0, 1e-3, -1e-3, 1e-5, 1e-8, 4 * np.pi + 0.3, -20.0]


def axes(tier):
    v = [0.0, 1.0, -1.0, 0.3] + ([1e-8, -2.5] if tier == "thorough" else [])
    a = [p for p in itertools.product(v, repeat=3) if np.linalg.norm(p) > 1e-3]
    return a + [(1e-8, 0.0, 1.0), (0.0, 1e-8, -1.0), (1e-5, 1e-5, 1.0), (1.0, 0.0, 1e-8), (3.0, 4.0, 12.0), (1e-3, 2e-3, 2e-3)]


def tasks(tier):
    Ls = [0, 1, 2, 3, 5, 8] if tier == "quick" else list(range(9)) + [10, 12, 15]
    t = [dict(name=f"axis-angle-{l}", l=l, cost=1 + l**2) for l in Ls]
    t += [dict(name=f"matrices-{l}", l=l, cost=1 + l**2) for l in ([1, 2, 3, 4, 6, 7] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 10])]
    t += [dict(name=f"rz-{l}", l=l, cost=2) for l in sorted({*Ls, *range(9)}) + ([12, 15] if tier == "quick" else [20, 30])]
    t += [dict(name=f"group-{l}", l=l, cost=20) for l in ([3, 5] if tier == "quick" else [1, 2, 3, 5, 7, 9])]
    return t + [dict(name="cyclic", cost=20), dict(name="arguments")]


def rodrigues(axis, th):
    a = np.array(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K


def coef(n):
    i = np.arange(n)
    return np.cos(1.3 * i + 0.4) * (1 + 0.01 * i)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import raises
    from jaxoplanet.starry.core import rotation, s2fft_rotation
    from oracles import real_sph, sphere_points

    X = sphere_points(250)
    name = task["name"]

    def tol(R, l):
        s = np.hypot(R[0, 2], R[1, 2])
        return (l + 1) * (3e-6 if 1e-14 < s < 1e-6 else 1e-11 / max(min(s, 1), 1e-3) if s > 1e-14 else 3e-6 if abs(abs(R[2, 2]) - 1) > 0 else 1e-11)

    if name.startswith("axis-angle"):
        l = task["l"]
        N = (l + 1) ** 2
        y = coef(N)
        cfg = list(itertools.product(axes(ctx.tier), ANG))
        A = np.array([[*a, t] for a, t in cfg])
        f = jax.jit(jax.vmap(lambda p: rotation.dot_rotation_matrix(l, p[0], p[1], p[2], p[3])(jnp.asarray(y))))
        out = np.asarray(f(A))
        Y = real_sph(l, *X)
        for (a, t), g in zip(cfg, out):
            R = rodrigues(a, t)
            T = tol(R, l)
            d = dict(l=l, axis=a, theta=t)
            ctx.close(Y @ g, real_sph(l, *(R @ X)) @ y, "rotated-map", tol=T * np.linalg.norm(y), detail=d)
            ctx.close(np.linalg.norm(g), np.linalg.norm(y), "norm", tol=1e-11 * (l + 1) ** 2, detail=d)
            for k in range(l + 1):
                ctx.close(np.linalg.norm(g[k * k : (k + 1) ** 2]), np.linalg.norm(y[k * k : (k + 1) ** 2]), "norm-degree", tol=1e-11 * (l + 1) ** 2, detail=d)
        ctx.count(states=len(cfg), transitions=len(cfg), traces=len(cfg))
        # each axis: inverse and composition with itself
        turn = lambda k: np.asarray(jax.jit(jax.vmap(lambda p, v: rotation.dot_rotation_matrix(l, p[0], p[1], p[2], k * p[3])(v)))(A, turned))
        turned = np.broadcast_to(y, (len(cfg), N))
        turned = turn(0.5)
        half = turn(0.5)
        turned = out
        back = turn(-1.0)
        for (a, t), h, b, g in zip(cfg, half, back, out):
            T = 3 * max(tol(rodrigues(a, t), l), tol(rodrigues(a, t / 2), l)) * np.linalg.norm(y)
            ctx.close(h, g, "compose", tol=T, detail=dict(l=l, axis=a, theta=t))
            ctx.close(b, y, "inverse", tol=T, detail=dict(l=l, axis=a, theta=t))
        # eagerly, one by one, a spread of them; several maps at once
        for k in range(0, len(cfg), max(1, len(cfg) // 3)):
            a, t = cfg[k]
            op = rotation.dot_rotation_matrix(l, *a, t)
            ctx.close(op(jnp.asarray(y)), out[k], "eager", tol=3 * tol(rodrigues(a, t), l) * np.linalg.norm(y), detail=dict(l=l, axis=a, theta=t))
            Z = np.stack([y, 2 * y, y[::-1], 0 * y]).reshape(2, 2, N)
            ctx.close(np.asarray(op(Z))[0, 1], 2 * np.asarray(op(y)), "batch", tol=1e-12 * np.linalg.norm(y))
            ctx.close(np.asarray(op(Z))[1, 0], np.asarray(op(y[::-1])), "batch", tol=1e-12 * np.linalg.norm(y))
            ctx.count(transitions=3)
        ctx.sample(dict(l=l, axis=cfg[-1][0], theta=cfg[-1][1]))
    elif name.startswith("matrices"):
        # the two implementations
        l = task["l"]
        cfg = list(itertools.product(axes(ctx.tier)[:: 1 if ctx.tier == "thorough" else 3], ANG))
        A = np.array([[*a, t] for a, t in cfg])
        # the (unused) recursive implementation expects axes; it normalises them itself
        Rs = jax.jit(jax.vmap(lambda p: rotation.compute_rotation_matrices(l, p[0], p[1], p[2], p[3])))(A)
        Ss = jax.jit(jax.vmap(lambda p: s2fft_rotation.compute_rotation_matrices(l, p[0], p[1], p[2], p[3])))(A)
        Hs = np.asarray(jax.jit(jax.vmap(lambda p: s2fft_rotation.compute_rotation_matrices(l, p[0], p[1], p[2], p[3], homogeneous=True)))(A))
        Y, y = real_sph(l, *X), coef((l + 1) ** 2)
        for i, (a, t) in enumerate(cfg):
            R = rodrigues(a, t)
            s = np.hypot(R[0, 2], R[1, 2])
            T = max(tol(R, l), (l + 1) * (3e-7 if s < 1e-3 and s > 0 else 1e-9)) * 3
            for k in range(l + 1):
                d = dict(l=l, k=k, axis=a, theta=t)
                r, sm = np.asarray(Rs[k][i]), np.asarray(Ss[k][i])
                ctx.close(r, sm, "implementations", tol=T * (l + 1), detail=d)
                ctx.close(sm @ sm.T, np.eye(2 * k + 1), "orthogonal", tol=1e-11 * (l + 1), detail=d)
                ctx.close(Hs[i, k, l - k : l + k + 1, l - k : l + k + 1], sm, "homogeneous", tol=1e-14, detail=d)
                b = slice(k * k, (k + 1) ** 2)
                ctx.close(Y[:, b] @ (y[b] @ r), real_sph(l, *(R @ X))[:, b] @ y[b], "recursive", tol=T * (l + 1) * np.linalg.norm(y[b]) , detail=d)
            ctx.count(states=1, traces=l + 1, transitions=l + 1)
        ctx.sample(dict(l=l, axis=a, theta=t))
    elif name.startswith("rz"):
        l = task["l"]
        y = coef((l + 1) ** 2)
        Y = real_sph(l, *X)
        angles = np.array(ANG + list(np.linspace(-7, 7, 29)))
        fs = [lambda t: rotation.dot_rz(l, t)(jnp.asarray(y)), lambda t: rotation.dot_rotation_matrix(l, None, None, 1.0, t)(jnp.asarray(y))]
        outs = [np.asarray(jax.jit(jax.vmap(f))(angles)) for f in fs]
        for i, t in enumerate(angles):
            R = rodrigues((0, 0, 1), t)
            want = real_sph(l, *(R @ X)) @ y
            for k in range(2):
                ctx.close(Y @ outs[k][i], want, f"rz:{k}", tol=1e-11 * (l + 1) ** 2, detail=dict(l=l, theta=t))
            ctx.count(states=1, traces=2, transitions=2)
        for t in (0.0, 0.7, -9.0):
            op = rotation.dot_rz(l, t)
            Z = np.stack([y, y[::-1]])
            got = np.asarray(op(Z))
            ctx.close(got[0], fs[0](t), "rz:batch", tol=1e-13)
            ctx.close(got[1], np.asarray(op(y[::-1])), "rz:batch", tol=1e-13)
        ctx.sample(dict(l=l, theta=t))
    elif name.startswith("group"):
        # explicit-state exploration of the octahedral group
        l = task["l"]
        y = coef((l + 1) ** 2)
        gens = [(a, s * np.pi / 2) for a in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)) for s in (1, -1)]
        ops = [rotation.dot_rotation_matrix(l, *a, t) for a, t in gens]
        ops.append(rotation.dot_rotation_matrix(l, None, None, 1.0, np.pi / 2))
        mats = [np.round(rodrigues(a, t)) for a, t in gens]
        mats.append(mats[4])
        key = lambda M: tuple(int(v) for v in M.ravel())
        states = {key(np.eye(3)): (np.eye(3), y)}
        frontier = list(states)
        Y = real_sph(l, *X)
        depth = 0
        while frontier:
            nxt = []
            depth += 1
            for s in frontier:
                M, v = states[s]
                for op, G in zip(ops, mats):
                    w = np.asarray(op(jnp.asarray(v)))
                    M2 = M @ G  # g(r) = f(M r); rotating g: g(G r) = f(M G r)
                    ctx.count(transitions=1, traces=1)
                    ctx.close(Y @ w, real_sph(l, *(M2 @ X)) @ y, "group-transition", tol=1e-9 * (l + 1) ** 2, detail=dict(l=l, M=key(M2), depth=depth))
                    if key(M2) not in states:
                        states[key(M2)] = (M2, w)
                        nxt.append(key(M2))
                    else:
                        ctx.close(w, states[key(M2)][1], "group-confluence", tol=1e-9 * (l + 1) ** 2, detail=dict(l=l, M=key(M2)))
            frontier = nxt
        ctx.check(len(states) == 24, "group-order", got=len(states))
        ctx.count(states=len(states))
        ctx.sample(dict(l=l, states=len(states), diameter=depth - 1))
    elif name == "cyclic":
        l = 4 if ctx.tier == "quick" else 7
        y = coef((l + 1) ** 2)
        Y = real_sph(l, *X)
        for a in [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 2.0, -2.0), (0.0, -3.0, 4.0), (1.0, 1.0, 1.0)]:
            for n in (1, 2, 3, 5, 7, 12):
                op = rotation.dot_rotation_matrix(l, *a, 2 * np.pi / n)
                v = y
                for k in range(1, n + 1):
                    v = np.asarray(op(jnp.asarray(v)))
                    R = rodrigues(a, 2 * np.pi * k / n)
                    ctx.close(Y @ v, real_sph(l, *(R @ X)) @ y, "cyclic", tol=1e-8, detail=dict(axis=a, n=n, k=k))
                    ctx.count(states=1, transitions=1, traces=1)
                ctx.close(v, y, "cyclic-closes", tol=1e-8, detail=dict(axis=a, n=n))
        ctx.sample(dict(axis=a, n=n))
    else:
        y = jnp.asarray(coef(9))
        D = rotation.dot_rotation_matrix
        ctx.close(D(2, 1.0, 0.0, 0.0, None)(y), y, "theta-none", tol=0)
        ctx.close(D(2, None, None, None, None)(y), y, "theta-none", tol=0)
        for args in itertools.product((None, 0.0, 0.6), repeat=3):
            filled = [0.0 if v is None else v for v in args]
            if args[0] is None and args[1] is None:
                if args[2] is None:
                    ctx.check(raises(D, 2, *args, 0.5, exc=ValueError), "no-axis")
                elif args[2] != 0.0:
                    ctx.close(D(2, *args, 0.5)(y), D(2, 0.0, 0.0, 1.0, 0.5)(y), "z-only", tol=1e-12)
                    ctx.close(D(2, None, None, -args[2], 0.5)(y), D(2, 0.0, 0.0, -1.0, 0.5)(y), "z-only-negative", tol=1e-12)
                continue
            if not any(filled):
                continue
            ctx.close(D(2, *args, 0.5)(y), D(2, *filled, 0.5)(y), "none-is-zero", tol=1e-13, detail=dict(args=str(args)))
            ctx.count(states=1, transitions=1, traces=1)
        ctx.close(D(2, 1, 2, 2, 1)(y), D(2, 1.0, 2.0, 2.0, 1.0)(y), "integers", tol=1e-13)
        ctx.close(D(2.0, 1.0, 2.0, 2.0, 1.0)(y), D(2, 1.0, 2.0, 2.0, 1.0)(y), "integers", tol=0)
        for bad in range(4):
            args = [1.0, 2.0, 2.0, 0.3]
            args[bad] = jnp.array([0.1, 0.2])
            ctx.check(raises(D, 2, *args, exc=ValueError), f"not-a-scalar:{bad}")
        ctx.check(raises(D(2, 1.0, 0.0, 0.0, 0.3), jnp.ones(4)), "wrong-degree")
        ctx.check(raises(D(2, None, None, 1.0, 0.3), jnp.ones(16)), "wrong-degree-z")
        ctx.check(raises(D, jnp.array([1, 2]), 1.0, 0.0, 0.0, 0.3), "degree-not-int")
        ctx.count(states=7, traces=7)
        ctx.sample("mixed None and zero axes")
