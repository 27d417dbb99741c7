"""Derivatives of the Kepler solver, in every differentiation mode."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "full product of an anomaly lattice x eccentricity lattice x {jvp, vjp(grad), "
    "jacfwd, jacrev, second derivative} x {wrt M, wrt e, both} x {plain, jit, vmap, "
    "jit(vmap)} compared to the closed-form derivative of the true anomaly evaluated in "
    "extended precision"
)
ASSUME = ["closed-form df/dM, df/de with the extended-precision reference solver"]

MODES = ["jvp", "grad", "jacfwd", "jacrev", "second", "broadcast"]


def tasks(tier):
    return [dict(name=m) for m in MODES] + [dict(name="f32", x64=False)]


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    from oracles import kepler_ref

    n = 48 if ctx.tier == "quick" else 360
    M = np.unique(
        np.concatenate(
            [
                np.arange(-n, 2 * n + 1) * (2 * np.pi / n),
                np.array([0.0, 1e-10, -1e-10, np.pi, np.pi + 1e-9, np.pi - 1e-9, 250.1, -93.7]),
            ]
        )
    )
    e = np.unique(np.concatenate([np.linspace(0, 0.95, 20 if ctx.tier == "quick" else 96), [1e-9, 1e-4, 0.8, 0.85, 0.97, 0.99, 0.995, 0.998, 0.9999]]))
    f32 = not task["x64"]
    if f32:
        M, e = M.astype(np.float32), e[e <= 0.8].astype(np.float32)
    MM, ee = (a.copy() for a in np.broadcast_arrays(M[:, None], e[None, :]))
    shp = MM.shape
    MM, ee = MM.ravel(), ee.ravel()
    rs, rc, fM, fe = kepler_ref(MM, ee)
    want = {
        "sM": rc * fM, "se": rc * fe, "cM": -rs * fM, "ce": -rs * fe,
    }
    want = {k: np.asarray(v, float) for k, v in want.items()}
    scale = 1 + np.asarray(np.abs(fM) + np.abs(fe), float)
    eps = np.finfo(M.dtype).eps
    tol = (3e-13 if not f32 else 3e-4) * scale**2 + 400 * eps * scale**2
    lab = dict(M=MM, e=ee)
    Mj, ej = jnp.asarray(MM), jnp.asarray(ee)
    name = task["name"]
    if name in ("jvp", "f32"):
        one, zero = jnp.ones_like(Mj), jnp.zeros_like(Mj)
        for wrap in (lambda f: f, jax.jit):
            f = wrap(lambda m, x, dm, dx: jax.jvp(kepler, (m, x), (dm, dx)))
            (_, (a, b)) = f(Mj, ej, one, zero)
            ctx.close(a, want["sM"], "jvp-sM", tol=tol, labels=lab)
            ctx.close(b, want["cM"], "jvp-cM", tol=tol, labels=lab)
            (_, (a, b)) = f(Mj, ej, zero, one)
            ctx.close(a, want["se"], "jvp-se", tol=tol, labels=lab)
            ctx.close(b, want["ce"], "jvp-ce", tol=tol, labels=lab)
            (p, (a, b)) = f(Mj, ej, 2 * one, -3 * one)
            ctx.close(a, 2 * want["sM"] - 3 * want["se"], "jvp-lin-s", tol=5 * tol, labels=lab)
            ctx.close(b, 2 * want["cM"] - 3 * want["ce"], "jvp-lin-c", tol=5 * tol, labels=lab)
            ctx.close(p[0], np.asarray(rs, float), "jvp-primal", tol=tol, labels=lab)
            ctx.count(states=3 * MM.size, traces=3 * MM.size)
        # only one argument active
        (_, (a, b)) = jax.jvp(lambda m: kepler(m, ej), (Mj,), (one,))
        ctx.close(a, want["sM"], "jvp-only-M", tol=tol, labels=lab)
        (_, (a, b)) = jax.jvp(lambda x: kepler(Mj, x), (ej,), (one,))
        ctx.close(b, want["ce"], "jvp-only-e", tol=tol, labels=lab)
        ctx.count(states=2 * MM.size, traces=2 * MM.size)
    elif name == "grad":
        for i, o in enumerate("sc"):
            g = jax.jit(jax.vmap(jax.grad(lambda m, x: kepler(m, x)[i], (0, 1))))
            a, b = g(Mj, ej)
            ctx.close(a, want[o + "M"], f"grad-{o}M", tol=tol, labels=lab)
            ctx.close(b, want[o + "e"], f"grad-{o}e", tol=tol, labels=lab)
            g = jax.grad(lambda m: jnp.sum(kepler(m, ej)[i]))
            ctx.close(g(Mj), want[o + "M"], f"grad-only-{o}M", tol=tol, labels=lab)
            g = jax.grad(lambda x: jnp.sum(kepler(Mj, x)[i]))
            ctx.close(g(ej), want[o + "e"], f"grad-only-{o}e", tol=tol, labels=lab)
            ctx.count(states=4 * MM.size, traces=4 * MM.size)
    elif name in ("jacfwd", "jacrev"):
        jac = getattr(jax, name)
        J = jax.vmap(jac(kepler, (0, 1)))(Mj, ej)
        for o, pair in zip("sc", J):
            ctx.close(pair[0], want[o + "M"], f"{name}-{o}M", tol=tol, labels=lab)
            ctx.close(pair[1], want[o + "e"], f"{name}-{o}e", tol=tol, labels=lab)
        ctx.count(states=4 * MM.size, traces=4 * MM.size)
    elif name == "second":
        # d2f/dM2 etc. from differentiating the closed form:
        # fM = (1+e c)^2/(1-e^2)^1.5 ; d fM/dM = 2(1+ec)(-e s) fM /(1-e^2)^1.5
        e_, s_, c_ = (np.asarray(v, float) for v in (ee, rs, rc))
        fM_, fe_ = np.asarray(fM, float), np.asarray(fe, float)
        fMM = 2 * (1 + e_ * c_) * (-e_ * s_) * fM_ / (1 - e_**2) ** 1.5
        sMM = -s_ * fM_**2 + c_ * fMM
        for mode in ("fwdrev", "revfwd", "fwdfwd"):
            h = {
                "fwdrev": jax.jacfwd(jax.grad(lambda m, x: kepler(m, x)[0])),
                "revfwd": jax.jacrev(jax.jacfwd(lambda m, x: kepler(m, x)[0])),
                "fwdfwd": jax.jacfwd(jax.jacfwd(lambda m, x: kepler(m, x)[0])),
            }[mode]
            H = jax.jit(jax.vmap(h))(Mj, ej)
            ctx.close(H, sMM, f"second-{mode}", tol=20 * tol * scale, labels=lab)
            ctx.count(states=MM.size, traces=MM.size)
    elif name == "broadcast":
        # array anomalies against one eccentricity (the way orbits call it)
        for j in range(0, len(e)):
            x = jnp.asarray(e[j])
            sel = slice(j, None, len(e))
            one = jnp.ones_like(jnp.asarray(M))
            (_, (a, b)) = jax.jvp(lambda m: kepler(m, x), (jnp.asarray(M),), (one,))
            ctx.close(a, want["sM"][sel], "bc-sM", tol=tol[sel], detail=dict(e=float(x)))
            g = jax.grad(lambda x: jnp.sum(kepler(jnp.asarray(M), x)[0]))(x)
            ctx.close(g, want["se"][sel].sum(), "bc-se", tol=tol[sel].sum(), detail=dict(e=float(x)))
            g = jax.grad(lambda x: jnp.sum(kepler(jnp.asarray(M), x)[1]))(x)
            ctx.close(g, want["ce"][sel].sum(), "bc-ce", tol=tol[sel].sum(), detail=dict(e=float(x)))
            ctx.count(states=3 * len(M), traces=3 * len(M))
    del shp
