"""Kepler solver: exact on a dense lattice of mean anomalies and eccentricities."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "full product of a mean-anomaly lattice (every multiple of pi/N over several "
    "periods, both signs, each with its floating point neighbours at the branch points "
    "0, pi, 2pi, plus epochs up to 1e5 rad) with an eccentricity lattice (0, denormal-"
    "small, a uniform grid, geometric approach to 1); each point is solved by the real "
    "code and by extended-precision bisection/Newton; every point is distinct"
)
ASSUME = ["numpy longdouble (80-bit) reference solver"]


def eccs(tier, f32=False):
    n = 60 if tier == "quick" else 400
    e = list(np.linspace(0, 0.99, n))
    e += [1e-12, 1e-8, 1e-4, 0.5, 0.8, 0.85, 0.9, 0.97, 0.995, 0.999]
    e += [0.9999, 0.99999, 1 - 1e-6, 1 - 1e-8, 1 - 1e-10] if not f32 else []
    e = np.unique(np.array(e))
    return e[e <= 0.85] if f32 else e


def anoms(tier, part, parts):
    n = 180 if tier == "quick" else 1440
    m = [np.arange(-3 * n, 4 * n + 1) * (np.pi / n)]
    base = np.pi * np.arange(-4, 7)
    m += [np.nextafter(base, 1e9), np.nextafter(base, -1e9)]
    for d in (1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2):
        m += [base + d, base - d]
    m += [s * 10.0 ** np.arange(-18, 0, 1 if tier == "quick" else 0.25) for s in (1, -1)]
    m += [np.array([0.0, 1.0, 100.0, 1000.3, 1e5, -1e5, 12345.678, -777.7])]
    m = np.unique(np.concatenate(m))
    return m[part::parts]


def tasks(tier):
    parts = 6 if tier == "quick" else 24
    t = [dict(name=f"x64/{i}", part=i, parts=parts) for i in range(parts)]
    t += [dict(name="f32", x64=False, part=0, parts=3)]
    t += [dict(name="types", part=0, parts=40)]
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core import kepler as kmod
    from jaxoplanet.core.kepler import kepler
    from oracles import kepler_ref

    del kmod
    f32 = not task["x64"]
    M = anoms(ctx.tier, task["part"], task["parts"])
    e = eccs(ctx.tier, f32)
    if f32:
        M = M.astype(np.float32)
        M = M[np.abs(M) < 2000]
        e = e.astype(np.float32)
    MM, ee = (a.copy() for a in np.broadcast_arrays(M[:, None], e[None, :]))
    if task["name"] == "types":
        # every way of presenting the same numbers gives the same answer
        s0, c0 = (np.asarray(v) for v in kepler(jnp.asarray(MM), jnp.asarray(ee)))
        s1, c1 = kepler(M[:, None], e[None, :])  # broadcasting, numpy inputs
        ctx.close(s1, s0, "types:broadcast-sin", tol=1e-12)
        ctx.close(c1, c0, "types:broadcast-cos", tol=1e-12)
        sv, cv = jax.vmap(jax.vmap(kepler, (None, 0)), (0, None))(
            jnp.asarray(M), jnp.asarray(e)
        )
        ctx.close(sv, s0, "types:vmap-sin", tol=1e-12)
        ctx.close(cv, c0, "types:vmap-cos", tol=1e-12)
        for i in range(len(M)):
            for j in range(0, len(e), 7):
                s, c = kepler(float(M[i]), float(e[j]))
                ctx.close(s, s0[i, j], "types:scalar-sin", tol=1e-12, detail=dict(M=float(M[i]), e=float(e[j])))
                ctx.close(c, c0[i, j], "types:scalar-cos", tol=1e-12, detail=dict(M=float(M[i]), e=float(e[j])))
                ctx.count(states=1, traces=1)
        for k in range(-9, 10):
            for ei in (0, 0.3, 0.9):
                s, c = kepler(k, ei)
                rs, rc, _, _ = kepler_ref(float(k), float(ei))
                ctx.close(s, float(rs), "types:int-sin", tol=1e-11, detail=dict(M=k, e=ei))
                ctx.close(c, float(rc), "types:int-cos", tol=1e-11, detail=dict(M=k, e=ei))
                ctx.count(states=1, traces=1)
        return
    s, c = kepler(jnp.asarray(MM), jnp.asarray(ee))
    s, c = np.asarray(s, float), np.asarray(c, float)
    rs, rc, dfdM, dfde = kepler_ref(MM, ee)
    eps = np.finfo(M.dtype).eps
    # conditioning: the argument itself is only known to eps*(|M|+2pi), the
    # eccentricity to eps
    dM = eps * (np.abs(MM) + 8.0)
    tol = np.asarray(
        (5e-14 if not f32 else 2e-5) + 30 * dM * dfdM + 30 * eps * np.abs(dfde), float
    )
    lab = dict(M=MM, e=ee)
    ctx.close(s, np.asarray(rs, float), "sin", tol=tol, labels=lab)
    ctx.close(c, np.asarray(rc, float), "cos", tol=tol, labels=lab)
    ctx.close(s * s + c * c, 1.0 + 0 * s, "norm", tol=1e-12 if not f32 else 1e-5, labels=lab)
    # symmetries of the returned pair on the lattice itself
    s2, c2 = (np.asarray(v, float) for v in kepler(jnp.asarray(-MM), jnp.asarray(ee)))
    ctx.close(s2, -s, "odd", tol=2 * tol, labels=lab)
    ctx.close(c2, c, "even", tol=2 * tol, labels=lab)
    ctx.count(states=2 * s.size, traces=2 * s.size)
    ctx.sample(dict(M=float(MM[1, 3]), e=float(ee[1, 3]), sinf=float(s[1, 3]), cosf=float(c[1, 3])))
