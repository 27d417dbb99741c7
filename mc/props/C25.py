"""Occultation integrals of every Green basis term."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "every basis term of every degree up to the bound x a lattice of occultor radii (1e-5..100, "
    "r = 1 exactly and neighbours, both signs of b) and impact parameters placed at, and around, "
    "every contact (b = 0, |1-r|, r, 1, 1+r, their neighbours 1e-3 and 1e-6 away), at several "
    "quadrature orders; against direct 2-D integration of the term over the visible part of the "
    "disk; first derivatives with respect to b and r, forward and reverse, against the Leibniz "
    "line integral along the occulting limb and finite everywhere"
)
ASSUME = [
    "reference: the Green's basis obtained by an independent curl computation, integrated by 2-D "
    "Gauss quadrature over the blocked region",
    "derivatives with respect to b are not compared below b = 1e-6, where the aligned frame of the "
    "integrals is singular and they are one-sided (finiteness is)",
]
# worst absolute error of one term on this lattice; 3-10 times below these bounds
TOL = {20: 1e-6, 100: 1e-9, 500: 1e-10}
RS = [1e-5, 3e-4, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.9, 0.999, 1.0, 1.001, 1.1, 2.0, 10.0, 100.0]


def lattice(tier):
    S = []
    n = 24 if tier == "thorough" else 6
    for r in RS:
        c = abs(1 - r)
        bs = {0.0, 1e-10, 1e-8, 1e-6, 1e-3, 0.3, c, c + 1e-3, c + 1e-6, max(c - 1e-6, 0), max(c - 1e-3, 0),
              c * 0.5, r, 1.0, r + 0.3, r + 0.9, 1 + r - 1e-3, 1 + r - 1e-6, 1 + r, 1 + r + 1e-6, 1 + r + 0.4}
        bs |= set((c + (1 + r - c) * (np.arange(n) + 0.5) / n).tolist())
        S += [(b, r) for b in sorted(bs)]
    return np.array(S)


def tasks(tier):
    L = (0, 1, 2, 3, 4, 6, 8) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16)
    t = [dict(name=f"values-{l}-o{o}", l=l, o=o, cost=2 + l + o / 50) for l in L for o in (20, 100, 500)]
    if tier == "quick":
        t.append(dict(name="values-11-o500", l=11, o=500, cost=20))
    D = (1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 7, 9)
    for l in D:
        for mode in ("rev", "fwd"):
            t.append(dict(name=f"grad-{l}-{mode}", l=l, mode=mode, cost=10 + l))
    t.append(dict(name="rT", cost=1))
    t.append(dict(name="shapes", cost=3))
    t.append(dict(name="f32", x64=False, cost=3))
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.core.solution import rT, solution_vector
    from oracles import blocked_monomials, blocked_monomials_grad, disk_monomial, green_matrix, poly_index

    name = task["name"]
    S = lattice(ctx.tier)
    b, r = S.T
    near = np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - (1 + r)))

    def reference(L):
        terms, G = green_matrix(L)
        tot = G @ np.array([disk_monomial(*t) for t in terms])
        return tot, np.array([tot - G @ blocked_monomials(terms, x, y) for x, y in S])

    if name.startswith("values"):
        L, o = task["l"], task["o"]
        tot, want = reference(L)
        f = solution_vector(L, order=o)
        # beyond degree 12 cancellation in the recursions costs digits
        grow = 1.0 if L <= 10 else 10.0 ** (L - 10)
        tol = TOL[o] * max(1.0, grow * (1 if o == 500 else 0.03 if o == 100 else 1e-3))
        for sign in (1.0, -1.0):
            got = np.asarray(f(sign * b, r))
            bad = ~np.isfinite(got).all(1)
            ctx.check(not bad.any(), "finite", L=L, order=o, at=S[bad][:3].tolist())
            ctx.close(got, want, f"visible-integral[{o}]", tol=tol, detail=dict(L=L, order=o, sign=sign), labels=dict(b=b[:, None], r=r[:, None], n=np.arange((L + 1) ** 2)))
            small = r < 5e-3
            ctx.close((got - tot)[small], (want - tot)[small], "small-occultor", tol=1e-2 * np.pi * r[small, None] ** 2 + 1e-13 * grow, detail=dict(L=L, order=o, sign=sign), labels=dict(b=b[small, None], r=r[small, None], n=np.arange((L + 1) ** 2)))
            ctx.count(states=got.size, traces=len(S), transitions=len(S), nontrivial=int((np.abs(want - tot) > 1e-12).sum()))
        # a body that does not touch the disk and one that hides it all leave exactly the limits
        out = b >= 1 + r
        ctx.close(got[out], np.broadcast_to(tot, got[out].shape), "unocculted", tol=1e-12, detail=dict(L=L, order=o))
        full = r >= 1 + b
        ctx.close(got[full], 0 * got[full], "complete", tol=tol, detail=dict(L=L, order=o))
        ctx.sample(dict(L=L, order=o, b=b[5], r=r[5]))
    elif name.startswith("grad"):
        L = task["l"]
        terms, G = green_matrix(L)
        D = [blocked_monomials_grad(terms, x, y) for x, y in S]
        W = [np.array([-G @ d[k] for d in D]) for k in range(2)]
        mode = jax.jacrev if task["mode"] == "rev" else jax.jacfwd
        for o in (20, 500) if ctx.tier == "quick" else (20, 100, 500):
            J = jax.jit(jax.vmap(mode(solution_vector(L, order=o), (0, 1))))(b, r)
            J = [np.asarray(v) for v in J]
            for k, v in enumerate("br"):
                bad = ~np.isfinite(J[k]).all(1)
                ctx.check(not bad.any(), "grad-finite", L=L, order=o, wrt=v, at=S[bad][:3].tolist())
                s = near > 5e-4
                if k == 0:
                    s &= b >= 1e-6
                tol = {20: 1e-4, 100: 3e-6, 500: 1e-6}[o]
                ctx.close(J[k][s], W[k][s], f"grad-{v}[{o}]", tol=tol, rtol=tol, detail=dict(L=L, order=o), labels=dict(b=b[s][:, None], r=r[s][:, None], n=np.arange((L + 1) ** 2)))
                ctx.count(states=J[k].size, traces=len(S), transitions=len(S))
        ctx.sample(dict(L=L, order=o, mode=task["mode"]))
    elif name == "rT":
        top = 16 if ctx.tier == "quick" else 30
        for L in range(top + 1):
            want = np.array([disk_monomial(*poly_index(n)) for n in range((L + 1) ** 2)])
            ctx.close(np.asarray(rT(L)), want, "rT", tol=1e-14, rtol=1e-12, detail=dict(L=L))
            ctx.count(states=(L + 1) ** 2, traces=1)
        ctx.sample(dict(L=top))
    elif name == "shapes":
        # scalars, python numbers and broadcasting grids give the same numbers
        L = 3
        f = solution_vector(L)
        bb, rr = np.array([0.0, 0.4, 1.05])[:, None], np.array([0.1, 1.0])
        G = np.asarray(f(jnp.asarray(bb), jnp.asarray(rr)))
        ctx.check(G.shape == (3, 2, 16), "broadcast-shape", got=G.shape)
        terms, Gm = green_matrix(L)
        tot = Gm @ np.array([disk_monomial(*t) for t in terms])
        for i in range(3):
            for j in range(2):
                want = tot - Gm @ blocked_monomials(terms, bb[i, 0], rr[j])
                ctx.close(G[i, j], want, "broadcast", tol=1e-6)
                ctx.close(np.asarray(f(float(bb[i, 0]), float(rr[j]))), want, "scalar", tol=1e-6)
                ctx.close(np.asarray(jax.vmap(f, (0, None))(jnp.asarray(bb[:, 0]), rr[j]))[i], want, "vmap", tol=1e-6)
                ctx.count(states=3, traces=3)
        z = np.asarray(f(0.5, 0.0))
        ctx.close(z, tot, "zero-radius", tol=1e-12)
        ctx.sample(dict(b=0.4, r=0.1))
    else:
        L = 4
        _, want = reference(L)
        got = np.asarray(solution_vector(L)(jnp.asarray(b, dtype=np.float32), jnp.asarray(r, dtype=np.float32)))
        ctx.check(got.dtype == np.float32, "f32-dtype", got=str(got.dtype))
        s = (r <= 2) & (near > 2e-3)
        ctx.check(np.isfinite(got).all(), "f32-finite", at=S[~np.isfinite(got).all(1)][:3].tolist())
        ctx.close(got[s], want[s], "f32", tol=1e-4, labels=dict(b=b[s][:, None], r=r[s][:, None], n=np.arange(25)))
        ctx.count(states=got[s].size, traces=len(S))
        ctx.sample(dict(L=L))
