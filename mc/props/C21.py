"""Basis transforms represent the same function."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "every degree 0..16 (quick) or 0..22 (thorough), every basis function of that degree, compared "
    "with its definition at 500 points covering the visible hemisphere, its limb and its centre; "
    "every matrix entry of the Green's-basis and limb-darkening transforms against the closed form"
)
ASSUME = [
    "definitions of Luger et al. (2019), eqs. 7, 11 and C; harmonics scaled so that y00 = 1 has flux 1",
    "rounding grows with the size of the polynomial coefficients: tolerances scale with it",
]


def tasks(tier):
    L = 16 if tier == "quick" else 22
    return [dict(name=f"degree-{l}", l=l, cost=1 + l**2) for l in range(L + 1)] + [dict(name="ld"), dict(name="nested", L=L, cost=100)]


def hemisphere():
    r = np.concatenate([np.linspace(0, 1, 21), [1e-8, 1 - 1e-8, 0.999, 1.0]])
    ph = np.linspace(0, 2 * np.pi, 21)[:-1] + 0.05
    R, P = np.meshgrid(r, ph)
    x, y = (R * np.cos(P)).ravel(), (R * np.sin(P)).ravel()
    n = np.hypot(x, y)
    s = np.where(n > 1, n, 1.0)
    x, y = x / s, y / s
    z = np.sqrt(np.maximum(0, 1 - x * x - y * y))
    ax = np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, 1.0]]).T
    return [np.concatenate([v, a]) for v, a in zip((x, y, z), ax)]


def lm(n):
    l = 0
    while (l + 1) ** 2 <= n:
        l += 1
    return l, n - l * l - l


def monomial(n):
    l, m = lm(n)
    mu, nu = l - m, l + m
    return (mu // 2, nu // 2, 0) if nu % 2 == 0 else ((mu - 1) // 2, (nu - 1) // 2, 1)


def green(n):
    """{(i, j, k): coefficient} of the n-th Green's basis term"""
    l, m = lm(n)
    mu, nu = l - m, l + m
    if nu % 2 == 0:
        d = {(mu // 2, nu // 2, 0): (mu + 2) / 2}
    elif l == 1 and m == 0:
        d = {(0, 0, 1): 1}
    elif mu == 1 and l % 2 == 0:
        d = {(l - 2, 1, 1): 3}
    elif mu == 1:
        d = {(l - 3, 0, 1): -1, (l - 1, 0, 1): 1, (l - 3, 2, 1): 4}
    else:
        d = {}
        if mu != 3:
            d[((mu - 5) // 2, (nu - 1) // 2, 1)] = (mu - 3) / 2
            d[((mu - 5) // 2, (nu + 3) // 2, 1)] = -(mu - 3) / 2
        d[((mu - 1) // 2, (nu - 1) // 2, 1)] = -(mu + 3) / 2
    return d


def ev(d, X):
    return sum(c * X[0] ** i * X[1] ** j * X[2] ** k for (i, j, k), c in d.items()) + 0 * X[0]


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m)


def run(task, ctx):
    import jax
    from jaxoplanet.starry.core import basis
    from oracles import real_sph

    X = hemisphere()
    if task["name"].startswith("degree"):
        l = task["l"]
        eps = 1e-12 * 2.0 ** max(0, l - 8)  # cancellation inside the coefficients
        N = (l + 1) ** 2
        P = np.stack([X[0] ** i * X[1] ** j * X[2] ** k for i, j, k in map(monomial, range(N))], -1)
        ctx.close(basis.poly_basis(l)(*X), P, "poly-basis", tol=1e-14 * (l + 1), detail=dict(l=l))
        ctx.close(jax.jit(basis.poly_basis(l))(*[v[:7] for v in X]), P[:7], "poly-basis-jit", tol=1e-14 * (l + 1))
        ctx.close(basis.poly_basis(l)(X[0].reshape(5, -1), X[1].reshape(5, -1), X[2].reshape(5, -1)), P.reshape(5, -1, N), "poly-basis-shape", tol=1e-14 * (l + 1))
        off = np.asarray(basis.poly_basis(l)(1.2, 0.0, np.nan))
        ctx.check(np.isnan(off).all(), "poly-basis-off-disk", got=str(off[:4]))
        for n in range(N):
            ctx.check(tuple(basis.ptilde(n)) == monomial(n), "ptilde", n=n)
        A1, A2i, B = dense(basis.A1(l)), dense(basis.A2_inv(l)), dense(basis.basis(l))
        if not ctx.check(A1.shape == A2i.shape == B.shape == (N, N), "shape", got=(A1.shape, A2i.shape, B.shape)):
            return
        Y = real_sph(l, *X) * 2 / np.sqrt(np.pi)
        noise = np.abs(P) @ np.abs(A1)
        ctx.close(P @ A1, Y, "A1", tol=eps * (1 + noise), detail=dict(l=l), labels=dict(n=np.arange(N)))
        G = np.stack([ev(green(n), X) for n in range(N)], -1)
        want = np.zeros((N, N))
        where = {monomial(n): n for n in range(N)}
        for n in range(N):
            for ijk, c in green(n).items():
                want[where[ijk], n] = c
        ctx.close(A2i, want, "A2_inv", tol=0, detail=dict(l=l))
        noise = np.abs(G) @ np.abs(B)
        ctx.close(G @ B, Y, "basis", tol=eps * (1 + noise), detail=dict(l=l), labels=dict(n=np.arange(N)))
        scale = np.abs(A2i) @ np.abs(B)
        ctx.close(A2i @ B, A1, "basis-matrix", tol=eps * (1 + scale), detail=dict(l=l))
        for m in range(-l, l + 1):
            d = basis.Ylm(l, m)
            n = l * l + l + m
            ctx.close(ev(d, X), Y[:, n] / 2 * np.sqrt(np.pi), "Ylm", tol=eps * (1 + ev({k: abs(v) for k, v in d.items()}, np.abs(X))), detail=dict(l=l, m=m))
            g = {k: v for k, v in basis.gtilde(n).items() if v}
            ctx.check(g == {k: v for k, v in green(n).items() if v}, "gtilde", n=n, got=str(g))
        ctx.count(states=3 * N + 2 * l + 1, traces=3 * N * len(X[0]), transitions=N)
        ctx.sample(dict(degree=l))
    elif task["name"] == "ld":
        D = 12 if ctx.tier == "quick" else 20
        for d in range(D + 1):
            U = np.asarray(basis.U(d))
            N = (d + 1) ** 2
            if not ctx.check(U.shape == (d + 1, N), "U:shape", got=U.shape):
                continue
            P = np.stack([X[0] ** i * X[1] ** j * X[2] ** k for i, j, k in map(monomial, range(N))], -1)
            noise = np.abs(P) @ np.abs(U.T)
            want = np.stack([-((1 - X[2]) ** n) if n else 1 + 0 * X[2] for n in range(d + 1)], -1)
            ctx.close(P @ U.T, want, "U", tol=1e-14 * (1 + noise), detail=dict(d=d))
            # and the law itself
            u = 0.4 * np.cos(np.arange(1, d + 1))
            law = 1 - sum(u[n - 1] * (1 - X[2]) ** n for n in range(1, d + 1))
            ctx.close(P @ (np.array([1, *u]) @ U), law + 0 * X[2], "law", tol=1e-13 * (1 + noise.sum(-1)), detail=dict(d=d))
            ctx.count(states=d + 1, traces=(d + 1) * len(X[0]), transitions=d + 1)
        ctx.sample(dict(d=D))
    else:
        # a map of degree l seen as a map of degree L > l is the same map
        L = task["L"]
        big = [dense(f(L)) for f in (basis.A1, basis.A2_inv, basis.basis)]
        for l in range(L):
            N = (l + 1) ** 2
            for k, (f, M) in enumerate(zip((basis.A1, basis.A2_inv, basis.basis), big)):
                m = dense(f(l))
                ctx.close(m, M[:N, :N], f"nested:{k}", tol=1e-12 * 2.0 ** max(0, L - 8) * (1 + np.abs(M[:N, :N]).max()), detail=dict(l=l))
                ctx.close(M[N:, :N], 0.0 * M[N:, :N], f"nested-zero:{k}", tol=1e-7, detail=dict(l=l))
                ctx.count(states=1, traces=N, transitions=1)
        ctx.sample(dict(L=L))
