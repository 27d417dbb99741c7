"""Spherical-harmonic and polynomial containers."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "breadth-first over operation sequences on the containers (depth 3 quick, 4 thorough; a "
    "state is the function represented, compared with a reference function on the sphere "
    "after every operation); every non-empty set of coefficients up to degree 2 and every "
    "insertion order of four of them; every index up to degree 60; every pair of basis "
    "functions up to degree 4 (quick) or 7 (thorough) for both products"
)
ASSUME = ["orthonormal real harmonics", "indices within the degree of the expansion"]

KEYS = [(l, m) for l in range(3) for m in range(-l, l + 1)]


def tasks(tier):
    t = [dict(name="indices"), dict(name="dense-ylm", cost=3), dict(name="dense-pijk", cost=3), dict(name="orders"), dict(name="pijk-mul", cost=4), dict(name="matrix")]
    L = 4 if tier == "quick" else 7
    t += [dict(name=f"ylm-mul-{l}", l1=l, L=L, cost=1 + l) for l in range(L + 1)]
    t += [dict(name=f"seq-{k}-{i}", kind=k, first=i, depth=3 if tier == "quick" else 4, cost=5) for k in ("ylm", "pijk") for i in range(4)]
    return t


def coef(n, k=0):
    """fixed coefficient vectors without accidental symmetries"""
    i = np.arange(n)
    return np.where(i == 0, 1.7 + 0.3 * k, np.cos(1.3 * i + 0.7 * k) * (1.1 + 0.05 * i))


def mono(i, j, k, X):
    return X[0] ** i * X[1] ** j * X[2] ** k


def ylm_values(y, X):
    from oracles import real_sph

    out = 0.0
    Y = real_sph(y.deg, *X)
    for (l, m), v in y.data.items():
        out = out + np.asarray(v) * Y[..., l * l + l + m]
    return out


def pijk_values(p, X):
    return sum(np.asarray(v) * mono(*ijk, X) for ijk, v in p.data.items())


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry.core.basis import ptilde
    from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix
    from jaxoplanet.starry.ylm import Ylm
    from oracles import real_sph, sphere_points

    X = sphere_points(150)
    name = task["name"]

    def check_ylm(y, want, key, deg=None, **d):
        """the object represents the function, whichever way it is read"""
        scale = 1 + np.abs(want).max()
        ok = ctx.close(ylm_values(y, X), want, key + ":data", tol=1e-12 * scale, detail=d)
        D = np.asarray(y.todense())
        ok &= ctx.check(D.shape == ((y.deg + 1) ** 2,) == tuple(y.shape), key + ":shape", got=D.shape, **d)
        ok &= ctx.close(real_sph(y.deg, *X) @ D, want, key + ":dense", tol=1e-12 * scale, detail=d)
        S = y.tosparse()
        ok &= ctx.close(np.asarray(S.todense()), D, key + ":sparse", tol=0, detail=d)
        ok &= ctx.check(y.deg == max(l for l, _ in y.data), key + ":deg", got=y.deg, **d)
        ok &= ctx.check(y.diagonal == all(m == 0 for _, m in y.data), key + ":diagonal", **d)
        ok &= ctx.check(y.indices == list(y.data), key + ":indices", **d)
        return ok

    def check_pijk(p, want, key, **d):
        scale = 1 + np.abs(want).max()
        ok = ctx.close(pijk_values(p, X), want, key + ":data", tol=1e-12 * scale, detail=d)
        D = np.asarray(p.todense())
        ok &= ctx.check(D.shape == ((p.degree + 1) ** 2,), key + ":shape", got=D.shape, **d)
        M = np.stack([mono(*ptilde(n), X) for n in range(len(D))], -1)
        ok &= ctx.close(M @ D, want, key + ":dense", tol=1e-12 * scale, detail=d)
        ok &= ctx.close(np.asarray(p.tosparse().todense()), D, key + ":sparse", tol=0, detail=d)
        return ok

    if name == "indices":
        L = 60 if ctx.tier == "quick" else 250
        seen = set()
        n = 0
        for l in range(L + 1):
            for m in range(-l, l + 1):
                ctx.check(Ylm.index(l, m) == n and Pijk.lm2n(l, m) == n, "index", l=l, m=m)
                ctx.check(tuple(Pijk.n2lm(n)) == (l, m), "n2lm", n=n, got=str(Pijk.n2lm(n)))
                ijk = Pijk.lm2ijk(l, m)
                i, j, k = ijk
                ctx.check(k in (0, 1) and i >= 0 and j >= 0 and i + j + k == l and ijk not in seen, "lm2ijk", l=l, m=m, got=str(ijk))
                seen.add(ijk)
                ctx.check(tuple(Pijk.ijk2lm(*ijk)) == (l, m), "ijk2lm", ijk=str(ijk))
                ctx.check(tuple(Pijk.n2ijk(n)) == ijk == tuple(ptilde(n)), "n2ijk", n=n)
                n += 1
        # order stated in the documentation
        names = ["1", "x", "z", "y", "x2", "xz", "xy", "yz", "y2"]
        want = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (0, 1, 0), (2, 0, 0), (1, 0, 1), (1, 1, 0), (0, 1, 1), (0, 2, 0)]
        for i, w in enumerate(want):
            ctx.check(tuple(Pijk.n2ijk(i)) == w, "order:" + names[i])
        p = Pijk({ijk: 1.0 for ijk in seen if sum(ijk) < 12})
        for ijk in p.data:
            ctx.check(Pijk.n2ijk(p.index(*ijk)) == ijk, "index-method", ijk=str(ijk))
        ctx.count(states=n, transitions=6 * n, traces=n)
        ctx.sample(dict(n=n))
    elif name.startswith("dense"):
        c = coef(9)
        Yb = real_sph(2, *X)
        Mb = np.stack([mono(*Pijk.n2ijk(n), X) for n in range(9)], -1)
        for r in range(1, 10):
            for sub in itertools.combinations(range(9), r):
                if name == "dense-ylm":
                    y = Ylm({KEYS[i]: c[i] for i in sub})
                    want = Yb[:, list(sub)] @ c[list(sub)]
                    if not check_ylm(y, want, "subset", sub=sub):
                        continue
                    for i in range(y.deg * (y.deg + 2) + 1):
                        ctx.close(y[KEYS[i]], c[i] if i in sub else 0.0, "getitem", tol=0, detail=dict(sub=sub, i=i))
                    b = Ylm.from_dense(y.todense(), normalize=False)
                    ctx.close(b.todense(), y.todense(), "from-dense", tol=0)
                    if r < 3:
                        check_ylm(y * y, want * want, "square", sub=sub)
                    if 0 in sub:
                        check_ylm(y.normalize(), want / c[0], "normalize", sub=sub)
                        b = Ylm.from_dense(y.todense())
                        ctx.close(b.todense(), y.todense() / c[0], "from-dense-normalize", tol=1e-15 * 9)
                        ctx.close(b.normalize().todense(), b.todense(), "normalize-idempotent", tol=0)
                else:
                    p = Pijk({Pijk.n2ijk(i): c[i] for i in sub})
                    want = Mb[:, list(sub)] @ c[list(sub)]
                    if not check_pijk(p, want, "subset", sub=sub):
                        continue
                    ctx.check(p.degree == max(Pijk.n2lm(i)[0] for i in sub), "degree", sub=sub)
                    q = Pijk({Pijk.n2ijk(i): c[i] for i in sub}, degree=3)
                    ctx.check(q.todense().shape == (16,), "degree-argument")
                    ctx.close(q.todense()[: len(p.todense())], p.todense(), "degree-argument", tol=0)
                    for i in range((p.degree + 1) ** 2):
                        ctx.close(p[Pijk.n2ijk(i)], c[i] if i in sub else 0.0, "getitem", tol=0, detail=dict(sub=sub, i=i))
                    b = Pijk.from_dense(p.todense())
                    ctx.close(b.todense(), p.todense(), "from-dense", tol=0)
                    # an object with itself
                    check_pijk(p * p, want * want, "square", sub=sub)
                    check_pijk(p + p, want + want, "double", sub=sub)
                    check_pijk(p, want, "kept", sub=sub)
                ctx.count(states=1, transitions=4, traces=1)
        ctx.sample(dict(subset=sub))
        # default, high degree, zero coefficient
        if name == "dense-ylm":
            ctx.close(Ylm().todense(), [1.0], "default", tol=0)
            for n in range(1, 12):
                c = coef((n + 1) ** 2)
                y = Ylm.from_dense(c, normalize=False)
                check_ylm(y, real_sph(n, *X) @ c, "deg", n=n)
                yj = jax.jit(lambda v: Ylm.from_dense(v, normalize=True).todense() + Ylm.from_dense(v, normalize=False).tosparse().todense())(jnp.asarray(c)) if n < 3 else c / c[0] + c
                ctx.close(yj, c / c[0] + c, "traced", tol=1e-13)
    elif name == "orders":
        c = coef(9)
        for perm in itertools.permutations([0, 2, 4, 7]):
            y = Ylm({KEYS[i]: c[i] for i in perm})
            check_ylm(y, real_sph(2, *X)[:, list(perm)] @ c[list(perm)], "order", perm=perm)
            p = Pijk({Pijk.n2ijk(i): c[i] for i in perm})
            check_pijk(p, sum(c[i] * mono(*Pijk.n2ijk(i), X) for i in perm), "order", perm=perm)
            check_ylm(y.normalize(), real_sph(2, *X)[:, list(perm)] @ c[list(perm)] / c[0], "order-normalize", perm=perm)
            ctx.count(states=2, transitions=2, traces=2)
        ctx.sample(dict(order=perm))
    elif name == "pijk-mul":
        L = 5 if ctx.tier == "quick" else 9
        N = (L + 1) ** 2
        for a in range(N):
            ia = Pijk.n2ijk(a)
            for b in range(N):
                ib = Pijk.n2ijk(b)
                q = Pijk({ia: 1.5}) * Pijk({ib: -2.0})
                # exact: the dictionary of a product of monomials, z^2 eliminated
                i, j, k = (u + v for u, v in zip(ia, ib))
                want = {(i, j, k): -3.0} if k < 2 else {(i, j, 0): -3.0, (i + 2, j, 0): 3.0, (i, j + 2, 0): 3.0}
                ctx.check({k: float(v) for k, v in q.data.items() if float(v) != 0.0} == want, "monomials", a=ia, b=ib, got=str(dict(q.data)))
                ctx.count(states=1, traces=1, transitions=1)
        for da in range(5):
            for db in range(5):
                for k in range(2):
                    ca, cb = coef((da + 1) ** 2, k), coef((db + 1) ** 2, k + 2)
                    pa, pb = Pijk.from_dense(ca), Pijk.from_dense(cb)
                    fa, fb = pijk_values(pa, X), pijk_values(pb, X)
                    check_pijk(pa * pb, fa * fb, "product", da=da, db=db)
                    check_pijk(pa + pb, fa + fb, "sum", da=da, db=db)
                    check_pijk(pa * 2.5, fa * 2.5, "scalar")
                    check_pijk(2.5 * pa, fa * 2.5, "scalar")
                    ctx.close(pa.todense(), ca, "operands-kept", tol=0)
                    ctx.count(states=4, traces=4, transitions=4)
        f = jax.jit(lambda u, v: (Pijk.from_dense(u, degree=2) * Pijk.from_dense(v, degree=1)).todense())
        ctx.close(f(coef(9), coef(4)), (Pijk.from_dense(coef(9)) * Pijk.from_dense(coef(4))).todense(), "traced", tol=1e-13)
        ctx.sample(dict(da=da, db=db))
    elif name == "matrix":
        D = 4 if ctx.tier == "quick" else 6
        for da in range(D + 1):
            for db in range(D + 1):
                ca = coef((da + 1) ** 2, 1)
                M = np.asarray(polynomial_product_matrix(ca, db))
                N = (da + db + 1) ** 2
                if not ctx.check(M.shape == (N, (db + 1) ** 2), "matrix:shape", got=M.shape, da=da, db=db):
                    continue
                fa = sum(c * mono(*ptilde(n), X) for n, c in enumerate(ca))
                B = np.stack([mono(*ptilde(n), X) for n in range(N)], -1)
                ctx.close(B @ M, fa[:, None] * B[:, : (db + 1) ** 2], "matrix", tol=1e-11, detail=dict(da=da, db=db))
                ctx.count(states=1, traces=(db + 1) ** 2, transitions=1)
        ctx.sample(dict(da=da, db=db))
    elif name.startswith("ylm-mul"):
        l1, L = task["l1"], task["L"]
        Yb = real_sph(L, *X)
        for m1 in range(-l1, l1 + 1):
            for l2 in range(L + 1):
                for m2 in range(-l2, l2 + 1):
                    q = Ylm({(l1, m1): 1.5}) * Ylm({(l2, m2): -2.0})
                    want = -3.0 * Yb[:, l1 * l1 + l1 + m1] * Yb[:, l2 * l2 + l2 + m2]
                    ctx.close(ylm_values(q, X), want, "ylm-product", tol=1e-11, detail=dict(a=(l1, m1), b=(l2, m2)))
                    ctx.count(states=1, traces=1, transitions=1)
        for l2 in range(min(L, 3) + 1):
            for sub in range(4):
                # several terms, some missing
                ka = [i for i in range((l1 + 1) ** 2) if sub == 0 or (i + sub) % 2]
                kb = [i for i in range((l2 + 1) ** 2) if sub < 2 or (i * sub) % 3 != 1]
                if not ka or not kb:
                    continue
                ca, cb = coef((l1 + 1) ** 2), coef((l2 + 1) ** 2, 1)
                a = Ylm({Pijk.n2lm(i): ca[i] for i in ka})
                b = Ylm({Pijk.n2lm(i): cb[i] for i in kb})
                check_ylm(a * b, ylm_values(a, X) * ylm_values(b, X), "ylm-product-sum", l1=l1, l2=l2, sub=sub)
                ctx.count(states=1, traces=1, transitions=1)
        ctx.sample(dict(l1=l1))
    else:
        # operation sequences
        kind, depth = task["kind"], task["depth"]
        if kind == "ylm":
            other = Ylm({(1, -1): 0.4, (0, 0): 2.0, (1, 1): -0.3})
            fo = ylm_values(other, X)
            start = [Ylm(), Ylm({(0, 0): 2.0, (2, -1): 0.5}), Ylm.from_dense(coef(9), normalize=False), Ylm({(1, 0): 0.2, (0, 0): 0.5})][task["first"]]
            ops = {
                "x3": (lambda y: y * 3.0, lambda f, y: f * 3.0),
                "3x": (lambda y: 3.0 * y, lambda f, y: f * 3.0),
                "norm": (lambda y: y.normalize(), lambda f, y: f / float(y.todense()[0])),
                "dense": (lambda y: Ylm.from_dense(y.todense(), normalize=False), lambda f, y: f),
                "dense-norm": (lambda y: Ylm.from_dense(y.todense()), lambda f, y: f / float(y.todense()[0])),
                "mul": (lambda y: y * other, lambda f, y: f * fo),
                "lmul": (lambda y: other * y, lambda f, y: f * fo),
                "copy": (lambda y: Ylm(dict(y.data)), lambda f, y: f),
            }
            f0, chk = ylm_values(start, X), check_ylm
        else:
            other = Pijk({(0, 0, 1): 0.4, (0, 0, 0): 2.0, (1, 0, 0): -0.3})
            fo = pijk_values(other, X)
            start = [Pijk({(0, 0, 0): 1.0}), Pijk({(0, 1, 1): 2.0, (2, 0, 0): 0.5}), Pijk.from_dense(coef(9)), Pijk({(0, 0, 1): 0.2})][task["first"]]
            ops = {
                "x3": (lambda y: y * 3.0, lambda f, y: f * 3.0),
                "3x": (lambda y: 3.0 * y, lambda f, y: f * 3.0),
                "add": (lambda y: y + other, lambda f, y: f + fo),
                "radd": (lambda y: other + y, lambda f, y: f + fo),
                "self": (lambda y: y + y, lambda f, y: f + f),
                "dense": (lambda y: Pijk.from_dense(y.todense(), degree=y.degree), lambda f, y: f),
                "mul": (lambda y: y * other, lambda f, y: f * fo),
                "lmul": (lambda y: other * y, lambda f, y: f * fo),
            }
            f0, chk = pijk_values(start, X), check_pijk
        frontier = [((), start, f0)]
        for d in range(depth):
            nxt, seen = [], {}
            for path, y, f in frontier:
                before = np.asarray(y.todense())
                for op, (fn, ref) in ops.items():
                    y2, f2 = fn(y), ref(f, y)
                    ctx.count(transitions=1, traces=1)
                    chk(y2, f2, "sequence", path=path + (op,))
                    # same function reached in another way: explore once
                    k = (tuple(np.round(f2[:5], 9)), y2.deg if kind == "ylm" else y2.degree, len(y2.data))
                    if k not in seen:
                        seen[k] = 1
                        nxt.append((path + (op,), y2, f2))
                ctx.close(y.todense(), before, "operand-mutated", tol=0, detail=dict(path=path))
            ctx.count(states=len(nxt))
            frontier = nxt
        ctx.sample(dict(path=frontier[-1][0]))
