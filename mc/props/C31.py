"""Arbitrary-precision code, cold and after every history of its caches."""

import contextlib
import io
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "every degree to the bound for the basis matrices; axes x angles for the rotations; "
    "inclination x obliquity x phase x occultor angle for the projection; contacts and their "
    "neighbours x radii for the occultation integrals and the flux, over all (ydeg, udeg); "
    "breadth-first over histories of calls sharing one cache (state = set of cached keys, "
    "transition = a call; alphabet of flux, A1, A2, R and sT calls with clashing degrees, angles and "
    "geometries, depth 3; depth 2 on the modules' own caches in the quick tier), each result against the same call on an empty cache"
)
ASSUME = [
    "agreement is asked to double rounding; the geometry 'b = 1 + r exactly' is outside the range of "
    "the occultation integrals (flux treats it as unocculted)",
    "the working precision (mp.dps) is not changed between calls that share a cache",
]

AXES = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.6, 0.0, 0.8), (1.0, -2.0, 0.5)]
ANGLES = [0.3, -2.0, 1.5, np.pi / 2, 3.0]
RS = [0.01, 0.1, 0.5, 0.9, 1.0, 1.1, 3.0, 10.0]


def geometries(tier, contact=True):
    G = []
    for r in RS:
        c = abs(1 - r)
        bs = {0.0, c * 0.5, c, c + 1e-3, max(c - 1e-3, 0.0), c + 0.3 * min(r, 1.0), r, 1.0, r + 0.7, 1 + r - 1e-3, 1 + r + 0.2}
        if tier == "thorough":
            bs |= set((c + (1 + r - c) * (np.arange(8) + 0.5) / 8).tolist()) | {1e-6, c + 1e-6, 1 + r - 1e-6}
        G += [(b, r) for b in sorted(bs)]
    return [(b, r) for b, r in G if not (r >= 1 and b <= r - 1)], G


def dense(l, k=0):
    n = np.arange((l + 1) ** 2)
    y = np.cos(1.3 * n + 0.4 + k) / (1 + 0.2 * n)
    y[0] = 1.0
    return y


def tasks(tier):
    q = tier == "quick"
    t = [dict(name=f"basis-{l}", l=l, cost=1 + l**2 / 5) for l in ((0, 1, 2, 3, 4, 5, 6, 8) if q else (*range(11), 12, 14, 16))]
    t += [dict(name=f"rotation-{l}", l=l, cost=2 + l**2) for l in ((0, 1, 2, 3) if q else range(7))]
    t += [dict(name=f"project-{l}", l=l, cost=2 + l**2) for l in ((0, 1, 2) if q else range(5))]
    t += [dict(name=f"sT-{l}", l=l, cost=3 + l**2) for l in ((0, 1, 2, 3, 5) if q else (*range(9), 10))]
    t += [dict(name=f"ld-{l}", l=l, cost=3 + l) for l in ((0, 1, 2, 4) if q else range(9))]
    D = [(0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (2, 2), (3, 1)]
    if not q:
        D += [(0, 4), (1, 3), (3, 3), (4, 0), (5, 2)]
    t += [dict(name=f"flux-{a}-{b}", yd=a, ud=b, cost=5 + (a + b) ** 2) for a, b in D]
    t += [dict(name=f"higher-{a}-{b}", yd=a, ud=b, cost=10) for a, b in (((1, 0), (2, 2)) if q else ((1, 0), (0, 2), (2, 2), (4, 1), (6, 0)))]
    t += [dict(name=f"history-{k}", k=k, cost=10) for k in range(len(OPS))] + [dict(name="near-history", near=True, cost=15)]
    t += [dict(name="utils", cost=1), *[dict(name=f"precision-{r}", r=r, cost=8) for r in (0.1, 0.5, 1.0, 2.0)]]
    return t


# (kind, args): the alphabet of the cache histories
OPS = [
    ("flux", (1, 0, 1.0, 0.3, 0.4, 0.2, 0.5)),
    ("flux", (1, 0, 1.0, -0.3, 0.4, 0.2, 0.5)),
    ("flux", (1, 0, 0.3, 1.0, 0.2, 0.4, 0.5)),
    ("flux", (0, 1, np.pi / 2, 0.0, 0.4, 0.2, 0.0)),
    ("flux", (1, 1, 1.0, 0.3, 2.0, 0.2, -0.7)),
    ("A1", (1,)),
    ("A2", (1,)),
    ("A1", (2,)),
    ("A2", (2,)),
    ("R", ("R_px", 1, None, None)),
    ("R", ("R_mx", 1, None, None)),
    ("R", ("R_inc", 1, 0.3, 1.0)),
    ("R", ("R_obl", 1, 0.3, 1.0)),
    ("R", ("R_inc", 1, 1.0, 0.3)),
    ("sT", (1, 0.4, 0.2)),
    ("sT", (1, 0.2, 0.4)),
]
# calls whose arguments agree to double rounding or better, as in a convergence study
E14, E25 = 1e-14, "1e-25"
NEAR = [
    ("sT", (1, 0.4, 0.2)),
    ("sT", (1, 0.4 + E14, 0.2)),
    ("sT", (1, 0.4, 0.2 - E14)),
    ("sT", (1, ("+", 0.4, E25), 0.2)),
    ("R", ("R_inc", 1, 0.3, 1.0)),
    ("R", ("R_inc", 1, 0.3, 1.0 + E14)),
    ("R", ("R_inc", 1, 0.3 + E14, 1.0)),
    ("R", ("R_inc", 1, 0.3, ("+", 1.0, E25))),
    ("R", ("R_obl", 1, 0.3, 1.0)),
    ("R", ("R_obl", 1, 0.3 + E14, 1.0)),
    ("R", ("R_obl", 1, ("+", 0.3, E25), 1.0)),
    ("flux", (1, 0, 1.0, 0.3, 0.4, 0.2, 0.5)),
    ("flux", (1, 0, 1.0, 0.3 + E14, 0.4, 0.2, 0.5)),
    ("flux", (1, 0, 1.0 + E14, 0.3, 0.4, 0.2, 0.5)),
    ("flux", (1, 0, 1.0, 0.3, 0.4 + E14, 0.2, 0.5)),
]


def run(task, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(task, ctx)


def _run(task, ctx):
    from collections import defaultdict

    import jax
    from framework import raises
    from jaxoplanet.starry.core import basis as dbasis
    from jaxoplanet.starry.core import rotation as drot
    from jaxoplanet.starry.core.solution import solution_vector
    from jaxoplanet.starry.multiprecision import basis, flux, mp, rotation, solution, utils
    from oracles import blocked_monomials, disk_monomial, green_matrix, limb_darkening_norm, poly_index

    name = task["name"]
    num = lambda m: np.array(m.tolist(), dtype=float)  # noqa: E731
    vec = lambda m: num(m).ravel()  # noqa: E731
    mpv = lambda y: mp.matrix(np.asarray(y, float).tolist())  # noqa: E731

    def empty():
        return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})

    def norm_diff(M):
        return float(max(abs(M[i, j]) for i in range(M.rows) for j in range(M.cols)))

    if name.startswith("basis"):
        L = task["l"]
        n = (L + 1) ** 2
        A1, A2, A2i = basis.A1(L), basis.A2(L), basis.A2_inv(L)
        ctx.close(num(A1), np.asarray(dbasis.A1(L).todense()), "A1", tol=1e-12, rtol=1e-11, detail=dict(L=L))
        ctx.close(num(A2i), np.asarray(dbasis.A2_inv(L).todense()), "A2_inv", tol=1e-13, rtol=1e-13, detail=dict(L=L))
        ctx.close(num(A2), np.linalg.inv(np.asarray(dbasis.A2_inv(L).todense())), "A2", tol=1e-11, rtol=1e-10, detail=dict(L=L))
        _, G = green_matrix(L) if L <= 8 else (None, None)
        e = norm_diff(A2 * A2i - mp.eye(n))
        ctx.check(e < 1e-24, "A2-inverse", L=L, err=e)
        # orthonormal harmonics, at the working precision: the polynomials integrate exactly on the sphere
        def sphere(i, j, k):
            if i % 2 or j % 2 or k % 2:
                return mp.mpf(0)
            g = [mp.gamma(mp.mpf(a + 1) / 2) for a in (i, j, k)]
            return 2 * g[0] * g[1] * g[2] / mp.gamma(mp.mpf(i + j + k + 3) / 2)

        if L <= 6:
            P = [poly_index(q) for q in range(n)]
            M = mp.matrix(n, n)
            for a in range(n):
                for b in range(n):
                    M[a, b] = sphere(*[P[a][c] + P[b][c] for c in range(3)])
            Gm = A1.T * M * A1
            worst = norm_diff(Gm - mp.eye(n) * (4 / mp.pi))
            ctx.check(worst < 1e-22, "orthonormal", L=L, err=worst)
        ctx.count(states=3 * n * n, traces=1, transitions=3)
        ctx.sample(dict(L=L))
    elif name.startswith("rotation"):
        L = task["l"]
        n = (L + 1) ** 2
        two = np.array([dense(L, k) for k in range(2)])
        rot = jax.jit(lambda x, y, z, t: jax.vmap(drot.dot_rotation_matrix(L, x, y, z, t))(two))
        # this dot_rz turns the frame, the double-precision one the map
        rz = jax.jit(lambda t: drot.dot_rz(L, t)(two[0]))
        for ax, t in itertools.product(AXES, [*ANGLES, 0.0, np.pi]):
            d = dict(L=L, axis=ax, angle=t)
            u = np.array(ax) / np.linalg.norm(ax)
            blocks = rotation.R(L, ax, t)
            got = [vec(rotation.dot_rotation_matrix(L, ax, t)(mpv(dense(L, k)))) for k in range(2)]
            again = vec(rotation.dot_rotation_matrix(L, ax, t, blocks)(mpv(dense(L))))
            pre = vec(rotation.dot_rotation_matrix(L, None, None, blocks)(mpv(dense(L))))
            wants = np.asarray(rot(*map(float, u), t))
            for k in range(2):
                want = wants[k]
                # 1e-6: conditioning of the double-precision code about the poles (C22)
                ctx.close(got[k], want, "rotation", tol=1e-6 if t in (0.0, np.pi) else 1e-11, detail=d)
            ctx.close(again, got[0], "rotation:given-blocks", tol=1e-14, detail=d)
            if t:
                ctx.close(pre, got[0], "rotation:no-angle", tol=1e-14, detail=d)
            for l in range(L + 1):
                B = blocks[l]
                e = norm_diff(B.T * B - mp.eye(2 * l + 1))
                ctx.check(e < 1e-15, "rotation:orthogonal", l=l, err=e, **d)
            ctx.count(states=2 * n, traces=4, transitions=4)
        for t in [*ANGLES, 0.0, np.pi, -7.5, 20.0]:
            got = vec(rotation.dot_rz(L, t)(mpv(dense(L))))
            ctx.close(got, np.asarray(rz(-t)), "rz", tol=1e-12, detail=dict(L=L, angle=t))
            ctx.count(states=n, traces=1, transitions=1)
        ctx.sample(dict(L=L, axis=AXES[4]))
    elif name.startswith("project"):
        L = task["l"]
        lp = jax.jit(lambda *a: drot.left_project(L, *a, dense(L)))
        for inc, obl, th, tz in itertools.product([np.pi / 2, 1.0, 2.5, 0.2], [0.0, 0.3, -2.0], [0.0, 0.4, -3.0], [0.0, 0.5, np.pi, -2.0]):
            if (inc == 0.2 or tz == -2.0) and ctx.tier == "quick" and L == 2:
                continue
            got = vec(rotation.left_project(L, inc, obl, th, tz, mpv(dense(L))))
            want = np.asarray(lp(inc, obl, th, tz))
            ctx.close(got, want, "project", tol=2e-6 if tz == np.pi else 1e-11, detail=dict(L=L, inc=inc, obl=obl, theta=th, tz=tz))
            ctx.count(states=got.size, traces=1, transitions=1)
        ctx.sample(dict(L=L, inc=1.0))
    elif name.startswith("sT"):
        L = task["l"]
        terms, G = green_matrix(L)
        tot = G @ np.array([disk_monomial(*t) for t in terms])
        tot_p = np.array([disk_monomial(*poly_index(q)) for q in range((L + 1) ** 2)])
        ctx.close(vec(solution.rT(L)), tot_p, "rT", tol=1e-13, detail=dict(L=L))
        f = solution_vector(L, order=500)
        for b, r in geometries(ctx.tier)[0]:
            if b >= 1 + r:
                ctx.check(raises(solution.check_occultation, b, r) is not None, "check-occultation", b=b, r=r)
                continue
            ctx.check(raises(solution.check_occultation, b, r) is None, "check-occultation", b=b, r=r)
            want = tot - G @ blocked_monomials(terms, b, r)
            d = dict(L=L, b=b, r=r)
            for s in ((1, 1), (-1, 1)):
                ctx.close(vec(solution.sT(L, s[0] * b, s[1] * r)), want, "sT", tol=1e-11, detail=d)
            ctx.close(np.asarray(f(b, r)), want, "sT-double", tol=1e-9, detail=d)
            ctx.count(states=len(want), traces=2, transitions=2, nontrivial=int(b > abs(1 - r)))
        ctx.sample(dict(L=L, b=b, r=r))
    elif name.startswith("ld"):
        from jaxoplanet.core.limb_dark import solution_vector as ld_solution

        L = task["l"]
        f = ld_solution(L, order=500)
        for b, r in geometries(ctx.tier)[0]:
            if b >= 1 + r or (r == 1.0 and b == 0.0):
                continue
            got = vec(solution.solution_limb_dark(L, b, r))
            # the contact b = |1 - r| takes the square root of a rounding error
            tol = 2e-8 if abs(b - abs(1 - r)) < 1e-12 or abs(b - r) < 1e-12 else 1e-9
            ctx.close(got, np.asarray(f(b, r)), "limb-dark", tol=tol, detail=dict(L=L, b=b, r=r))
            ctx.count(states=L + 1, traces=1, transitions=1)
        ctx.sample(dict(L=L, b=b, r=r))
    elif name.startswith("flux"):
        from props.C26 import UU, reference

        yd, ud = task["yd"], task["ud"]
        u = UU[ud]
        y = dense(yd)
        G = geometries(ctx.tier)[1]
        G = [(b, r) for b, r in G if abs(b - (1 + r)) > 1e-12]
        fl = {}
        for k, (b, r) in enumerate(G):
            inc, obl, th = ((np.pi / 2, 0.0, 0.0), (1.0, 0.3, 0.7), (2.5, -2.0, -7.5), (0.3, 0.0, 1.0))[k % 4]
            if yd == 0:
                inc, obl, th = np.pi / 2, 0.0, 0.0
            if (inc, obl) not in fl:
                fl[inc, obl] = flux.flux(yd, ud, inc, obl, cache=empty() if k % 2 else None)
            f = fl[inc, obl]
            sb = -b if k % 3 == 1 else b
            got = f(sb, r, y=y, phi=th, u=u) if yd else f(sb, r, u=u)
            d = dict(ydeg=yd, udeg=ud, inc=inc, obl=obl, phi=th, b=sb, r=r)
            want = reference(y, u, inc, obl, th, (0.0, sb, r, 1.0))
            ctx.close(float(got), want, "flux", tol=2e-9, detail=d)
            if yd and k % 3 == 0:
                got = f(b, r, y=y, u=u, rotate=False)
                ctx.close(float(got), reference(y, u, np.pi / 2, 0.0, 0.0, (0.0, b, r, 1.0)), "flux:rotate=False", tol=2e-9, detail=d)
            ctx.count(states=1, traces=2, transitions=1, nontrivial=int(b < 1 + r))
        f = flux.flux(yd, ud)
        y2 = dense(yd + 1)
        ctx.check(raises(f, 0.3, 0.1, y=y, u=(*u, 0.1)) is not None, "flux:wrong-u")
        if yd:
            ctx.check(raises(f, 0.3, 0.1, y=y2, u=u) is not None, "flux:wrong-y")
        ctx.sample(d)
    elif name.startswith("higher"):
        import jax.numpy as jnp
        from jaxoplanet.starry import Surface, Ylm
        from jaxoplanet.starry.doppler import surface_radial_velocity
        from jaxoplanet.starry.light_curves import surface_light_curve
        from props.C26 import UU

        yd, ud = task["yd"], task["ud"]
        s = Surface(y=Ylm.from_dense(dense(yd), normalize=False), inc=1.0, obl=0.3, u=UU[ud], period=3.0, radius=1.2, normalize=False)
        for fn in (surface_light_curve, surface_radial_velocity):
            for k, occ in enumerate([None, (0.3, 0.4, 0.1, 1.0), (0.9, -0.2, 0.3, 1.0), (0.0, 2.0, 0.3, 1.0), (0.3, 0.4, 0.1, -1.0), (0.1, 1.2, 1.5, 2.0)]):
                kw = dict(theta=0.7 - k)
                if occ is not None:
                    kw |= dict(zip("xyrz", occ))
                a = float(fn(s, **kw))
                b = float(fn(s, **kw, higher_precision=True))
                c = float(fn(s, **{q: jnp.asarray(v) for q, v in kw.items()}, higher_precision=True, order=60))
                scale = max(1.0, abs(a))
                ctx.close(b / scale, a / scale, "higher-precision", tol=1e-10, detail=dict(fn=fn.__name__, occ=occ))
                ctx.close(c / scale, a / scale, "higher-precision-order", tol=1e-4, detail=dict(fn=fn.__name__, occ=occ))
                ctx.count(states=3, traces=3, transitions=1)
        ctx.sample(dict(ydeg=yd, udeg=ud))
    elif "history" in name:
        near = "near" in task
        ops = NEAR if near else OPS

        def call(op, cache):
            kind, a = op
            a = tuple(mp.mpf(v[1]) + mp.mpf(v[2]) if isinstance(v, tuple) else v for v in a)
            if kind == "flux":
                yd, ud, inc, obl, b, r, phi = a
                u = (0.4, 0.2)[:ud]
                return [flux.flux(yd, ud, inc, obl, cache=cache)(b, r, y=dense(yd), phi=phi, u=u)]
            if kind in ("A1", "A2"):
                return list(getattr(basis, kind)(*a, cache=cache))
            if kind == "R":
                return [x for m in rotation.get_R(a[0], a[1], obl=a[2], inc=a[3], cache=cache) for x in m]
            return list(solution.get_sT(*a, cache=cache))

        modules = (basis, rotation, solution, flux)

        def clear():
            for m in modules:
                m.CACHED_MATRICES.clear()

        fresh = {}
        for i, op in enumerate(ops):
            clear()
            fresh[i] = call(op, empty())
        for i in range(len(ops) if near else 0):
            for j in range(i):
                if ops[i][0] == ops[j][0] and (ops[i][0] != "R" or ops[i][1][0] == ops[j][1][0]):
                    ctx.check(fresh[i] != fresh[j], "near-differ", calls=[ops[i], ops[j]])
        depth = 2 if near else 3
        first = task.get("k", 0)
        # breadth first over what the cache holds: two histories with the same set of calls whose
        # re-observation agreed are merged
        for own in (True, False):
            frontier = [(i,) for i in range(len(ops))] if near else [(first,)]
            seen = set()
            last = depth if own or ctx.tier == "thorough" else depth - 1
            for d in range(1, last + 1):
                nxt = []
                for h in frontier:
                    clear()
                    cache = empty() if own else None
                    for i in h:
                        got = call(ops[i], cache)
                        ctx.count(transitions=1)
                    # the last call, then every call once more on the same cache
                    for i in (h[-1], *sorted(set(h))):
                        got = call(ops[i], cache)
                        ok = len(got) == len(fresh[i]) and all(a == b for a, b in zip(got, fresh[i]))
                        ctx.check(ok, "history", own=own, history=[ops[q] for q in h], then=ops[i])
                    key = (h[-1], frozenset(h))
                    ctx.count(traces=1)
                    if key in seen:
                        continue
                    seen.add(key)
                    ctx.count(states=1, nontrivial=1)
                    if d < last:
                        nxt += [(*h, j) for j in range(len(ops))]
                frontier = nxt
        clear()
        ctx.sample([ops[first], ops[(first + 3) % len(ops)]])
    elif name == "utils":
        for shape in ((1, 1), (3, 1), (1, 3), (2, 3), (3, 3)):
            M = np.arange(np.prod(shape), dtype=float).reshape(shape) / 7 - 0.4
            m = utils.to_mp(M)
            want = M.T[0] if shape[1] == 1 else M
            back = utils.to_numpy(m)
            ctx.check(back.shape == want.shape and (back == want).all(), "round-trip", shape=shape)
            for a, b in itertools.product((M, m), repeat=2):
                dd = np.asarray(utils.diff_mp(a, b), float)
                ctx.check((dd == 0).all(), "diff", shape=shape)
            e = m.copy()
            e[0, 0] += mp.mpf(10) ** -25
            dd = np.asarray(utils.diff_mp(e, M), float).ravel()
            ctx.check(abs(dd[0] - 1e-25) < 1e-27 and (dd[1:] == 0).all(), "diff-below-double", shape=shape, got=dd.tolist())
            dd = np.asarray(utils.diff_mp(M, e), float).ravel()
            ctx.check(abs(dd[0] + 1e-25) < 1e-27, "diff-below-double", shape=shape, got=dd.tolist())
            ctx.count(states=M.size, traces=6)
        for k in range(25):
            import math

            ctx.check(abs(float(utils.fac(k) / math.factorial(k)) - 1) < 1e-15, "factorial", k=k)
            ctx.check(abs(float(basis.fac(k + 0.5) / mp.gamma(k + 1.5)) - 1) < 1e-15, "factorial-half", k=k)
        ctx.check(utils.fac(-1) == mp.inf, "factorial-pole")
        for a, b in itertools.product(range(-2, 3), repeat=2):
            ctx.check(utils.kron_delta(a, b) == int(a == b), "kron", a=a, b=b)
        ctx.sample(dict(shape=(2, 3)))
    else:
        from jaxoplanet.core.limb_dark import light_curve
        from jaxoplanet.starry import Surface, Ylm
        from jaxoplanet.starry.light_curves import surface_light_curve
        from jaxoplanet.starry.multiprecision import precision
        from props.C26 import reference

        r = task["r"]
        for b, order in itertools.product((None, 0.4, 1.3), (5, 20, 300)):
            if (b == 0.4 and r == 2.0) or (ctx.tier == "quick" and (order == 300) != (b is None)):
                continue
            bb = b if b is not None else (1 - r if r < 1 else r)
            for yd, ud in ((1, 0), (1, 2), (2, 1)):
                y = np.ones((yd + 1) ** 2)
                s = Surface(y=Ylm.from_dense(y), u=[1.0] * ud, normalize=False)
                got = precision.starry_light_curve(yd, ud, r, order, b)
                want = abs(float(surface_light_curve(s, y=bb, z=1.0, r=r, order=order)) - reference(y, (1.0,) * ud, np.pi / 2, 0.0, 0.0, (0.0, bb, r, 1.0)))
                ctx.close(got, want, "precision", tol=3e-9, detail=dict(ydeg=yd, udeg=ud, r=r, b=bb, order=order))
                ctx.count(states=1, traces=1, transitions=1)
            for ud in (1, 2, 4):
                got = float(precision.limb_dark_light_curve(ud, r, order, b))
                ref = reference(np.ones(1), (1.0,) * ud, np.pi / 2, 0.0, 0.0, (0.0, bb, r, 1.0))
                want = abs(1 + float(light_curve(np.ones(ud), bb, r, order=order)) - ref)
                ctx.close(got, want, "ld-precision", tol=3e-9, detail=dict(udeg=ud, r=r, b=bb, order=order))
                ctx.count(states=1, traces=1, transitions=1)
        ctx.sample(dict(r=r, b=bb))
