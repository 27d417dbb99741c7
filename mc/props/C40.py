"""The comparison helpers accept exactly what agrees."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "all ordered pairs of an alphabet of values (scalars to rank 2, dtypes, offsets from none to large, zeros, NaN, integers) x "
    "units (none, equal, convertible, incompatible) x conversion x tolerances given or not, for the three helpers; all ordered "
    "pairs of trees of up to three leaves in every container; the verdict (passes or raises) against a plain numpy rule; "
    "non-trivial = pairs that agree"
)
ASSUME = ["offsets stay clear of the tolerance (by a factor of ten for the size of the array)"]
UNITS = [None, "day", "hour", "m", "km/day", ""]
OFF = [0.0, 1e-9, 1e-4, 2e-2, 1.0]


def tasks(tier):
    t = [dict(name=f"pairs-{i}-{x}", part=i, x64=bool(x), cost=10) for i in range(3) for x in (1, 0)]
    return t + [dict(name="trees", cost=10)]


def alphabet():
    for d in ("f8", "f4"):
        for o in OFF:
            yield d, np.asarray(2.0 * (1 + o), d)
        yield d, np.asarray([2.0], d)
        yield d, np.asarray(0.0, d)
        yield d, np.asarray(np.nan, d)
        for o in (0.0, 1e-4, 2e-2):
            yield d, np.asarray([1.0, -2.0, 3.0 * (1 + o)], d)
        yield d, np.asarray([[1.0, -2.0, 3.0]], d)
        yield d, np.asarray([], d)
    yield "int", 2
    yield "float", 2.0
    yield "float", 2.04


def close(a, b, x64, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    single = not x64 or "f4" in (a.dtype.str[1:], b.dtype.str[1:])
    r = rtol if rtol is not None else 5e-4 if single else 5e-7
    z = atol if atol is not None else 1e-6 if single else 1e-15
    with np.errstate(invalid="ignore"):
        return bool(((np.abs(a - b) <= z * a.size + r * b.size * np.abs(b)) | (np.isnan(a) & np.isnan(b))).all())


def run(task, ctx):
    import jax.numpy as jnp
    from jaxoplanet.test_utils import assert_allclose, assert_quantity_allclose, assert_quantity_pytree_allclose
    from jaxoplanet.units import unit_registry as ureg

    x64 = task.get("x64", True)

    def passes(fn, *a, **k):
        try:
            fn(*a, **k)
            return True
        except Exception:
            return False

    def quantity(v, u):
        return v if u is None else jnp.asarray(v) * ureg(u).units if u else jnp.asarray(v) * ureg.dimensionless

    def agree(a, u, b, w, convert, **k):
        if (u is None) != (w is None):
            return False
        if u is not None and u != w:
            if not convert or ureg(u).dimensionality != ureg(w).dimensionality:
                return False
            b = np.asarray(b, np.asarray(b).dtype) * float(ureg(w).to(ureg(u).units).magnitude)
        return close(a, b, x64, **k)

    vals = list(alphabet())
    if task["name"].startswith("pairs"):
        if not x64:
            vals = [(d, v) for d, v in vals if d != "f8"]
        n = 0
        for (da, a), (db, b) in itertools.product(vals, repeat=2):
            n += 1
            if n % 3 != task["part"]:
                continue
            for tol in (dict(), dict(rtol=1e-3), dict(rtol=1e-12), dict(atol=0.5)):
                k = dict(rtol=tol.get("rtol"), atol=tol.get("atol"))
                if "rtol" in tol and tol["rtol"] < 1e-6 and (not x64 or "f4" in (da, db)):
                    continue
                d = dict(a=str(a), b=str(b), dtypes=[da, db], tolerance=str(tol))
                want = close(a, b, x64, **k)
                got = passes(assert_allclose, a, b, **tol)
                ctx.check(got == want, "arrays", got=got, want=want, **d)
                ctx.count(states=1, traces=1, nontrivial=want)
                if tol and n % 4:
                    continue
                # the full product of units where the values agree; equal units otherwise
                pairs = itertools.product(UNITS, repeat=2) if want and not tol else [(u, u) for u in UNITS[:3]]
                for u, w in pairs:
                    for convert in (None, False, True):
                        bb = b
                        want_q = agree(a, u, b, w, convert, **k)
                        got = passes(assert_quantity_allclose, quantity(a, u), quantity(bb, w), **({} if convert is None else dict(convert=convert)), **tol)
                        ctx.check(got == want_q, "quantities", got=got, want=want_q, units=[str(u), str(w)], convert=convert, **d)
                        if convert and u == "hour" and w == "day" and np.asarray(b).dtype.kind == "f":
                            # the same physical value
                            got = passes(assert_quantity_allclose, quantity(a, u), quantity(b / b.dtype.type(24) if hasattr(b, "dtype") else b / 24, w), convert=True, **tol)
                            ctx.check(got == want, "converted", got=got, want=want, **d)
                        ctx.count(states=1, traces=1, nontrivial=want_q)
        ctx.sample(d)
    else:
        leaf = [(1.0, None), (1.1, None), (1.0, "day"), (24.0, "hour"), (np.ones(2), None), (None, None)]
        make = dict(
            bare=lambda v: v[0], tuple=tuple, list=list, dict=lambda v: dict(zip("abc", v)), other=lambda v: dict(zip("abd", v)), nested=lambda v: (v[0], dict(z=list(v[1:])))
        )
        trees = []
        for kind in make:
            for n in (1, 2, 3):
                if kind == "bare" and n > 1:
                    continue
                for ix in itertools.product(range(len(leaf)), repeat=n) if n < 3 else [(0, 2, 4), (0, 2, 0), (1, 2, 4), (0, 3, 4), (4, 2, 0), (0, 5, 4)]:
                    trees.append((kind, ix))
        built = [make[k]([quantity(*leaf[i]) if leaf[i][0] is not None else None for i in ix]) for k, ix in trees]

        def same(p, q, convert):
            (k, a), (m, b) = p, q
            if len(a) != len(b) or (k, len(a)) != (m, len(b)) and not ({k, m} == {"dict", "other"} and len(a) < 3):
                return False
            for i, j in zip(a, b):
                if (leaf[i][0] is None) != (leaf[j][0] is None):
                    return False
                if leaf[i][0] is not None and not agree(*leaf[i], *leaf[j], convert, rtol=None, atol=None):
                    return False
            return True

        for (p, x), (q, y) in itertools.product(zip(trees, built), repeat=2):
            if len(p[1]) != len(q[1]) and (p[1][0], q[1][0]) != (0, 0):
                continue
            for convert in (None, False, True) if 3 in p[1] + q[1] else (None,):
                want = same(p, q, convert)
                got = passes(assert_quantity_pytree_allclose, x, y, **({} if convert is None else dict(convert=convert)))
                ctx.check(got == want, "trees", got=got, want=want, a=str(p), b=str(q), convert=convert)
                ctx.count(states=1, traces=1, nontrivial=want)
        ctx.sample(dict(a=str(p), b=str(q)))
