"""Unit handling at function boundaries."""

import inspect
import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "every signature of 1-3 parameters over {positional, keyword-only} x {required, default "
    "None, default bare, default quantity} x {declared unit object, unit string, undeclared}, "
    "with and without *args/**kwargs, called in every form python accepts (each argument by "
    "position, by keyword or omitted) with every combination of value kinds (bare scalar, "
    "array, exact unit, compatible unit, incompatible unit, None); non-trivial = accepted call"
)
ASSUME = ["argument binding is python's own (inspect.signature of the undecorated function)"]

FACT = {"m": 1.0, "km": 1e3, "cm": 1e-2}


def tasks(tier):
    t = [dict(name="sig1"), dict(name="strict"), dict(name="class"), dict(name="field"), dict(name="tree"), dict(name="misc")]
    n = 8 if tier == "quick" else 16
    t += [dict(name=f"sig2-{i}", n=2, part=i, of=n, cost=3) for i in range(n)]
    t += [dict(name=f"sig3-{i}", n=3, part=i, of=n, cost=4) for i in range(n)]
    return t


NODEF = object()


def run(task, ctx):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from framework import is_quantity, mag, raises
    from pint import DimensionalityError
    from jaxoplanet.units import field, quantity_input
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]
    U = {"m": ureg.m, "km": ureg.km, "s": ureg.s, "cm": ureg.cm}
    arr = np.array([1.0, -2.0, 3.5])

    # value kinds: name -> (maker, magnitude in metres or None, bare?)
    def value(kind):
        return {
            "bare": 2.5, "int": 3, "array": arr, "exact": 2.5 * ureg.m, "conv": ureg.Quantity(arr, "km"),
            "bad": 1.0 * ureg.s, "none": None, "jnp": jnp.asarray(1.5),
        }[kind]

    def expect(v, unit):
        """('ok', magnitude) or ('error',) for a declared argument"""
        if v is None:
            return ("error",)
        if is_quantity(v):
            if v.units == ureg.s:
                return ("error",)
            f = {ureg.m: 1.0, ureg.km: 1e3, ureg.cm: 1e-2}[v.units]
            return ("ok", np.asarray(v.magnitude) * f / FACT[unit])
        return ("ok", np.asarray(v, float))

    def build(params, var):
        """params: list of (kind, default, unit)"""
        env = {}
        pos = [(i, p) for i, p in enumerate(params) if p[0] == "pos"]
        kwo = [(i, p) for i, p in enumerate(params) if p[0] == "kwo"]

        def txt(i, p):
            if p[1] is NODEF:
                return f"p{i}"
            env[f"d{i}"] = p[1]
            return f"p{i}=d{i}"

        parts = [txt(i, p) for i, p in pos]
        if var:
            parts.append("*rest")
        elif kwo:
            parts.append("*")
        parts += [txt(i, p) for i, p in kwo]
        if var:
            parts.append("**more")
        names = [f"p{i}" for i in range(len(params))]
        body = "{" + ", ".join(f"'{n}': {n}" for n in names) + (", 'rest': rest, 'more': more" if var else "") + "}"
        src = f"def f({', '.join(parts)}):\n    'doc'\n    return {body}"
        exec(src, env)
        return env["f"], src

    def explore(params, var, values, style):
        f, src = build(params, var)
        units = {f"p{i}": (U[p[2]] if style == "obj" else p[2]) for i, p in enumerate(params) if p[2] is not None}
        g = quantity_input(**units)(f) if style != "call" else quantity_input(f, **units)
        ctx.check(g.__name__ == "f" and g.__doc__ == "doc" and g.__wrapped__ is f, "wraps")
        sig = inspect.signature(f)
        forms = [("omit", "kw") + (("pos",) if p[0] == "pos" else ()) for p in params]
        for form in itertools.product(*forms):
            args, slots, okform = [], [], True
            gap = False
            for i, (p, h) in enumerate(zip(params, form)):
                if p[0] == "pos":
                    if h == "pos":
                        if gap:
                            okform = False
                            break
                        args.append(i)
                    else:
                        gap = True
            if not okform:
                continue
            given = [i for i, h in enumerate(form) if h != "omit"]
            missing = [i for i, (p, h) in enumerate(zip(params, form)) if h == "omit" and p[1] is NODEF]
            for vs in itertools.product(values, repeat=len(given)):
                vals = {i: value(k) for i, k in zip(given, vs)}
                a = [vals[i] for i in args]
                k = {f"p{i}": vals[i] for i in given if form[i] == "kw"}
                extra = object()
                if var:
                    k["zz"] = extra
                    if len(args) == sum(p[0] == "pos" for p in params):
                        a = a + [extra]
                det = dict(src=src, form=form, values=vs, units=str(units), style=style)
                ctx.count(states=1, traces=1, nontrivial=not missing)
                try:
                    out = g(*a, **k)
                    err = None
                except Exception as e:
                    out, err = None, e
                if missing:
                    ctx.check(isinstance(err, TypeError), "missing-argument", err=repr(err), **det)
                    break
                b = sig.bind(*a, **k)
                b.apply_defaults()
                bad, want = False, {}
                for i, p in enumerate(params):
                    v = b.arguments[f"p{i}"]
                    if p[2] is None or (v is None and p[1] is None):
                        want[i] = ("same", v)
                        continue
                    w = expect(v, p[2])
                    if w[0] == "error":
                        bad = True
                    want[i] = w
                if bad:
                    ctx.check(err is not None, "accepted-bad", **det)
                    has_s = any(v is not None and is_quantity(v) for v in vals.values())
                    if "none" not in vs and has_s:
                        ctx.check(isinstance(err, DimensionalityError), "error-type", err=repr(err), **det)
                    continue
                if err is not None:
                    ctx.violation("rejected-good", err=repr(err), **det)
                    continue
                for i, w in want.items():
                    got = out[f"p{i}"]
                    if w[0] == "same":
                        ctx.check(got is w[1], "passthrough", param=i, **det)
                    else:
                        good = is_quantity(got) and got.units == U[params[i][2]]
                        ctx.check(good, "units", param=i, got=repr(got), **det)
                        if good:
                            m = np.asarray(got.magnitude)
                            ctx.check(m.shape == w[1].shape and np.allclose(m, w[1], rtol=1e-13, atol=0), "value", param=i, got=m.tolist(), want=w[1].tolist(), **det)
                if var:
                    ctx.check(out["more"] == {"zz": extra}, "varkw", **det)
                    ctx.check(out["rest"] == ((extra,) if any(q is extra for q in a) else ()), "varargs", **det)

    defaults = [NODEF, None, 4.0]
    if name == "sig1":
        for kind, d, u, var, style in itertools.product(("pos", "kwo"), defaults + [3.0 * ureg.km, 2.0 * ureg.s], ("m", "km", None), (False, True), ("obj", "str", "call")):
            if is_quantity(d) and d.units == ureg.s and u is not None:
                # an inconsistent default is refused when it is used
                f, _ = build([(kind, d, u)], var)
                ctx.check(isinstance(raises(quantity_input(p0=U[u])(f)), DimensionalityError), "bad-default")
                continue
            explore([(kind, d, u)], var, ["bare", "int", "array", "jnp", "exact", "conv", "bad", "none"], style)
        ctx.sample("f(*, p0=3 km) declared in metres")
    elif name.startswith("sig"):
        n = task["n"]
        if n == 2:
            descs = list(itertools.product(("pos", "kwo"), defaults, ("m", "km", None)))
            values = ["bare", "array", "exact", "conv", "bad", "none"]
        else:
            descs = list(itertools.product(("pos", "kwo"), [NODEF, None] if ctx.tier == "quick" else defaults, ("m", None)))
            values = ["bare", "conv", "none"]
        k = 0
        for params in itertools.product(descs, repeat=n):
            # python refuses a required positional after a default one
            ps = [p for p in params if p[0] == "pos"]
            if any(a[1] is not NODEF and b[1] is NODEF for a, b in zip(ps, ps[1:])):
                continue
            # keyword-only parameters come last
            if any(a[0] == "kwo" and b[0] == "pos" for a, b in zip(params, params[1:])):
                continue
            k += 1
            if k % task["of"] != task["part"]:
                continue
            explore(list(params), bool(k % 2), values, "obj" if k % 3 else "str")
        ctx.sample("f(p0, p1=None, *rest, p2, **more)")
    elif name == "strict":
        for kind, d, u in itertools.product(("pos", "kwo"), [NODEF, None, 4.0, 3.0 * ureg.km], ("m", None)):
            f, src = build([(kind, d, u)], False)
            g = quantity_input(_strict=True, **({"p0": U[u]} if u else {}))(f)
            call = (lambda v: g(v)) if kind == "pos" else (lambda v: g(p0=v))
            for vk in ("bare", "int", "array", "jnp", "exact", "conv", "bad", "none"):
                v = value(vk)
                e = raises(call, v)
                if u is None or (v is None and d is None):
                    ctx.check(e is None, "strict:passthrough", src=src, v=vk)
                elif vk in ("bare", "int", "array", "jnp"):
                    ctx.check(isinstance(e, ValueError), "strict:bare", src=src, v=vk, e=repr(e))
                elif vk in ("bad", "none"):
                    ctx.check(e is not None, "strict:bad", src=src, v=vk)
                else:
                    ctx.check(e is None and call(v)["p0"].units == ureg.m, "strict:quantity", src=src, v=vk)
                ctx.count(states=1, traces=1)
            e = raises(g)
            want = TypeError if d is NODEF else (ValueError if (u and not is_quantity(d) and d is not None) else None)
            ctx.check((e is None) if want is None else isinstance(e, want), "strict:default", src=src, e=repr(e))
        ctx.sample("strict with bare default")
    elif name == "tree":
        spec = {"x": ureg.m, "sub": {"t": ureg.s, "flag": None}, "lst": [ureg.km, None]}

        @quantity_input(p=spec, q=(ureg.m, ureg.s))
        def f(p, q=None):
            return p, q

        for vx, vt, vl in itertools.product((2.0, 2.0 * ureg.m, 2.0 * ureg.km), (1.0, 1.0 * ureg.s, ureg.Quantity(2.0, "minute")), (3.0, 3.0 * ureg.km, 3.0 * ureg.m)):
            flag = object()
            p, q = f({"x": vx, "sub": {"t": vt, "flag": flag}, "lst": [vl, 7.0]})
            fx = 1.0 if not is_quantity(vx) or vx.units == ureg.m else 1e3
            ft = 1.0 if not is_quantity(vt) or vt.units == ureg.s else 60.0
            fl = 1.0 if not is_quantity(vl) or vl.units == ureg.km else 1e-3
            ctx.check(p["x"].units == ureg.m and np.isclose(p["x"].magnitude, 2.0 * fx), "tree:x")
            ctx.check(p["sub"]["t"].units == ureg.s and np.isclose(p["sub"]["t"].magnitude, (vt.magnitude if is_quantity(vt) else vt) * ft), "tree:t")
            ctx.check(p["lst"][0].units == ureg.km and np.isclose(p["lst"][0].magnitude, 3.0 * fl), "tree:list")
            ctx.check(p["sub"]["flag"] is flag and p["lst"][1] == 7.0 and q is None, "tree:skip")
            ctx.count(states=1, traces=1)
        p, q = f({"x": 1.0, "sub": {"t": 1.0, "flag": None}, "lst": [1.0, None]}, (1.0 * ureg.km, 2.0))
        ctx.check(np.isclose(q[0].magnitude, 1000) and q[1].units == ureg.s, "tree:tuple")
        for bad in ({"x": 1.0}, {"x": 1.0, "sub": {"t": 1.0}, "lst": [1.0, 2.0]}, {"x": 1.0 * ureg.s, "sub": {"t": 1.0, "flag": 0}, "lst": [1.0, 2.0]}):
            ctx.check(raises(f, bad) is not None, "tree:mismatch", bad=str(bad))
        ctx.sample("nested dict and list of units")
    elif name == "class":
        # decorated methods, classes and equinox modules
        class A:
            @quantity_input(x=ureg.m, t=ureg.s)
            def go(self, x, t=2.0, flag=None):
                return self, x, t, flag

            @staticmethod
            @quantity_input(x=ureg.m)
            def st(x):
                return x

            @classmethod
            @quantity_input(x=ureg.m)
            def cl(cls, x):
                return cls, x

        @quantity_input(x="m", y="s")
        class M(eqx.Module):
            x: object
            y: object
            z: object

            def __init__(self, x, y=None, *, z=3.0):
                self.x, self.y, self.z = x, y, z

        class N(eqx.Module):
            x: object
            y: object

            @quantity_input(x="m", y="s")
            def __init__(self, x, y=None):
                self.x, self.y = x, y

        for vk in ("bare", "array", "exact", "conv", "jnp"):
            v = value(vk)
            want = expect(v, "m")[1]
            a = A()
            s, x, t, flag = a.go(v)
            ctx.check(s is a and np.allclose(mag(x, "m"), want) and x.units == ureg.m and t.units == ureg.s and t.magnitude == 2.0 and flag is None, "class:method", v=vk)
            s, x, t, flag = a.go(t=ureg.Quantity(1.0, "hour"), flag=5, x=v)
            ctx.check(np.isclose(t.magnitude, 3600.0) and flag == 5 and np.allclose(mag(x, "m"), want), "class:method-kw", v=vk)
            ctx.check(np.allclose(mag(A.st(v), "m"), want) and A.cl(v)[0] is A, "class:static", v=vk)
            for C in (M, N):
                m = C(v, y=ureg.Quantity(2.0, "minute"))
                ctx.check(np.allclose(mag(m.x, "m"), want) and m.x.units == ureg.m and np.isclose(m.y.magnitude, 120.0), "class:init", v=vk)
                ctx.check(C(v).y is None, "class:none", v=vk)
                ctx.check(raises(C, 1.0 * ureg.s) is not None and raises(C) is not None, "class:refuse")
            ctx.check(M(v).z == 3.0 and M(v, z="q").z == "q", "class:undeclared")
            # under transformations
            if vk != "conv":
                got = jax.jit(lambda q: A.st(q).magnitude)(v if not is_quantity(v) else v)
                ctx.close(got, want, "class:jit", tol=1e-12)
            ctx.count(states=8, traces=8)
        ctx.sample("decorated equinox module")
    elif name == "field":
        for unit in ("m", ureg.m, ureg.km):
            uname = "km" if unit == ureg.km else "m"
            for strict in (False, True):
                for conv in (None, lambda v: v * 2):
                    for default in (NODEF, None, 5.0, 2.0 * ureg.km):
                        kw = {}
                        if conv:
                            kw["converter"] = conv
                        if default is not NODEF:
                            kw["default"] = default

                        class F(eqx.Module):
                            x: object = field(units=unit, strict=strict, **kw)

                        for vk in ("bare", "int", "array", "jnp", "exact", "conv", "bad", "none", "omit"):
                            v = (default if vk == "omit" else value(vk))
                            e = raises((lambda: F()) if vk == "omit" else (lambda: F(v)))
                            det = dict(unit=str(unit), strict=strict, conv=bool(conv), v=vk, default=str(default))
                            ctx.count(states=1, traces=1)
                            if v is NODEF:
                                ctx.check(isinstance(e, TypeError), "field:missing", **det)
                                continue
                            if v is None:
                                ctx.check(e is None and (F() if vk == "omit" else F(None)).x is None, "field:none", e=repr(e), **det)
                                continue
                            w = expect(v, uname)
                            if w[0] == "error":
                                ctx.check(isinstance(e, DimensionalityError), "field:bad", e=repr(e), **det)
                            elif strict and not is_quantity(v):
                                ctx.check(isinstance(e, ValueError), "field:strict", e=repr(e), **det)
                            elif e is not None:
                                ctx.violation("field:rejected", e=repr(e), **det)
                            else:
                                x = (F() if vk == "omit" else F(v)).x
                                good = is_quantity(x) and x.units == U[uname]
                                ctx.check(good, "field:units", got=repr(x), **det)
                                if good:
                                    ctx.check(np.allclose(x.magnitude, w[1] * (2 if conv else 1), rtol=1e-13), "field:value", **det)

        class G(eqx.Module):
            a: dict = field(units={"x": "m", "n": None})
            b: object = field()
            c: object = field(units="s", default=None)

        for x in (1.0, 1.0 * ureg.km):
            g = G({"x": x, "n": 3}, 4)
            ctx.check(np.isclose(mag(g.a["x"], "m"), 1000.0 if is_quantity(x) else 1.0) and g.a["n"] == 3 and g.b == 4 and g.c is None, "field:tree")
            h = jax.jit(lambda q: q)(g)
            ctx.check(h.a["x"].units == ureg.m, "field:jit")
            ctx.count(states=1, traces=1)
        ctx.sample("field with converter and default 2 km")
    else:
        # declarations
        def f(a, b, *args, c=None, **kwargs):
            return a, b, args, c, kwargs

        for bad in (dict(args=ureg.m), dict(kwargs=ureg.m), dict(zzz=ureg.m), dict(a=ureg.m, other="s")):
            ctx.check(isinstance(raises(lambda: quantity_input(**bad)(f)), TypeError), "misc:declare", bad=str(bad))
        ctx.check(isinstance(raises(lambda: quantity_input(lambda a: a, b=ureg.m)), TypeError), "misc:unknown")
        for nc in (1.0, "m", ureg.m, [1]):
            ctx.check(isinstance(raises(lambda: quantity_input(nc)), TypeError), "misc:not-callable", nc=str(nc))
        obj = object()
        for ret in (obj, None, 1.0, 2.0 * ureg.km, [1], ureg.Quantity(arr, "s")):
            ctx.check(quantity_input(lambda a: ret, a=ureg.m)(1.0) is ret, "misc:return")
        # the caller's values are not modified
        q = ureg.Quantity(arr.copy(), "km")
        a2 = arr.copy()
        quantity_input(lambda a, b: (a, b), a=ureg.m, b=ureg.s)(q, a2)
        ctx.check(q.units == ureg.km and np.array_equal(q.magnitude, arr) and np.array_equal(a2, arr), "misc:mutated")
        # exceptions of the function itself come through
        def boom(a):
            raise KeyError("x")
        ctx.check(isinstance(raises(quantity_input(boom, a=ureg.m), 1.0), KeyError), "misc:exception")
        # nested decoration, transformations
        inner = quantity_input(lambda x: x, x=ureg.cm)
        outer = quantity_input(lambda x: inner(x), x=ureg.km)
        ctx.close(mag(outer(2.0 * ureg.m), "cm"), 200.0, "misc:nested", tol=1e-10)
        ctx.close(mag(outer(2.0), "cm"), 2e5, "misc:nested", tol=1e-7)
        h = quantity_input(lambda x: (x.magnitude**2).sum(), x=ureg.m)
        for v in (arr, ureg.Quantity(arr, "m"), ureg.Quantity(arr / 1e3, "km")):
            ctx.close(jax.jit(h)(v), (arr**2).sum(), "misc:jit", tol=1e-10)
        ctx.close(jax.grad(h)(arr), 2 * arr, "misc:grad", tol=1e-12)
        ctx.close(jax.vmap(lambda v: h(v))(np.stack([arr, 2 * arr])), [(arr**2).sum(), 4 * (arr**2).sum()], "misc:vmap", tol=1e-12)
        # temperature-free compound units and dimensionless
        d = quantity_input(lambda x: x.magnitude, x=ureg.dimensionless)
        ctx.close(d(ureg.Quantity(1.0, "km/m")), 1000.0, "misc:dimensionless", tol=1e-10)
        r = quantity_input(lambda x: x.magnitude, x=ureg.radian)
        ctx.close(r(ureg.Quantity(180.0, "degree")), np.pi, "misc:angle", tol=1e-12)
        ctx.close(r(2.0), 2.0, "misc:angle-bare", tol=0)
        ctx.count(states=25, traces=25)
        ctx.sample("nested decorators km -> cm")
