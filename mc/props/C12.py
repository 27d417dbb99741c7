"""Transit-timing orbits."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "every offset pattern over {-.31,-.05,0,.12,.4} for 1-5 listed transits x every label "
    "pattern with gaps up to 2 x {times | offsets} x probe times (contacts, centres, between "
    "transits, before and after the window); every ordered choice of up to 3 planets of "
    "different lengths x shared/per-planet parameters x units; a state is one probe"
)
ASSUME = ["listed times are increasing", "at least two transits when only times are given (the fit needs two)",
          "probe times exactly half way between listed transits or at half a period are excluded (tie)"]

OFF = [-0.31, -0.05, 0.0, 0.12, 0.4]


def tasks(tier):
    nmax = 4 if tier == "quick" else 6
    t = [dict(name=f"patterns-{m}-{n}", n=n, mode=m, cost=n) for n in range(1, nmax + 1) for m in ("times", "ttvs") if not (m == "times" and n == 1)]
    t += [dict(name=f"planets-{m}-{i}", mode=m, part=i, of=of, cost=6) for m, of in (("times", 2), ("ttvs", 4)) for i in range(of)]
    t += [ dict(name="roundtrip"), dict(name="dlp"), dict(name="refuse"),
          dict(name="lightcurve"), dict(name="f32", x64=False)]
    return t


def fit(tt, ind):
    A = np.vander(np.asarray(ind, float), 2, increasing=True)
    c, *_ = np.linalg.lstsq(A, tt, rcond=None)
    return c[0], c[1], tt - A @ c


def fold(t, tt, P, t0):
    """signed time from the nearest transit of the warped orbit"""
    k = np.abs(t[..., :, None] - tt[..., None, :]).argmin(-1)
    near = np.take_along_axis(tt, k, -1)
    w = t - near
    q = w / P
    dt = w - P * np.rint(q)
    d = np.sort(np.abs(t[..., :, None] - tt[..., None, :]), -1)
    tie = np.zeros(t.shape, bool)
    if tt.shape[-1] > 1:
        tie = d[..., 1] - d[..., 0] < 1e-7
    return dt, tie | (np.abs(np.abs(q - np.rint(q)) - 0.5) < 1e-7)


def labels(n):
    for g in itertools.product((1, 2, 3), repeat=n - 1):
        yield np.concatenate([[0], np.cumsum(g)]).astype(int)


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag, raises
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.units import unit_registry as ureg
    from oracles import ld_flux

    name = task["name"]
    f32 = not task["x64"]
    b, r, D = 0.3, 0.1, 0.22
    chord = np.sqrt((1 + r) ** 2 - b**2)

    def probes(tt, P):
        c = np.array([0.0, -0.5 + 1e-4, -0.5 - 1e-4, 0.5 - 1e-4, 0.5 + 1e-4, 0.3, -0.9]) * D
        pr = [(tt[:, :, None] + c).reshape(len(tt), -1)]
        if tt.shape[1] > 1:
            for f in (0.2, 0.4, 0.49, 0.51, 0.6, 0.9):
                pr.append(tt[:, :-1] * (1 - f) + tt[:, 1:] * f)
        Pc = np.broadcast_to(P, (len(tt),))[:, None]
        pr.append(tt[:, :1] - Pc * np.array([0.3, 0.47, 0.53, 1.0, 1.02, 5.98]))
        pr.append(tt[:, -1:] + Pc * np.array([0.3, 0.47, 0.53, 1.0, 1.02, 5.98]))
        return np.concatenate(pr, 1)

    if name.startswith("patterns") or f32:
        n, mode = task.get("n", 3), task.get("mode", "times")
        P0, t00 = 3.0, -1.7
        offs = np.array(list(itertools.product(OFF, repeat=n)))
        for inds in labels(n):
            inds = inds + {1: 0, 2: 4, 3: -7}.get(n, 0)
            if mode == "times":
                tt = t00 + P0 * inds + offs
                F = [fit(x, inds) for x in tt]
                t0, P, ttv = (np.array(x) for x in zip(*F))
            else:
                ttv = offs - offs.mean(1, keepdims=True)
                t0, P = np.full(len(offs), t00), np.full(len(offs), P0)
                tt = t00 + P0 * inds + ttv
            t = probes(tt, P)

            def f(o_in, t):
                if mode == "times":
                    o = TTVOrbit(duration=D, impact_param=b, radius_ratio=r, transit_times=[o_in], transit_inds=[jnp.asarray(inds)])
                else:
                    o = TTVOrbit(period=P0, time_transit=t00, duration=D, impact_param=b, radius_ratio=r, ttvs=[o_in], transit_inds=[jnp.asarray(inds)])
                X = jax.vmap(lambda s: [mag(q) if False else q.magnitude for q in o.relative_position(s)])(t)
                return X + [o.t0, o.ttv_period, o.ttvs[0], o.transit_times[0], o.linear_t0, o.linear_period, o.period.to("day").magnitude]

            g = [np.asarray(q) for q in jax.jit(jax.vmap(f))(tt if mode == "times" else offs, t)]
            dt, tie = fold(t, tt, P[:, None], t0[:, None])
            v = 2 * chord / D
            x = v * dt
            tol = 1e-9 if not f32 else 2e-3
            if f32:
                tie |= np.abs(np.abs(dt) - D / 2) < 1.2e-4
                tie |= np.abs(np.abs(dt) - P[:, None] / 2) < 1e-3
                tie |= np.abs(np.sort(np.abs(t[..., None] - tt[:, None, :]), -1)[..., :2] @ [-1, 1]) < 1e-3
            tie |= np.abs(np.abs(dt) - D / 2) < 1e-9
            z = np.where(np.abs(dt) < D / 2, 1.0, -1.0)
            lab = dict(t=t, dt=dt, inds0=inds[0])
            ctx.close(np.where(tie, 0, g[0].reshape(x.shape)), np.where(tie, 0, x), "x", tol=tol, labels=lab, detail=dict(inds=inds.tolist()))
            ctx.close(g[1].reshape(x.shape), 0 * x + b, "y", tol=1e-6 if f32 else 1e-12)
            ctx.close(np.where(tie, 0, np.sign(g[2]).reshape(x.shape)), np.where(tie, 0, z), "z", tol=0, labels=lab, detail=dict(inds=inds.tolist()))
            e = 1e-10 if not f32 else 1e-3
            ctx.close(g[3][:, 0], t0, "t0", tol=e)
            ctx.close(g[4][:, 0], P, "ttv_period", tol=e)
            ctx.close(g[5], ttv, "ttvs", tol=e)
            ctx.close(g[6], tt, "transit_times", tol=e)
            ctx.close(g[3] + g[4] * inds + g[5], g[6], "identity", tol=e)
            ctx.close(g[7], g[3], "linear_t0", tol=0)
            ctx.close(g[8], g[4], "linear_period", tol=0)
            ctx.close(g[9].reshape(P.shape), P, "period", tol=e)
            ctx.count(states=t.size, traces=len(offs), transitions=len(offs) * n)
        ctx.sample(dict(inds=inds.tolist(), offsets=offs[-1].tolist(), mode=mode))
    elif name.startswith("planets"):
        mode = task["mode"]
        pool = [
            dict(P=3.0, t0=0.5, ttv=[0.1, -0.1, 0.02, -0.02], ind=[0, 1, 2, 3], D=0.2, b=0.2, r=0.1),
            dict(P=7.7, t0=-2.0, ttv=[0.3, -0.3], ind=[-1, 2], D=0.4, b=-0.5, r=0.05),
            dict(P=5.1, t0=1.0, ttv=[-0.2, 0.1, 0.1], ind=[1, 2, 5], D=0.1, b=0.0, r=0.3),
        ]
        ncfg, tier = 0, ctx.tier
        for k in (1, 2, 3):
            for pl in itertools.permutations(pool, k):
                for share in itertools.product((0, 1), repeat=3 if mode == "times" else 5):
                    if k == 1 and any(share):
                        continue
                    # every sharing pattern for two orders per size, the two extremes for the rest
                    if tier == "quick" and pl[0] is not pool[0] and 0 < sum(share) < len(share):
                        continue
                    if task["part"] != (ncfg := ncfg + 1) % task["of"]:
                        continue
                    quant = (sum(share) + k) % 2
                    g = lambda n: [p[n] for p in pl]
                    Ds, bs, rs = ([g(n)[0]] * k if s else g(n) for n, s in zip("Dbr", share))
                    kw = dict(duration=g("D")[0] if share[0] else np.array(g("D")),
                              impact_param=g("b")[0] if share[1] else np.array(g("b")),
                              radius_ratio=g("r")[0] if share[2] else np.array(g("r")))
                    Ps, ts = g("P"), g("t0")
                    if mode == "ttvs":
                        if share[3]:
                            Ps = [Ps[0]] * k
                        if share[4]:
                            ts = [ts[0]] * k
                        kw["period"] = Ps[0] if share[3] else np.array(Ps)
                        kw["time_transit"] = ts[0] if share[4] else np.array(ts)
                    inds = [np.array(p["ind"]) for p in pl]
                    tv = [np.array(p["ttv"]) for p in pl]
                    tt = [a + q * i + d for a, q, i, d in zip(ts, Ps, inds, tv)]
                    if mode == "times":
                        fits = [fit(x, i) for x, i in zip(tt, inds)]
                        ts, Ps, tv = zip(*fits)
                        lst, key = tt, "transit_times"
                    else:
                        lst, key = tv, "ttvs"
                    h = (lambda v: ureg.Quantity(np.asarray(v) * 24.0, "hour")) if quant else (lambda v: v)
                    for n in ("duration", "period", "time_transit"):
                        if n in kw:
                            kw[n] = h(kw[n])
                    kw[key] = tuple(h(v) for v in lst) if quant else list(lst)
                    o = TTVOrbit(transit_inds=tuple(jnp.asarray(i) for i in inds), **kw)
                    ctx.check(o.shape == ((k,) if (k > 1) else o.shape), "planets:shape", k=k, shape=o.shape)
                    for j in range(k):
                        ctx.close(o.ttvs[j], tv[j], "planets:ttvs", tol=1e-10)
                        ctx.close(o.transit_times[j], tt[j], "planets:times", tol=1e-10)
                    ctx.close(o.linear_t0, ts, "planets:t0", tol=1e-10)
                    ctx.close(o.linear_period, Ps, "planets:period", tol=1e-10)
                    T = np.concatenate([x + s for x in tt for s in (0, 0.03, -0.12)] + [[-30.1, 55.3]])
                    X = jax.vmap(lambda s: [q.magnitude for q in o.relative_position(s)])(T)
                    X = [np.asarray(q).reshape(T.size, k) for q in X]
                    for j in range(k):
                        dt, tie = fold(T[None], tt[j][None], Ps[j], ts[j])
                        dt, tie = dt[0], tie[0]
                        tie |= np.abs(np.abs(dt) - Ds[j] / 2) < 1e-9
                        v = 2 * np.sqrt((1 + rs[j]) ** 2 - bs[j] ** 2) / Ds[j]
                        det = dict(planet=j, k=k, share=share, mode=mode, order=[p["P"] for p in pl])
                        ctx.close(np.where(tie, 0, X[0][:, j]), np.where(tie, 0, v * dt), "planets:x", tol=1e-8, labels=dict(t=T), detail=det)
                        ctx.close(X[1][:, j], 0 * T + bs[j], "planets:y", tol=1e-12, detail=det)
                        ctx.close(np.where(tie, 0, np.sign(X[2][:, j])), np.where(tie, 0, np.where(np.abs(dt) < Ds[j] / 2, 1, -1)), "planets:z", tol=0, labels=dict(t=T), detail=det)
                    # eager scalar call, bare and with units
                    for tq, tv_ in ((float(T[0]), T[0]), (T[1] * 24 * ureg.hour, T[1])):
                        E = o.relative_position(tq)
                        i = int(np.argmin(abs(T - tv_)))
                        ctx.close(mag(E[0], "").reshape(k), X[0][i], "planets:eager", tol=1e-9)
                    ctx.count(states=T.size * k, traces=1, transitions=k)
        ctx.sample("three planets of 4, 2 and 3 transits, shared epoch")
    elif name == "roundtrip":
        for offs in itertools.product(OFF, repeat=3):
            for g in ((1, 1), (1, 3)):
                inds = np.array([2, 2 + g[0], 2 + g[0] + g[1]])
                tt = 0.7 + 2.5 * inds + np.array(offs) * 0.5
                A = TTVOrbit(duration=D, impact_param=b, radius_ratio=r, transit_times=(tt,), transit_inds=(jnp.asarray(inds),))
                B = TTVOrbit(period=A.ttv_period, time_transit=A.t0, duration=D, impact_param=b, radius_ratio=r, ttvs=A.ttvs, transit_inds=A.transit_inds)
                C = TTVOrbit(duration=D, impact_param=b, radius_ratio=r, transit_times=B.transit_times, transit_inds=B.transit_inds)
                for o, n in ((B, "ttvs"), (C, "times")):
                    ctx.close(o.transit_times[0], tt, f"roundtrip:{n}:times", tol=1e-11)
                    ctx.close(o.ttvs[0], A.ttvs[0], f"roundtrip:{n}:ttvs", tol=1e-11)
                    ctx.close(o.linear_t0, A.linear_t0, f"roundtrip:{n}:t0", tol=1e-11)
                    ctx.close(o.linear_period, A.linear_period, f"roundtrip:{n}:period", tol=1e-11)
                    for t in (tt[0] + 0.01, tt[1], tt[2] - 0.2):
                        for qa, qo in zip(A.relative_position(t), o.relative_position(t)):
                            ctx.close(mag(qo, "").reshape(-1), mag(qa, "").reshape(-1), f"roundtrip:{n}:pos", tol=1e-9)
                ctx.count(states=6, traces=3, transitions=2)
        # default labels are 0..n-1
        for mode in ("ttvs", "times"):
            d = np.array([0.1, -0.05, -0.05])
            kw = dict(duration=D, radius_ratio=r)
            i = jnp.arange(3)
            if mode == "ttvs":
                kw.update(period=2.0, ttvs=(d,))
            else:
                kw.update(transit_times=(1.0 + 2.0 * np.arange(3) + d,))
            a, c = TTVOrbit(**kw), TTVOrbit(transit_inds=(i,), **kw)
            ctx.close(a.linear_t0, c.linear_t0, "default-labels", tol=1e-12)
            ctx.close(a.linear_period, c.linear_period, "default-labels", tol=1e-12)
            ctx.close(a.transit_times[0], c.transit_times[0], "default-labels", tol=1e-12)
            ctx.close(mag(a.relative_position(2.9)[0], ""), mag(c.relative_position(2.9)[0], ""), "default-labels", tol=1e-12)
            ctx.count(states=1, traces=1)
        ctx.sample("times -> offsets -> times")
    elif name == "dlp":
        tt = 1.0 + 3.0 * np.arange(4) + np.array([0.1, -0.1, 0.05, 0.0])
        t0, P, ttv = fit(tt, np.arange(4))
        for dlp in (None, 0.0, 1e-3, -0.02):
            for per in (None, 2.9):
                for how in ("duration", "speed"):
                    kw = dict(duration=D) if how == "duration" else dict(speed=2 * chord / D)
                    o = TTVOrbit(period=per, impact_param=b, radius_ratio=r, transit_times=(tt,), delta_log_period=dlp, **kw)
                    Pw = per if per else P * np.exp(dlp or 0.0)
                    ctx.close(mag(o.period, "day").reshape(()), Pw, "dlp:period", tol=1e-10, detail=dict(dlp=dlp, per=per))
                    ctx.close(o.linear_period, [P], "dlp:ttv_period", tol=1e-10)
                    T = np.concatenate([tt, tt + 0.1, tt - 0.4, [tt[0] - 2 * Pw, tt[-1] + Pw]])
                    X = [np.asarray(q).reshape(-1) for q in jax.vmap(lambda s: [q.magnitude for q in o.relative_position(s)])(T)]
                    dt, tie = fold(T[None], tt[None], Pw, t0)
                    dt = dt[0]
                    ctx.close(X[0], 2 * chord / D * dt, "dlp:x", tol=1e-8, detail=dict(dlp=dlp, per=per))
                    ctx.close(np.sign(X[2]), np.where(np.abs(dt) < D / 2, 1, -1), "dlp:z", tol=0)
                    ctx.count(states=T.size, traces=1)
        ctx.sample("delta_log_period=-0.02")
    elif name == "refuse":
        tv = (np.array([0.1, -0.1]),)
        for kw, exc in ((dict(), 1), (dict(ttvs=tv, transit_times=tv), 1), (dict(ttvs=tv, transit_times=tv, period=1.0), 1),
                        (dict(ttvs=tv), 1), (dict(ttvs=tv, time_transit=0.0), 1), (dict(period=1.0), 1), (dict(period=1.0, time_transit=1.0), 1),
                        (dict(ttvs=tv, period=1.0), 0), (dict(transit_times=tv), 0)):
            e = raises(TTVOrbit, duration=0.1, **kw)
            ctx.check(isinstance(e, ValueError) if exc else e is None, "refuse", kw=sorted(kw), got=repr(e))
            e = raises(TTVOrbit, **kw)
            ctx.check(isinstance(e, ValueError), "refuse:no-duration", kw=sorted(kw), got=repr(e))
            ctx.count(states=2, traces=2)
        e = raises(TTVOrbit, duration=0.1, period=1.0, ttvs=(ureg.Quantity(np.array([0.1, -0.1]), "m"),))
        ctx.check(e is not None, "refuse:dimension")
        ctx.sample("ttvs without period")
    else:
        for tset in ([[1.0, 4.1, 6.9]], [[1.0, 4.1, 6.9], [2.0, 9.0]]):
            k = len(tset)
            o = TTVOrbit(duration=np.full(k, 0.3) if k > 1 else 0.3, impact_param=np.full(k, 0.2) if k > 1 else 0.2,
                         radius_ratio=np.array([0.1, 0.2][:k]) if k > 1 else 0.1, transit_times=[np.array(x) for x in tset])
            t = np.linspace(0.2, 9.6, 943)
            F = np.asarray(limb_dark_light_curve(o, 0.3, 0.1)(t))
            ctx.check(F.shape in ((943, k), (943,)) if k == 1 else F.shape == (943, k), "lightcurve:shape", got=F.shape)
            F = F.reshape(943, k)
            for j in range(k):
                rr = [0.1, 0.2][j]
                tt = np.array(tset[j])
                t0, P, _ = fit(tt, np.arange(len(tt)))
                dt, tie = fold(t[None], tt[None], P, t0)
                dt = dt[0]
                v = 2 * np.sqrt((1 + rr) ** 2 - 0.04) / 0.3
                want = np.where(np.abs(dt) < 0.15, ld_flux([0.3, 0.1], np.hypot(v * dt, 0.2), rr + 0 * t), 0)
                ok = ~(tie[0] | (np.abs(np.abs(dt) - 0.15) < 1e-9))
                ctx.close(F[ok, j], want[ok], "lightcurve", tol=5e-6, labels=dict(t=t[ok]))
            ctx.count(states=t.size * k, traces=k)
        ctx.sample("two planets")
