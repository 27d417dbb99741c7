"""Transit orbits."""

import itertools

import numpy as np

LEVEL = "exploration"
RULE = (
    "product of periods x {duration | speed} x impact parameters (central, grazing, "
    "missing) x radius ratios (0 to > 1) x epochs x phases (contacts from either side, "
    "centre, lattice over many cycles of either sign), scalar and per-planet parameters in "
    "every broadcastable mix, bare and with units; non-trivial = inside the transit"
)
ASSUME = ["analytic chord geometry"]


def tasks(tier):
    return [dict(name="grid-duration"), dict(name="grid-speed"), dict(name="mix"), dict(name="refuse"), dict(name="lightcurve"),
            dict(name="f32", x64=False)]


def model(t, P, dur, t0, b, r):
    chord = np.sqrt(np.maximum(0, (1 + r) ** 2 - b**2))
    v = 2 * chord / dur
    dt = t - t0 - P * np.rint((t - t0) / P)
    return v, v * dt, b, np.where(np.abs(dt) < dur / 2, 1.0, -1.0), dt


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from framework import mag, raises
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg
    from oracles import ld_flux

    name = task["name"]
    f32 = not task["x64"]
    if name.startswith("grid") or f32:
        rows = np.array(list(itertools.product(
            [2.5, 7.0, 365.25], [0.05, 0.7, 2.4], [0.0, 1.3, -20.0], [0.0, 0.3, 0.95, -0.5, 1.05, 1.5, 2.5], [0.0, 0.01, 0.1, 0.5, 1.2])))
        P, D, t0, b, r = rows.T
        cyc = np.array([0.0, 1.0, -1.0, 13.0, -40.0] if not f32 else [0.0, 1.0, -1.0])
        frac = np.array([0, 0.25, 0.5 - 1e-6, 0.5 + 1e-6, -0.5 + 1e-6, -0.5 - 1e-6, -0.3, 0.49, 0.51])
        if f32:
            frac = np.array([0, 0.25, 0.499, 0.501, -0.499, -0.501, -0.3])
        far = np.array([0.2, 0.4, -0.45, 0.49, -0.3])
        t = np.concatenate([
            t0[:, None] + (P[:, None, None] * cyc[None, :, None] + D[:, None, None] * frac[None, None, :]).reshape(len(P), -1),
            t0[:, None] + (P[:, None, None] * (cyc[None, :, None] + far[None, None, :])).reshape(len(P), -1)], 1)
        v, x, y, z, dt = model(t, *(q[:, None] for q in (P, D, t0, b, r)))
        chord = (v * D[:, None] / 2)[:, 0]
        by_speed = name == "grid-speed"
        if by_speed:
            keep = chord > 0
            P, D, t0, b, r, v, x, z, dt, t, chord = (q[keep] for q in (P, D, t0, b, r, v, x, z, dt, t, chord))

        def f(P, D, t0, b, r, v, t):
            o = TransitOrbit(period=P, time_transit=t0, impact_param=b, radius_ratio=r, **(dict(speed=v) if by_speed else dict(duration=D)))
            X = o.relative_position(t)
            return [q.to(u).magnitude for q, u in zip(X, ("", "", ""))] + [o.speed.to("1/day").magnitude, o.duration.to("day").magnitude, o.period.to("day").magnitude, o.radius.magnitude, o.central_radius.magnitude]

        g = [np.asarray(q) for q in jax.jit(jax.vmap(f))(P, D, t0, b, r, v[:, 0], t)]
        lab = dict(P=P[:, None], D=D[:, None], t0=t0[:, None], b=b[:, None], r=r[:, None], dt=dt)
        eps = 3e-16 if not f32 else 2e-7
        tt = eps * 4 * (np.abs(t) + P[:, None] + np.abs(t0)[:, None])
        # half a period away either sign of x is the same statement
        half = np.abs(np.abs(dt) - P[:, None] / 2) < 1e-9
        gx = np.where(half, np.abs(g[0]) * np.sign(x + 1e-300), g[0])
        ctx.close(gx, x, "x", tol=v * tt + 10 * eps * (1 + np.abs(x)), labels=lab)
        ctx.close(g[1], np.broadcast_to(b[:, None], x.shape), "y", tol=10 * eps, labels=lab)
        edge = np.abs(np.abs(dt) - D[:, None] / 2) < 4 * tt + (1e-13 if not f32 else 1e-6)
        ctx.close(np.where(edge, 0, np.sign(g[2])), np.where(edge, 0, z), "z", tol=0, labels=lab)
        ctx.close(g[3], v[:, 0], "speed", tol=20 * eps * (1 + v[:, 0]), labels=dict(D=D, b=b, r=r))
        ctx.close(g[4], D, "duration", tol=20 * eps * (1 + D) * (1 + 1 / np.maximum(chord, 1e-3) ** 2), labels=dict(D=D, b=b, r=r))
        ctx.close(g[5], P, "period", tol=0 if not f32 else 1e-4)
        ctx.close(g[6], r, "radius", tol=0 if not f32 else 1e-6)
        ctx.close(g[7], 1 + 0 * r, "central_radius", tol=0)
        # first and last contact: the limbs touch exactly at +-duration/2
        if not by_speed and not f32:
            hit = chord > 0
            sep = np.hypot(g[3] * D / 2, b)
            ctx.close(sep[hit], (1 + r)[hit], "contact", tol=1e-12)
        ctx.count(states=x.size, traces=x.size, nontrivial=int((z > 0).sum()))
        ctx.sample(dict(P=P[9], D=D[9], b=b[9], r=r[9], t=t[9, 3], x=x[9, 3]))
    elif name == "mix":
        scal = dict(period=3.0, time_transit=0.4, impact_param=0.2, radius_ratio=0.1)
        vec = dict(period=[3.0, 5.0, 0.8], time_transit=[0.4, -1.0, 0.1], impact_param=[0.2, 0.8, 0.0], radius_ratio=[0.1, 0.3, 0.02])
        dur = dict(duration=(0.2, [0.2, 0.4, 0.1]), speed=(9.0, [9.0, 5.0, 20.0]))
        names = list(scal)
        unit = dict(period=("hour", 24.0), time_transit=("minute", 1440.0), impact_param=("dimensionless", 1.0), radius_ratio=("dimensionless", 1.0),
                    duration=("s", 86400.0), speed=("1/hour", 1 / 24.0))
        for how in ("duration", "speed"):
            for mask in itertools.product((0, 1, 2), repeat=4):  # scalar, per planet, omitted
                for dv in (0, 1):
                    if mask[0] == 2 or (dv and not mask[0]) or (1 in mask and mask[0] != 1):
                        continue
                    for uq in (False, True):
                        kw, full = {}, {}
                        for n, m in zip(names, mask):
                            val = None if m == 2 else np.array(vec[n]) if m == 1 else scal[n]
                            full[n] = 0.0 if m == 2 else val
                            if m != 2:
                                kw[n] = ureg.Quantity(val * unit[n][1], unit[n][0]) if uq else val
                        d = np.array(dur[how][1]) if dv else dur[how][0]
                        kw[how] = ureg.Quantity(d * unit[how][1], unit[how][0]) if uq else d
                        o = TransitOrbit(**kw)
                        shape = (3,) if mask[0] == 1 else ()
                        bc = {k: np.broadcast_to(np.asarray(v, float), shape) for k, v in full.items()}
                        dd = np.broadcast_to(np.asarray(d, float), shape)
                        if how == "speed":
                            dd = 2 * np.sqrt((1 + bc["radius_ratio"]) ** 2 - bc["impact_param"] ** 2) / dd
                        ctx.check(o.shape == shape, "mix:shape", mask=mask)
                        for t in (0.0, 0.45, -7.3, 11.9, 3):
                            v, x, y, z, dt = model(float(t), bc["period"], dd, bc["time_transit"], bc["impact_param"], bc["radius_ratio"])
                            for tq in (t, t * ureg.day, (t * 24.0) * ureg.hour):
                                X = o.relative_position(tq)
                                turn = np.abs(np.abs(dt) - bc["period"] / 2) < 1e-9
                                contact = np.abs(np.abs(dt) - dd / 2) < 1e-9
                                gx = np.broadcast_to(mag(X[0], ""), shape)
                                gz = np.broadcast_to(np.sign(mag(X[2], "")), shape)
                                ctx.close(np.where(turn, np.abs(gx), gx), np.where(turn, np.abs(x), x), "mix:x", tol=1e-10, detail=dict(mask=mask, how=how, t=t))
                                ctx.close(np.broadcast_to(mag(X[1], ""), shape), y, "mix:y", tol=1e-12, detail=dict(mask=mask, how=how))
                                ctx.close(np.where(contact, z, gz), z, "mix:z", tol=0, detail=dict(mask=mask, how=how, t=t))
                                ctx.count(states=1, traces=1)
        ctx.sample("per-planet impact parameter with shared epoch")
    elif name == "refuse":
        for kw in (dict(), dict(impact_param=0.1), dict(radius_ratio=0.1, time_transit=1.0)):
            e = raises(TransitOrbit, period=1.0, **kw)
            ctx.check(isinstance(e, ValueError), "refuse:no-duration", kw=kw, got=repr(e))
            ctx.count(states=1, traces=1)
        ok = dict(period="day", duration="day", speed="1/day", time_transit="day", impact_param="dimensionless", radius_ratio="dimensionless")
        for n in ok:
            for u in ("m", "kg", "day", "1/day", "dimensionless"):
                if ureg.Quantity(1.0, u).units == ureg.Quantity(1.0, ok[n]).units:
                    continue
                kw = dict(period=1.0, duration=0.1)
                if n == "speed":
                    kw.pop("duration")
                kw[n] = ureg.Quantity(0.1, u)
                ctx.check(raises(TransitOrbit, **kw) is not None, "refuse:dimension", arg=n, unit=u)
                ctx.count(states=1, traces=1)
        ctx.check(raises(TransitOrbit, duration=0.1) is not None, "refuse:no-period")
        ctx.sample("period only")
    else:
        # through the light curve: flux drops only within the duration
        t = np.linspace(-1.2, 1.2, 241)
        for D, b, r in itertools.product([0.2, 0.9], [0.0, 0.6, 1.0], [0.05, 0.3]):
            o = TransitOrbit(period=2.0, duration=D, impact_param=b, radius_ratio=r, time_transit=0.1)
            v, x, y, z, dt = model(t, 2.0, D, 0.1, b, r)
            want = np.where(z > 0, ld_flux([0.3, 0.2], np.hypot(x, b), r + 0 * x), 0.0)
            edge = np.abs(np.abs(dt) - D / 2) < 1e-9
            ctx.close(np.where(edge, want, limb_dark_light_curve(o, 0.3, 0.2)(t)), want, "lightcurve", tol=5e-6, labels=dict(t=t), detail=dict(D=D, b=b, r=r))
            ctx.count(states=t.size, traces=t.size)
        ctx.sample("duration 0.9")
