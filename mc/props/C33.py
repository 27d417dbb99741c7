"""Drawn surfaces."""

import itertools

import numpy as np

from oracles import limb_darkening, sky_intensity, surface_point  # noqa: F401

LEVEL = "exploration"
RULE = (
    "every kind of object that can be drawn (array, Ylm, Pijk, Surface, body with a surface, with and without "
    "a radius) x orientations (given and absent inclination and obliquity) x rotation angles x initial phases x "
    "phase included or not x grid (none, several densities) x own or current axes x two figures at once; every "
    "pixel drawn and every point of every grid line is mapped back to the surface; intensity and velocity images"
)
ASSUME = [
    "even numbers of grid lines (the meridian facing the observer is one of them)",
    "the grid's hidden half is not drawn; the outline is a circle of the body's radius",
    "the velocity image is that of Surface.render, decided by C29",
]
Y = np.array([1.3, 0.2, -0.3, 0.4, 0.1, -0.2, 0.15, 0.3, -0.1])
INC = [None, np.pi / 2, 0.6, 2.2, 0.0]
OBL = [None, 0.4, -2.0]
TH = [0.0, 1.1, -3.9]
PH = [0.0, 0.7]


def tasks(tier):
    t = [dict(name=f"orient-{i}", i=i) for i in range(len(INC))]
    t += [dict(name=f"kinds-{k}", kind=k) for k in ("array", "jax", "ylm", "pijk", "surface", "body", "body-none")]
    t += [dict(name=f"axes-{i}", first=i, cost=3) for i in range(8)]
    t += [dict(name="rv")]
    return t


def run(task, ctx):
    import jax.numpy as jnp
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from jaxoplanet.starry import Surface, Ylm, show_surface
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.orbit import SurfaceBody

    name = task["name"]

    def image(res, y, u, inc, obl, theta):
        g = -1 + 2 * np.arange(res) / max(res - 1, 1)
        X, Y_ = np.meshgrid(g, g)
        r2 = X**2 + Y_**2
        Z = np.sqrt(np.maximum(0, 1 - r2))
        w = sky_intensity(np.stack([X.ravel(), Y_.ravel(), Z.ravel()]), y, u, inc, obl, theta).reshape(res, res)
        w[r2 > 1 + 1e-12] = np.nan
        return w, np.abs(r2 - 1) <= 1e-12

    def pixels(im):
        a = im.get_array()
        return np.asarray(a.filled(np.nan) if hasattr(a, "filled") else a, float)

    def compare_image(im, w, edge, key, d, radius=1.0):
        g = pixels(im)
        if not ctx.check(g.shape == w.shape, key + ":shape", got=g.shape, **d):
            return
        g = np.where(edge & np.isnan(g), w, g)
        ctx.close(g, w, key, tol=1e-10, detail=d)
        ctx.close(np.asarray(im.get_extent(), float), radius * np.array([-1.0, 1, -1, 1]), key + ":extent", tol=1e-12, detail=d)
        ctx.check(im.origin == "lower", key + ":origin", **d)
        ctx.count(states=w.size, traces=1, nontrivial=int((~np.isnan(w)).sum()))

    def compare_grid(ax, n, inc, obl, theta, radius, key, d, white=True):
        nlat, nlon = n if isinstance(n, tuple) else (n, 2 * n)
        circles, seen = 0, {}
        for ln in ax.lines:
            x, y = (np.asarray(v, float) / radius for v in ln.get_data())
            ok = np.isfinite(x) & np.isfinite(y)
            if not ok.any():
                continue
            r2 = x[ok] ** 2 + y[ok] ** 2
            ctx.check(r2.max() <= 1 + 1e-9, key + ":outside", r=float(np.sqrt(r2.max())), **d)
            if ok.all() and np.abs(r2 - 1).max() < 1e-9 and len(x) > 3 and np.ptp(np.unwrap(np.arctan2(y, x))) > 6.2:
                circles += 1
                continue
            m = ok.copy()
            m[ok] = r2 < 1 - 1e-4
            if not m.any():
                continue
            z = np.sqrt(1 - x[m] ** 2 - y[m] ** 2)
            P = surface_point(np.stack([x[m], y[m], z]), inc, obl, theta, 0.0)
            la = np.arcsin(np.clip(P[1], -1, 1)) * nlat / np.pi + nlat / 2
            lo = np.arctan2(P[0], P[2]) * nlon / (2 * np.pi)
            k = int(np.rint(np.median(la)))
            pole = np.hypot(P[0], P[2]) < 1e-3
            # a meridian passing the pole changes to the opposite one
            j = np.rint(lo[~pole]) if (~pole).any() else np.zeros(1)
            if np.abs(la - k).max() < 1e-6 * nlat:
                seen.setdefault(("lat", k), []).append(P)
            elif (~pole).any() and np.abs(lo[~pole] - j).max() < 1e-5 * nlon and len(set(j % nlon)) == 1:
                seen.setdefault(("lon", int(j[0]) % nlon), []).append(P)
            else:
                ctx.violation(key + ":not-a-grid-line", at=[float(x[m][0]), float(y[m][0])], surface=P[:, 0].tolist(), **d)
            ctx.count(states=int(m.sum()), traces=1)
        ctx.check(circles == (2 if white else 1), key + ":outline", circles=circles, **d)
        # every parallel and meridian is there, drawn wherever it is in front
        B = np.stack([surface_point(np.eye(3)[:, i], inc, obl, theta, 0.0) for i in range(3)], 1)
        want = [("lat", k, np.pi * k / nlat - np.pi / 2, None) for k in range(1, nlat)]
        want += [("lon", k, None, 2 * np.pi * k / nlon) for k in range(nlon)]
        for kind, k, la0, lo0 in want:
            s = np.linspace(0.01, 0.99, 81)
            la = np.full_like(s, la0) if kind == "lat" else -np.pi / 2 + np.pi * s
            lo = 2 * np.pi * s if kind == "lat" else np.full_like(s, lo0)
            P = np.stack([np.cos(la) * np.sin(lo), np.sin(la), np.cos(la) * np.cos(lo)])
            sky = B.T @ P
            vis = sky[2] > 0.15
            if not vis.any():
                continue
            if not ctx.check((kind, k) in seen, key + ":missing", line=[kind, k], **d):
                continue
            Q = np.concatenate(seen[kind, k], -1)
            gap = np.array([np.sqrt(((Q - p[:, None]) ** 2).sum(0).min()) for p in P.T[vis]])
            ctx.check(gap.max() < 0.1, key + ":interrupted", line=[kind, k], gap=float(gap.max()), **d)

    def surf(inc=np.pi / 2, obl=None, u=(0.3, 0.2), phase=0.0, **kw):
        return Surface(y=Ylm.from_dense(jnp.asarray(Y), normalize=False), normalize=False, inc=inc, obl=obl, u=u, phase=phase, amplitude=0.7, **kw)

    z = lambda v: 0.0 if v is None else v  # noqa
    if name.startswith("orient"):
        inc = INC[task["i"]]
        quick = ctx.tier == "quick"
        for obl, th, ph, inclph, n in itertools.product(OBL, TH, PH, (True, False), (None, 6) if ctx.tier == "quick" else (None, 2, 4, 6, 10, (4, 6), (6, 4))):
            if quick and ((ph == 0 and not inclph) or (n is None and th != 1.1)):
                continue
            fig, ax = plt.subplots()
            im = show_surface(surf(inc, obl, phase=ph), theta=th, res=9, n=n, include_phase=inclph, return_im=True)
            tot = th + (ph if inclph else 0.0)
            d = dict(inc=inc, obl=obl, theta=th, phase=ph, include_phase=inclph, n=n)
            w, e = image(9, Y, (0.3, 0.2), z(inc), z(obl), tot)
            compare_image(im, 0.7 * w, e, "image", d)
            if n is None:
                ctx.check(len(ax.lines) == 0, "grid-none", n=len(ax.lines))
            else:
                compare_grid(ax, n, z(inc), z(obl), tot, 1.0, "grid", d)
            plt.close(fig)
        ctx.sample(d)
    elif name.startswith("kinds"):
        s = surf(0.6, 0.4, phase=0.7)
        mono = {(0, 0, 0): 1.0, (1, 0, 0): 0.3, (0, 1, 0): -0.2, (0, 0, 1): 0.4, (2, 0, 0): 0.1, (1, 0, 1): 0.25, (0, 2, 0): 0.2, (0, 1, 1): -0.3, (1, 1, 0): 0.15}
        for what, radius, res, th in itertools.product((task["kind"],), (None, 0.3, 1.0, 2.5), (2, 5, 12), (0.0, 0.9)):
            if ctx.tier == "quick" and (res, th) not in ((12, 0.9), (5, 0.0)):
                continue
            d = dict(what=what, radius=radius, res=res, theta=th)
            kw = {} if radius is None or what == "body" else dict(radius=radius)
            inc, obl, ph, u, amp, y = np.pi / 2, 0.0, 0.0, (), 1.0, Y
            if what in ("array", "jax"):
                obj = Y if what == "array" else jnp.asarray(Y)
            elif what == "ylm":
                obj = Ylm.from_dense(jnp.asarray(Y), normalize=False)
            elif what == "pijk":
                obj = Pijk(mono)
            else:
                obj, inc, obl, ph, u, amp = s, 0.6, 0.4, 0.7, (0.3, 0.2), 0.7
                if what == "body":
                    obj = SurfaceBody(period=1.0, radius=radius, surface=s)
                elif what == "body-none":
                    obj = SurfaceBody(period=1.0, surface=s)
            R = 1.0 if radius is None else radius
            fig, ax = plt.subplots()
            im = show_surface(obj, theta=th, res=res, n=4, return_im=True, **kw)
            if what == "pijk":
                g = -1 + 2 * np.arange(res) / max(res - 1, 1)
                X, Yy = np.meshgrid(g, g)
                r2 = X**2 + Yy**2
                Zz = np.sqrt(np.maximum(0, 1 - r2))
                P = surface_point(np.stack([X.ravel(), Yy.ravel(), Zz.ravel()]), inc, obl, th, 0.0)
                w = sum(c * P[0] ** i * P[1] ** j * P[2] ** k for (i, j, k), c in mono.items()).reshape(res, res)
                # behind the disk the polynomial is continued with its own z
                w[r2 > 1 + 1e-12] = np.nan
                e = np.abs(r2 - 1) <= 1e-12
            else:
                w, e = image(res, y, u, inc, obl, th + ph)
                w = w * amp
            compare_image(im, w, e, "kind:" + what, d, R)
            n = int(np.ceil(4 * np.cbrt(R))) if what.startswith("body") else 4
            if n % 2 == 0:
                compare_grid(ax, n, inc, obl, th + ph, R, "kind-grid:" + what, d)
            else:
                ctx.check(max(np.nanmax(np.abs(ln.get_xdata())) for ln in ax.lines if np.isfinite(ln.get_xdata()).any()) <= R * (1 + 1e-9), "kind-grid:size", **d)
            plt.close(fig)
        for n in (None, 6):
            fig, ax = plt.subplots()
            show_surface(SurfaceBody(period=1.0, radius=0.1, surface=s), n=n, res=5)
            ctx.check((len(ax.lines) == 0) == (n is None), "body-grid-none", n=n)
            plt.close(fig)
        ctx.sample(d)
    elif name.startswith("axes"):
        # histories of drawing on two axes, given or current
        s1, s2 = surf(0.6, 0.4), surf(2.2, None)
        pool = {0: (s1, 0.6, 0.4), 1: (s2, 2.2, 0.0)}
        letters = list(itertools.product((0, 1), (0, 1), (True, False)))
        for word in itertools.product([letters[task["first"]]], letters):
            fig, axes = plt.subplots(1, 2)
            model = {0: [], 1: []}
            for target, which, given in word:
                if given:
                    plt.sca(axes[1 - target])
                    im = show_surface(pool[which][0], res=6, n=4, ax=axes[target], return_im=True)
                else:
                    plt.sca(axes[target])
                    im = show_surface(pool[which][0], res=6, n=4, return_im=True)
                model[target].append(which)
                ctx.check(im.axes is axes[target], "axes:image", word=str(word))
                ctx.count(transitions=1)
            for t in (0, 1):
                ctx.check(len(axes[t].images) == len(model[t]), "axes:images", got=len(axes[t].images), want=len(model[t]), word=str(word))
                if len(model[t]) == 1:
                    _, inc, obl = pool[model[t][0]]
                    w, e = image(6, Y, (0.3, 0.2), inc, obl, 0.0)
                    compare_image(axes[t].images[0], 0.7 * w, e, "axes:pixels", dict(word=str(word)))
                    compare_grid(axes[t], 4, inc, obl, 0.0, 1.0, "axes:grid", dict(word=str(word)))
                elif not model[t]:
                    ctx.check(len(axes[t].lines) == 0, "axes:stray-lines", got=len(axes[t].lines), word=str(word))
            plt.close(fig)
        ctx.sample(str(word))
    else:
        for inc, obl, th, white in itertools.product((0.6, np.pi / 2, None), (None, 0.4), (0.0, 1.1), (True, False)):
            s = surf(inc, obl, period=2.0, radius=1.3, phase=0.4, shear=0.2)
            fig, ax = plt.subplots()
            im = show_surface(s, theta=th, res=8, rv=True, return_im=True, white_contour=white)
            want = np.asarray(s.render(th + 0.4, 8, rv=True))
            ctx.close(pixels(im), want, "rv-image", tol=1e-10, detail=dict(inc=inc, obl=obl, theta=th))
            compare_grid(ax, 6, z(inc), z(obl), th + 0.4, 1.0, "rv-grid", dict(inc=inc, obl=obl, theta=th, white=white), white=white)
            plt.close(fig)
            ctx.count(states=want.size, traces=1)
        ctx.sample(dict(inc=inc, obl=obl, theta=th))
