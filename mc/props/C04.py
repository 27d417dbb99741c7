"""Gradients of the limb-darkened flux against closed line integrals."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "full product of coefficient vectors (length 0..6) x radius ratios (r<1, r=1, r>1) x "
    "impact parameters (uniform lattice plus contacts and their neighbours, b = 0 and "
    "both signs) x {wrt b, wrt r, wrt every u_k} x {reverse, forward mode}, eager order "
    "10/20/100; finite everywhere, and equal to the line integral of the surface "
    "brightness along the occultor's limb wherever the flux is differentiable"
)
ASSUME = ["reference: 1-D line integral along the occulting limb (Leibniz rule)"]
TOL = {10: 2e-5, 20: 1e-6, 100: 4e-8}


def tasks(tier):
    t = [dict(name=f"{m}-deg{d}", mode=m, deg=d) for d in (0, 1, 2, 3, 4, 6) for m in ("grad", "jacfwd")]
    t += [dict(name="f32", mode="grad", deg=2, x64=False)]
    t += [dict(name=f"tiny-f32-{m}", mode=m, deg=2, tiny=True, x64=False) for m in ("grad", "jacfwd")]
    return t


def tiny32(ctx, task):
    """Single precision where the flux varies on the scale of the occultor or of the offset."""
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    from oracles import ld_blocked_grad, ld_total
    from props.C03 import us

    R1 = np.array([1e-4, 2e-4, 3e-4, 4.5e-4, 6e-4, 1e-3, 2e-3, 5e-3, 1e-2, 3e-2, 0.1])
    f = np.linspace(0, 0.97, 20)
    f = np.concatenate([f, -f])
    near = np.array([1e-9, 1e-6, 1e-3, 0.1, 0.5, 0.9, 0.99, 0.999999, 1.0, 1.000001, 1.01, 1.1, 2.0, 5.0])
    # disks well inside, among them with the limb close to the centre
    inside = [(b, r) for r in R1 for b in np.concatenate([f, near * r, -near * r]) if abs(b) < 1 - 3 * r]
    equal = [(s * b, 1.0) for s in (1, -1) for b in (1e-5, 3e-5, 1e-4, 2e-4, 3e-4, 4e-4, 6e-4, 1e-3, 2e-3, 5e-3, 1e-2)]
    BR = np.array(inside + equal).astype(np.float32)
    Bd, Rd = BR.astype(float).T
    for u in us(task["deg"], "quick")[-3:]:
        T = ld_total(u)
        db, dr = ld_blocked_grad(u, np.abs(Bd), Rd)
        wb, wr = -np.sign(Bd) * db / T, -dr / T
        for order in (10, 20):
            d = jax.grad if task["mode"] == "grad" else jax.jacfwd
            g = jax.jit(jax.vmap(d(lambda b, r: light_curve(u, b, r, order=order), (0, 1))))  # noqa: B023
            gb, gr = (np.asarray(v, float) for v in g(jnp.asarray(BR[:, 0]), jnp.asarray(BR[:, 1])))
            # inside: |d/dr| ~ 2 r sets the scale
            scale = (1 + np.sum(np.abs(u))) / min(1, abs(T) / np.pi)
            tol = scale * np.where(Rd < 0.2, 1e-2 * Rd, 2e-2 + TOL[order])
            lab = dict(b=Bd, r=Rd)
            ctx.close(gb, wb, f"tiny-{task['mode']}-order{order}-b", tol=tol, labels=lab, detail=dict(u=u))
            ctx.close(gr, wr, f"tiny-{task['mode']}-order{order}-r", tol=tol, labels=lab, detail=dict(u=u))
            ctx.count(states=2 * len(BR), traces=2 * len(BR), nontrivial=2 * len(BR))


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    from oracles import ld_blocked, ld_blocked_grad, ld_total
    from props.C03 import lattice, us

    if task.get("tiny"):
        return tiny32(ctx, task)
    f32 = not task["x64"]
    B, R = lattice("quick", f32)
    keep = R > 0
    B, R = B[keep], R[keep]
    if not f32:
        # nearly equal disks, where the orientation of the offset matters
        b1 = np.array([s * 10.0**-k for s in (1, -1) for k in (4, 5, 6, 7, 7.7, 8, 9, 10)])
        B, R = np.concatenate([B, b1]), np.concatenate([R, np.ones(len(b1))])
    if f32:
        B, R = B.astype(np.float32), R.astype(np.float32)
    Bd, Rd = B.astype(float), R.astype(float)
    ab = np.abs(Bd)
    near = np.minimum(np.abs(ab - np.abs(1 - Rd)), np.abs(ab - (1 + Rd)))
    # the gradient is singular where the limbs touch, and at (r = 1, b = 0)
    smooth = near > 1e-11
    for u in us(task["deg"], "quick")[-3:]:
        T = ld_total(u)
        db, dr = ld_blocked_grad(u, ab, Rd)
        bl = ld_blocked(u, ab, Rd)
        wb = -np.sign(Bd) * db / T
        wr = -dr / T
        deg = len(u)
        # d/du_k [-Bl/T]: blocked of each basis profile
        wu = []
        for k in range(deg):
            e = np.eye(deg)[k]
            bk = ld_blocked(e, ab, Rd) - ld_blocked([0.0] * deg, ab, Rd)
            Tk = ld_total(e) - np.pi
            wu.append(-bk / T + bl * Tk / T**2)
        wu = np.array(wu).T if deg else np.zeros((len(B), 0))
        for order in (10, 20) if (ctx.tier == "quick" or f32) else (10, 20, 100):
            f = lambda u, b, r: light_curve(u, b, r, order=order)  # noqa
            d = jax.grad if task["mode"] == "grad" else jax.jacfwd
            g = jax.jit(jax.vmap(d(f, (0, 1, 2)), (None, 0, 0)))
            gu, gb, gr = (
                np.asarray(v)
                for v in g(jnp.asarray(u, dtype=float), jnp.asarray(B), jnp.asarray(R))
            )
            key = f"{task['mode']}-deg{deg}-order{order}"
            fin = np.isfinite(gb) & np.isfinite(gr) & np.isfinite(gu).all(-1)
            if not fin.all():
                i = int(np.argmin(fin))
                ctx.violation(key + "-nonfinite", u=u, b=float(B[i]), r=float(R[i]),
                              got=[gu[i].tolist(), float(gb[i]), float(gr[i])], n=int((~fin).sum()))
            scale = (1 + np.sum(np.abs(u))) / min(1, abs(T) / np.pi)
            # rounding near the contacts enters like sqrt(eps)/distance
            tol = TOL[order] * scale * np.where(near < 2e-3, 4, 1) + (2e-12 if not f32 else 1e-4) * scale / np.maximum(near, 1e-8)
            # cancellation in the dependence on the orientation of a tiny offset
            tol = tol + (3e-16 if not f32 else 1e-7) * scale / np.maximum(ab, 1e-13)
            if f32:
                tol = tol + 5e-3
            s = smooth if not f32 else near > 2e-2
            lab = dict(b=B[s], r=R[s])
            ctx.close(gb[s], wb[s], key + "-b", tol=tol[s], labels=lab, detail=dict(u=u))
            ctx.close(gr[s], wr[s], key + "-r", tol=tol[s], labels=lab, detail=dict(u=u))
            for k in range(deg):
                ctx.close(gu[s, k], wu[s, k], key + f"-u{k}", tol=tol[s], labels=lab, detail=dict(u=u))
            ctx.count(states=len(B) * (2 + deg), traces=len(B) * (2 + deg),
                      nontrivial=int(((ab < 1 + Rd) & (1 + ab > Rd)).sum()) * (2 + deg))
    ctx.sample(dict(u=u, b=float(B[5]), r=float(R[5]), grad_b=float(gb[5]), want=float(wb[5])))
