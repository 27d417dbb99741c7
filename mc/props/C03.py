"""Limb-darkened occultation flux against direct radial integration."""

import numpy as np

LEVEL = "exploration"
RULE = (
    "full product of (limb-darkening coefficient vectors of length 0..8: every unit "
    "vector, mixed-sign and mixed-magnitude vectors) x (radius ratios from 0 over the "
    "r<1, r=1 and r>1 regimes) x (impact parameters: uniform lattice plus every contact "
    "point |1-r|, 1+r, r and its neighbourhood at 1ulp, 1e-12..1e-2, both signs) x "
    "quadrature order; non-trivial = the disks really overlap"
)
ASSUME = [
    "reference: 1-D radial integration in numpy float64 (self-converged to 2e-15)",
    "declared quadrature accuracy per order: see TOL",
]
# declared absolute accuracy of relative flux for a given quadrature order, per unit
# sum(|u|)+1 and (for small planets) per unit blocked area
TOL = {5: 1.5e-3, 10: 7e-6, 20: 4e-7, 50: 4e-9, 100: 2e-10}


def tolerance(order, ab, R, f32=False):
    """Per unit scale: quadrature error plus rounding.  Where the limbs touch to within
    rounding, the contact angles carry the square root of the machine epsilon."""
    area = np.minimum(1.0, R**2)
    if f32:
        return np.where(R < 0.3, 1e-6, np.where(R < 0.93, 4e-6, 3e-4 * (1 + R))) + TOL[order] * area
    near = np.minimum(np.abs(ab - np.abs(1 - R)), np.abs(ab - (1 + R)))
    t = TOL[order] * area + 6e-14 + 3e-11 * np.sqrt(area)
    t = t + np.where(near < 2e-3, 6e-10, 0) * np.sqrt(area)
    return t + np.where(near < 1e-13, 2e-6, 0) * np.sqrt(area)



def us(deg, tier):
    if deg == 0:
        return [[]]
    out = [list(np.eye(deg)[i]) for i in range(deg)]
    out.append([0.5 / (i + 1) for i in range(deg)])
    out.append([(-1) ** i * 0.4 / (i + 1) for i in range(deg)])
    out.append([-0.2 * (-1) ** i / (1 + (i % 3)) for i in range(deg)])
    if deg == 1:
        out += [[0.0], [0.3], [-0.3]]
    if deg == 2:
        out += [[0.0, 0.0], [0.4, 0.26], [1.3, -0.5], [0.3, 0.0]]
    return out


def lattice(tier, f32=False):
    r = [0.0, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8,
         0.9, 0.95, 0.99, 0.999, 1.0, 1.001, 1.01, 1.05, 1.1, 1.25, 1.5, 2.0, 3.0, 10.0]
    if tier != "quick":
        r = np.unique(np.concatenate([r, np.linspace(0, 3, 121)]))
    B, R = [], []
    for ri in r:
        b = [np.linspace(0, ri + 1.3, 53 if tier == "quick" else 261)]
        for c in (abs(1 - ri), 1 + ri, ri, 1.0, abs(ri - 0.5)):
            d = [0.0, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2] if not f32 else [0, 1e-4, 1e-3, 1e-2]
            b.append(np.array([c + x for x in d] + [c - x for x in d]))
            b.append(np.array([np.nextafter(c, 9e9), np.nextafter(c, -1.0)]))
        b = np.concatenate(b)
        b = np.unique(np.concatenate([b, -b]))
        B.append(b)
        R.append(np.full(len(b), ri))
    return np.concatenate(B), np.concatenate(R)


def tasks(tier):
    t = [dict(name=f"deg{d}", deg=d, cost=d) for d in range(9)]
    t += [dict(name="f32", x64=False, deg=2), dict(name="f32-5", x64=False, deg=5)]
    t += [dict(name="calling", deg=2)]
    return t


def run(task, ctx):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    from oracles import ld_flux, ld_total

    f32 = not task["x64"]
    B, R = lattice(ctx.tier, f32)
    if f32:
        B, R = B.astype(np.float32), R.astype(np.float32)
    Bd, Rd = B.astype(float), R.astype(float)
    ab = np.abs(Bd)
    if task["name"] == "calling":
        u = [0.4, 0.26]
        ref = ld_flux(u, Bd, Rd)
        tol = tolerance(10, ab, Rd) * 2
        forms = {
            "default-order": lambda: light_curve(jnp.array(u), B, R),
            "list-u": lambda: light_curve(np.array(u), jnp.asarray(B), jnp.asarray(R)),
            "python-list": lambda: light_curve(u, B, R),
            "tuple": lambda: light_curve(tuple(u), B, R),
            "jit": lambda: jax.jit(light_curve)(jnp.array(u), B, R),
            "vmap": lambda: jax.vmap(light_curve, (None, 0, 0))(jnp.array(u), B, R),
            "vmap-u": lambda: jax.vmap(light_curve, (0, None, None))(jnp.array([u, u]), B, R)[1],
            "2d": lambda: light_curve(jnp.array(u), B[:, None], R[:, None])[:, 0],
        }
        for k, f in forms.items():
            ctx.close(f(), ref, "calling:" + k, tol=tol, labels=dict(b=B, r=R))
            ctx.count(states=len(B), traces=len(B))
        # scalar radius against a vector of impact parameters and the converse
        for r in np.unique(R)[::4]:
            s = R == r
            ctx.close(light_curve(jnp.array(u), B[s], float(r)), ref[s], "calling:scalar-r", tol=tol[s])
            ctx.count(states=s.sum(), traces=s.sum())
        for i in range(0, len(B), 37):
            v = light_curve(jnp.array(u), float(B[i]), float(R[i]))
            ctx.close(v, ref[i], "calling:scalars", tol=tol[i], detail=dict(b=B[i], r=R[i]))
            ctx.count(states=1, traces=1)
        # whole numbers given as integers
        for b in range(-3, 4):
            for r in range(0, 3):
                w = ld_flux(u, np.array([float(b)]), np.array([float(r)]))[0]
                for v in (light_curve(jnp.array(u), b, float(r)), light_curve(jnp.array(u), float(b), r)):
                    ctx.close(v, w, "calling:ints", tol=1e-5, detail=dict(b=b, r=r))
                    ctx.count(states=1, traces=1)
        return
    orders = (5, 10, 20, 50) if ctx.tier == "quick" else (5, 10, 20, 50, 100)
    if f32:
        orders = (10, 20)
    no_occ = ab >= 1 + Rd
    full = 1 + ab <= Rd
    exact = np.minimum(np.abs(ab - np.abs(1 - Rd)), np.abs(ab - (1 + Rd))) > 1e-13
    overlap = ~no_occ & (Rd > 0)
    refs = {}
    jobs = us(task["deg"], ctx.tier)
    for u in jobs:
        ref = refs[tuple(u)] = ld_flux(u, Bd, Rd)
        T = ld_total(u) / np.pi
        if abs(T) < 1e-3:
            raise RuntimeError("degenerate alphabet entry")
        scale = (1 + np.sum(np.abs(u))) / min(1.0, abs(T))
        for order in orders:
            got = np.asarray(
                light_curve(jnp.asarray(u, dtype=float), jnp.asarray(B), jnp.asarray(R), order=order)
            )
            tol = tolerance(order, ab, Rd, f32) * scale
            lab = dict(b=B, r=R)
            key = f"deg{task['deg']}-order{order}"
            ctx.close(got, ref, key, tol=tol, labels=lab, detail=dict(u=u))
            flat = np.where(f32, 1e-5, np.where(exact, 1e-13, tol))
            ctx.close(got[no_occ], 0 * got[no_occ], key + "-unocculted", tol=flat[no_occ], detail=dict(u=u))
            ctx.close(got[full], -1 + 0 * got[full], key + "-eclipsed", tol=flat[full], detail=dict(u=u))
            ctx.count(states=len(B), traces=len(B), nontrivial=overlap.sum())
    # symmetry in b is part of the lattice: every b comes with -b
    ctx.sample(dict(u=jobs[-1], b=float(B[11]), r=float(R[11]), want=float(ref[11]), got=float(got[11])))
