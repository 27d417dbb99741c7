"""Shared element grids and body builders for the Keplerian checks."""

import itertools

import numpy as np

E_ = [0.0, 0.1, 0.5, 0.9]
W_ = [0.0, 0.3, np.pi / 2, 2.0, np.pi, -np.pi / 2, -1.0, 3.5, 5.5]
I_ = [np.pi / 2, 1.5, 1.0, 0.3, 2.0, 0.0, np.pi, -1.0, 4.0]
O_ = [0.0, 0.7, np.pi / 2, -2.0, 4.0]
P_ = [3.0, 0.7, 400.0]
T_ = [0.0, 1.3, -20.0]
M_ = [0.01, 0.0, 0.3, 2.0]
C_ = [1.0, 0.2]


def elements(tier):
    """dict of arrays: angles product at default scales, and scales product at a few
    angles."""
    rows = set()
    e_ = E_ if tier == "quick" else E_ + [0.01, 0.3, 0.7, 0.95]
    w_ = W_ if tier == "quick" else W_ + [-3.0, -0.01, 1.5, 1.6, -1.58]
    for e, w, i, o in itertools.product(e_, w_, I_, O_):
        rows.add((3.0, e, w, i, o, 1.3, 0.3, 1.0))
    for p, t, m, c, (e, w, i, o) in itertools.product(
        P_, T_, M_, C_,
        [(0.0, 0.3, 1.5, 0.7), (0.5, 2.0, 1.0, -2.0), (0.9, -np.pi / 2, 1.5, 0.0), (0.1, 5.5, 2.0, 4.0)],
    ):
        rows.add((p, e, w, i, o, t, m, c))
    a = np.array(sorted(rows))
    return dict(zip(("P", "e", "w", "inc", "Om", "t0", "m", "M"), a.T))


def phases(n):
    """Times in units of the period relative to transit: special phases, a lattice, and
    far away cycles on both sides."""
    base = [0.0, 0.25, 0.5, 0.75, -0.25, -0.5, 1.0, -1.0, 3.0, -7.3, 41.37, -100.1]
    return np.unique(np.concatenate([base, np.linspace(-0.93, 1.21, n)]))


def structures():
    """Which optional arguments the body has: circular/eccentric x node x angles as
    sin/cos."""
    out = []
    for ecc in ("none", "angle", "sincos"):
        for node in ("none", "angle", "sincos"):
            out.append(dict(ecc=ecc, node=node))
    return out


def select(el, st):
    """Elements representable with the structure; circular and node-free structures take
    the elements with e = 0 = w, Om = 0."""
    s = np.ones(len(el["P"]), bool)
    el = {k: v.copy() for k, v in el.items()}
    if st["ecc"] == "none":
        el["e"] *= 0
        el["w"] *= 0
    if st["node"] == "none":
        el["Om"] *= 0
    if not s.all():
        el = {k: v[s] for k, v in el.items()}
    rows = np.unique(np.stack([el[k] for k in el], -1), axis=0)
    return dict(zip(el, rows.T))


def body_kwargs(st, x, jnp, mass=True):
    kw = dict(period=x["P"], time_transit=x["t0"], inclination=x["inc"])
    if mass:
        kw["mass"] = x["m"]
    if st["ecc"] != "none":
        kw["eccentricity"] = x["e"]
        if st["ecc"] == "angle":
            kw["omega_peri"] = x["w"]
        else:
            kw["sin_omega_peri"], kw["cos_omega_peri"] = jnp.sin(x["w"]), jnp.cos(x["w"])
    if st["node"] == "angle":
        kw["asc_node"] = x["Om"]
    elif st["node"] == "sincos":
        kw["sin_asc_node"], kw["cos_asc_node"] = jnp.sin(x["Om"]), jnp.cos(x["Om"])
    return kw


def reference(el, ph):
    """times (n, nt), relative position and velocity (3, n, nt), semimajor (n)"""
    from oracles import semimajor, two_body

    a = semimajor(el["P"], el["m"] + el["M"])
    t = el["t0"][:, None] + el["P"][:, None] * ph[None]
    c = {k: el[k][:, None] for k in ("P", "e", "w", "inc", "Om", "t0")}
    X, V = two_body(t, **c, a=a[:, None])
    return t, np.array(X), np.array(V), a


def tolerance(el, ph, a):
    """Rounding of the mean anomaly amplified by the orbit's fastest motion."""
    amp = (1 + np.abs(el["t0"] / el["P"])[:, None] + np.abs(ph)[None]) / ((1 - el["e"]) ** 1.5)[:, None]
    return 4e-14 * amp
