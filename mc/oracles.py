"""Independent reference models, deliberately boring (numpy / mpmath only)."""

import math

import numpy as np

LD = np.longdouble
PI_LD = LD("3.14159265358979323846264338327950288")


def kepler_ref(M, e, iters=70):
    """(sin f, cos f, dfdM, dfde) by bisection + Newton in extended precision."""
    M = np.asarray(M, dtype=LD)
    e = np.asarray(e, dtype=LD)
    M, e = np.broadcast_arrays(M, e)
    # reduce to (-pi, pi]
    k = np.rint(M / (2 * PI_LD))
    m = M - 2 * PI_LD * k
    sgn = np.where(m < 0, LD(-1), LD(1))
    m = np.abs(m)
    lo = np.zeros_like(m)
    hi = np.full_like(m, PI_LD)
    E = np.where(m < PI_LD / 2, m, m)
    for _ in range(iters):
        g = E - e * np.sin(E) - m
        lo = np.where(g < 0, E, lo)
        hi = np.where(g >= 0, E, hi)
        step = E - g / np.maximum(1 - e * np.cos(E), LD(1e-30))
        ok = (step > lo) & (step < hi)
        new = np.where(ok, step, 0.5 * (lo + hi))
        done = bool((np.abs(new - E) <= LD(1e-19) * (1 + np.abs(E))).all())
        E = new
        if done:
            break
    E = np.clip(E, 0, PI_LD)
    s2 = np.sqrt(1 - e * e)
    den = 1 - e * np.cos(E)
    sinf = sgn * s2 * np.sin(E) / den
    cosf = (np.cos(E) - e) / den
    # derivatives
    dfdM = s2 / den**2
    dfde = sinf * (2 + e * cosf) / (1 - e * e)
    return sinf, cosf, dfdM, dfde


def true_anomaly(M, e):
    s, c, _, _ = kepler_ref(M, e)
    return np.asarray(s, float), np.asarray(c, float)


# ---------------------------------------------------------------------------
# two-body orbit, from first principles
def two_body(t, P, e, w, inc, Om, t0, a):
    """Position and velocity of the body relative to the central (broadcast over all
    arguments; e may be 0) in the library's documented frame: +z towards the observer,
    t0 is the time when the true longitude f + omega = pi/2 (conjunction in front);
    the body then moves towards +x before the node rotation."""
    t, P, e, w, inc, Om, t0, a = (np.asarray(v, dtype=LD) for v in (t, P, e, w, inc, Om, t0, a))
    f0 = PI_LD / 2 - w
    s2 = np.sqrt(1 - e * e)
    E0 = np.arctan2(s2 * np.sin(f0), e + np.cos(f0))
    n = 2 * PI_LD / P
    M = n * (t - t0) + (E0 - e * np.sin(E0))
    s, c, _, _ = kepler_ref(M, e)
    r = a * (1 - e * e) / (1 + e * c)
    co, so = np.cos(w), np.sin(w)
    cw = c * co - s * so
    sw = s * co + c * so
    ci, si = np.cos(inc), np.sin(inc)
    X, Y, Z = -r * cw, -r * sw * ci, r * sw * si
    k = n * a / s2
    vX, vY, vZ = k * (sw + e * so), -k * (cw + e * co) * ci, k * (cw + e * co) * si
    cO, sO = np.cos(Om), np.sin(Om)

    def rot(x, y, z):
        return tuple(np.asarray(v, dtype=float) for v in (cO * x - sO * y, sO * x + cO * y, z))

    return rot(X, Y, Z), rot(vX, vY, vZ)


def semimajor(P, mtot):
    """R_sun, from days and solar masses."""
    return (GRAV * np.asarray(mtot) * np.asarray(P) ** 2 / (4 * np.pi**2)) ** (1 / 3)


# ---------------------------------------------------------------------------
# limb-darkened disk blocked by an opaque circle, by direct 1-D radial integration
_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def ld_total(u):
    u = np.asarray(u, float)
    n = np.arange(1, len(u) + 1)
    return np.pi * (1 - np.sum(u * 2.0 / ((n + 1.0) * (n + 2.0))))


def ld_profile(u, mu):
    prof = np.ones_like(mu)
    for i, ui in enumerate(u):
        prof = prof - ui * (1 - mu) ** (i + 1)
    return prof


def ld_blocked(u, b, r, n=60):
    """Flux removed (same normalisation as ld_total) for arrays b, r.

    Integrates I(rho) * rho * 2*alpha(rho) over the radius rho of the source disk,
    where alpha is the half-angle of the circle of radius rho hidden by the occultor.
    The interval is split at |b - r| and b + r; the endpoint singularities (square-root
    type) are removed with the substitution rho = mid + half*sin(theta).
    """
    b = np.abs(np.asarray(b, float))[..., None]
    r = np.abs(np.asarray(r, float))[..., None]
    b, r = np.broadcast_arrays(b, r)
    th, w = gl(n)
    th = 0.5 * np.pi * th
    w = 0.5 * np.pi * w
    out = np.zeros(b.shape[:-1])
    # region 1: rings entirely hidden: rho < r - b
    top = np.clip(r - b, 0.0, 1.0)
    # substitution rho^2 = 1 - mu^2 handles the limb: integrate in mu exactly (poly)
    mu_lo = np.sqrt(np.clip(1 - top * top, 0, None))
    m, wm = gl(30)
    mu = 0.5 * (1 + mu_lo) + 0.5 * (1 - mu_lo) * m
    out += np.sum(
        wm * 0.5 * (1 - mu_lo) * 2 * np.pi * mu * ld_profile(u, mu), axis=-1
    )
    # region 2: partially hidden rings  |b-r| < rho < min(1, b+r)
    lo = np.clip(np.abs(b - r), 0.0, 1.0)
    hi = np.clip(b + r, 0.0, 1.0)
    mid, half = 0.5 * (lo + hi), 0.5 * (hi - lo)
    rho = mid + half * np.sin(th)
    rho_safe = np.where(rho > 0, rho, 1.0)
    b_safe = np.where(b > 0, b, 1.0)
    # half-angle via half-angle formula, accurate near 0 and pi
    num = (r - b + rho) * (r + b - rho)  # 2 b rho (1 - cos(pi - ...)) style factors
    den = (rho + b - r) * (rho + b + r)
    alpha = 2 * np.arctan2(np.sqrt(np.clip(num, 0, None)), np.sqrt(np.clip(den, 0, None)))
    alpha = np.where(b > 0, alpha, 0.0)
    mu = np.sqrt(np.clip((1 - rho) * (1 + rho), 0, None))
    integrand = 2 * alpha * rho * ld_profile(u, mu) * half * np.cos(th)
    out += np.sum(w * np.where(hi > lo, integrand, 0.0), axis=-1)
    return out


def ld_flux(u, b, r, n=60):
    """Relative flux minus one."""
    return -ld_blocked(u, b, r, n=n) / ld_total(u)


def ld_blocked_grad(u, b, r, n=80):
    """(d blocked / d b, d blocked / d r) by the line integral over the occultor's limb."""
    b = np.asarray(b, float)[..., None]
    r = np.asarray(r, float)[..., None]
    b, r = np.broadcast_arrays(b, r)
    th, w = gl(n)
    th = 0.5 * np.pi * th
    w = 0.5 * np.pi * w
    # point at angle phi from the direction *away* from the source centre:
    # (b + r cos phi, r sin phi); inside the unit disk when cos phi < c0
    with np.errstate(divide="ignore", invalid="ignore"):
        c0 = (1 - b * b - r * r) / (2 * b * r)
    c0 = np.where((b == 0) | (r == 0), np.where(r + b <= 1, 2.0, -2.0), c0)
    inside_all = (b + r) <= 1
    none = (b >= 1 + r) | (r >= 1 + b)
    phi0 = np.arccos(np.clip(c0, -1, 1))
    phi0 = np.where(inside_all, 0.0, np.where(none, np.pi, phi0))
    # integrate phi over (phi0, pi), doubled
    half = 0.5 * (np.pi - phi0)
    phi = phi0 + half * (1 + np.sin(th))
    jac = half * np.cos(th)
    rho2 = b * b + r * r + 2 * b * r * np.cos(phi)
    mu = np.sqrt(np.clip(1 - rho2, 0, None))
    I = ld_profile(u, mu) * r * jac
    I = np.where(half > 0, I, 0.0)
    db = 2 * np.sum(w * I * np.cos(phi), axis=-1)
    dr = 2 * np.sum(w * I, axis=-1)
    return db, dr


# ---------------------------------------------------------------- units
# SI values, IAU 2015 nominal values / CODATA, independent of the unit registry
SI = dict(
    M_sun=1.3271244e20 / 6.67430e-11, R_sun=6.957e8, day=86400.0, d=86400.0, G=6.67430e-11,
    M_earth=3.986004e14 / 6.67430e-11, R_earth=6.3781e6, M_jup=1.2668653e17 / 6.67430e-11,
    R_jup=7.1492e7, au=1.49597870700e11, hour=3600.0, minute=60.0, s=1.0, second=1.0, m=1.0, km=1e3,
    kg=1.0, g=1e-3, cm=1e-2, year=365.25 * 86400, radian=1.0, degree=np.pi / 180,
    arcsec=np.pi / 180 / 3600, dimensionless=1.0,
)
# gravitational constant in R_sun^3 / M_sun / day^2
GRAV = 1.3271244e20 / 6.957e8**3 * 86400.0**2


def real_sph(lmax, x, y, z):
    """Orthonormal real spherical harmonics without Condon-Shortley phase, polar axis z,
    azimuth from x towards y; last axis is n = l^2 + l + m (m < 0: sine)."""
    x, y, z = (np.asarray(v, float) for v in (x, y, z))
    shape = np.broadcast(x, y, z).shape
    out = np.zeros(shape + ((lmax + 1) ** 2,))
    # (x + i y)^m = rho^m e^{i m phi}; Q_lm = P_lm / rho^m is a polynomial in z
    c, s = np.ones(shape), np.zeros(shape)
    qmm = np.full(shape, np.sqrt(1 / (4 * np.pi)))
    for m in range(lmax + 1):
        if m > 0:
            c, s = c * x - s * y, c * y + s * x
            qmm = qmm * np.sqrt((2 * m + 1) / (2 * m))
        qm2, qm1 = np.zeros(shape), qmm
        for l in range(m, lmax + 1):
            if l > m:
                a = np.sqrt((4 * l * l - 1) / (l * l - m * m))
                b = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
                qm2, qm1 = qm1, a * (z * qm1 - b * qm2)
            if m == 0:
                out[..., l * l + l] = qm1
            else:
                out[..., l * l + l + m] = np.sqrt(2) * qm1 * c
                out[..., l * l + l - m] = np.sqrt(2) * qm1 * s
    return out


def sphere_points(n):
    """n deterministic points covering the sphere (Fibonacci), plus the six axes"""
    i = np.arange(n) + 0.5
    z = 1 - 2 * i / n
    phi = np.pi * (1 + np.sqrt(5)) * i
    r = np.sqrt(1 - z * z)
    P = np.stack([r * np.cos(phi), r * np.sin(phi), z])
    return np.concatenate([P, np.eye(3), -np.eye(3)], axis=1)


def _gl(n):
    return np.polynomial.legendre.leggauss(n)


def disk_monomial(i, j, k):
    """integral of x^i y^j z^k over the unit disk, z = sqrt(1 - x^2 - y^2)"""
    from math import gamma

    if i % 2 or j % 2:
        return 0.0
    # int_0^1 rho^(i+j+1) (1-rho^2)^(k/2) drho * int cos^i sin^j
    rad = 0.5 * gamma((i + j) / 2 + 1) * gamma(k / 2 + 1) / gamma((i + j) / 2 + k / 2 + 2)
    ang = 2 * gamma((i + 1) / 2) * gamma((j + 1) / 2) / gamma((i + j) / 2 + 1)
    return rad * ang


def _segments(b, r):
    """y intervals of the overlap of the unit disk and the disk of radius r at (0, b),
    split where the boundaries cross, with graded extra points around near-contacts"""
    lo, hi = max(-1.0, b - r), min(1.0, b + r)
    if hi <= lo:
        return []
    pts = [lo, hi]
    if b > 0:
        ys = (1 - r * r + b * b) / (2 * b)
        if lo < ys < hi:
            pts.append(ys)
    pts = sorted(pts)
    # graded subdivision towards every point: other structure may sit very close to it
    out = []
    for a, c in zip(pts[:-1], pts[1:]):
        h = c - a
        g = [0.0] + [0.5 * 0.25**q for q in range(11, -1, -1)]
        e = [a + h * v for v in g] + [c - h * v for v in g[::-1][1:]]
        out += [(u, v) for u, v in zip(e[:-1], e[1:]) if v > u]
    return out


def blocked_monomials(terms, b, r, n=24):
    """integrals of x^i y^j z^k, for (i, j, k) in terms, over the part of the unit disk
    covered by a disk of radius r centred on (0, b); direct integration, x inner, y outer"""
    res = np.zeros(len(terms))
    segs = _segments(b, r)
    if not segs:
        return res
    t, w = _gl(n)
    # endpoints of the segments may be square-root singular: y = mid + half sin(s)
    s = np.pi / 2 * t
    y = np.concatenate([(a + c) / 2 + (c - a) / 2 * np.sin(s) for a, c in segs])
    W = np.concatenate([(c - a) / 2 * np.cos(s) * np.pi / 2 * w for a, c in segs])
    R2 = (1 - y) * (1 + y)
    R = np.sqrt(np.maximum(R2, 0))
    X2 = (r - (y - b)) * (r + (y - b))
    T = np.arcsin(np.sqrt(np.clip(X2 / np.where(R2 > 0, R2, 1), 0, 1)))  # x = R sin(u), |u| <= T
    imax = max(i for i, _, _ in terms)
    un, uw = _gl(imax // 2 + 20)
    u = T[:, None] * (un + 1) / 2
    U = T[:, None] * uw / 2 * 2  # both signs of x
    su, cu = np.sin(u), np.cos(u)
    cache = {}
    for q, (i, j, k) in enumerate(terms):
        if i % 2:
            continue
        if (i, k) not in cache:
            cache[i, k] = (su**i * cu ** (1 + k) * U).sum(1) * R ** (i + 1 + k)
        res[q] = (cache[i, k] * y**j * W).sum()
    return res


def blocked_monomials_grad(terms, b, r, n=60):
    """derivatives of blocked_monomials with respect to b and r: integrals of the function
    over the arc of the occultor's limb inside the disk, times its normal velocity"""
    db, dr = np.zeros(len(terms)), np.zeros(len(terms))
    # angle from the direction of the star's centre (-y)
    if b <= abs(1 - r) if r < 1 else False:
        phi0 = np.pi
    elif b >= 1 + r or b <= r - 1:
        return db, dr
    else:
        c = (r * r + b * b - 1) / (2 * r * b)
        phi0 = np.arccos(np.clip(c, -1, 1))
    t, w = _gl(n)
    s = np.pi / 2 * t
    g = [0.0] + [0.5 * 0.25**q for q in range(8, -1, -1)]
    e = [v for v in g] + [1 - v for v in g[::-1][1:]]
    for a, c in zip(e[:-1], e[1:]):
        f = phi0 * ((a + c) / 2 + (c - a) / 2 * np.sin(s))
        W = phi0 * (c - a) / 2 * np.cos(s) * np.pi / 2 * w * r
        x, y = r * np.sin(f), b - r * np.cos(f)
        z = np.sqrt(np.maximum(0, 1 - x * x - y * y))
        for q, (i, j, k) in enumerate(terms):
            if i % 2:
                continue
            v = 2 * W * x**i * y**j * z**k
            dr[q] += v.sum()
            db[q] += (v * -np.cos(f)).sum()
    return db, dr


def poly_index(n):
    l = int(np.floor(np.sqrt(n)))
    m = n - l * l - l
    mu, nu = l - m, l + m
    return (mu // 2, nu // 2, 0) if nu % 2 == 0 else ((mu - 1) // 2, (nu - 1) // 2, 1)


def green_term(n):
    """{(i, j, k): coefficient} of the n-th Green's basis term, Luger et al. (2019) eq. 11"""
    l = int(np.floor(np.sqrt(n)))
    m = n - l * l - l
    mu, nu = l - m, l + m
    if nu % 2 == 0:
        return {(mu // 2, nu // 2, 0): (mu + 2) / 2}
    if l == 1 and m == 0:
        return {(0, 0, 1): 1.0}
    if mu == 1 and l % 2 == 0:
        return {(l - 2, 1, 1): 3.0}
    if mu == 1:
        return {(l - 3, 0, 1): -1.0, (l - 1, 0, 1): 1.0, (l - 3, 2, 1): 4.0}
    d = {}
    if mu != 3:
        d[((mu - 5) // 2, (nu - 1) // 2, 1)] = (mu - 3) / 2
        d[((mu - 5) // 2, (nu + 3) // 2, 1)] = -(mu - 3) / 2
    d[((mu - 1) // 2, (nu - 1) // 2, 1)] = -(mu + 3) / 2
    return d


def green_matrix(lmax):
    """terms, G such that Green integrals = G @ monomial integrals"""
    N = (lmax + 1) ** 2
    terms = sorted({t for n in range(N) for t in green_term(n)})
    G = np.zeros((N, len(terms)))
    for n in range(N):
        for t, c in green_term(n).items():
            G[n, terms.index(t)] = c
    return terms, G


# ---------------------------------------------------------------- surfaces on the sky
def rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])


def rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def surface_point(X, inc, obl, th, tz):
    """the point (in the frame of the coefficients) seen at sky direction X"""
    # undo the position angle: the projected map is turned clockwise... by theta_z
    S = rz(-tz) @ X
    # spin axis and the two equatorial directions on the sky
    n = np.array([-np.sin(obl) * np.sin(inc), np.cos(obl) * np.sin(inc), np.cos(inc)])
    # e1: the equatorial direction pointing right when the obliquity is zero; e2 = n x e1
    e1 = np.array([np.cos(obl), np.sin(obl), 0.0])
    e2 = np.cross(n, e1)
    sin_lat = n @ S
    a, b = e1 @ S, e2 @ S
    # rotation by theta carries the surface from e1 towards e2 (prograde about n)
    p = np.cos(th) * a + np.sin(th) * b
    q = -np.sin(th) * a + np.cos(th) * b
    # coefficients frame: pole y, e1 -> x, e2 -> away from the observer
    return np.stack([p, sin_lat, -q])


class Sky:
    """Integrates a function that is a polynomial of degree <= L on the sphere over the
    part of the visible hemisphere that a disk (radius r, centre (x, y)) leaves visible:
    the polynomial is recovered by interpolation on the sphere and its monomials are
    integrated directly."""

    def __init__(self, L):
        self.L = L
        N = (L + 1) ** 2
        self.terms = [poly_index(n) for n in range(N)]
        self.pts = sphere_points(max(60, 6 * N))
        x, y, z = self.pts
        self.inv = np.linalg.pinv(np.stack([x**i * y**j * z**k for i, j, k in self.terms], 1))
        self.tot = np.array([disk_monomial(*t) for t in self.terms])
        self._cache = {}

    def visible(self, b, r):
        key = (float(b), float(r))
        if key not in self._cache:
            self._cache[key] = self.tot - blocked_monomials(self.terms, *key)
        return self._cache[key]

    def weights(self, occ=None):
        """(points on the sky, weights): the integral of f is weights @ f(points)"""
        if occ is None:
            return self.pts, self.tot @ self.inv
        x, y, r = occ
        # points in the frame turned so that the occultor is on the +y axis
        return rz(-np.arctan2(x, y)) @ self.pts, self.visible(np.hypot(x, y), r) @ self.inv

    def flux(self, f, occ=None):
        p, w = self.weights(occ)
        return w @ f(p)


def limb_darkening(u, z):
    return np.ones_like(z) - sum(c * (1 - z) ** (i + 1) for i, c in enumerate(u))


def limb_darkening_norm(u):
    """pi / disk integral"""
    return 1 / (1 - sum(2 * c / ((i + 2) * (i + 3)) for i, c in enumerate(u)))


def sky_intensity(X, y, u=(), inc=0.0, obl=0.0, theta=0.0):
    """intensity of a map seen at sky directions X, limb darkened but not normalized"""
    y = np.asarray(y, float)
    L = int(round(np.sqrt(len(y)))) - 1
    P = surface_point(X, inc, obl, theta, 0.0)
    return real_sph(L, *P) @ y * 2 / np.sqrt(np.pi) * limb_darkening(u, X[2])
