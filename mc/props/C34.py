"""Results do not depend on earlier calls."""

import json
import os
import pickle
import subprocess
import sys

import numpy as np

LEVEL = "model_checking"
RULE = (
    "alphabet of 70 calls covering every entry point, in families of variants of one call (other degrees, orders, dtypes, "
    "bodies); every letter first in a fresh process, then every ordered pair of variants of the family (de Bruijn walk from "
    "each letter); words of all letters forwards, backwards and twice; the same with double precision enabled "
    "before import, after import, and after the calls had been made in single precision; a state is a call in its history, "
    "compared with the same call in a fresh process; arguments compared bit for bit before and after"
)
ASSUME = ["double precision may be switched on before or after importing the library, but not between building an object and using it"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env():
    repo = os.environ.get("VERIF_REPO", "/repo")
    e = {k: v for k, v in os.environ.items() if k != "JAX_ENABLE_X64"}
    if "VERIF_SCRATCH" in os.environ:
        # the processes share compiled code (keyed by the program), not values
        e.update(JAX_COMPILATION_CACHE_DIR=os.environ["VERIF_SCRATCH"], JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    return dict(e, JAX_PLATFORMS="cpu", PYTHONPATH=repo + "/src", VERIF_SRC=repo + "/src")


def listing():
    r = subprocess.run([sys.executable, HERE + "/hist.py", "list"], env=env(), capture_output=True, text=True, timeout=300)
    return json.loads(r.stdout)


def stem(a):
    return a.split("-")[0]


def execute(mode, word):
    from framework import HarnessError

    r = subprocess.run([sys.executable, HERE + "/hist.py"], input=json.dumps(dict(x64=mode, word=word)).encode(), env=env(), capture_output=True, timeout=850)
    if r.returncode:
        raise HarnessError(r.stderr.decode()[-3000:])
    return pickle.loads(r.stdout)


def pairs_from(letters, first):
    """a walk from `first` taking every ordered pair of letters once"""
    todo = {a: [b for b in letters[i:] + letters[:i]] for i, a in enumerate(letters)}
    stack, walk = [first], []
    while stack:
        if todo[stack[-1]]:
            stack.append(todo[stack[-1]].pop())
        else:
            walk.append(stack.pop())
    return walk[::-1]


def tasks(tier):
    fams, stems = {}, {}
    for a, f in LETTERS.items():
        fams.setdefault(f, []).append(a)
        stems.setdefault(stem(a), []).append(a)
    t = [dict(name="pairs-" + s, letters=v, cost=2 * len(v)) for s, v in stems.items() if len(v) > 1]
    modes = ("late",) if tier == "quick" else ("late", "toggle", "reverse", "twice", "off-twice")
    # families cut in slices, so that they take about the same time
    for m in modes:
        for f, v in fams.items():
            if f == "object" and m == "toggle":
                # objects keep the precision they were made in
                continue
            k = 1 + len(v) // 12
            for i in range(k):
                t.append(dict(name=f"{m}-{f}-{i}", mode=m, letters=v[i::k], cost=1.5 * len(v) / k))
    if tier == "quick":
        light = [v[-1] for k, v in stems.items() if k not in ("surf_lc", "sys_rv", "rv", "slc", "render", "spot", "s2fft", "omap", "osurf", "osys")]
        t.append(dict(name="toggle-some", mode="toggle", letters=light, cost=30))
    t += [dict(name="containers-" + c, case=c, cost=6) for c in CONTAINERS]
    return t


CONTAINERS = ("ylm", "pijk", "surface-u", "law-u", "bodies", "surface-bodies", "ttvs", "times", "labels")


def containers(case, task, ctx):
    """objects made from a list or dictionary keep the values it had then"""
    import copy
    import itertools

    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    from jaxoplanet.starry.orbit import SurfaceSystem

    T = np.array([-0.03, 0.0, 0.04])
    at = lambda f: np.array([np.ravel(f(t)) for t in (0.02, 2.15, 4.1)])  # noqa
    ttv = lambda **k: TTVOrbit(duration=np.array([0.2]), impact_param=np.array([0.1]), **k)  # noqa
    x = lambda o: at(lambda t: o.relative_position(t)[0].magnitude)  # noqa
    lc = lambda o: np.asarray(surface_light_curve(o, r=0.1, x=0.2, y=0.1, z=1.0))  # noqa
    first, make, use = dict(
        ylm=({(0, 0): 1.0, (1, 0): 0.3}, Ylm, lambda o: np.asarray(o.todense())),
        pijk=({(0, 0, 0): 1.0, (0, 1, 0): 0.3}, Pijk, lambda o: np.asarray(o.todense())),
        **{
            "surface-u": ([0.3, 0.2], lambda u: Surface(u=u), lc),
            "law-u": ([0.3, 0.2], lambda u: limb_dark_light_curve(TransitOrbit(period=2.0, duration=0.2, radius_ratio=0.1), u), lambda f: np.asarray(f(T))),
            "surface-bodies": ([(Body(period=1.0, radius=0.1), Surface())], lambda b: SurfaceSystem(Central(), Surface(), bodies=b), lambda s: np.asarray(light_curve(s)(T))),
        },
        bodies=([Body(period=1.0, radius=0.1)], lambda b: System(Central(), bodies=b), lambda s: np.asarray(s.relative_position(T)[0].magnitude)),
        ttvs=([np.array([0.1, 0.2, 0.3])], lambda v: ttv(period=np.array([2.0]), time_transit=np.array([0.0]), ttvs=v), x),
        times=([np.array([0.1, 2.2, 4.3])], lambda v: ttv(transit_times=v), x),
        labels=([np.array([0, 1, 3])], lambda v: ttv(transit_times=[np.array([0.1, 2.2, 6.3])], transit_inds=v), x),
    )[case]

    def change(c):
        if isinstance(c, dict):
            c[list(c)[0]] = 7.0
            if len(c) > 2:
                del c[list(c)[1]]
        else:
            c[0] = c[0] * 3 if not isinstance(c[0], (Body, tuple)) else (Body(period=2.0, radius=0.3) if case == "bodies" else (Body(period=2.0, radius=0.3), None))

    def grow(c):
        if isinstance(c, dict):
            c[(2, 0) if case == "ylm" else (2, 0, 0)] = 0.5
        else:
            c.append(c[0])

    want = np.asarray(use(make(copy.copy(first))))
    # the arrays of orbits with timing variations come one per planet; the word acts on the list
    for n in range(1, 4):
        for word in itertools.product("ucgm", repeat=n):
            c = copy.copy(first)
            o = make(c)
            for w in word + ("u",):
                if w == "u":
                    got = np.asarray(use(o))
                    ctx.check(got.shape == want.shape and np.array_equal(got, want), "container:" + case, word="".join(word), got=got.ravel()[:4].tolist(), want=want.ravel()[:4].tolist())
                elif w == "c":
                    change(c)
                elif w == "g":
                    grow(c)
                else:  # another object, from another container
                    c2 = copy.copy(first)
                    o2 = make(c2)
                    change(c2)
                    use(o2)
                ctx.count(transitions=1)
            ctx.count(states=1, traces=1)
    ctx.sample(dict(case=case, word="".join(word)))


OBJ = [
    *("omap-" + k for k in ("normalize", "dense", "product", "poly", "surface")),
    *(f"osurf-{k}-{o}" for k in ("flux", "velocity", "image") for o in ("surface", "raw")),
    *("osys-" + k for k in ("grow", "place", "transits", "times", "host", "host-grow")),
]
# filled from the code under test when the module is loaded in the lister
LETTERS = {
    "kepler-f8": "core", "kepler-f4": "core", "kepler-int": "core", "core-u2-o10": "core", "core-u2-o20": "core", "core-u3": "core",
    "core-r2": "core", "core-grad": "core",
    **{f"{s}-{k}": "orbit" for s in ("pos", "lc", "em") for k in ("a", "b", "ab", "aa")},
    "transit": "orbit", "transit-shift": "orbit", "ttv": "orbit", "expected": "orbit", "integrate": "orbit", "integrate-o0": "orbit", "interpolate": "orbit",
    **{f"{s}-{l}": "map" for s in ("A1", "rot", "s2fft", "rotmat", "sol") for l in (0, 2, 4)}, "sol-2-order40": "map",
    **{f"{s}-{k}": "map" for s in ("slc", "rv", "render") for k in ("1-0", "2-0", "2-2")},
    **{f"spot-{k}": "map" for k in ("2-0.3", "4-0.3", "4-0.5")},
    **{f"{s}-{l}": "alg" for s in ("ylm-mul", "pijk-mul", "ld-map") for l in (1, 2)}, "w3j-3": "alg", "w3j-5": "alg", "product-default": "alg",
    **{k: "object" for k in OBJ},
    "surf_lc-False": "system", "surf_lc-True": "system", "sys_rv-False": "system", "sys_rv-True": "system", "quantity": "system",
}


def run(task, ctx):
    def compare(got, want, key, tol, **d):
        a, r, mutated = got
        b, w, _ = want
        assert a == b
        ctx.count(states=1, transitions=1, traces=1)
        ctx.check(not mutated, "mutated:" + a, **d)
        if isinstance(r, str) or isinstance(w, str):
            ctx.check(r == w and not isinstance(w, str), f"{key}:{a}:raised", got=str(r)[:400], want=str(w)[:400], **d)
            return
        if not ctx.check(len(r) == len(w), f"{key}:{a}:structure", **d):
            return
        for x, y in zip(r, w):
            ctx.check(x.dtype == y.dtype, f"{key}:{a}:dtype", got=str(x.dtype), want=str(y.dtype), **d)
            if not ctx.check(x.shape == y.shape, f"{key}:{a}:shape", got=x.shape, want=y.shape, **d):
                continue
            scale = 1 + (np.nanmax(np.abs(y)) if y.size and np.isfinite(y).any() else 0)
            ctx.close(x, y, f"{key}:{a}", tol=tol * scale, detail=d)

    if "case" in task:
        return containers(task["case"], task, ctx)
    letters = task["letters"]
    if task["name"].startswith("pairs"):
        # quick: each call first, then all the others and itself again
        short = ctx.tier == "quick" and stem(letters[0]) in ("osurf", "osys")
        walks = [execute("start", letters[i:] + letters[: i + 1] if short else pairs_from(letters, a)) for i, a in enumerate(letters)]
        fresh = {w[0][0]: w[0] for w in walks}
        for w in walks:
            for i, g in enumerate(w):
                compare(g, fresh[g[0]], "pairs", 1e-12, history=[x[0] for x in w[max(0, i - 6) : i]])
        ctx.sample(dict(word=[x[0] for x in walks[0]][:8]))
        return
    m, n = task["mode"], len(letters)
    ref = execute("off" if m.startswith("off") else "start", letters)
    if m == "late":
        got = execute("late", letters)
    elif m == "toggle":
        got = execute("off", letters + ["!x64"] + letters)[n:]
    elif m == "reverse":
        got = execute("start", letters[::-1])[::-1]
    elif m == "twice":
        got = execute("start", letters + letters)[n:]
    else:
        got = execute("off", letters + letters)[n:]
    for g, w in zip(got, ref):
        compare(g, w, m, 1e-12 if not m.startswith("off") else 1e-6, word=m)
    ctx.sample(dict(mode=m, word=letters[:6]))
