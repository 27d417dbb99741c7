"""Angular-momentum coupling coefficients."""

import itertools
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np

LEVEL = "model_checking"
RULE = (
    "every (j1, j2, j3, m1, m2, m3) with j2, j3 up to the bound, allowed or not, against the exact "
    "rational Racah sum; every ordered pair of calls (quick: j <= 3, thorough: j <= 4) on one shared "
    "calculator compared with a fresh one (call history); orthogonality for large quantum numbers"
)
ASSUME = ["integer quantum numbers", "the array returned by a calculator is read before the next call, as documented"]


def tasks(tier):
    J = 13 if tier == "quick" else 24
    t = [dict(name=f"exact-{j}", j2=j, J=J, cost=2 + j) for j in range(J + 1)]
    t += [dict(name=f"functions-{j}", j1=j, J=4 if tier == "quick" else 6, cost=3) for j in range(5 if tier == "quick" else 7)]
    t += [dict(name=f"history-{i}", part=i, of=8, J=3 if tier == "quick" else 4, cost=4) for i in range(8)]
    t += [dict(name=f"large-{j}", j=j, cost=6) for j in ([20, 40] if tier == "quick" else [20, 30, 40, 60, 80])]
    return t


@lru_cache(None)
def fact(n):
    return math.factorial(n)


def exact(j1, j2, j3, m1, m2, m3):
    """3j symbol as sign * sqrt(rational): returns float of the exact value"""
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0.0
    s = 0
    for t in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        s += Fraction((-1) ** t, fact(t) * fact(j3 - j2 + t + m1) * fact(j3 - j1 + t - m2) * fact(j1 + j2 - j3 - t) * fact(j1 - t - m1) * fact(j2 - t + m2))
    if s == 0:
        return 0.0
    tri = Fraction(fact(j1 + j2 - j3) * fact(j1 - j2 + j3) * fact(-j1 + j2 + j3), fact(j1 + j2 + j3 + 1))
    pre = tri * fact(j1 + m1) * fact(j1 - m1) * fact(j2 + m2) * fact(j2 - m2) * fact(j3 + m3) * fact(j3 - m3)
    sq = pre * s * s
    return (-1) ** (j1 - j2 - m3) * math.copysign(math.sqrt(sq.numerator / sq.denominator) if sq.denominator < 10**300 else math.sqrt(float(sq)), s)


def run(task, ctx):
    from jaxoplanet.starry.core.wigner3j import Wigner3j, Wigner3jCalculator, clebsch_gordan

    name = task["name"]
    if name.startswith("exact"):
        j2, J = task["j2"], task["J"]
        calc = Wigner3jCalculator(J, J)
        for j3 in range(J + 1):
            small = Wigner3jCalculator(j2, j3)
            for m2 in range(-j2 - 1, j2 + 2):
                for m3 in range(-j3 - 1, j3 + 2):
                    want = np.array([exact(j1, j2, j3, -m2 - m3, m2, m3) for j1 in range(j2 + j3 + 1)])
                    got = np.array(calc.calculate(j2, j3, m2, m3))
                    d = dict(j2=j2, j3=j3, m2=m2, m3=m3)
                    ctx.close(got[: j2 + j3 + 1], want, "calculate", tol=1e-13, detail=d)
                    ctx.check(not got[j2 + j3 + 1 :].any(), "calculate:beyond", **d)
                    ctx.close(np.array(small.calculate(j2, j3, m2, m3)), want, "calculate-tight", tol=1e-13, detail=d)
                    ctx.check(calc.size == 2 * J + 1, "size")
                    ctx.count(states=1, traces=j2 + j3 + 1, transitions=2)
        ctx.sample(d)
    elif name.startswith("functions"):
        j1, J = task["j1"], task["J"]
        for j2, j3 in itertools.product(range(J + 1), repeat=2):
            for m1 in range(-j1 - 1, j1 + 2):
                for m2 in range(-j2 - 1, j2 + 2):
                    for m3 in range(-j3 - 1, j3 + 2):
                        a = (j1, j2, j3, m1, m2, m3)
                        w = exact(*a)
                        ctx.close(float(Wigner3j(*a)), w, "Wigner3j", tol=1e-13, detail=dict(args=a))
                        cg = (-1.0) ** (j1 - j2 + m3) * math.sqrt(2 * j3 + 1) * exact(j1, j2, j3, m1, m2, -m3)
                        ctx.close(float(clebsch_gordan(j1, m1, j2, m2, j3, m3)), cg, "clebsch_gordan", tol=1e-13, detail=dict(args=a))
                        ctx.count(states=1, traces=2, transitions=2)
        ctx.sample(dict(args=a))
    elif name.startswith("history"):
        J = task["J"]
        calls = [(j2, j3, m2, m3) for j2 in range(J + 1) for j3 in range(J + 1) for m2 in range(-j2 - 1, j2 + 2) for m3 in range(-j3 - 1, j3 + 2)]
        want = [np.array([exact(j1, j2, j3, -m2 - m3, m2, m3) for j1 in range(2 * J + 1)]) for j2, j3, m2, m3 in calls]
        shared = Wigner3jCalculator(J, J)
        for i in range(task["part"], len(calls), task["of"]):
            for k in range(len(calls)):
                shared.calculate(*calls[i])
                got = shared.calculate(*calls[k])
                if np.abs(got - want[k]).max() > 1e-13:
                    ctx.violation("history", first=calls[i], second=calls[k], got=got.tolist(), want=want[k].tolist())
                ctx.count(transitions=1, traces=1)
            ctx.count(states=1)
        ctx.sample(dict(first=calls[i], second=calls[k]))
    else:
        j = task["j"]
        for j2, j3 in [(j, j), (j, j // 2), (j, 3), (j // 2, j)]:
            calc = Wigner3jCalculator(j2, j3)
            step = max(1, j // 6)
            for M in range(0, j2 + j3 + 1, step):
                # orthogonality in j1 for all pairs (m2, m3) with sum M
                rows = []
                for m2 in range(max(-j2, M - j3), min(j2, M + j3) + 1):
                    rows.append(np.array(calc.calculate(j2, j3, m2, M - m2)) * np.sqrt(2 * np.arange(j2 + j3 + 1) + 1))
                R = np.array(rows)
                ctx.close(R @ R.T, np.eye(len(R)), "orthogonality", tol=1e-11, detail=dict(j2=j2, j3=j3, M=M))
                ctx.count(states=len(R), traces=len(R), transitions=len(R))
                for m2 in list(range(max(-j2, M - j3), min(j2, M + j3) + 1))[:: max(1, j // 3)]:
                    got = np.array(calc.calculate(j2, j3, m2, M - m2))
                    w = np.array([exact(j1, j2, j3, -M, m2, M - m2) for j1 in range(j2 + j3 + 1)])
                    ctx.close(got, w, "large", tol=1e-12, detail=dict(j2=j2, j3=j3, m2=m2, m3=M - m2))
                    ctx.count(states=1, traces=1, transitions=1)
        ctx.sample(dict(j=j))
