"""Independence of results from the units used; physical constants."""

import itertools

import numpy as np

LEVEL = "model_checking"
RULE = (
    "breadth-first over unit choices: a state is an assignment of a unit (or bare) to every "
    "argument of a base specification, a transition re-expresses one argument in another "
    "unit; every state within 2 (quick) or 3 (thorough) transitions is built and all its "
    "observables and output units compared with the all-bare state; plus every named "
    "constant, unit alias and pair ratio against the IAU/CODATA values"
)
ASSUME = ["IAU 2015 nominal and CODATA 2018 values"]

MASS = ["bare", "M_sun", "kg", "g", "M_earth", "M_jup", "solar_mass"]
LEN = ["bare", "R_sun", "km", "m", "au", "R_earth", "R_jup", "cm"]
TIME = ["bare", "day", "hour", "minute", "s", "year"]
ANG = ["bare", "radian", "degree", "arcminute", "arcsec"]
DENS = ["bare", "M_sun/R_sun**3", "g/cm**3", "kg/m**3", "M_jup/R_jup**3"]
VEL = ["bare", "R_sun/day", "m/s", "km/s", "au/year"]
PAR = ["bare", "arcsec", "milliarcsecond", "degree", "radian"]
DIM = ["bare", "dimensionless", "percent", "km/m"]
NATIVE = dict(mass="M_sun", radius="R_sun", density="M_sun/R_sun**3", period="day", semimajor="R_sun", time_transit="day", time_peri="day",
              inclination="radian", omega_peri="radian", asc_node="radian", radial_velocity_semiamplitude="R_sun/day", parallax="arcsec", t="day",
              impact_param="dimensionless", eccentricity="dimensionless", sin_omega_peri="dimensionless", cos_omega_peri="dimensionless",
              sin_asc_node="dimensionless", cos_asc_node="dimensionless", duration="day", speed="1/day", radius_ratio="dimensionless", body_mass="M_sun")
MENU = dict(M_sun=MASS, R_sun=LEN, day=TIME, radian=ANG, arcsec=PAR, dimensionless=DIM)
MENU["M_sun/R_sun**3"] = DENS
MENU["R_sun/day"] = VEL
MENU["1/day"] = ["bare", "1/day", "1/hour", "1/s"]

# (central kwargs, body kwargs); angles in radians, everything in native units
BASES = [
    (dict(mass=1.1, radius=0.9), dict(period=3.0, time_transit=0.4, mass=0.05, radius=0.1, inclination=1.52, eccentricity=0.2, omega_peri=0.7, asc_node=0.3)),
    (dict(radius=1.3, density=0.4), dict(semimajor=9.0, time_peri=-1.0, radius=0.2, impact_param=0.3, eccentricity=0.5, sin_omega_peri=0.6, cos_omega_peri=-0.8, sin_asc_node=0.28, cos_asc_node=0.96, mass=0.3)),
    (dict(mass=0.7, density=1.5), dict(period=20.0, mass=0.01, radius=0.3, impact_param=0.1, parallax=0.05)),
    (dict(mass=1.0, radius=1.0), dict(period=3.0, time_transit=0.4, mass=0.05, radius=0.1, inclination=1.5, eccentricity=0.2, omega_peri=0.7, radial_velocity_semiamplitude=0.04)),
]


def tasks(tier):
    t = [dict(name=f"keplerian-{i}-{j}", base=i, part=j, of=(4 if tier == "thorough" else 2), cost=4) for i in range(len(BASES)) for j in range(4 if tier == "thorough" else 2)]
    return t + [dict(name="transit"), dict(name="from-orbit"), dict(name="constants"), dict(name="aliases"), dict(name="time")]


CONST = dict(
    AU=1.49597870700e11, G=6.67430e-11, parsec=1.49597870700e11 * 648000 / np.pi, L_sun=3.828e26, GM_sun=1.3271244e20, R_sun=6.957e8, R_jupiter=7.1492e7,
    R_earth=6.3781e6, GM_jupiter=1.2668653e17, GM_earth=3.986004e14, M_sun=1.3271244e20 / 6.67430e-11, M_jupiter=1.2668653e17 / 6.67430e-11,
    M_earth=3.986004e14 / 6.67430e-11, L_bol0=3.0128e28, day=86400.0, hour=3600.0, year=365.25 * 86400, degree=np.pi / 180, arcsec=np.pi / 648000, arcminute=np.pi / 10800,
)
DIMS = dict(AU="m", G="m^3/kg/s^2", parsec="m", L_sun="W", GM_sun="m^3/s^2", R_sun="m", R_jupiter="m", R_earth="m", GM_jupiter="m^3/s^2", GM_earth="m^3/s^2",
            M_sun="kg", M_jupiter="kg", M_earth="kg", L_bol0="W", day="s", hour="s", year="s", degree="radian", arcsec="radian", arcminute="radian")
ALIAS = dict(AU=["au", "astronomical_unit"], G=["gravitational_constant"], parsec=["pc"], L_sun=["L_solar", "solar_luminosity"], GM_sun=["GM_solar", "solar_mass_parameter"],
             M_sun=["M_solar", "solar_mass"], R_sun=["R_solar", "solar_radius"], GM_jupiter=["GM_jup", "jupiter_mass_parameter"], M_jupiter=["M_jup", "jupiter_mass"],
             R_jupiter=["R_jup", "jupiter_radius"], GM_earth=["earth_mass_parameter"], M_earth=["earth_mass"], R_earth=["earth_radius"], day=["d"], degree=["deg"])
EXT = dict(kg=1.0, g=1e-3, m=1.0, km=1e3, cm=1e-2, s=1.0, minute=60.0, radian=1.0, dimensionless=1.0, percent=0.01, milliarcsecond=np.pi / 648000e3,
           M_jup=CONST["M_jupiter"], R_jup=CONST["R_jupiter"], au=CONST["AU"], solar_mass=CONST["M_sun"], **CONST)


def si(unit):
    """SI value of a unit expression built from EXT names"""
    return eval(unit, {"__builtins__": {}}, EXT) if unit != "1" else 1.0


def run(task, ctx):
    import jax.numpy as jnp
    from framework import deviations, is_quantity, mag
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg

    name = task["name"]

    def express(arg, value, unit):
        if unit == "bare":
            return value
        return ureg.Quantity(value * si(NATIVE[arg]) / si(unit), unit)

    T = np.array([0.3, 1.7, -4.2, 0.41])
    OUT = dict(time_ref="day", time_transit="day", time_peri="day", period="day", semimajor="R_sun", sin_inclination="dimensionless", cos_inclination="dimensionless",
               inclination="radian", impact_param="dimensionless", mass="M_sun", radius="R_sun", central_radius="R_sun", eccentricity="dimensionless", omega_peri="radian",
               sin_omega_peri="dimensionless", total_mass="M_sun", sin_asc_node="dimensionless", parallax="arcsec", radial_velocity_semiamplitude="R_sun/day")

    def observe(o, t, parallax):
        import jax

        obs = {}
        for k, u in OUT.items():
            v = getattr(o, k)
            if v is None:
                continue
            ctx.check(is_quantity(v) and v.units == ureg.Quantity(1.0, u).units, "unit:" + k, got=str(getattr(v, "units", None)))
            obs[k] = v.magnitude
        for k in ("mass", "radius", "density"):
            v = getattr(o.central, k)
            obs["c_" + k] = v.magnitude
            ctx.check(v.units == ureg.Quantity(1.0, NATIVE[k]).units, "unit:central." + k)
        pos = "arcsec" if parallax else "R_sun"
        vel = "arcsec/day" if parallax else "R_sun/day"
        for k, u in (("position", pos), ("central_position", pos), ("relative_position", pos), ("velocity", vel), ("central_velocity", vel), ("relative_velocity", vel)):
            q = getattr(o, k)(t)
            for i, v in enumerate(q):
                ctx.check(is_quantity(v) and v.units == ureg.Quantity(1.0, u).units, "unit:" + k, got=str(getattr(v, "units", None)), want=u)
                obs[f"{k}{i}"] = v.magnitude
        q = o.radial_velocity(t)
        ctx.check(q.units == ureg.Quantity(1.0, vel).units, "unit:radial_velocity", got=str(q.units))
        obs["rv"] = q.magnitude
        rho, th = o.relative_angles(t)
        ctx.check(rho.units == ureg.Quantity(1.0, pos).units and th.units == ureg.radian, "unit:relative_angles", got=(str(rho.units), str(th.units)))
        obs["rho"], obs["cos"], obs["sin"] = rho.magnitude, jnp.cos(th.magnitude), jnp.sin(th.magnitude)
        if not parallax:
            obs["lc"] = limb_dark_light_curve(o, 0.3, 0.2)(t)
        return {k: np.asarray(v) for k, v in obs.items()}

    if name.startswith("keplerian"):
        cent, body = BASES[task["base"]]
        args = [("c", k, v) for k, v in cent.items()] + [("b", k, v) for k, v in body.items()] + [("t", "t", T)]
        menus = {(w, k): MENU[NATIVE[k]] for w, k, _ in args}
        configs, ntr = deviations({}, menus, 1 if ctx.tier == "quick" else 2)
        base = None
        # pairs: every pair of arguments takes a rotating pair of units (all pairs in thorough)
        if ctx.tier == "quick":
            d0 = {k: m[0] for k, m in menus.items()}
            n = 0
            for a, b in itertools.combinations(menus, 2):
                for s in range(2):
                    n += 1
                    c = dict(d0)
                    c[a], c[b] = menus[a][1 + (n + s) % (len(menus[a]) - 1)], menus[b][1 + (n * 3 + s) % (len(menus[b]) - 1)]
                    configs.append(c)
                    ntr += 1
            for s in range(8):  # everything at once
                configs.append({k: m[1 + (i * 5 + s) % (len(m) - 1)] for i, (k, m) in enumerate(menus.items())})
        for i, c in enumerate(configs):
            if i and i % task["of"] != task["part"]:
                continue
            kw = {"c": {}, "b": {}, "t": {}}
            for w, k, v in args:
                kw[w][k] = express(k, v, c[(w, k)])
            o = OrbitalBody(Central(**kw["c"]), Body(**kw["b"]))
            obs = observe(o, kw["t"]["t"], "parallax" in body)
            if base is None:
                base = obs
            for k in base:
                ctx.close(obs[k], base[k], "invariance:" + k, tol=1e-10 * (1 + np.abs(base[k]).max()) * (30 if k in ("inclination", "lc") else 1), detail=dict(units={f"{a}.{b}": u for (a, b), u in c.items() if u != "bare"}))
            ctx.count(states=1, transitions=ntr if not i and not task["part"] else 0, traces=1)
        ctx.sample({f"{a}.{b}": u for (a, b), u in c.items()})
    elif name == "transit":
        full = dict(period=3.0, duration=0.2, time_transit=0.4, impact_param=0.3, radius_ratio=0.1)
        for sp in (False, True):
            kw0 = dict(full)
            if sp:
                kw0.pop("duration")
                kw0["speed"] = 9.0
            menus = {k: MENU[NATIVE[k]] for k in kw0}
            menus["t"] = TIME
            T = np.array([0.31, 1.7, -4.23, 0.41])  # away from the window edges, where rounding decides
            configs, ntr = deviations({}, menus, 2)
            base = None
            for c in configs:
                o = TransitOrbit(**{k: express(k, v, c[k]) for k, v in kw0.items()})
                t = express("t", T, c["t"])
                x, y, z = o.relative_position(t)
                ctx.check(o.period.units == ureg.day and o.duration.units == ureg.day and o.speed.units == 1 / ureg.day and o.time_transit.units == ureg.day, "unit:transit")
                obs = dict(x=mag(x, ""), y=mag(y, ""), z=np.sign(mag(z, "")), P=o.period.magnitude, D=mag(o.duration, "day"), v=mag(o.speed, "1/day"), r=o.radius.magnitude)
                base = base or obs
                for k in base:
                    ctx.close(obs[k], base[k], "transit:" + k, tol=1e-9, detail=dict(units=c))
                ctx.count(states=1, traces=1)
            ctx.count(transitions=ntr)
        ctx.sample(c)
    elif name == "from-orbit":
        kw0 = dict(period=3.0, semimajor=8.5, radius=1.2, body_mass=0.1)
        menus = {k: MENU[NATIVE[k]] for k in kw0}
        configs, ntr = deviations({}, menus, 3)
        from oracles import GRAV

        for c in configs:
            s = Central.from_orbital_properties(**{k: express(k, v, c[k]) for k, v in kw0.items()})
            m = 4 * np.pi**2 * 8.5**3 / (GRAV * 9) - 0.1
            ctx.close(mag(s.mass), m, "from-orbit:mass", tol=1e-9, detail=c)
            ctx.close(mag(s.radius), 1.2, "from-orbit:radius", tol=1e-12, detail=c)
            ctx.close(mag(s.density), m / (4 / 3 * np.pi * 1.2**3), "from-orbit:density", tol=1e-9, detail=c)
            ctx.count(states=1, traces=1)
        ctx.count(transitions=ntr)
        ctx.sample(c)
    elif name == "time":
        # the time argument of every function, scalar and array, every unit
        s = System(Central()).add_body(period=3.0, radius=0.1, mass=0.01, impact_param=0.1).add_body(period=5.0, radius=0.2, mass=0.02, time_transit=1.0)
        lc = limb_dark_light_curve(s, 0.3)
        for t in (0.02, 1.01, np.array([0.0, 0.03, 1.02, -9.0])):
            base = None
            for u in TIME + ["week", "us"]:
                q = t if u == "bare" else ureg.Quantity(t * 86400.0 / (604800.0 if u == "week" else 1e-6 if u == "us" else si(u)), u)
                obs = [mag(v) for f in ("position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity") for v in getattr(s, f)(q)]
                obs += [mag(s.radial_velocity(q)), np.asarray(lc(q))]
                base = base or obs
                for i, (a, b) in enumerate(zip(obs, base)):
                    ctx.close(a, b, f"time:{i}", tol=1e-8, detail=dict(u=u))
                ctx.count(states=1, traces=1, transitions=1)
        ctx.sample("weeks and microseconds")
    elif name == "constants":
        for k, v in CONST.items():
            q = ureg.Quantity(1.0, k).to(DIMS[k])
            ctx.close(q.magnitude, v, "constant:" + k, rtol=1e-10, tol=0)
            q = (1.0 * getattr(ureg, k)).to(DIMS[k])
            ctx.close(q.magnitude, v, "constant:" + k, rtol=1e-10, tol=0)
            q = ureg.Quantity(v, DIMS[k]).to(k)
            ctx.close(q.magnitude, 1.0, "inverse:" + k, rtol=1e-10, tol=0)
            ctx.count(states=3, traces=3)
        for a, b in itertools.permutations(CONST, 2):
            if DIMS[a] == DIMS[b]:
                ctx.close(ureg.Quantity(1.0, a).to(b).magnitude, CONST[a] / CONST[b], f"ratio:{a}:{b}", rtol=1e-10, tol=0)
                ctx.count(states=1, traces=1)
        for b in ("sun", "jupiter", "earth"):
            ctx.close((ureg.Quantity(1.0, "gravitational_constant") * ureg.Quantity(1.0, f"M_{b}")).to("m^3/s^2").magnitude, CONST[f"GM_{b}"], "GM:" + b, rtol=1e-10, tol=0)
        # absolute, published to the stated digits
        ctx.close(ureg.Quantity(1.0, "M_sun").to("kg").magnitude, 1.98841e30, "published", rtol=1e-5)
        ctx.close(ureg.Quantity(1.0, "M_earth").to("kg").magnitude, 5.97217e24, "published", rtol=1e-5)
        ctx.close(ureg.Quantity(1.0, "M_jupiter").to("kg").magnitude, 1.898125e27, "published", rtol=1e-5)
        ctx.close(ureg.Quantity(1.0, "pc").to("m").magnitude, 3.0856775814913673e16, "published", rtol=1e-9)
        # Kepler's third law of the Earth
        s = System(Central()).add_body(period=365.25636)
        ctx.close(mag(s.bodies[0].semimajor, "au"), 1.0, "earth", tol=2e-5)
        ctx.sample("GM of Jupiter")
    else:
        for k, al in ALIAS.items():
            for a in al:
                ctx.close(ureg.Quantity(1.0, a).to(k).magnitude, 1.0, f"alias:{a}", rtol=1e-10, tol=0)
                ctx.check(str(ureg.Quantity(1.0, a).units) == str(ureg.Quantity(1.0, k).units), f"alias-name:{a}")
                ctx.count(states=1, traces=1)
        for p, f in (("k", 1e3), ("m", 1e-3), ("M", 1e6)):
            ctx.close(ureg.Quantity(1.0, p + "pc").to("pc").magnitude, f, "prefix", rtol=1e-10, tol=0)
        ctx.sample("jupiter_mass")
