"""The properties: one record per line of properties.jsonl (see gen.py)."""

S = "src/jaxoplanet/"


def P(id, title, statement, over, quantifier, why, files, mechanism, technique, note, state=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quantifier), why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
            **({"state": state} if state else {}),
        ),
        technique=technique, note=note,
    )


GRID = "bounded exhaustive enumeration of inputs on the real code against an independent reference"
BFS = "breadth-first exploration of configurations / operation histories on the real code against a reference model"
SCHED = "exhaustive exploration of bounded-preemption thread schedules on the real code under a controlled scheduler"

PROPS = [
    P("C01", "Kepler's equation is solved to machine precision for every orbit",
      "For every mean anomaly (any sign, any number of turns) and every eccentricity 0 <= e < 1 the solver returns the sine and cosine of the true anomaly that satisfy Kepler's equation, accurate to rounding. The pair always has unit norm, is 2 pi periodic in the mean anomaly, is odd/even under its reflection, and is the identity at e = 0.",
      ["inputs"], "all mean anomalies and eccentricities, double and single precision, scalar/array/broadcast shapes, under jit and vmap",
      "Tests compare a handful of eccentricities on one uniform grid of anomalies; the starter and the refinement have regimes (e near 1, M near 0, pi, multiples of 2 pi) a uniform grid steps over.",
      ["core/kepler.py"], [("starter + third-order refinement", "core/kepler.py kepler"), ("range reduction to [0, pi]", "core/kepler.py kepler")],
      GRID, "exhaustive over the declared grid; reference is a long-double bisection/Newton solve"),
    P("C02", "Derivatives of the Kepler solver are the analytic derivatives everywhere",
      "First and second derivatives of the solver's output with respect to mean anomaly and eccentricity, in forward and reverse mode and under jit and vmap, equal the implicit derivatives of Kepler's equation for every mean anomaly and 0 <= e < 1. They are finite at e = 0 and at every multiple of pi.",
      ["inputs", "programs"], "all anomalies and eccentricities x every differentiation transform",
      "Tests differentiate at a few generic points; special points (e = 0, M = k pi) and composed transforms are where custom derivative rules break.",
      ["core/kepler.py"], [("custom JVP rule", "core/kepler.py kepler")], GRID, "closed-form derivatives evaluated in long double"),
    P("C03", "Limb-darkened flux is the exact visible flux of the darkened disk",
      "For any polynomial limb-darkening coefficients, any impact parameter (either sign) and any radius ratio, the light curve function returns the visible fraction of the limb-darkened disk's flux minus one, to the accuracy of the quadrature order. It is exactly 0 when the disks do not overlap, -1 when the star is completely hidden, and even in the impact parameter.",
      ["inputs"], "all coefficient vectors (including none), impact parameters and radius ratios in every overlap regime incl. each contact, every quadrature order",
      "Tests sample a few r < 1 cases against stored series; they do not enumerate the piecewise regimes (r >= 1, contacts, b = 0, b = r, b = 1, b = 1 - r) nor the number of coefficients.",
      ["core/limb_dark.py"], [("solution vector s0, s2, P integrals", "core/limb_dark.py solution_vector"), ("Green's basis transform", "core/limb_dark.py greens_basis_transform"), ("contact angles", "core/limb_dark.py kappas")],
      GRID, "reference: radial integration of the visible flux in double precision (1e-15)"),
    P("C04", "Gradients of the limb-darkened flux are finite and correct everywhere",
      "The derivatives of the limb-darkened flux with respect to impact parameter, radius ratio and every coefficient are finite for every configuration including contacts, b = 0, and disjoint or fully eclipsed disks, in forward and reverse mode. Away from the contacts they equal the line integral of the surface brightness along the occulting limb (and its coefficient analogue).",
      ["inputs", "programs"], "all coefficients, impact parameters, radius ratios, both differentiation modes",
      "A NaN hides at single configurations (exact contacts, zeros of square roots) which a sampled gradient test never hits.",
      ["core/limb_dark.py", "utils.py"], [("zero_safe_sqrt / guarded where branches", "core/limb_dark.py"), ("zero_safe_* JVPs", "utils.py")],
      GRID, "reference: Leibniz line integral; contact-adjacent points checked for finiteness only"),
    P("C05", "A central body's mass, radius and density always agree",
      "Whatever combination of mass, radius and density a central body is built from, in whatever units, its three attributes satisfy density = 3 M / (4 pi R^3), the given values are kept, missing information defaults to one solar radius (and one solar mass), and ill-posed combinations are refused with an error. Built from an orbit, its mass satisfies Kepler's third law together with the companion's mass.",
      ["inputs", "configurations"], "all subsets of given parameters x units x magnitudes",
      "Tests cover a few of the combinations with one unit each.",
      ["orbits/keplerian.py"], [("Central.__init__", "orbits/keplerian.py"), ("Central.from_orbital_properties", "orbits/keplerian.py")],
      BFS, "every subset of given arguments x value/unit menus"),
    P("C06", "A body accepts exactly the consistent sets of orbital parameters",
      "A body can be created exactly when its parameters are consistent: one and only one of period and semi-major axis, at most one of impact parameter and inclination, at most one of transit and periastron time, an angle or its sine and cosine together but never both, eccentricity together with an argument of periastron, and only scalars. Every other combination raises a ValueError.",
      ["configurations"], "all 2^n subsets of the optional parameters, plus non-scalar values for each",
      "The rule is a predicate over 2^17 argument subsets; tests try about ten.",
      ["orbits/keplerian.py"], [("Body.__check_init__", "orbits/keplerian.py")],
      "exhaustive enumeration of argument subsets on the real constructor against a decision table", "all subsets of the 13 interacting arguments"),
    P("C07", "Equivalent parametrizations of an orbit describe the same orbit",
      "The orbit does not depend on how it was specified: period or semi-major axis, impact parameter or inclination, transit time or periastron time, angles or their sines and cosines, circular or e = 0, any supported units, body added directly or through the system give the same derived parameters and the same positions and velocities. The derived parameters satisfy Kepler's third law with the total mass, the impact parameter is the sky separation at mid transit in stellar radii, and the derived angles return the values given.",
      ["inputs", "configurations"], "all parametrizations x element values",
      "Each test fixes one parametrization; agreement is a relation between all of them.",
      ["orbits/keplerian.py"], [("OrbitalBody.__init__", "orbits/keplerian.py")], BFS,
      "breadth-first over re-specifications of a base orbit; all observables compared"),
    P("C08", "Positions obey the two-body geometry at every time",
      "At every time and for every set of elements the body's position relative to the star is the Keplerian ellipse seen under inclination, argument of periastron and node (z towards the observer, so the body is in front at the transit time), and it repeats every period. Body and star positions are the mass-weighted split of it about a fixed barycentre, and with a parallax the same vector in arcseconds; separation and position angle are its polar form.",
      ["inputs"], "all elements, masses and times (before, after, many periods away)",
      "Tests compare with stored arrays for a few elements and one node/parallax value.",
      ["orbits/keplerian.py"], [("OrbitalBody._get_position_and_velocity", "orbits/keplerian.py"), ("OrbitalBody._rotate_vector", "orbits/keplerian.py")],
      GRID, "reference: independent long-double two-body solution"),
    P("C09", "Velocities are the time derivatives of positions",
      "For every orbit and time, the body's, the star's and the relative velocity equal the time derivative of the corresponding position, momentum is conserved, and the radial velocity is minus the star's velocity towards the observer. When a radial-velocity semi-amplitude is given instead of masses, the star's radial velocity has exactly that semi-amplitude whatever the inclination, the velocities keep the mass-ratio relations, and a unitless semi-amplitude gives unitless velocities.",
      ["inputs", "configurations"], "all elements, masses, times, and the ways a semi-amplitude can be given",
      "Tests check the derivative for one orbit family; the semi-amplitude paths are untested for body and relative velocities.",
      ["orbits/keplerian.py"], [("OrbitalBody._get_position_and_velocity", "orbits/keplerian.py")],
      GRID, "reference: derivative of the independent two-body solution"),
    P("C10", "A system evaluates each of its bodies as if it were alone, in order",
      "After any sequence of adding bodies (as parameters, as bodies, with their own central), every system-level quantity is the stack, in order of addition, of the quantity computed for each body on its own, whether or not the bodies have the same set of parameters. Adding a body never changes the system it was added to, and mapping a function over the bodies follows the axis semantics of vmap for every input and output axis specification.",
      ["histories", "configurations"], "all histories of adds over a body alphabet x all axis specifications",
      "Tests use one homogeneous and one heterogeneous pair with non-negative axes.",
      ["orbits/keplerian.py", "object_stack.py"], [("ObjectStack.vmap", "object_stack.py"), ("System.add_body / body_vmap", "orbits/keplerian.py")],
      BFS, "BFS over add histories; per-body evaluation as the model",
      state=[dict(name="_body_stack", meaning="ordered bodies, stacked leaves when homogeneous", where=S + "object_stack.py")]),
    P("C11", "A transit orbit crosses the disk with the stated timing",
      "A transit orbit crosses the star in a straight line at the given impact parameter and constant speed, centred on each transit time, with first and last contact separated by exactly the given duration (or the duration implied by the speed), repeating with the period. Away from the transits the body is behind the star, and a specification with neither duration nor speed, without a period, or with arguments of the wrong dimension is refused.",
      ["inputs", "configurations"], "all periods, durations or speeds, impact parameters, radius ratios, numbers of planets and times",
      "Tests check a single duration/impact pair.",
      ["orbits/transit.py"], [("TransitOrbit", "orbits/transit.py")], GRID,
      "contact points located from the analytic chord, all parametrizations enumerated"),
    P("C12", "A TTV orbit places every transit at its stated time",
      "For transit times or timing offsets given per planet (with any labels, gaps and numbers of transits), the warped orbit has its mid-transit exactly at each listed time with the unperturbed transit shape around it. The derived ephemeris reproduces the times: times = t0 + period * index + ttv; offsets and times are interchangeable descriptions, and outside the listed window the nearest transit's shift applies.",
      ["inputs", "histories"], "all small sets of transit times/offsets, labels and planets, all times in and around the window",
      "The module has no tests.",
      ["orbits/ttv.py"], [("TTVOrbit", "orbits/ttv.py"), ("time warping bins", "orbits/ttv.py _warp_times")], BFS,
      "all offset patterns over a small alphabet, 1-3 planets, against an explicit nearest-transit model"),
    P("C13", "Expected transit times are complete and exact",
      "For any window, period and epoch, the expected transit times of each planet are exactly the times epoch + k * period (k any integer) that lie in the window, in increasing order, none missing and none outside.",
      ["inputs"], "all windows (including empty and boundary-aligned), periods and epochs on either side of the window, several planets",
      "Untested; off-by-one at the window's edges needs enumeration of alignments.",
      ["orbits/ttv.py"], [("compute_expected_transit_times", "orbits/ttv.py")], GRID, "integer-lattice enumeration with exact arithmetic"),
    P("C14", "Transit light curves depend only on sky separation and being in front",
      "For any orbit, coefficients and set of times, the light curve is, per body, the limb-darkened flux change at that body's sky separation and radius ratio when the body is in front of the star and exactly zero when it is behind. Shape follows the time's shape (with a body axis for multi-body orbits) and every orbit type giving the same sky path gives the same light curve.",
      ["inputs", "configurations"], "all orbit types, body counts, coefficient counts, times and orders",
      "Tests exercise a few orbits at a few times, mostly one body.",
      ["light_curves/limb_dark.py", "light_curves/utils.py"], [("light_curve impl", "light_curves/limb_dark.py"), ("vectorize", "light_curves/utils.py")],
      BFS, "reference: radial integration + independent two-body positions"),
    P("C15", "Exposure-time integration is the stencil average of the light curve",
      "Integrating a light curve over an exposure gives, at each time, the centred average over the exposure of the function's value: exact for constants and linear functions, converging at the order of the rule, the identity for zero exposure, for any number of samples and any output shape. Extra arguments reach the function unchanged; a non-scalar exposure is refused, and mapping over exposures honours each elementwise.",
      ["inputs", "configurations"], "all orders, sample counts, exposure forms, output shapes and argument passings",
      "Tests use one smooth light curve and scalar output.",
      ["light_curves/transforms.py", "light_curves/utils.py"], [("integrate", "light_curves/transforms.py"), ("vectorize", "light_curves/utils.py")],
      BFS, "explicit quadrature weights as the model"),
    P("C16", "Interpolated light curves reproduce the function they tabulate",
      "For a function that repeats with the given period, the interpolated light curve equals the function at the table's nodes in phase and its linear interpolation between them, at every time modulo the period about the reference time, and for as many outputs as the function has.",
      ["inputs"], "all periods, epochs, durations >= period, sample counts and times",
      "Untested.",
      ["light_curves/transforms.py"], [("interpolate", "light_curves/transforms.py")], GRID, "explicit piecewise-linear periodic model"),
    P("C17", "Occulted emission is the total emission minus what is hidden",
      "For uniformly emitting bodies the light curve has one column for the star and one per body: each body contributes its amplitude, reduced by exactly the fraction of its disk the star hides while it is behind; the star likewise contributes its amplitude, reduced by the area each body hides while in front.",
      ["inputs", "configurations"], "all geometries, amplitudes, body counts and times",
      "Tests cover a single geometry.",
      ["light_curves/emission.py"], [("light_curve", "light_curves/emission.py")], GRID, "closed-form circle overlap on independent positions"),
    P("C18", "Unit handling at function boundaries is transparent",
      "A unit-declaring function sees each declared argument as a quantity in the declared unit with the same physical value whether it is passed bare, as an array, or in any compatible unit, positionally or by keyword, defaulted or not; undeclared arguments and the return value pass through unchanged. Incompatible units raise, None passes through where it is the declared default, and fields of unit-declaring classes behave the same way.",
      ["programs", "inputs"], "all signatures up to 4 parameters x all call forms x unit kinds",
      "Tests call three decorated functions.",
      ["units/decorator.py", "units/field.py"], [("quantity_input", "units/decorator.py"), ("field", "units/field.py")], BFS,
      "all signatures x call forms generated exhaustively; binding model = inspect.signature semantics"),
    P("C19", "Results do not depend on the units used, and constants are physical",
      "Rescaling all inputs to other units of the same dimension leaves every orbital and photometric result unchanged, and outputs carry the documented units. The built-in solar, planetary and gravitational constants agree with the IAU/CODATA values and with each other.",
      ["inputs", "configurations"], "all unit choices for each argument x all observables",
      "Tests use a single unit per argument.",
      ["units/registry.py", "units/astro_constants_and_units.txt", "orbits/keplerian.py"], [("unit registry", "units/registry.py"), ("constants file", "units/astro_constants_and_units.txt")],
      BFS, "deviation-bounded BFS over unit choices; observables compared"),
    P("C20", "Spherical-harmonic and polynomial containers are faithful algebra",
      "Index/coefficient conversions are mutually inverse bijections for every degree; conversion between sparse and dense form preserves coefficients; products of polynomials on the sphere and of spherical-harmonic expansions equal the pointwise product of the functions; normalisation only rescales.",
      ["inputs"], "all degrees up to a bound, all basis pairs",
      "Tests try a few coefficient sets; the product matrix and harmonic product are untested for m != 0.",
      ["starry/ylm.py", "starry/core/polynomials.py"], [("Ylm", "starry/ylm.py"), ("Pijk", "starry/core/polynomials.py")], BFS,
      "all basis pairs to the degree bound, pointwise evaluation on the sphere as the model"),
    P("C21", "Basis transforms represent the same function",
      "For every degree, the change-of-basis matrices map spherical-harmonic coefficients to polynomial and Green's coefficients of the same function on the visible hemisphere, the polynomial basis evaluates the stated monomials, and the limb-darkening transform gives the polynomial of the darkening law.",
      ["inputs"], "all degrees up to the bound, every basis vector, points over the disk",
      "Reference tests compare against starry, which is not installed here; remaining tests sample.",
      ["starry/core/basis.py"], [("A1, A2_inv, U, poly_basis", "starry/core/basis.py")], GRID, "every basis vector evaluated by independent Legendre recurrences"),
    P("C22", "Rotating the coefficients rotates the map",
      "For every axis, angle and degree the rotated coefficients evaluate at each point of the sphere to the original map at the back-rotated point; rotations preserve the norm, compose, invert, and are the identity for zero or full turns, and both implementations of the rotation agree.",
      ["inputs", "histories"], "all degrees to the bound, axes incl. coordinate axes and degenerate ones, angles incl. multiples of pi/2, sequences of rotations",
      "Tests use a few random-like axes; special axes are exactly where closed forms divide by zero.",
      ["starry/core/rotation.py", "starry/core/s2fft_rotation.py"], [("dot_rotation_matrix / compute_rotation_matrices", "starry/core/rotation.py"), ("compute_rotation_matrices", "starry/core/s2fft_rotation.py")],
      BFS, "BFS over rotation words; pointwise evaluation as the model"),
    P("C23", "Projection to the sky orients the map as documented",
      "Projecting a map to the sky for inclination, obliquity, rotation phase and position angle gives at each sky point the map's value at the corresponding surface point; the adjoint projection is its transpose, an unspecified inclination or obliquity means the documented default, and projection then inverse recovers the map.",
      ["inputs", "configurations"], "all orientations incl. None values and special angles, all degrees to the bound",
      "Tests check consistency for a few angles only.",
      ["starry/core/rotation.py"], [("left_project / right_project", "starry/core/rotation.py"), ("sky_projection_axis_angle", "starry/core/rotation.py")], BFS,
      "explicit 3-D rotation of evaluation points as the model"),
    P("C24", "Angular-momentum coupling coefficients are exact",
      "Wigner 3j symbols and Clebsch-Gordan coefficients equal their exact values for all quantum numbers up to the bound, vanish when selection rules fail, and do not depend on what was computed before.",
      ["inputs", "histories"], "all (l1, l2, l3, m1, m2, m3) to the bound; all call orders over a small alphabet",
      "Tests compare selected values.",
      ["starry/core/wigner3j.py"], [("Wigner3j", "starry/core/wigner3j.py")], BFS, "sympy exact arithmetic as the model"),
    P("C25", "Occultation integrals of every basis term are exact",
      "For every degree, the integral of each basis term over the visible part of the disk (occulted or not) equals direct integration, for every impact parameter and occultor radius including contacts, engulfing and large occultors, with finite gradients.",
      ["inputs"], "all basis terms to the degree bound x geometries incl. contacts",
      "The tests against starry are skipped here; others sample few geometries.",
      ["starry/core/solution.py"], [("solution_vector", "starry/core/solution.py"), ("rT", "starry/core/solution.py")], GRID, "direct 2-D integration reference"),
    P("C26", "Surface light curves are the integrated visible map",
      "The light curve of a surface equals the integral over the unocculted visible disk of intensity times limb darkening, for every map, orientation, phase, occultor position (front or behind) and size, with or without limb darkening and at any amplitude; a uniform map reduces to the limb-darkened light curve.",
      ["inputs", "configurations"], "all low-degree basis maps x orientations x occultor geometries",
      "Reference tests need starry (absent); others cover few geometries.",
      ["starry/light_curves.py"], [("surface_light_curve", "starry/light_curves.py")], BFS, "brute-force 2-D quadrature of an independently evaluated map"),
    P("C27", "Rendered images and intensities show the map that was specified",
      "Intensity at a latitude and longitude is the harmonic expansion there; a rendered image shows at each pixel the intensity of the surface point seen there for the given phase, inclination and obliquity, times limb darkening and amplitude, and nothing outside the disk. Rotational phase advances one turn per rotation period from the initial phase.",
      ["inputs", "configurations"], "all low-degree maps x orientations x phases x pixels",
      "Tests compare a couple of pixels or shapes.",
      ["starry/surface.py", "starry/ylm.py"], [("Surface.render / intensity / rotational_phase", "starry/surface.py")], BFS, "independent evaluation of harmonics at the surface point under each pixel"),
    P("C28", "Surface-system light curves add up body by body in order",
      "The light curve of a system with surfaces has the star first and then each body in the order added: the star's column is its own rotating light curve with every body's occultation applied while in front, each body's column its own, hidden by the star while behind. The result does not depend on which bodies have surfaces, on whether the bodies are alike, or on how the system was assembled.",
      ["histories", "configurations"], "all add histories over a surface/body alphabet x times",
      "Tests use one body or identical bodies.",
      ["starry/light_curves.py", "starry/orbit.py"], [("light_curve", "starry/light_curves.py"), ("SurfaceSystem", "starry/orbit.py")], BFS, "per-body surface light curves composed by an explicit model"),
    P("C29", "Doppler observables are the flux-weighted line-of-sight velocity",
      "The radial velocity of a rotating surface equals the flux-weighted line-of-sight velocity of the visible unocculted disk for any map, inclination, obliquity, differential shear and occultor, is independent of the map's amplitude, and vanishes for an unocculted uniform star; a system adds to its star the reflex velocity due to all its bodies, in any number.",
      ["inputs", "configurations"], "all low-degree maps x orientations x occultor geometries x shears",
      "Tests cover a few geometries of one map.",
      ["starry/doppler.py"], [("surface_radial_velocity", "starry/doppler.py"), ("rv_map_expansion", "starry/doppler.py")], BFS, "brute-force 2-D quadrature of intensity times velocity"),
    P("C30", "Spot and limb-darkening expansions represent the stated features",
      "The spot expansion equals the harmonic coefficients of the smoothed spot with the given contrast, radius and location for every degree; moving the spot rotates the map, and derivatives are finite. A map built from limb-darkening coefficients reproduces that law.",
      ["inputs"], "all degrees to the bound, radii, contrasts and locations incl. poles",
      "Tests look at one spot.",
      ["starry/ylm.py"], [("ylm_spot", "starry/ylm.py"), ("Ylm.from_limb_darkening", "starry/ylm.py")], GRID, "independent expansion of the same profile"),
    P("C31", "The arbitrary-precision code agrees with the double-precision code",
      "For every map, geometry and order in the well-conditioned regime, the multiprecision basis, rotation, occultation integrals and flux agree with the double-precision ones to rounding, whatever was computed (and cached) before.",
      ["inputs", "histories"], "all degrees to the bound, geometries, and call histories over the caches",
      "Tests compare a few matrices and never reuse the caches across settings.",
      ["starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/multiprecision/flux.py"], [("memoised matrices", "starry/multiprecision/utils.py")], BFS,
      "BFS over cache histories; differential against the double-precision code and direct integration"),
    P("C32", "jit, vmap and grad never change results",
      "Every public orbital, light-curve and surface function gives the same values eagerly, compiled, vectorised over any argument, and differentiated forward or in reverse, in double and (to its rounding) single precision, with traced or concrete parameters.",
      ["programs", "configurations"], "all public entry points x all compositions of transforms to depth 2",
      "Each test applies one transform to one function.",
      ["orbits/keplerian.py", "orbits/ttv.py", "orbits/transit.py", "light_curves/limb_dark.py", "starry/light_curves.py"], [("equinox modules / static fields", "orbits/keplerian.py")], BFS,
      "all transform words up to depth 2 on every entry point; eager result as the model"),
    P("C33", "Drawn figures show the surface that was given",
      "Drawing any object that has a map shows, on the axes given (or the current ones), the image of that map for its inclination, obliquity, rotation and initial phase, filling the disk of the body's radius. The grid lines drawn over it are the parallels and meridians of the same map in the same orientation, complete on the visible half and absent on request.",
      ["inputs", "configurations", "histories"], "all kinds of drawable objects x orientations x phases x grids x radii x orders of drawing on several axes",
      "The only test checks that three calls do not raise.",
      ["starry/visualization.py", "starry/utils.py"], [("show_surface", "starry/visualization.py"), ("graticule / rotate_lines", "starry/utils.py")], BFS,
      "every pixel and every grid-line point mapped back to the surface by an independent rotation"),
    P("C34", "Results do not depend on earlier calls",
      "A call with the same arguments gives the same result (values, shapes and dtypes) whatever was called before it, in any order and however often, and whether double precision was enabled before or after the library was imported. No call modifies the arrays or objects it is given, and an object keeps the values that the lists and dictionaries it was made from had when it was made.",
      ["histories", "configurations"], "all ordered pairs of variants of every call, and words over the whole alphabet of calls, each against a fresh process",
      "Tests run in one fixed order in one process per precision, so a result kept from an earlier call is invisible.",
      ["starry/core/basis.py", "starry/core/rotation.py", "core/limb_dark.py", "starry/multiprecision/utils.py"], [("library state (memoised matrices, module-level constants)", "starry/core/basis.py")], BFS,
      "all call words; the same call in a fresh process as the model"),
    P("C35", "Model objects are plain data",
      "Every model object (central, body, orbit, system, surface, map, transit and timing orbit) can be flattened, mapped, compiled, batched, carried through loops and branches, differentiated and copied: it comes back as the same kind of object with the same contents and computes the same results. A batch of objects computes what each computes alone, and derivatives with respect to a whole object agree with those through its parameters.",
      ["programs", "histories", "configurations"], "all kinds of objects x all words over eleven ways of passing an object on to depth 2-3; all batches of 1-3 objects x ways of mapping",
      "No test passes a model object through more than one of these.",
      ["orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "starry/surface.py", "starry/ylm.py", "starry/orbit.py", "object_stack.py"], [("equinox modules", "orbits/keplerian.py")], BFS,
      "BFS over words of object-passing operations; the untouched object as the model"),
    P("C36", "Equivalent descriptions of a surface are interchangeable",
      "Different descriptions of the same surface seen the same way give the same light curves, flux-weighted velocities and images: amplitude held by the amplitude, the coefficients or their normalization; rotation held by the angle, the initial phase, the time or the coefficients; absent or zero angles and shear; whole turns; either pole as the pole; the sky and everything on it turned or mirrored; expansions padded with zeros; period, radius and time scaled together; orientation or limb darkening folded into the coefficients.",
      ["inputs", "configurations"], "five base surfaces x all words over 28 rewrites to depth 2-3 x 11 occultors",
      "Tests compare one pair of descriptions at a time at most.",
      ["starry/surface.py", "starry/light_curves.py", "starry/doppler.py", "starry/core/rotation.py"], [("class Surface", "starry/surface.py"), ("def left_project", "starry/core/rotation.py")], BFS,
      "BFS over rewrites of the description; the base description as the model"),
    P("C37", "Equivalent descriptions of an orbital system are interchangeable",
      "Different descriptions of the same orbital system seen the same way give the same positions, velocities, radial velocities and transit, emission and map light curves: period or semimajor axis, transit or periastron time (any cycle), inclination or impact parameter, angles or their sines and cosines, absent or zero parameters, any argument of periastron of a circular orbit, whole turns, any units, any two properties of the central or the orbit it implies, parameters read back from an orbit; the clock shifted, scaled or (in a mirror) reversed, the sky turned or mirrored, all lengths scaled, bodies in another order or joined by bodies that show nothing, systems built in one go or body by body.",
      ["inputs", "configurations"], "three base systems x all words over 23-41 rewrites to depth 2-3 x times through transits and eclipses",
      "Tests compare one pair of descriptions at a time at most.",
      ["orbits/keplerian.py", "starry/orbit.py", "light_curves/limb_dark.py", "light_curves/emission.py", "starry/light_curves.py", "object_stack.py"], [("class OrbitalBody", "orbits/keplerian.py"), ("class SurfaceSystem", "starry/orbit.py")], BFS,
      "BFS over rewrites of the description; the base description as the model"),
    P("C38", "The value at a time depends on that time only",
      "Every function of time in the library (positions, velocities and radial velocities of bodies and systems, transit and transit-time orbits, transit, emission and map light curves, integrated and interpolated light curves, system radial velocities) gives at each element of an array of times what it gives at that time alone: whatever the other times are (any order, repeats, not finite), whatever the shape of the array (including empty), the container or the time unit, eager or compiled; and its derivative with respect to the other times is exactly zero.",
      ["inputs", "histories"], "24 functions of time x all words of length 1-3 over 10 times x shapes and containers",
      "Tests evaluate one sorted grid of times.",
      ["light_curves/utils.py", "light_curves/limb_dark.py", "light_curves/emission.py", "light_curves/transforms.py", "orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "starry/system_observable.py"], [("def vectorize", "light_curves/utils.py"), ("def system_observable", "starry/system_observable.py")], BFS,
      "exhaustive words of times; the value at the time alone as the model"),
    P("C39", "Light curve transformations compose",
      "Exposure integration, interpolation, vectorization, unit declaration, jit and vmap can be applied to a light curve, or to any function of time, one after another in any order and number: the result is what applying their definitions in that order gives, with the shape and unit of the function, extra arguments passed on to it, at times of any shape and unit, whether the composition is made outside or inside a compiled or mapped function of its parameters.",
      ["programs", "inputs"], "all words of length 1-3 over 12 transformations x seven functions of time x forms of time",
      "Tests apply one transformation to one light curve.",
      ["light_curves/transforms.py", "light_curves/utils.py", "units/decorator.py", "starry/system_observable.py"], [("def integrate", "light_curves/transforms.py"), ("def interpolate", "light_curves/transforms.py"), ("def vectorize", "light_curves/utils.py")], BFS,
      "exhaustive words of transformations; an interpreter of the word as the model"),
    P("C40", "The comparison helpers accept exactly what agrees",
      "The helpers in jaxoplanet.test_utils pass when, and only when, the two values have the same shape, the same structure, the same unit (or, when conversion is asked for, units of the same dimension and the same physical value) and numbers that agree to the tolerance of their precision, or to the one given; NaN agrees with NaN only, and anything else raises.",
      ["inputs", "configurations"], "all ordered pairs of an alphabet of values x units x tolerances, and of trees of up to three leaves",
      "Tests use them, and would go on passing if they accepted anything.",
      ["test_utils.py"], [("def assert_quantity_allclose", "test_utils.py"), ("def assert_quantity_pytree_allclose", "test_utils.py")], GRID,
      "exhaustive pairs; a plain numpy rule as the model"),
    P("C41", "Single precision results follow double precision",
      "In JAX's default single precision every function of the library (Kepler's equation, orbits in all parametrizations, transit and transit-time orbits, limb-darkened, integrated, interpolated, emission and map light curves, occultation integrals, rotations, basis changes, spots, velocities) and its forward and reverse derivatives are finite wherever they are in double precision at the same inputs, and differ from them only by the effect of rounding the inputs and the result.",
      ["inputs", "configurations"], "30 functions x product grids of ordinary, extreme and coinciding parameters x value, forward and reverse derivative",
      "Tests run in single precision at a few generic points, with loose tolerances.",
      ["core/kepler.py", "core/limb_dark.py", "orbits/keplerian.py", "orbits/transit.py", "light_curves/limb_dark.py", "starry/core/solution.py", "starry/core/rotation.py", "utils.py"], [("def get_dtype_eps", "utils.py"), ("def p_integral", "starry/core/solution.py")], GRID,
      "exhaustive grids; double precision at the same inputs as the model, with its own condition number as the bound"),
    P("C42", "Derivatives of the observables are the derivatives of their values",
      "The forward and reverse derivatives of every observable (positions, velocities, transit, transit-time, integrated, emission and map light curves, velocities of maps, coefficients) with respect to every parameter and time are finite, agree with each other, and are the limits of differences of its values, at ordinary points and at the exact coincidences that fits start from: mid-transit and mid-eclipse, the occultor centred, on an axis, behind or touching, circular and edge-on orbits, absent features.",
      ["inputs", "configurations"], "35 functions x product grids with the coincidences listed x every parameter x forward and reverse mode",
      "Tests differentiate at a few generic points; a derivative that is nan or wrong exactly at mid-transit goes unseen.",
      ["light_curves/limb_dark.py", "light_curves/emission.py", "starry/light_curves.py", "starry/doppler.py", "orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "utils.py"], [("def light_curve", "light_curves/limb_dark.py"), ("def surface_light_curve", "starry/light_curves.py")], GRID,
      "exhaustive grids; fourth-order differences of the values, at two step sizes, as the model"),
    P("C43", "Concurrent callers get what they get alone",
      "Operations of the library called from several threads at once (products of maps, coupling coefficients, polynomials, changes of basis, rotations and fluxes in multiple precision with their memo tables cold, orbits, systems, light curves and their transforms, spots, surfaces, units) each return what they return when called alone, whichever thread runs when, and leave nothing behind that changes later results; operations in multiple precision may be nested in one another but not overlap, as mpmath requires.",
      ["schedules"], "all ordered pairs of 20 operations x lines of the first as the point of a preemption, and overlapping schedules with two preemptions",
      "Tests call from one thread, and no test controls when another one runs.",
      ["starry/core/wigner3j.py", "starry/ylm.py", "starry/core/polynomials.py", "starry/multiprecision/rotation.py", "starry/multiprecision/flux.py", "units/registry.py"], [("class Wigner3jCalculator", "starry/core/wigner3j.py"), ("def get_R", "starry/multiprecision/rotation.py")], SCHED,
      "controlled scheduler on real threads; the operation alone as the model"),
]
