"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=""):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=quant),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
            _note=note,
        )
    )


J = "jax_cosmo/"
prop(
    "C01",
    "Objects survive being taken apart into their parameters and rebuilt",
    "Any cosmology (with or without a growth index), redshift distribution, bias, probe or spline that is taken apart into its "
    "differentiable parameters and rebuilt, as every jit, grad, vmap or tree map does, has the same parameters, the same configuration and "
    "gives the same results as the original. The differentiable parameters are all the numbers the object was built from, each one once; replacing one of them "
    "changes that parameter of the rebuilt object and no other.",
    ["inputs", "configurations"],
    "All parameter values in the stated boxes, all kinds of objects, all configurations (growth index or not, IA or not, single or per-bin biases, spline orders and end conditions).",
    "The tests pass a few probes and spectra through grad and jit and only look at one derivative; most classes and optional parameters never make the trip.",
    [J + "core.py", J + "jax_utils.py", J + "redshift.py", J + "probes.py", J + "bias.py", J + "scipy/interpolate.py"],
    [("Cosmology.tree_flatten/tree_unflatten", J + "core.py"), ("container.tree_flatten/tree_unflatten", J + "jax_utils.py"), ("redshift_distribution.tree_unflatten", J + "redshift.py"), ("WeakLensing.tree_unflatten", J + "probes.py")],
    observe=["jax.tree_util.tree_flatten / tree_unflatten / tree_map, jax.jit"],
)
prop(
    "C02",
    "Results do not depend on what was computed before on the same objects",
    "What a function returns for a cosmology, redshift distribution or probe depends on its parameters and on the arguments of the call only, never on which calls were made "
    "before on the same object, with which settings, or inside which transformation. In particular distances, growth, normalised n(z), kernels and spectra are those of a fresh object after any "
    "sequence of earlier calls, and no value traced by a transformation stays behind on an object that outlives it.",
    ["histories", "inputs"],
    "All sequences of up to three calls drawn from the functions that store tables on an object, with default and non-default table settings, eagerly or inside jit/grad, for all parameter values of the boxes.",
    "Every test builds fresh objects and calls each function once with one set of settings.",
    [J + "background.py", J + "redshift.py", J + "jax_utils.py"],
    [("tables stored in the workspace of a cosmology", J + "background.py"), ("normalisation stored on a redshift distribution", J + "redshift.py"), ("is_cacheable", J + "jax_utils.py")],
    state=[("_workspace", "tables of distance and growth stored on a cosmology", J + "core.py"), ("_norm", "integral of n(z)", J + "redshift.py")],
    observe=["return values of the public functions after other calls on the same object"],
)
prop(
    "C03",
    "Friedmann background functions obey their equations for every cosmology",
    "For every w0-wa cosmology and scale factor, the dark energy density and equation of state, E^2(a), H(a) and the density parameters of matter and dark energy are those of the CPL Friedmann equations; "
    "matter, curvature and dark energy densities sum to one at all times, and all derived parameters are consistent with the primary ones. H and E are positive and equal their values today at a = 1.",
    ["inputs"],
    "All Omega_c in [0.1,0.6], Omega_b in [0.01,0.1], h in [0.4,1], Omega_k in [-0.2,0.2], w0 in [-2,-0.4], wa in [-1,0.35], all a in (1e-3, 1.x].",
    "The tests compare with another code on one or two cosmologies at sampled scale factors.",
    [J + "background.py", J + "core.py", J + "constants.py"],
    [("w, f_de, Esqr, H, Omega_m_a, Omega_de_a", J + "background.py"), ("derived parameters", J + "core.py")],
)
prop(
    "C04",
    "Distances integrate the expansion history and agree with one another",
    "The radial comoving distance is the integral of c/(a^2 H) from a to today on the documented logarithmic table, zero today and for scale factors above one, never negative and decreasing with a; its inverse reads the same table backwards. "
    "The transverse distance is its sinh, identity or sine according to the sign of curvature, with the right derivatives in the flat case, and the angular diameter distance is a times it. "
    "The growth index does not enter.",
    ["inputs", "configurations"],
    "All cosmologies of the box of C03, all scale factors including those outside of the table, several table settings, scalars and arrays.",
    "The tests sample flat and one curved cosmology against another code at 0.1-1 % accuracy, never outside the table, never with other table settings.",
    [J + "background.py", J + "scipy/ode.py", J + "scipy/interpolate.py"],
    [("radial_comoving_distance, a_of_chi, transverse_comoving_distance, angular_diameter_distance, dchioverda", J + "background.py")],
)
prop(
    "C05",
    "Linear growth solves its equation, is one today and bounded",
    "The growth factor is the growing solution of the linear perturbation equation from matter domination (or of dlnD/dlna = Omega_m(a)^gamma when a growth index is given), one today, between 0 and 1 and increasing; the growth rate is its logarithmic derivative on the "
    "same solution (Omega_m(a)^gamma with a growth index). Both accept Python floats, scalars and arrays of scale factors.",
    ["inputs", "configurations"],
    "All cosmologies of the box of C03, gamma in [0.3,0.8] or absent, all a.",
    "The tests compare with another code on one cosmology each at 1 % accuracy.",
    [J + "background.py", J + "scipy/ode.py"],
    [("growth_factor, growth_rate and their tables", J + "background.py")],
)
prop(
    "C06",
    "The ODE integrator is the classical fourth-order Runge-Kutta method",
    "The integrator returns the initial condition at the first time and then one classical Runge-Kutta step per interval of the times it is given, whatever the right hand side, the size of the state, the spacing or direction of the times. "
    "It is exact for quadratures of polynomials of degree three and linear in the right hand side and initial value of linear equations.",
    ["inputs", "programs"],
    "An arbitrary (uninterpreted) right hand side, arbitrary initial values and times, up to the stated number of steps and state sizes.",
    "No test calls the integrator on its own.",
    [J + "scipy/ode.py"],
    [("odeint", J + "scipy/ode.py")],
)
prop(
    "C07",
    "Quadratures are Simpson's and Romberg's rules for any integrand",
    "The Simpson quadrature is the composite rule with the requested even number of intervals, rejects odd numbers, and is exact for cubics; the Romberg quadrature is the extrapolated trapezoidal table of the requested depth. "
    "Both are linear in the integrand, change sign with the direction of integration, and integrate vector-valued integrands component by component.",
    ["inputs", "programs", "configurations"],
    "An arbitrary (uninterpreted) integrand and arbitrary limits; the stated numbers of intervals and depths.",
    "No test calls the quadratures on their own.",
    [J + "scipy/integrate.py"],
    [("simps, romb", J + "scipy/integrate.py")],
)
prop(
    "C08",
    "Linear interpolation is piecewise linear through its points",
    "Interpolation returns the straight line through the two neighbouring points in every interval, the ordinate itself at each point, and the line of the end interval outside, for any increasing or decreasing grid and any query order. "
    "It is linear in the ordinates and its derivative is the slope of the interval.",
    ["inputs"],
    "All grids of the stated sizes (increasing and decreasing), all ordinates and query points, plus the grids of the tables of the background functions.",
    "No test calls it on its own; its errors hide below the 1 % accuracy of the other tests.",
    [J + "scipy/interpolate.py"],
    [("interp", J + "scipy/interpolate.py")],
)
prop(
    "C09",
    "Splines pass through their data with the promised smoothness",
    "Linear, quadratic and cubic interpolating splines pass through all data points, are continuous with all derivatives below their order, obey their end conditions (natural or not-a-knot) and extrapolate their end pieces; they reproduce polynomials of their order (not-a-knot) and are linear in the data. "
    "The analytic derivatives and antiderivative are those of the spline itself, and definite integrals are differences of the antiderivative, changing sign with the direction. Invalid orders, lengths, shapes or derivative orders are rejected.",
    ["inputs", "configurations"],
    "All ordinates, all evaluation points including outside of the data; several sets of knots and (small sizes) arbitrary knots; orders 1 to 3, both end conditions.",
    "The tests compare with scipy on two fixed data sets and never evaluate the antiderivative of all orders outside of the data nor the pieces' continuity.",
    [J + "scipy/interpolate.py"],
    [("InterpolatedUnivariateSpline", J + "scipy/interpolate.py")],
)
prop(
    "C10",
    "The transfer function is that of Eisenstein & Hu for every cosmology",
    "The matter transfer function is the Eisenstein and Hu (1998) fitting formula, with baryon oscillations by default or the smooth (no-wiggle) form on request, for every cosmology and wave number; it depends only on the matter and baryon densities and h. "
    "Unknown types are rejected.",
    ["inputs", "configurations"],
    "All cosmologies of the box, all k in [1e-4, 10] h/Mpc.",
    "The tests compare with another code on one cosmology at 0.1-1 % accuracy.",
    [J + "transfer.py"],
    [("Eisenstein_Hu", J + "transfer.py")],
)
prop(
    "C11",
    "The linear matter power spectrum is sigma8-normalised and separable",
    "The linear power spectrum is A k^n_s T(k)^2 D(a)^2 for any transfer function, whose options are passed on to every use of it, with A such that the variance in spheres of 8 Mpc/h, as computed by the code, is sigma8^2 today. "
    "It scales with sigma8^2 and with D(a)^2, does not depend on the normalisation of the transfer function, and broadcasts over wave numbers and scale factors.",
    ["inputs", "programs", "configurations"],
    "All cosmologies of the box, all k and a, an arbitrary (uninterpreted) transfer function with and without options.",
    "The tests compare one cosmology with another code at 1 % accuracy and only for one transfer function.",
    [J + "power.py", J + "scipy/integrate.py"],
    [("primordial_matter_power, linear_matter_power, sigmasqr", J + "power.py")],
)
prop(
    "C12",
    "Non-linear power follows the documented halofit prescriptions",
    "The non-linear spectrum is the halofit formula of the requested prescription (Smith 2003 or Takahashi 2012, the default), evaluated with the non-linear scale where the Gaussian-filtered variance is one and the effective index and curvature there, for any transfer function. "
    "Unknown prescriptions are rejected, a custom non-linear function is called with the cosmology, wave numbers, scale factor and transfer function, and the result broadcasts over wave numbers and scale factors.",
    ["inputs", "programs", "configurations"],
    "All cosmologies of the box, k and a; an arbitrary (uninterpreted) transfer function; both prescriptions.",
    "The tests compare one cosmology with another code at 1-10 % accuracy.",
    [J + "power.py"],
    [("_halofit_parameters, halofit, nonlinear_matter_power, linear", J + "power.py")],
)
prop(
    "C13",
    "Redshift distributions are normalised and follow their definitions",
    "Smail, kernel-density, single-plane and shifted redshift distributions are those of their definitions at every redshift, and calling one gives it divided by its integral up to its own maximum redshift, so that it integrates to one. "
    "Galaxy densities are returned per square arcminute as given and converted to steradians, and do not enter n(z); a shift moves an arbitrary parent and clips at redshift zero.",
    ["inputs", "programs", "configurations"],
    "All parameters of the boxes, all z, several maximum redshifts and bandwidths, an arbitrary (uninterpreted) parent distribution, catalogues of up to three galaxies.",
    "The tests use two fixed Smail distributions.",
    [J + "redshift.py", J + "scipy/integrate.py"],
    [("smail_nz, kde_nz, delta_nz, systematic_shift, redshift_distribution.__call__", J + "redshift.py")],
)
prop(
    "C14",
    "Bias models and redshift conversions follow their definitions",
    "A constant bias is constant with the shape of the redshifts, the inverse growth bias is b/D(a(z)), the DES Y1 bias is A((1+z)/(1+z0))^eta. Scale factor and redshift conversions are inverse to each other.",
    ["inputs", "configurations"],
    "All parameters, cosmologies and redshifts of the boxes; scalars and arrays.",
    "The tests use them at one or two values.",
    [J + "bias.py", J + "utils.py"],
    [("constant_linear_bias, inverse_growth_linear_bias, des_y1_ia_bias", J + "bias.py"), ("z2a, a2z", J + "utils.py")],
)
prop(
    "C15",
    "Lensing kernels integrate the lensing efficiency of each bin",
    "For every mix of extended and single-plane redshift bins, row i of the lensing kernel is the lensing efficiency of bin i (3 H0^2 Omega_m/2c times (1+z) chi times the efficiency integral over the sources behind z), times the spin-2 factor in ell and one plus its multiplicative bias; intrinsic alignments, if enabled, add the NLA kernel with its bias. "
    "Multiplicative and alignment biases may be single or per bin; shape noise is sigma_e^2 over the galaxies per steradian of each bin, with single or per-bin sigma_e. Alignments of single-plane bins are rejected.",
    ["inputs", "configurations"],
    "All redshifts, ell and parameters of probes and cosmology; all orders of up to three bins; arbitrary (uninterpreted) n(z).",
    "The tests compare two extended bins with another code at 1 % accuracy; mixed orders and per-bin options are never checked.",
    [J + "probes.py", J + "background.py", J + "redshift.py"],
    [("weak_lensing_kernel, nla_kernel, WeakLensing", J + "probes.py")],
)
prop(
    "C16",
    "Number count kernels are n(z) b(z) H(z) per bin",
    "Row i of the number counts kernel is n_i(z) b_i(z) H(z), independent of ell, with one bias for all bins or one per bin; shot noise is one over the galaxies per steradian of each bin. Single-plane bins are rejected; the maximum redshift and the number of tracers are those of the bins.",
    ["inputs", "configurations"],
    "All redshifts, ell and parameters of probes and cosmology; up to three bins; arbitrary (uninterpreted) n(z) and bias.",
    "The tests compare two bins with another code at 1 % accuracy; per-bin biases and noise are not checked.",
    [J + "probes.py"],
    [("density_kernel, NumberCounts", J + "probes.py")],
)
prop(
    "C17",
    "Angular spectra are the Limber integrals of every pair of tracers",
    "Row (i, j) of the angular spectra, for i <= j in lexicographic order over the tracers of all probes, is the Limber integral of the product of kernels i and j with the non-linear power at k = (ell+1/2)/chi over all scale factors up to the largest maximum redshift; swapping the order of tracers permutes the rows. "
    "Noise spectra are the noise of tracer i in the rows (i, i) and zero elsewhere. Spectra use the requested transfer and non-linear functions and each multipole is independent of the others.",
    ["inputs", "programs", "configurations"],
    "All multipoles and tracer parameters, arbitrary (uninterpreted) non-linear power and kernels; several combinations of up to four tracers.",
    "The tests compare three cases with another code at 0.5-1 % accuracy.",
    [J + "angular_cl.py"],
    [("angular_cl, noise_cl, _get_cl_ordering", J + "angular_cl.py")],
)
prop(
    "C18",
    "Gaussian covariances are Wick's formula, symmetric and positive",
    "The block of spectra (i,j) and (m,n) of the Gaussian covariance is (C_im C_jn + C_in C_jm)/((2 ell+1) d_ell f_sky), diagonal in ell, with C the sum of signal and noise spectra and d_ell the spacing of the multipoles; it is symmetric and positive semi-definite whenever the spectra are. "
    "Sparse and dense forms are the same matrix in the order of the flattened mean; the combined function returns the flattened signal spectra as mean and passes its sky fraction and functions on.",
    ["inputs", "configurations"],
    "All signal and noise spectra, multipoles, sky fractions; up to three tracers in several probes and three multipoles.",
    "The tests check the two forms against each other on one set of probes.",
    [J + "angular_cl.py"],
    [("gaussian_cl_covariance, gaussian_cl_covariance_and_mean, _get_cov_blocks_ordering", J + "angular_cl.py")],
)
prop(
    "C19",
    "Sparse block-diagonal algebra equals dense linear algebra",
    "Every product of a sparse matrix with a vector, dense or sparse matrix (and dense-sparse-dense forms), its inverse, determinant and signed log-determinant equal those of the dense matrix it stands for, including matrices with singular diagonal blocks. "
    "Invalid dimensions, incompatible shapes, numbers of arguments and non-square matrices are rejected with a ValueError.",
    ["inputs", "configurations"],
    "All real entries in [-3,3] (non-singular ones for inverses), the listed block shapes up to 3x3 blocks of size 3.",
    "The tests compare a few random matrices of one or two shapes.",
    [J + "sparse.py"],
    [("to_dense, dot and its variants, inv, slogdet, det, check_sparse, is_sparse", J + "sparse.py")],
)
prop(
    "C20",
    "The Gaussian likelihood is -(chi^2 + log det C)/2 by every method",
    "The Gaussian log likelihood is minus half of r^T C^-1 r, plus log det C when asked for, for residuals r between data and mean; it is the same for dense inversion, Cholesky and the sparse form, symmetric in data and mean, and largest without residuals. "
    "Unknown inversion methods are rejected.",
    ["inputs", "configurations"],
    "All data, means and symmetric positive definite covariances of size up to 3 (dense) and of sparse shapes up to 3 blocks.",
    "The test compares the dense methods with the sparse one on one vector.",
    [J + "likelihood.py", J + "sparse.py"],
    [("gaussian_log_likelihood", J + "likelihood.py")],
)
prop(
    "C21",
    "Automatic derivatives are the derivatives of the computed functions",
    "The derivatives which forward and reverse mode return for backgrounds, distances, growth, transfer function, power spectra, redshift distributions, kernels and likelihoods with respect to all parameters and arguments are those of the defining equations, finite everywhere in the domain, flat and LCDM points included. "
    "Forward and reverse mode agree, and derivatives taken inside and outside of jit are the same.",
    ["inputs"],
    "All cosmologies of the box, all arguments, at the special values Omega_k = 0, w0 = -1, wa = 0 too.",
    "The tests check that one gradient of a likelihood runs.",
    [J + "background.py", J + "power.py", J + "redshift.py", J + "probes.py", J + "likelihood.py"],
    [("all functions, through JAX", J)],
)
prop(
    "C22",
    "Batched evaluation equals evaluation one by one",
    "Evaluating a function on an array of scale factors, wave numbers, redshifts or multipoles gives at each element what it gives for that element alone, in the documented shape, whatever the other elements and their order. "
    "The same holds for vmap over parameters and for jit.",
    ["inputs", "configurations"],
    "All values of the arguments and parameters of the boxes; batches of up to three elements, repeated and unsorted ones included.",
    "The tests only evaluate sorted arrays of one length.",
    [J + "background.py", J + "power.py", J + "redshift.py", J + "probes.py", J + "angular_cl.py"],
    [("broadcasting and vmap of the public functions", J)],
)
prop(
    "C23",
    "Each quantity depends on the parameters it should and on no other",
    "Background quantities do not depend on h (beyond units), n_s, sigma8 or gamma; distances in Mpc/h do not depend on h; growth does not depend on h, n_s, sigma8; the shape of the linear spectrum does not depend on sigma8, w0, wa; only the total matter density enters the background. "
    "Kernels and covariances depend on the bins, biases and noise they are made of and not on those of other bins.",
    ["inputs"],
    "All pairs of cosmologies or probes that differ only in the parameters said to be irrelevant.",
    "No test compares two cosmologies that differ in an irrelevant parameter.",
    [J + "background.py", J + "power.py", J + "probes.py", J + "core.py"],
    [("all functions", J)],
)

prop(
    "C24",
    "Values decide, not number types or the kind of scalar",
    "Every function and class gives the same result for the same values, whether they are given as Python integers or floats, NumPy or JAX scalars, or NumPy or JAX arrays of 64-bit integers or floats: "
    "scale factors, wave numbers, redshifts, multipoles, cosmological and nuisance parameters, limits of integrals, grids and data of splines, matrices, data vectors.",
    ["inputs", "configurations"],
    "All values of the (symbolic) remaining inputs in their boxes; the arguments whose type varies take a few integer values (64-bit; lists are not accepted by design of JAX and 32-bit types lose precision, both outside of the claim).",
    "The tests pass floating point arrays nearly everywhere; an integer dtype that silently truncates only shows for integer arguments.",
    [J + "background.py", J + "power.py", J + "bias.py", J + "redshift.py", J + "probes.py", J + "angular_cl.py", J + "sparse.py", J + "scipy/interpolate.py", J + "scipy/integrate.py"],
    [("Esqr", J + "background.py"), ("constant_linear_bias", J + "bias.py"), ("kernels", J + "probes.py"), ("angular_cl", J + "angular_cl.py")],
    observe=["return values of the public functions"],
)

TECH = (
    "Symbolic execution of the jaxprs JAX traces from the current source, compared with an independent specification; "
    "equalities and inequalities over all inputs of a box decided by an encoder normal form and SMT (Z3, real arithmetic with "
    "uninterpreted/interval-bounded transcendental functions); counterexamples replayed on the real code"
)
NOTES = {
    "C01": "Round trips compared symbolically, before and after, for symbolic parameters; also through jit and tree_map.",
    "C02": "Call sequences of bounded length, chosen from a list, executed symbolically on one object and compared with fresh ones.",
    "C11": "Known finding sigmasqr-log10 (the variance integral runs over the wrong range) is reported as KNOWN-FINDING by an obligation of this check.",
    "C17": "The power spectrum is an uninterpreted function of k and a; background tables are those of a pinned cosmology in most obligations.",
    "C21": "Derivatives as JAX traces them (jvp/vjp of the real code) against derivatives of the specification.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(
                dict(
                    property=i,
                    quick_cmd="./check %s --tier quick" % i,
                    thorough_cmd="./check %s --tier thorough" % i,
                    technique=TECH,
                    level="other",
                    level_note=(
                        NOTES.get(i, "")
                        + " Holds for every real value of the inputs within the boxes and array sizes of each obligation (see DESIGN.md and the evidence file); "
                        "trusts JAX's tracing (spot-checked against execution), the encoder, Z3, the specifications in /verif/checks and the contracts for LAPACK; "
                        "floating point is read as real arithmetic. Obligations the solver cannot close are reported as reduced or inconclusive and do not fail the check."
                    ).strip(),
                )
            )
        else:
            na.append(dict(property=i, reason="not yet built: solver-based check planned, nothing is claimed so far"))
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python tools/selftest.py",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo. See DESIGN.md. ./check C03 --list shows the obligations; ./check C03 --replay FILE replays a violation.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
