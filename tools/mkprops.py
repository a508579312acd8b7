"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
V = "src/hyperelastic/math/_voigt.py"
TOD = "src/hyperelastic/models/invariants/_third_order_deformation.py"
TORCH = "src/hyperelastic/models/invariants/_torch.py"
OG = "src/hyperelastic/models/stretches/_ogden.py"
GM = "src/hyperelastic/models/stretches/_generalized_invariants.py"
GS = "src/hyperelastic/models/generalized/_stretch.py"
FI = "src/hyperelastic/frameworks/_invariants.py"
FS = "src/hyperelastic/frameworks/_stretches.py"
FG = "src/hyperelastic/frameworks/_generalized.py"
SP = "src/hyperelastic/spaces/_space.py"
SD = "src/hyperelastic/spaces/_deformation.py"
SU = "src/hyperelastic/spaces/_distortional.py"
SO = "src/hyperelastic/spaces/_dilatational.py"
LE = "src/hyperelastic/lab/_experiment.py"
LL = "src/hyperelastic/lab/_load_case.py"
LS = "src/hyperelastic/lab/_simulation.py"
LO = "src/hyperelastic/lab/_optimize.py"
LC = "src/hyperelastic/lab/_curve_fit.py"
LP = "src/hyperelastic/lab/_plotting.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Reduced symmetric storage is a lossless re-arrangement",
 "Converting a symmetric second-order tensor (3x3) or a minor-symmetric fourth-order tensor (3x3x3x3, major-symmetric or not) to reduced storage puts the components in the order 11, 22, 33, 12, 23, 13 and converting back reproduces every component exactly; likewise reduced -> full -> reduced is the identity. Copying the upper (lower) triangle of a square matrix to the other triangle leaves the source triangle and the diagonal untouched and makes the matrix symmetric, for any dimension.",
 ["inputs"], "all symmetric / minor-symmetric tensors, all trailing axes (none, one, many, length one)",
 "The tests convert one smooth random field with major symmetry; the maps are index tables, so a wrong entry only shows for a tensor that distinguishes that entry (all 81 components, non-major-symmetric).",
 [V], [("index tables of asvoigt/astensor, triangle copies", V)], observe=["hyperelastic.math.asvoigt", "hyperelastic.math.astensor", "hyperelastic.math.tril_from_triu", "hyperelastic.math.triu_from_tril"])

prop("C02", "Second-order tensor algebra in reduced storage equals full tensor algebra",
 "Trace, determinant, inverse, deviator, identity, single and double contraction of symmetric second-order tensors given in reduced storage equal the textbook index definitions evaluated on the corresponding full 3x3 tensors. The inverse satisfies A inv(A) = 1 whether or not the determinant is supplied by the caller.",
 ["inputs"], "all pairs of symmetric (for the inverse: regular, also indefinite and badly scaled) tensors, all trailing axes and broadcasting combinations",
 "The tests use one nearly-identity positive definite field and mostly the same tensor for both operands, so component mix-ups between operands or off-diagonals cancel.",
 [V], [("closed-form component formulas with weights for shear terms", V)], observe=["hyperelastic.math.trace/det/inv/dev/eye/dot/ddot"])

prop("C03", "Fourth-order products in reduced storage equal full tensor algebra",
 "The dyadic, symmetric crossed-dyadic, overlined and underlined crossed-dyadic products, the double contractions between second- and fourth-order tensors (2:4, 4:2, 4:4) and the major transpose equal their index definitions on full tensors. This holds for two different operands in either order and for fourth-order operands without major symmetry.",
 ["inputs"], "all pairs of symmetric second-order tensors, all minor-symmetric fourth-order tensors, all trailing axes and broadcasting combinations",
 "Products are bilinear in 6x6 component pairs; the tests take one or two fields, mostly A = B, and never a fourth-order operand without major symmetry.",
 [V], [("index tables in cdya, axis swaps in cdya_ik/cdya_il, weighted einsum in ddot", V)], observe=["hyperelastic.math.dya/cdya/cdya_ik/cdya_il/ddot/transpose"])

prop("C04", "Spectral decomposition reconstructs the tensor for any multiplicity",
 "The decomposition of a symmetric tensor returns three real eigenvalues in ascending order (with a given function applied to them) and three eigenbases in reduced storage which are idempotent, mutually orthogonal, sum up to the identity and reconstruct the tensor. This holds for distinct, nearly equal and equal eigenvalues and for every point of a batch.",
 ["inputs"], "all symmetric tensors including double and triple eigenvalues, diagonal and rotated, all trailing axes",
 "No test calls the decomposition directly; finite element runs only see generic batches and check convergence.",
 [V], [("eigh with eigenbases stored in reduced storage", V)], observe=["hyperelastic.math.eigh"])

prop("C05", "Tensor helpers are free of side effects and honour output buffers",
 "No tensor helper changes its operands, and its result does not depend on whether operands are the same object, share memory or are non-contiguous views. Where an output buffer can be given for the inverse, the dyadic product and the symmetric crossed-dyadic product, the buffer holds exactly the result returned without a buffer, whatever it contained before; for the inverse the buffer may be the operand itself. The triangle copies write exactly the target triangle of the given buffer, which may be the operand itself (in place), and return the buffer.",
 ["inputs", "histories"], "all operand aliasing patterns, memory layouts, prefilled buffers and sequences of helper calls",
 "Tests call every helper once on fresh contiguous arrays and never pass a buffer.",
 [V], [("in-place multiply/subtract/divide on fancy-indexed copies; `is`-check in cdya", V)], observe=["hyperelastic.math.*"])

prop("C06", "Third-order deformation model returns the derivatives of its energy",
 "The first and second derivatives returned by the third-order deformation model are exactly those of the documented polynomial in the invariants (sum of C_ij (I1-I0)^i (I2-I0)^j over 10, 01, 11, 20, 30 with I0 = 3, or I0 = 0 for strain invariants). A derivative is reported as absent only if it vanishes identically.",
 ["inputs", "configurations"], "all parameter values and all subsets of zero parameters, both settings of the strain flag, all invariants and trailing axes",
 "Tests use four parameter sets; the 32 zero-patterns select different code paths and most are never executed or only through a converging Newton iteration.",
 [TOD], [("conditional accumulation of derivative terms", TOD)], observe=["ThirdOrderDeformation.gradient", "ThirdOrderDeformation.hessian"])

prop("C07", "Ogden model returns the derivatives of its energy",
 "The first and second derivatives with respect to the principal stretches returned by the Ogden model are exactly those of the sum over terms of 2 mu / alpha^2 times the sum of powers of the principal stretches, with vanishing mixed derivatives. This holds for any number of terms and any non-zero exponents of either sign.",
 ["inputs", "configurations"], "all lists of moduli and exponents, all positive stretches, all trailing axes",
 "Tests run one single-term model inside a finite element solve without checking values.",
 [OG], [("sum over terms", OG)], observe=["Ogden.gradient", "Ogden.hessian"])

prop("C08", "Generalized strain measures and their normalization",
 "The one-dimensional strain and deformation measures return the value, first and second derivative of the same function of the stretch together with the quadratic reference values at the undeformed state. A model formulated on generalized invariants has the same initial stiffness for every exponent and measure and has, at the undeformed state, invariants that do not depend on the normalization.",
 ["inputs", "configurations"], "all non-zero exponents, all positive stretches, both built-in measures and user-defined measures, all inner models",
 "One test compares the initial slope of one model on two load paths for four exponents of one measure to 1e-4.",
 [GS, GM, FG], [("coefficients of normalization c1, c2", GM), ("measure functions", GS)], observe=["models.generalized.strain/deformation", "GeneralizedInvariantsModel.gradient"])

prop("C09", "Automatic differentiation model returns the derivatives of the user function",
 "For any strain energy function of the three invariants written with torch operations, the model returns the exact first and all six second partial derivatives at every point of the batch, regardless of which invariants the function uses, how they are coupled and whether a derivative is constant. Keyword parameters are passed to the function unchanged and the floating-point precision is the torch default.",
 ["inputs", "programs"], "all differentiable user functions of (I1, I2, I3) with keyword parameters, all trailing axes including none",
 "The tests only use the Yeoh function of I1; any function coupling invariants or with constant derivatives takes a different path through autograd.",
 [TORCH], [("autograd per invariant with retained graph", TORCH)], observe=["TorchModel.gradient", "TorchModel.hessian"])

prop("C10", "Invariant framework is the exact derivative of the energy w.r.t. C",
 "For every user model giving derivatives of an energy of the three invariants of the right Cauchy-Green deformation tensor, the framework's gradient and hessian equal the first and second derivative of that energy with respect to C in reduced storage. Reporting a vanishing derivative as absent gives the same result as reporting zeros.",
 ["inputs", "programs"], "all isotropic energies of I1, I2, I3 (all patterns of absent, scalar or array-valued derivatives), all symmetric positive definite C",
 "Tests only use energies of I1 and I2 through finite element runs; the I3 terms and mixed terms with I3 are never evaluated.",
 [FI, V], [("chain rule with derivatives of invariants", FI)], state=[("I1,I2,I3,dI*dC,invC", "values cached by the gradient for the hessian", FI)], observe=["InvariantsFramework.gradient", "InvariantsFramework.hessian"])

prop("C11", "Stretch framework is the exact derivative of the energy w.r.t. C",
 "For every user model giving derivatives of a symmetric energy of the principal stretches, the framework's gradient and hessian equal the first and second derivative of that energy with respect to C, for distinct, equal and nearly equal principal stretches and arbitrary principal directions. Mixed derivatives, constant-valued and absent second derivatives are taken into account.",
 ["inputs", "programs"], "all symmetric energies of the principal stretches, all C including double and triple eigenvalues and gaps down to rounding",
 "Tests use separable Ogden-type energies in a finite element solve that only has to converge; repeated stretches, mixed derivatives and the switch between difference quotient and limit are not compared with anything.",
 [FS, V], [("spectral chain rule and limit for repeated eigenvalues", FS), ("eigh", V)], state=[("λ, M, dWdλC", "spectral values cached by the gradient for the hessian", FS)], observe=["StretchesFramework.gradient", "StretchesFramework.hessian"])

prop("C12", "Generalized-invariant formulation is the exact derivative of its energy",
 "For every inner model of three invariants and every strain measure, the gradient and hessian with respect to the principal stretches (and, through the framework, with respect to C) are the exact derivatives of the inner energy evaluated at the documented normalized invariants of the generalized strain. This includes inner energies which depend on the third invariant and on mixed products, and derivatives reported as absent.",
 ["inputs", "programs", "configurations"], "all inner energies of I1, I2, I3, both built-in and user-defined measures, all exponents, all positive stretches in any order",
 "Tests only use inner energies of I1 (and a linear I2 term); the I3 terms and the mixed terms are never evaluated.",
 [GM, FG, FS], [("two-step chain rule over strains and stretches", GM)], state=[("E, dEdλ, I1..I3, dWdI*", "values cached by the gradient for the hessian", GM)], observe=["GeneralizedInvariantsModel.gradient/hessian", "GeneralizedInvariantsFramework.gradient/hessian"])

prop("C13", "Equivalent formulations of one energy give the same stress and tangent",
 "If the same strain energy is written for different frameworks or models (e.g. invariants of C, principal stretches, generalized invariants with exponent two, automatic differentiation), the stress and elasticity tensors agree at every deformation, in every space and configuration.",
 ["inputs", "configurations"], "all energies expressible in more than one formulation, all deformation gradients with positive determinant including repeated principal stretches, all spaces",
 "One test compares one Yeoh model (torch vs. built-in) on one uniaxial path in stress only.",
 [FI, FS, FG, TOD, OG, TORCH, GM], [("frameworks share one tensor interface", FI)], observe=["Space.gradient", "Space.hessian"])

prop("C14", "Deformation space returns the energy's derivatives w.r.t. F",
 "On the deformation space the returned stress is the first derivative of the strain energy with respect to the deformation gradient, and the returned elasticity tensor is the derivative of that stress (including the geometric part), for every material formulation and every deformation gradient with positive determinant.",
 ["inputs", "programs", "configurations"], "all built-in and user-defined formulations, all F with det F > 0, all trailing axes",
 "Finite element tests pass as long as Newton's method converges at a loose tolerance; slow convergence by a wrong tangent and a wrong but consistent stress are both invisible.",
 [SD, SP, V], [("pull-back/push-forward in gradient/hessian and piola", SP)], observe=["DeformationSpace.gradient", "DeformationSpace.hessian"])

prop("C15", "Distortional space responds to the volume-preserving part only",
 "On the distortional space stress and elasticity are the first and second derivative with respect to F of the energy evaluated at the unimodular part of the deformation. Hence the Kirchhoff stress is deviatoric, scaling F by a factor s scales stress by 1/s and elasticity by 1/s^2, and a stress-free undeformed state results for every isotropic energy.",
 ["inputs", "programs", "configurations"], "all formulations, all F with det F > 0 including strong volume changes, all trailing axes",
 "Finite element tests stay near det F = 1 (nearly-incompressible body), where the determinant scalings are invisible, and check convergence only.",
 [SU, SP, V], [("projection of stress and elasticity, determinant scalings", SU)], observe=["DistortionalSpace.gradient", "DistortionalSpace.hessian"])

prop("C16", "Dilatational space responds to the volume change only",
 "On the dilatational space stress and elasticity are the first and second derivative with respect to F of the energy evaluated at the spherical deformation of the same volume. Hence the Cauchy stress is hydrostatic and depends on the deformation only through its determinant.",
 ["inputs", "programs", "configurations"], "all formulations, all F with det F > 0 including strong shear and volume change, all trailing axes",
 "One finite element run with a model for which the defect is invisible.",
 [SO, SP, V], [("spherical deformation, projection of stress and elasticity", SO)], observe=["DilatationalSpace.gradient", "DilatationalSpace.hessian"])

prop("C17", "Force and area configurations are consistent transformations of each other",
 "For every space, the results for the four combinations of force and area configuration (deformed/undeformed) are the Piola transformations of one another: first and second Piola-Kirchhoff stress, Cauchy stress and the mixed tensor, each with its elasticity tensor including the initial-stress part. Without finalization the second Piola-Kirchhoff stress and the bare material elasticity tensor are returned in reduced storage.",
 ["inputs", "configurations"], "all spaces x force x area x finalize x parallel, all formulations (also with deformation-independent stress or elasticity), all F with positive determinant",
 "The configuration test only evaluates without comparing values, and one of the two spaces it creates is overwritten before use.",
 [SP, SD, SU, SO], [("piola", SP)], observe=["Space.gradient", "Space.hessian"])

prop("C18", "Frame indifference, isotropy and tensor symmetries",
 "For every formulation, space and configuration-independent measure: a superposed rigid rotation rotates the stress and elasticity accordingly, a rotation of the undeformed configuration does so on the referential legs, the Kirchhoff stress P F^T is symmetric and the elasticity tensor of P has major symmetry.",
 ["inputs", "configurations"], "all formulations, all spaces, all F with positive determinant, all rotations (also those bringing eigenvalues to coincidence with coordinate axes)",
 "Tests only use aligned uniaxial load cases and never rotate anything.",
 [SP, FS, FI, V], [("evaluation through C and isotropic functions", FI)], observe=["Space.gradient", "Space.hessian"])

prop("C19", "Batches are evaluated point by point",
 "The result for an array of deformation gradients equals the results for its points evaluated one at a time, for any number and length of trailing axes including none and length one, for any memory layout, for serial and threaded (parallel) evaluation. No point influences another point.",
 ["inputs", "configurations", "schedules"], "all trailing shapes, mixed batches (equal and distinct principal stretches, undeformed next to strongly deformed points), all spaces, frameworks and configurations, parallel on/off",
 "Tests use smooth batches of one shape; masks over points, broadcasting and buffer shapes are never compared point by point, and the threaded variant is only executed, not compared.",
 [SP, SD, SU, SO, FI, FS, GM, V], [("trailing-axes broadcasting, masks, out= buffers, einsumt", SP)], observe=["Space.gradient", "Space.hessian"])

prop("C20", "Results depend on the arguments only, not on the call history",
 "Whatever sequence of gradient and hessian evaluations was made before on the same or other spaces, frameworks and models (also sharing a framework or a model, and also after an evaluation that raised an exception), a call returns the same result as on freshly created objects. A call changes neither its arguments nor any result returned before.",
 ["histories", "fault_sequences"], "all interleavings of calls on object graphs with shared frameworks and models, including calls which fail inside the material",
 "Objects cache intermediate values on every call; tests evaluate each object in a single regular pattern (gradient, then hessian at the same point).",
 [SP, SD, SU, SO, FI, FS, GM, TORCH], [("hessian re-evaluates the gradient before using cached values", SD)], state=[("C, I3, S, invC, ...", "per-space cache", SP), ("I1.., λ, M, dWd*", "per-framework cache", FI)], observe=["Space.gradient", "Space.hessian", "argument and result arrays"])

prop("C21", "State variables are threaded unchanged between caller and material",
 "A material receives the state variables given by the caller, both for the stress and - the old ones - for the elasticity evaluation, and the stress evaluation returns exactly the new state variables produced by the material. The initial variables of a space are the undeformed deformation gradient and a zero state vector of the declared length and can be passed directly to both evaluations.",
 ["histories", "programs", "configurations"], "all user models with state, all frameworks and spaces, all step sequences in which the caller accepts or rejects the new state",
 "No test uses a material with state variables.",
 [SD, SU, SO, FI, FS, FG, GM, TORCH], [("statevars argument/return value passed through three layers", FI)], state=[("x", "initial variables", FI)], observe=["Space.gradient/hessian", "Space.x", "material call arguments"])

prop("C22", "Response is linear in the strain energy, in any system of units",
 "Scaling all moduli of a formulation by a factor scales stress and elasticity by the same factor, over the whole range of physical unit systems (very small and very large moduli). Stress and elasticity of a sum of energies are the sums of the individual stresses and elasticities.",
 ["inputs", "configurations"], "all formulations and spaces, scale factors from 1e-15 to 1e15, all deformation gradients",
 "All tests use moduli of order one; absolute tolerances in the code only matter at other scales.",
 [SU, SP, FI, FS, TOD, OG], [("no absolute tolerances on stress-like quantities", SU)], observe=["Space.gradient", "Space.hessian"])

prop("C23", "Load cases are isochoric and the stress is free of the transverse traction",
 "The uniaxial, planar and biaxial load cases return diagonal deformation gradients with unit determinant and the documented principal stretches for every positive stretch. The force per undeformed area vanishes the traction in the chosen traction-free direction: it does not change if an arbitrary pressure contribution p F^-T is added to the stress, and it equals P_ii for a stress with zero traction-free component, for any choice of axes.",
 ["inputs"], "all positive stretches (scalars and arrays), all stress tensors, all pressures, all pairs of axes",
 "Tests only use the load cases inside fits and plots of two models.",
 [LL], [("defgrad and stress", LL)], observe=["lab.Uniaxial/Planar/Biaxial.defgrad", "IncompressibleHomogeneousStretch.stress"])

prop("C24", "Simulated curves are the derivatives of the energy along the load path",
 "A simulation's stress equals the derivative of the strain energy along the incompressible load path (half of it for the biaxial case), evaluated with the parameter values assigned to the labels by position. It depends only on the current stretch, parameters and load case, for any labels order, container type of the parameters and any space of the material.",
 ["inputs", "configurations", "histories"], "all materials, load cases, label orders, parameter containers and re-assignments between evaluations",
 "Tests plot or fit without comparing the curve values with a reference; they use one label order.",
 [LS, LL, LP], [("stress_curve_fit maps labels to parameters and evaluates the material", LS)], observe=["lab.Simulation.stress", "lab.Simulation.stress_curve_fit"])

prop("C25", "Experiments convert force and displacement to stress and stretch",
 "The stretch of an experiment is one plus displacement over length and its stress is force over area, elementwise for any array-like data, with one length and area or one for each data point. The recorded data are kept unchanged.",
 ["inputs"], "all array-like data, areas and lengths",
 "Tests use the default conversions only as an input for fits.",
 [LE], [("stretch in the constructor, stress()", LE)], observe=["lab.Experiment.stretch", "lab.Experiment.stress"])

prop("C26", "Optimization state stays consistent through any sequence of fits and failures",
 "After a successful fit the parameters, the parameters of all attached simulations, the residuals and the parameter errors all belong to the fit result which was returned. After a fit that failed (no convergence or an exception in the material at any evaluation) the optimization still holds the parameters and residuals of before, and a later fit works. Optimizations sharing initial parameter arrays or simulations do not corrupt each other's results, and the caller's arrays stay unchanged.",
 ["histories", "fault_sequences", "crash_points"], "all sequences of fits on several optimizations sharing experiments, simulations and initial arrays, with a failure injected at any material evaluation or in the optimizer",
 "Tests make a single successful fit on a single optimization.",
 [LO, LC, LS], [("in-place update of parameters, errors and residuals after the optimizer returned", LO)], state=[("parameters, errors, residuals", "result of the last fit", LO), ("simulation.parameters", "shared parameter vector", LS)], observe=["lab.Optimize attributes", "lab.Simulation.parameters"])

prop("C27", "A fit minimizes the residuals of exactly the selected data points",
 "The residual vector is the concatenation, in the order of the experiments, of simulated minus measured stress at the data points selected by the masks. The returned parameters minimize its sum of squares (weighted by the standard deviations of the data, if they are passed to the fit), the returned covariance is the one of this least-squares problem, and the parameter errors are the square roots of its diagonal; data generated by the model itself are recovered. The reported norm of the residuals and the mean relative deviation of the parameters are those of this residual vector and these errors.",
 ["inputs", "configurations"], "all lists of experiments and simulations (different lengths, load cases, weights by masks of slice, boolean or index type), all initial parameters of linear models, all data",
 "One test compares the fitted parameters of one data set with stored numbers; point selection and order with heterogeneous masks are not settled by it.",
 [LO, LC], [("masks, concatenation over experiments", LC)], observe=["lab.Optimize.curve_fit", "lab.Optimize.residuals", "lab.Optimize.errors"])

prop("C28", "Plots show exactly the data of the plotted object",
 "The force-displacement and stress-stretch plots of experiments and simulations add one curve with exactly the object's data, its label (unless overridden) and its axis labels to the given axes or to a new figure, and return that figure and axes. The plot of an optimization shows one simulated and one measured curve of the same color for each experiment with a legend, and its text shows the fitted parameters with twice their standard errors, the norm of the residuals and the mean relative deviation. Plots change neither the plotted objects nor other axes or earlier curves, and later changes of the objects do not change what was drawn.",
 ["inputs", "histories", "configurations"], "all objects, all sequences of plots on shared or new axes, before and after parameter changes",
 "Tests call the plot functions without looking at the figure.",
 [LP, LO], [("LabPlotter, Optimize.plot", LP)], observe=["matplotlib figures returned by plot methods"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
