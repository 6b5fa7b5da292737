import json
S='src/smolgp/'
P=[]
def p(id,title,statement,qtext,why,files,mech,state=(),obs=(),over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
p("C01","Log-likelihood of instantaneous data is the exact GP marginal likelihood",
 "For any state-space kernel, any non-decreasing measurement times (ties included), any data values and any positive noise variances, the reported log-probability equals the log density of the zero-mean multivariate normal whose covariance is the kernel evaluated at all pairs of times plus the diagonal noise. It is never approximate, at any number of data points from one upwards, and the value reported by conditioning is the same as the one reported by the direct call.",
 "all kernels satisfying the kernel laws (C08-C10), all N>=1, all sorted times, y, noise>0",
 "tests compare a few kernels at a handful of seeds, sizes and parameter values with one covariance each; the recursion has to be right for every N, every gap pattern (zero gaps, huge gaps) and every state dimension",
 ["solvers/kalman.py","solvers/solver.py","gp.py"],
 [("kalman_filter step: predict/update recursion","solvers/kalman.py"),("_compute_log_prob: innovations to log density","gp.py"),("solver selection","gp.py")],
 [("(m,P) carry","mean and covariance of the latent state given the data so far","solvers/kalman.py")],
 ["GaussianProcess.log_probability","GaussianProcess.condition(...).log_probability"],("inputs","histories"))
p("C02","Conditioned mean and variance at the data are the exact GP posterior",
 "After conditioning on data, the mean and variance reported at each measurement time equal the exact Gaussian-process posterior mean and variance of the noise-free process at that time given all of the data. This holds for every state-space kernel, every N from one upwards, every set of non-decreasing times, all data and all positive noise variances.",
 "all kernels satisfying the kernel laws, all N>=1, all sorted times, y, noise>0",
 "a backward recursion over all N states; tests sample a few datasets and kernels with loose tolerances",
 ["solvers/rts.py","solvers/kalman.py","solvers/solver.py","gp.py"],
 [("rts_smoother step","solvers/rts.py"),("StateSpaceSolver.condition","solvers/solver.py"),("ConditionedStates.project_at_data","gp.py")],
 [("smoothed states","mean and covariance of the latent state given all data","solvers/rts.py")],
 ["GaussianProcess.condition(y).gp.loc / .variance","predict() without test points"],("inputs","histories"))
p("C03","Predictions at arbitrary test coordinates are the exact GP posterior",
 "The predicted mean and variance at any test coordinates - before the first datum, between data, exactly on a datum, after the last datum, in any order and with repeats - equal the exact Gaussian-process posterior of the noise-free process there. Predicting at a measurement time agrees with the conditioned value at that measurement, conditioning with test points gives the same answer as predicting after conditioning, and far from all data the prediction returns to the prior.",
 "all kernels satisfying the kernel laws, all sorted data times, all test coordinates in any order, all N>=1, M>=1",
 "three code paths chosen per test point by position relative to the data; tests use one grid of test points, which never decides ties, duplicates or single-point sets",
 ["solvers/solver.py","gp.py"],
 [("StateSpaceSolver.predict: retrodict / interpolate / extrapolate","solvers/solver.py"),("GaussianProcess.predict projection","gp.py"),("PredictedStates","gp.py")],
 [],["GaussianProcess.predict(X_test, return_var=True)","GaussianProcess.condition(y, X_test)"])
p("C04","Integrated measurements: exact likelihood and posterior at the data",
 "For measurements that average the process over exposures (given by midpoint, length and instrument), the log-probability and the conditioned mean and variance at the data equal those of the exact Gaussian process whose covariances are the averages of the base kernel over the two exposures; a zero-length exposure is an instantaneous measurement. This holds for exposures of different instruments overlapping in any way (exposures of one instrument do not overlap each other but may touch), for several instruments, and for sums and scalings of integrated kernels.",
 "all integrated kernels satisfying C11, all midpoints/lengths/instrument assignments without same-instrument overlap, all orders of the measurements, all y, noise>0, N>=1",
 "interleavings of exposure starts and ends are combinatorial; tests check one or two simulated layouts",
 ["solvers/integrated/kalman.py","solvers/integrated/rts.py","solvers/integrated/solver.py","gp.py"],
 [("state bookkeeping (sorting starts and ends)","solvers/integrated/solver.py"),("integrated_kalman_filter step with reset","solvers/integrated/kalman.py"),("integrated_rts_smoother step","solvers/integrated/rts.py"),("project_at_data","gp.py")],
 [("state_coords","times, instrument, observation and start/end label of every state","solvers/integrated/solver.py"),("z_i","integral of the process since the last reset of instrument i","kernels/integrated.py")],
 ["GaussianProcess.log_probability","GaussianProcess.condition(y).gp.loc / .variance"],("inputs","histories"))
p("C05","Integrated measurements: exact predictions of the latent process",
 "After conditioning on exposure-averaged measurements, the predicted mean and variance of the instantaneous process at any test times (before, inside, between, at the edges of, or after the exposures, in any order) equal the exact Gaussian-process posterior given those averages. This holds for one or several instruments with exposures of different instruments overlapping.",
 "all integrated kernels satisfying C11, all exposure layouts as in C04, all test times, M>=1",
 "depends on which exposure boundaries surround each test point; tests use a single grid and one layout",
 ["solvers/integrated/solver.py","gp.py"],
 [("IntegratedStateSpaceSolver.predict","solvers/integrated/solver.py"),("GaussianProcess.predict","gp.py")],
 [],["GaussianProcess.predict(t_test, return_var=True)"])
p("C06","Parallel solver equals the sequential solver",
 "For every state-space kernel whose observation model does not vary with the coordinate, and for every dataset, the parallel solver returns the same filtered, predicted and smoothed means and covariances, the same log-probability, the same conditioned values and the same predictions as the default sequential solver. The combination rules it feeds to the parallel prefix scan are associative, so the result does not depend on how the scan groups its operands.",
 "all kernels, all N>=1, all sorted times, y, noise>0, all groupings of the scan",
 "equality up to rounding for every N and every grouping chosen by the scan; tests run one dataset",
 ["solvers/parallel/kalman.py","solvers/parallel/rts.py","solvers/parallel/solver.py"],
 [("make_associative_params (filter)","solvers/parallel/kalman.py"),("_combine_per_pair (filter)","solvers/parallel/kalman.py"),("make_associative_params / _combine_per_pair (smoother)","solvers/parallel/rts.py"),("postprocess","solvers/parallel/kalman.py"),("predict","solvers/parallel/solver.py")],
 [],["GaussianProcess(..., solver=ParallelStateSpaceSolver)"],("inputs","schedules"))
p("C07","Parallel integrated solver equals the sequential integrated solver",
 "For every integrated kernel and every exposure layout (overlaps between instruments, touching exposures, zero-length exposures, unsorted input), the parallel integrated solver returns the same filtered, predicted and smoothed states, log-probability, conditioned values and predictions as the sequential integrated solver. Its scan operators are associative, so the result does not depend on the grouping.",
 "all integrated kernels, all layouts as in C04, all y, noise>0, N>=1, all groupings of the scan",
 "tests run one layout; resets, starts and ends have to be encoded in scan elements for every interleaving",
 ["solvers/integrated/parallel/kalman.py","solvers/integrated/parallel/rts.py","solvers/integrated/parallel/solver.py"],
 [("make_associative_params (filter)","solvers/integrated/parallel/kalman.py"),("_combine_per_pair","solvers/integrated/parallel/kalman.py"),("make_associative_params (smoother)","solvers/integrated/parallel/rts.py"),("postprocess / _calc_vS","solvers/integrated/parallel/kalman.py"),("state bookkeeping","solvers/integrated/parallel/solver.py")],
 [],["GaussianProcess(..., solver=ParallelIntegratedStateSpaceSolver)"],("inputs","schedules"))
p("C08","Every kernel evaluates to its documented covariance function",
 "For every kernel of the library, evaluating it at two coordinates gives the covariance formula in its documentation (exponential, Matern-3/2, Matern-5/2, generic half-integer Matern, damped oscillator in its under-, critically- and over-damped regimes, cosine, constant) as a function of the absolute time difference only, for all valid hyperparameters; a quality factor within one part in 1e5 of 1/2 may be treated as critical damping. It is symmetric in its arguments, the value at zero lag is the variance, and evaluating the kernel at one set of coordinates returns exactly those variances.",
 "all kernels, all hyperparameters (positive scales, frequencies, quality factors, amplitudes), all pairs of real coordinates in either order",
 "tests evaluate a few parameter values on a grid; regimes, signs of the lag and extreme parameters are sampled at best once",
 ["kernels/base.py"],
 [("StateSpaceModel.evaluate / evaluate_diag","kernels/base.py"),("stationary_covariance, transition_matrix, observation_matrix of each kernel","kernels/base.py")],
 [],["kernel(X1, X2)","kernel.evaluate","kernel(X)"])
p("C09","State-space matrices are the exact discretisation of the kernel's SDE",
 "For every instantaneous kernel the transition matrix over a non-negative lag is the matrix exponential of the feedback matrix times the lag (identity at zero lag, and consistent under splitting a lag in two), and the process noise over a lag is the exact accumulated covariance of the driving white noise, which equals the stationary covariance minus its propagated part and vanishes at zero lag. The stationary covariance is in equilibrium with feedback and driving noise; analytic, default and Van Loan routes agree; entries may differ from the exact value by at most 1e-14 of that entry's natural (amplitude-and-rate) scale.",
 "all instantaneous kernels, all valid hyperparameters of any magnitude, all lags >= 0",
 "an identity in several real parameters over three damping regimes; tests compare finitely many values with absolute tolerances that hide small scales",
 ["kernels/base.py","helpers.py"],
 [("transition_matrix / process_noise / design_matrix / noise / noise_effect_matrix / stationary_covariance","kernels/base.py"),("Q_from_VanLoan","helpers.py")],
 [],["kernel.transition_matrix(t1,t2)","kernel.process_noise(t1,t2)","kernel.design_matrix() etc."])
p("C10","Sums, products and scalar multiples of kernels combine exactly",
 "The sum of kernels has the sum of their covariances, the product has the product, and a scalar multiple has the scaled covariance, for any nesting, any state dimensions and either order of a scalar. The combined model's feedback, noise, stationary covariance, transition, process noise, observation and reset matrices are again mutually consistent (C09), so likelihoods and predictions of combined kernels stay exact.",
 "all expression trees of sums, products and scalings over all kernels satisfying the kernel laws",
 "tests check a couple of sums; closure must hold by induction over all trees and dimensions",
 ["kernels/base.py"],
 [("Sum","kernels/base.py"),("Product","kernels/base.py"),("Scale / Wrapper","kernels/base.py"),("__add__/__mul__/__rmul__/__radd__","kernels/base.py")],
 [],["k1 + k2","k1 * k2","c * k","evaluate / matrices of the result"],("inputs","programs"))
p("C11","Integrated kernels augment the base model with exact integrals",
 "For every integrated kernel, every non-negative lag and any number of instruments, the augmented transition and process-noise matrices are the exact discretisation of the base process together with one running integral per instrument, analytic and numerical routes agree, and the base block is untouched. Resetting an instrument zeroes that instrument's integral only, observing an exposure of positive length reads that instrument's integral divided by the length, and otherwise the observation is the instantaneous process; entries may differ from exact by at most 1e-14 of their natural scale.",
 "all integrated kernels (any base kernel satisfying C09), all hyperparameters in every damping regime, all lags >= 0, any number of instruments",
 "closed-form integrals in several real parameters; tests compare a few values and one or two instruments",
 ["kernels/integrated.py","helpers.py"],
 [("IntegratedStateSpaceModel matrices","kernels/integrated.py"),("IntegratedSHO analytic integrals","kernels/integrated.py"),("VanLoan / Phibar_from_VanLoan","helpers.py")],
 [],["kernel.transition_matrix / process_noise / observation_model / reset_matrix"])
p("C12","Multi-component decomposition is exact and adds up",
 "In a model whose kernel is a sum, the posterior mean and variance reported for a named component (or set of named components), at the data or at test points, are the exact posterior of that part of the process given all data. The component means of all components add up to the total conditioned mean or prediction, each component appears exactly once, and asking for one component never changes the result for another.",
 "all sums of any number of components (products and scalings included as components), all datasets, all test points, instantaneous and integrated",
 "tests decompose one or two particular sums",
 ["kernels/base.py","gp.py"],
 [("observation_model(component=...)","kernels/base.py"),("extract_leaf_kernels","kernels/base.py"),("get_component_mean / get_all_component_means / predict(kernel=...)","gp.py"),("PredictedStates.get_component / get_all_components","gp.py")],
 [],["gp.get_component_mean","gp.get_all_component_means","gp.predict(kernel=...)"],("inputs","programs"))
p("C13","The periodic kernel's approximation error stays within its stated bound",
 "The exponential-sine-squared kernel is approximated by a finite cosine series with the documented coefficients (each non-negative, given by scaled modified Bessel functions), and for every lag the difference between the approximation and the exact covariance sigma^2 exp(-Gamma sin^2(pi Delta/P)) is at most the error bound the kernel reports. The approximation never exceeds the exact variance at zero lag, the bound decreases as the order grows, and the number of terms follows the requested order or the documented automatic choice.",
 "all periods, amplitudes, 0 < Gamma <= 32, all orders, all lags",
 "a supremum over all lags and all parameters; not tested beyond a plot-like comparison",
 ["kernels/base.py"],
 [("ExpSineSquared.__init__/error_bound/stationary_covariance","kernels/base.py"),("PeriodicTerm","kernels/base.py")],
 [],["kernel.evaluate","kernel.error_bound()"])
p("C14","The power spectral density is the Fourier transform of the kernel",
 "For every kernel driven by white noise, and for sums, products and scalings of such kernels, the power spectral density at any angular frequency equals the Fourier transform (divided by 2 pi) of the covariance function. It is real, even and non-negative, integrates to the variance, and is returned with one value per requested frequency.",
 "all kernels with a spectral density, all hyperparameters, all real frequencies",
 "an identity over a continuum of frequencies and parameters; tests do not cover products or scalings",
 ["kernels/base.py"],
 [("StateSpaceModel.psd","kernels/base.py"),("noise / noise_effect_matrix","kernels/base.py")],
 [],["kernel.psd(omega)"])
p("C15","Component names are unique and stable",
 "Building a model from any sum of kernels gives every component a distinct name: names that were already unique are kept, repeated names get distinct suffixes, and no suffix ever collides with another component's name. Renaming changes nothing else about the model (covariance, order of the components, hyperparameters).",
 "all expression trees of sums, products and scalings with arbitrary (repeated, suffix-like) names",
 "names are chosen by the user and trees are unbounded; tests use one or two name patterns",
 ["gp.py","kernels/base.py"],
 [("assign_unique_kernel_names","gp.py"),("extract_leaf_kernels","kernels/base.py")],
 [],["GaussianProcess(kernel,...).kernel component names"],("programs",))
p("C16","Results are one per coordinate and in the caller's order",
 "Every per-datum result has exactly one entry per measurement and every per-test-point result exactly one entry per test point, for any number of either from one upwards, in the order in which the caller supplied them. Permuting exposure-averaged measurements together with their data permutes the conditioned results and leaves the log-probability unchanged; permuting test points permutes predictions; a pair of coordinates gives a scalar covariance.",
 "all N>=1, M>=1, all permutations of the integrated measurements and of the test points, all solvers",
 "tests use sorted inputs and fixed sizes above one",
 ["gp.py","solvers/integrated/solver.py","solvers/integrated/parallel/solver.py"],
 [("project_at_data ordering","gp.py"),("predict / PredictedStates shapes","gp.py"),("state bookkeeping","solvers/integrated/solver.py")],
 [],["shapes and order of gp.loc, gp.variance, predict, component means"],("inputs","configurations"))
p("C17","Dense reference kernels for the integrated oscillator are exact averages",
 "The dense (non-state-space) damped-oscillator kernel equals the state-space one, and the dense integrated-oscillator kernel equals the double average of the oscillator covariance over the two exposures for every relation between the intervals (disjoint, partly overlapping, nested, identical, zero length on either or both sides) and either argument order. It agrees with the covariance implied by the integrated state-space model.",
 "all midpoints and lengths >= 0, all hyperparameters for which the dense kernel is defined",
 "several overlap cases each with closed-form integrals in many parameters",
 ["kernels/dense.py"],
 [("SHOKernel","kernels/dense.py"),("IntegratedSHOKernel","kernels/dense.py")],
 [],["dense kernel evaluate"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
