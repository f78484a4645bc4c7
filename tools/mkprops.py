#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=a, where=b) for a, b in mech],
                      observe_at=list(observe), hook_needed=None)))


p('C01', 'Structured matrices act exactly as the dense matrices they denote',
  'Every structured matrix (Toeplitz, block-Toeplitz on a grid of any dimension, diagonal, identity, dense, Kronecker, block diagonal, symmetric block, sum, composition, wrapped product, interpolated) reports the shape of the dense matrix it denotes, and its vector product, matrix product, dense conversion and linear-operator view all agree with that dense matrix up to rounding. This holds for any nesting of them, any sizes including 1, integer, half-integer, strided or Fortran-ordered operands, repeated use, and for a pickled copy; operands are left unmodified.',
  ['inputs', 'configurations'], 'all nestings of matrix types, all sizes, all operands, any order of use',
  'The repository tests fixed examples per class and never nests most classes; composition, identity, interpolated and wrapped matrices have no tests at all.',
  ['runlmc/linalg/*.py', 'runlmc/approx/ski.py'],
  [('circulant embedding and cyclic convolution', 'linalg/toeplitz.py, linalg/bttb.py'), ('reshape order of the Kronecker product', 'linalg/kronecker.py'), ('block offsets', 'linalg/block_diag.py, linalg/block_matrix.py'), ('dropping the cached operator when pickling', 'linalg/matrix.py')],
  ['matvec', 'matmat', 'as_numpy', 'as_linear_operator', 'shape'])
p('C02', 'Interpolation weights are the cubic-convolution weights, laid out by output',
  'For an equispaced grid and samples between its second and second-to-last points, each row of the interpolation matrix holds the cubic convolution (Keys) weights of the four neighbouring grid points (their products on a 2-D grid, second axis fastest), so rows sum to one and polynomials up to degree two are reproduced; samples nearer the edge or outside fold the weights of missing points onto the edge point. For several outputs the matrix is block diagonal in output order, with no rows for an output without samples. Grids that are not 1-D, shorter than four points or not equispaced, and samples of the wrong dimension, are rejected with ValueError.',
  ['inputs'], 'all grids, sample positions (including grid points and edges), sample orders and per-output counts (including zero)',
  'Tests check approximation error on a few smooth functions with loose thresholds and a handful of layouts; they cannot settle exact weights at every position, edge or empty output.',
  ['runlmc/approx/interpolation.py'],
  [('cubic kernel and window', 'interp_cubic, interp_bicubic, cubic_kernel'), ('row and column offsets per output', 'multi_interpolant')],
  ['interp_cubic', 'interp_bicubic', 'multi_interpolant', 'cubic_kernel'])
p('C03', 'The inducing grid covers the data with a two-point margin',
  'For every dimension in which the inputs are not all equal the generated grid is equispaced and increasing, has the requested number of points plus four (by default the mean number of samples per output, rounded down, plus four), and at least two grid points lie strictly below every input and two strictly above. Requested bounds are kept (up to that margin) when they contain the data and are otherwise only widened, never narrowed, and the same input rows in any order and any assignment to outputs give the same bounds. A model built on the data uses exactly such grids, one per set of active dimensions.',
  ['inputs', 'configurations'], 'all inputs, dimensions, requested bounds and sizes',
  'Tests try a few data sets in one and two dimensions; the covering margin must hold for all ranges, sizes and bound combinations.',
  ['runlmc/approx/interpolation.py', 'runlmc/models/interpolated_llgp.py'],
  [('widening and margin', 'autogrid'), ('per-active-dimension grids', 'InterpolatedLLGP._generate_grids')],
  ['autogrid', 'grid_axes'])
p('C04', 'The structured covariance is W(sum_q B_q x K_q)W^T + noise for every kernel mix',
  'For every functional kernel (any mix of full-rank, rank-one and independent terms, ranks, outputs, and active dimensions), the covariance operator a model uses for solving equals, up to rounding, the interpolated sum over terms of coregionalization matrix Kronecker grid kernel, plus each output\'s noise on its own rows. Which internal representation is chosen must not be observable in the operator\'s products.',
  ['configurations', 'inputs'], 'all kernel mixes, ranks, outputs, noise levels, active-dimension groups, sample counts',
  'No test compares the operator against its definition for mixes; the choice of representation depends on ranks and output counts that the tests visit only at a few points.',
  ['runlmc/lmc/grid_kernel.py', 'runlmc/lmc/functional_kernel.py', 'runlmc/models/interpolated_llgp.py'],
  [('representation choice', 'gen_grid_kernel'), ('sum, block-Toeplitz and SLFM constructions', 'GridKernel')],
  ['model.kernel.K.matvec'])
p('C05', 'Exact covariance and reported marginal likelihood follow the LMC formula',
  'The dense covariance of a model is, entry by entry, the sum over terms of the coregionalization entry of the two outputs times the kernel at the distance over that term\'s active dimensions, plus the output\'s noise on the diagonal. The reported log determinant is that of this matrix, the reported quadratic form is y\'K^-1 y for the approximate covariance and the (normalized) observations stacked in output order, and the reported log likelihood is -1/2 (log det + quadratic + n log 2 pi).',
  ['configurations', 'inputs'], 'all kernel mixes, data, active dimensions and parameter values',
  'Tests compare a few configurations with coarse tolerances and only one active-dimension group.',
  ['runlmc/lmc/likelihood.py', 'runlmc/models/interpolated_llgp.py'],
  [('block scaling by coregionalization', 'ExactLMCLikelihood'), ('likelihood assembly', 'InterpolatedLLGP.log_likelihood')],
  ['K()', 'log_det_K()', 'normal_quadratic()', 'log_likelihood()'])
p('C06', 'Gradients are the derivatives of the likelihood (exact and stochastic)',
  'The exact gradient with respect to every free parameter (coregionalization vectors and diagonals, kernel parameters, noise) is the derivative of the log marginal likelihood of the dense covariance. The model\'s gradient is 1/2 (alpha\' dK alpha - mean over probes r of r\' K^-1 dK r) for the approximate covariance, with the requested number of random +-1 probe vectors, the same probes for every parameter, drawn afresh at every update. Parameters that are fixed by construction are not optimized.',
  ['configurations', 'inputs'], 'all kernel mixes, parameter values, probe counts and random draws',
  'Randomness makes unit tests compare averages loosely; they cannot tell a wrong estimator from sampling noise, and visit few mixes.',
  ['runlmc/lmc/likelihood.py', 'runlmc/lmc/stochastic_deriv.py', 'runlmc/lmc/exact_deriv.py', 'runlmc/lmc/functional_kernel.py'],
  [('derivative assembly', 'LMCLikelihood'), ('stochastic trace', 'StochasticDeriv'), ('dispatch to parameters', 'FunctionalKernel.update_gradient')],
  ['model.gradient', 'coreg_vec_gradients()', 'coreg_diags_gradients()', 'kernel_gradients()', 'noise_gradient()'])
p('C07', 'Predictions are the GP posterior in every mode, for any query shape',
  'The predicted mean at any query point is the interpolated posterior mean, and the predicted variance is the prior variance of that output plus noise minus the variance explained in the selected mode (exact, on-the-fly, precompute), never below zero. Results come as one array per output in query order, are independent of which other points are queried, and outputs without query points yield empty arrays. Precompute is refused with ValueError when kernels act on different dimensions.',
  ['inputs', 'configurations'], 'all models, modes, query sets including empty outputs',
  'Tests check prediction shapes and a coarse comparison on one model; modes, split kernels, empty outputs and permuted queries are not covered.',
  ['runlmc/models/interpolated_llgp.py', 'runlmc/models/multigp.py'],
  [('mean and native variance', '_raw_predict'), ('explained variance per mode', '_var_predict_*')],
  ['predict'])
p('C08', 'Every answer reflects the current parameters, whatever the history',
  'After any sequence of parameter changes (through the model, the kernel or individual parameters), randomization, suspended and resumed updates, optimizations, predictions in changing modes and reads, on any number of models alive at once, every value a model returns (covariance, log determinant, quadratic form, likelihood, gradient, predictions) is the value a freshly built model with the same data and parameters returns. Reads and predictions never change parameters or later answers.',
  ['histories'], 'all interleavings of updates, reads and predictions on one or more models',
  'Tests build a model, set parameters once and read; stale caches show only in particular histories, possibly involving a second model.',
  ['runlmc/models/interpolated_llgp.py', 'runlmc/parameterization/model.py', 'runlmc/lmc/functional_kernel.py'],
  [('cache invalidation', '_clear_caches'), ('update propagation', 'parameters_changed')],
  ['all public reads'])
p('C09', 'Normalization is transparent and quantiles are Gaussian quantiles',
  'With normalization, a model of a*y+b (a>0, per output) predicts a*mean+b and a^2*variance of the model of y, each output with its own scale, and the stored observations have mean zero and unit deviation per output; without it observations are used as they are. predict_quantiles returns, per output, one row per query and one column per requested quantile in the requested order, equal to the mean plus the normal quantile times the standard deviation of predict.',
  ['inputs', 'configurations'], 'all data scales and shifts, outputs, quantile lists and query sets',
  'Tests use one data set and two quantiles; per-output scale mix-ups and ordering need several outputs with distinct scales.',
  ['runlmc/util/normalizer.py', 'runlmc/models/multigp.py'],
  [('per-output normalizers', 'MultiGP.__init__, _predict'), ('quantile assembly', 'predict_quantiles')],
  ['predict', 'predict_quantiles', 'Ys'])
p('C10', 'Ill-formed input is rejected with ValueError, well-formed input accepted',
  'Constructing a model with no outputs, different numbers of inputs and outputs, mismatched lengths, inputs that are not 1-D or 2-D, outputs that are not 1-D, mixed input dimensions or an output without variance (even if its constant value is not exactly representable), without a functional kernel or with an unknown prediction mode raises ValueError; so do functional kernels without outputs or kernels or with inconsistent ranks or indices (non-positive ranks, counts that differ, indices of D or more), setting a second, different input dimension, Toeplitz, block-Toeplitz, diagonal, dense, sum, symmetric-block and wrapped matrices of empty or mismatching shape, queries of the wrong dimension, and evaluating mean functions on inputs for the wrong number of outputs. Every other combination is accepted, and a rejected call leaves existing objects usable.',
  ['inputs'], 'all combinations of malformed and well-formed arguments',
  'Tests try single faults for some constructors; combinations and the accepting side are not enumerated.',
  ['runlmc/models/multigp.py', 'runlmc/models/interpolated_llgp.py', 'runlmc/lmc/functional_kernel.py', 'runlmc/linalg/*.py', 'runlmc/mean/*.py'],
  [('validation', '_validate_io, _pad_dims, constructors')], ['constructors', 'predict'])
p('C11', 'Priors enter the objective and its gradient exactly once',
  'For any set of parameters with priors, after any history of setting, replacing and removing them, the objective is minus (log likelihood + sum over prioritized parameters of the prior log density and of the log Jacobian of the parameter\'s constraint), and its gradient is the derivative of that expression; parameters without priors contribute nothing. Gaussian, Gamma, inverse Gamma and half-Laplace densities are the normalized densities (vectorized over parameters) and their gradients the derivatives.',
  ['histories', 'configurations'], 'all assignments of priors to parameters, all set/replace/unset histories, all parameter values',
  'Tests use one parameter with one prior; several priors, replacement and removal are not exercised.',
  ['runlmc/parameterization/*.py'],
  [('index bookkeeping', 'PriorizableLeaf.set_prior/unset_prior'), ('prior and Jacobian terms', 'Model.log_prior, _log_prior_gradients')],
  ['log_prior', 'objective_function', 'objective_function_gradients', 'lnpdf', 'lnpdf_grad'])
p('C12', 'The optimizer stops exactly when its contract says, and keeps its result',
  'AdaDelta takes steps until the iteration count reaches max_it or the gradient norm (largest absolute entry) has fallen below min_grad_ratio times the largest norm seen so far on permitted_drops iterations, whichever comes first, always taking at least one. The callback runs exactly once per iteration, step settings reach the update rule unchanged, the optimizer can be reused with a fresh budget, and the parameters left in the model are those of the last step.',
  ['histories', 'configurations'], 'all gradient-norm histories and option combinations',
  'The optimizer has no tests of its own; stopping depends on whole histories of gradient norms.',
  ['runlmc/models/optimization.py', 'runlmc/models/multigp.py'],
  [('stopping rule', 'AdaDelta.opt'), ('hand-over to paramz', 'MultiGP.optimize')],
  ['AdaDelta.opt', 'optimize'])
p('C13', 'Iterative solves are honest about their accuracy',
  'For every symmetric positive definite operator and right-hand side, the solver returns a vector x, and either the residual norm of K x = y is within the tolerance or a critical message with the residual is logged. In verbose mode the reported error is that residual norm and the reported count the number of iterations, which never exceeds the number of unknowns; a solve that reaches the tolerance before its iterations run out logs nothing, both methods (MINRES, CG) obey this, preconditioners do not change the contract, and y is not modified.',
  ['inputs'], 'all systems, right-hand sides, tolerances and both methods, including slow and early-terminated convergence',
  'The solver is untested; early termination (every 100 iterations) and non-convergence need particular spectra.',
  ['runlmc/approx/iterative.py'], [('early termination and error report', 'Iterative.solve')],
  ['Iterative.solve', 'logging'])
p('C14', 'Parallel execution changes nothing but time',
  'A model allowed several processes returns the same covariance solves, likelihood, predictions (each mode) and, for the same random draws, gradients as one limited to a single process, with results in input order. Work submitted to the pool wrapper is returned in submission order with or without a pool, and failures in a worker reach the caller.',
  ['schedules', 'configurations'], 'all process counts and completion orders',
  'Tests run below the size at which a pool is created; completion order varies between runs.',
  ['runlmc/util/inline_pool.py', 'runlmc/models/interpolated_llgp.py', 'runlmc/lmc/stochastic_deriv.py'],
  [('order-preserving starmap', 'InlinePool'), ('pickling of operators', 'Matrix.__getstate__')],
  ['starmap', 'predict', 'gradient'])
p('C15', 'Recorded metrics describe this optimization, one entry per update',
  'With metrics on, every parameter update appends exactly one entry to each metric list (construction counts as an update): mean solver iterations, mean solver error, largest absolute gradient entry, relative gradient error against the exact gradient, and log likelihood, all of that update; the gradient entries cover all coregionalization vectors and diagonals (fixed ones included), kernel parameters and noise. Each optimize call starts from empty lists, so afterwards all lists have equal length and describe only that run; with metrics off nothing is recorded, and recording does not change the parameters reached.',
  ['histories'], 'all sequences of updates and optimizations',
  'Tests check one optimization\'s list lengths; resets and values over histories are not covered.',
  ['runlmc/lmc/metrics.py', 'runlmc/models/interpolated_llgp.py', 'runlmc/lmc/stochastic_deriv.py'],
  [('reset on optimize', 'InterpolatedLLGP.optimize'), ('recording', 'parameters_changed, StochasticDerivService.generate')],
  ['model.metrics'])
p('C16', 'Kernel functions and their parameter gradients follow their formulas',
  'For every distance array of any shape and every positive parameter value, RBF, Matern-3/2, standard periodic, identity and scaled kernels return their documented formulas element-wise, in particular 1 (times the scale) at distance zero; kernel gradients are the derivatives in the documented parameter order, and gradient updates reach the matching parameter. Conversion to GPy yields a kernel with the same values.',
  ['inputs'], 'all distances and parameter values',
  'Tests compare a few values; scaled kernels are untested.',
  ['runlmc/kern/*.py'], [('formulas', 'from_dist, kernel_gradient, to_gpy')],
  ['from_dist', 'kernel_gradient', 'update_gradient', 'to_gpy'])
p('C17', 'The functional kernel keeps terms, outputs and active dimensions in step',
  'For every specification of full-rank, rank-one and independent terms, the kernel has Q terms in that order with coregionalization matrices A\'A + diag(kappa) of the documented ranks (rank-one terms without diagonal, independent terms a single one on their own output), Q, D, per-active-dimension counts, total ranks and evaluation lists agree with the specification, and active dimensions are sorted, defaulting to all. Reading parameters returns what was last written, and only coregionalization vectors of non-independent terms, diagonals of full-rank terms, kernel parameters and noise are optimized.',
  ['configurations', 'histories'], 'all specifications, active-dimension groupings and write/read orders',
  'The class has no direct tests.',
  ['runlmc/lmc/functional_kernel.py'], [('ordering and counts', 'FunctionalKernel'), ('parameter linking', '_initialize_Aq, _initialize_kq')],
  ['coreg_mats', 'coreg_vecs', 'coreg_diags', 'num_lmc', 'num_slfm', 'num_indep', 'total_rank', 'eval_kernels'])
p('C18', 'Array helpers compute their definitions for all shapes and layouts',
  'Splitting by lengths tiles the array in order (zero lengths allowed) and rejects totals that do not match; searching a weakly decreasing array returns the exact boundary, inclusive or not, and rejects unsorted arrays; element-wise mapping preserves shape and position for any memory layout; running offsets, successive chunks, Cartesian products (last axis fastest), symmetric table maps and the smallest Toeplitz eigenvalue equal their definitions.',
  ['inputs'], 'all arrays, lengths, thresholds and layouts',
  'Tests sample a few arrays, all C-contiguous; several helpers are untested.',
  ['runlmc/util/numpy_convenience.py'], [('index arithmetic', 'numpy_convenience.py')],
  ['tesselate', 'search_descending', 'map_entries', 'begin_end_indices', 'chunks', 'cartesian_product', 'symm_2d_list_map', 'smallest_eig'])
p('C19', 'The library never modifies arrays its caller passed in',
  'Building models, predicting, computing quantiles, optimizing, generating grids and interpolants, solving, and building or applying matrices leave every array, list and dictionary passed by the caller unchanged. Modifying the arrays passed as queries, or the arrays returned by predictions, afterwards does not change any later answer of the model.',
  ['histories', 'inputs'], 'all calls, argument layouts and later modifications',
  'Tests pass temporaries and never look at them again.',
  ['runlmc/models/*.py', 'runlmc/approx/interpolation.py', 'runlmc/util/normalizer.py', 'runlmc/linalg/*.py'],
  [('copies before in-place operations', 'autogrid, predict, matvec')], ['arguments after each call'])
p('C20', 'The GPy wrapper returns each output\'s predictions to that output',
  'For one-dimensional inputs and any numbers of training and query points per output (queries may be empty for some outputs), the dense wrapper\'s likelihood and predictions are those of the LMC model with the given kernels and ranks: one array per output, in query order, computed for that output\'s own index. Its quantiles have one row per query and one column per quantile and agree with its mean and variance.',
  ['inputs', 'configurations'], 'all data layouts, kernels, ranks and query sets',
  'Tests use equal-sized outputs and one query layout.',
  ['runlmc/models/gpy_lmc.py'], [('output index metadata', 'predict, predict_quantiles')], ['predict', 'predict_quantiles', 'log_likelihood'])
p('C21', 'Spectral bounds and the Toeplitz Cholesky factor are correct',
  'The upper eigenvalue bound of a Toeplitz matrix, and of sums, Kronecker products and symmetric block matrices (given as 2-D object arrays) of them (or of non-negative diagonal and identity matrices), is never below the largest eigenvalue, and for a Toeplitz matrix equals its largest absolute row sum up to rounding. The Toeplitz Cholesky routine returns an upper triangular factor C with C\'C equal to the matrix for every positive definite Toeplitz matrix.',
  ['inputs'], 'all Toeplitz matrices and compositions',
  'Tests try some bounds on random matrices; the factorization is untested.',
  ['runlmc/linalg/toeplitz.py', 'runlmc/linalg/shur.py', 'runlmc/linalg/kronecker.py', 'runlmc/linalg/sum_matrix.py', 'runlmc/linalg/block_matrix.py'],
  [('Gershgorin dynamic program', 'Toeplitz.upper_eig_bound'), ('Schur recursion', 'shur')], ['upper_eig_bound', 'shur'])
p('C22', 'Mean functions evaluate and differentiate per output',
  'A zero mean returns zeros and a constant mean its own offset for every point of each output, one array per output with as many entries as inputs (possibly none); the gradient list has one entry per parameter, one array per output, equal to the derivative. After any history of offset changes and gradient updates the values, offsets and gradients (from the first update on) are the latest ones, independent between outputs and between objects.',
  ['inputs', 'histories'], 'all input layouts and histories of updates',
  'Tests check one example each.',
  ['runlmc/mean/*.py'], [('per-output evaluation', 'Constant, Zero')], ['f', 'mean_gradient', 'update_gradient'])
p('C23', 'Inherited documentation fills exactly the gaps',
  'Applying the documentation-inheritance decorator to a class gives every undocumented instance method and property of that class the documentation of the first direct parent (in declaration order) that documents it, leaves documented members, other attributes, parents and behaviour unchanged, and returns the class itself.',
  ['programs'], 'all class hierarchies and member kinds',
  'Tests build four small hierarchies.',
  ['runlmc/util/docs.py'], [('search over direct bases', 'inherit_doc')], ['__doc__'])
p('C24', 'Copied and restored models equal the original and share nothing with it',
  'A model that runs serially can be copied, deep-copied, or pickled and restored at any point of its life. The copy has the parameters, priors and fixed parameters the original has at that moment and gives the same answers (likelihood, covariance, gradient, log prior, predictions). From then on the two are independent: writing, fixing, attaching priors, optimizing (also when interrupted), switching prediction modes or updating one changes no parameter, attribute or answer of the other, and each answers according to its own current parameters.',
  ['histories', 'interruptions'], 'all histories of copies, changes and reads over several models',
  'No test copies or pickles a model, and sharing shows only after interleaved changes.',
  ['runlmc/models/interpolated_llgp.py', 'runlmc/models/multigp.py', 'runlmc/lmc/functional_kernel.py', 'runlmc/parameterization/*.py'],
  [('memo tables shared by all models of the class', 'lru_cache methods of InterpolatedLLGP'), ('state restored by copying', 'parameterization')],
  ['parameters of every model after each operation', 'every answer against a new model in another process'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
