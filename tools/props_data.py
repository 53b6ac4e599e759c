"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
L = 'src/cr/sparse/_src/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, observe=None, tech=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      observe=observe or [], tech=tech, state=state or []))


P('P01', 'Every linear operator computes the linear map it documents',
  'For every operator constructor, applying the operator to any vector (real, integer or complex where the operator accepts complex data, alone or stacked '
  'as a matrix of vectors along the operator axis) yields exactly the product with the matrix which the constructor documents, in the documented '
  'output shape. Operators which fold their arguments (multi-dimensional transforms, block and windowed operators) map element positions to the documented positions.',
  ['inputs', 'configurations'],
  'all public operator constructors x all listed sizes/parameters/axes x all basis vectors of the domain (hence all inputs by linearity) plus generic vectors',
  'The unit tests try one or two sizes per operator and mostly only the dot test, which holds for a wrong forward map with a matching wrong adjoint; '
  'odd sizes, offsets, axes, zero padding and complex data are not reached.',
  [L + 'lop/basic.py', L + 'lop/fft.py', L + 'lop/dwt.py', L + 'lop/conv.py', L + 'lop/calculus.py', L + 'lop/onb.py', L + 'lop/special_matrices.py',
   L + 'lop/windowed_op.py', L + 'lop/reshape.py', L + 'lop/block_diag.py', L + 'lop/filters.py', L + 'lop/random.py', L + 'lop/tv.py'],
  [('times', 'the times function of each constructor'), ('apply_along_axis', L + 'lop/impl.py')],
  'Exhaustive over the catalogue of constructor calls and, by linearity, over the inputs of each; oracle is an independent NumPy dense matrix. Sizes are bounded (up to 16 per axis).',
  ['times on basis vectors'])

P('P02', 'The adjoint of every operator is the exact adjoint of its forward map',
  'For every operator constructor and every pair of vectors x, y the inner products of A x with y and of x with the adjoint applied to y are equal: the '
  'adjoint application is the conjugate transpose of the forward matrix, for vectors, complex data and matrices of vectors along the operator axis. Its output has the shape of the operator input.',
  ['inputs', 'configurations'],
  'all public operator constructors x all listed sizes/parameters/axes x all basis vectors of both spaces',
  'The randomised dot tests in the suite use one size, real data and default axis per operator; adjoint errors at boundaries, for odd lengths, for padding or for complex filters stay unseen.',
  [L + 'lop/' + f for f in ('basic.py', 'fft.py', 'dwt.py', 'conv.py', 'calculus.py', 'onb.py', 'special_matrices.py', 'windowed_op.py', 'block_diag.py', 'filters.py', 'tv.py')],
  [('trans', 'the trans function of each constructor')],
  'Exhaustive over the catalogue and over basis pairs. Orthogonal wavelets only. tv2D is a recorded finding.')

P('P03', 'Operator algebra: every expression denotes the matrix its operands denote',
  'Every expression built from operators by negation, scaling, sum, difference, composition, power, transpose, Hermitian transpose, Gram and frame operators, '
  'concatenation, block diagonals, restriction to columns and compilation behaves, forwards and adjointly, like the corresponding expression of the matrices of its operands. '
  'Shape and realness reported by the expression agree with that matrix.',
  ['programs', 'inputs'],
  'all operator expressions up to the stated depth over a leaf alphabet chosen so that every special case of the implementation occurs x all basis vectors',
  'The suite tests each combinator once on real operands; interactions (scaling by a complex number and then taking the adjoint of a composition, powers of non-square chains) are not reached.',
  [L + 'lop/lop.py', L + 'lop/impl.py', L + 'lop/basic.py', L + 'lop/block_diag.py', 'src/cr/sparse/lop.py'],
  [('combinators', L + 'lop/basic.py'), ('operator overloads', L + 'lop/lop.py')],
  'Breadth-first over all expressions up to depth 2 (3 in thorough) plus unary chains of depth 3 (4), executed on the real code against a NumPy matrix model.')

P('P04', 'Views, estimates and self-tests derived from an operator agree with it',
  'The dense matrix, adjoint matrix, complex matrix, single and multiple columns, column restriction, compiled form, shapes and sizes obtained from an operator agree with its forward map. '
  'The estimated spectral norm agrees with the largest singular value to within a few percent, and the dot tests accept every correct adjoint and reject every adjoint that is wrong in a single entry.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all catalogue operators up to the size bound; for the dot tests all single-entry corruptions of the adjoint of all small shapes, for a list of random keys',
  'The suite checks matrix views only for a few operators with flat shapes, and never feeds a wrong adjoint to a dot test.',
  [L + 'lop/util.py', L + 'lop/dot.py', L + 'lop/normest.py', L + 'lop/lop.py', L + 'lop/props.py'],
  [('to_matrix and friends', L + 'lop/util.py'), ('dot_test', L + 'lop/dot.py'), ('normest', L + 'lop/normest.py')],
  'Exhaustive over catalogue and over single-entry faults. Complex dot test with a negative inner product sum is a recorded finding.')

P('P05', 'Sparse pursuit solutions are self-consistent, sparse and within budget',
  'The solution returned by any greedy pursuit for any measurement vector has finite coefficients, at most the requested number of distinct in-range support indices, '
  'a residual equal to the measurements minus the reported sparse approximation, a reported residual norm that matches that residual and an iteration count within the budget. '
  'Pursuits that solve a least squares problem on their support return its solution, and zero measurements return the zero vector.',
  ['inputs', 'configurations'],
  'all solver variants x dictionaries x sparsity levels x iteration budgets x tolerances x every support and sign pattern (noiseless, noisy), generic and zero measurements',
  'The suite runs each pursuit on a few random problems and checks only that recovery succeeded; failing, noisy, single-iteration, zero and over-sparse runs are not looked at.',
  [L + 'pursuit/' + f for f in ('mp.py', 'omp.py', 'cosamp.py', 'sp.py', 'iht.py', 'htp.py', 'defs.py')],
  [('solve loops', L + 'pursuit')],
  'Exhaustive over the enumerated problem set on the real solvers.')

P('P06', 'Greedy pursuits recover every sparse signal under incoherence',
  'When the dictionary is incoherent enough for the sparsity level, every pursuit recovers the exact support and coefficients from noiseless measurements of every sparse signal, whatever its support, signs and magnitudes. '
  'All variants of a pursuit (dense matrix, operator, compiled) return the same answer.',
  ['inputs', 'configurations'],
  'every support of size K, sign pattern and magnitude ordering for each incoherent dictionary and solver variant',
  'The suite recovers a handful of random signals.',
  [L + 'pursuit/' + f for f in ('mp.py', 'omp.py', 'cosamp.py', 'sp.py', 'iht.py', 'htp.py')],
  [('solve loops', L + 'pursuit')],
  'Exhaustive over supports, signs and magnitude patterns of the listed dictionaries (two-ortho, orthonormal, identity).')

P('P07', 'Greedy pursuits take exactly the steps of their published algorithms',
  'Stopped after any number of iterations, a pursuit (matching pursuit, OMP, CoSaMP, subspace pursuit, iterative hard thresholding, hard thresholding pursuit and their normalised forms) is in the state '
  'which the published algorithm reaches after that number of iterations: same support, coefficients and residual. Dense matrix, operator and compiled variants follow the same path.',
  ['histories', 'inputs', 'configurations'],
  'every iteration budget in the list x every enumerated measurement vector x solver variant, replaying every state of the reference state machine',
  'End-to-end recovery tests pass even if steps are suboptimal or in the wrong order, because incoherent random problems converge anyway.',
  [L + 'pursuit/' + f for f in ('mp.py', 'omp.py', 'cosamp.py', 'sp.py', 'iht.py', 'htp.py')],
  [('body of the solve loops', L + 'pursuit')],
  'Explicit-state model of each algorithm; every model state is replayed on the implementation (trace conformance). Ties below 1e-9 are not compared.')

P('P08', 'Projectors are Euclidean projections; indicators decide membership',
  'For every point, the projector of a convex set (zero, singleton, box, affine subspace, cone, l1 ball, l2 ball, whole space) returns the closest point of that set, so that projecting twice changes nothing, and leaves points of the set unchanged. '
  'The matching indicator is zero exactly on the set and infinite off it.',
  ['inputs', 'configurations'],
  'all projector and indicator constructors x all listed parameter forms (scalar, vector, one sided, with and without centre) x all points of a grid in up to 3 (4) dimensions',
  'The suite projects one or two points per set and compares with a stored answer; boundary, interior, one-sided, shifted and degenerate points are not covered.',
  [L + 'opt/projectors/basic.py', L + 'opt/projectors/lpballs.py', L + 'opt/indicators/basic.py', L + 'opt/indicators/lpballs.py', L + 'opt/projections.py'],
  [('projectors', L + 'opt/projectors'), ('indicators', L + 'opt/indicators')],
  'Exhaustive over the point grids and parameter sets on the real code; oracle: independent projections plus the variational characterisation against all grid points of the set.')

P('P09', 'Proximal operators and thresholding rules minimise their penalised distance',
  'For every convex function that the library offers as a proximal function (zero, l1 with scalar or elementwise weights, l1 on the positive orthant, l2, l1 ball, sorted l1), every point x and step t, the proximal point is the unique minimiser of t f(z) + |z-x|^2/2 and the function value is that of f. '
  'Hard, half and soft thresholding (by level and by percentile), shrinkage and Moreau envelopes agree with their definitions, including the gradient of an envelope.',
  ['inputs', 'configurations'],
  'all proximal constructors and thresholding rules x parameters x steps x all grid points, each against all competitor points of the grid',
  'The suite checks two or three points per function with the default step; ties, zero weights, non-unit steps and long sorted lists are not covered.',
  [L + 'opt/proximal_ops/basic.py', L + 'opt/proximal_ops/lpnorms.py', L + 'opt/proximal_ops/prox.py', L + 'opt/proximal_ops/prox_sorted_l1.py', L + 'opt/shrinkage.py', L + 'opt/prox_to_smooth.py', L + 'geo/thresholding.py'],
  [('prox_op / prox_vec', L + 'opt/proximal_ops'), ('thresholding', L + 'geo/thresholding.py'), ('Moreau envelope', L + 'opt/prox_to_smooth.py')],
  'Exhaustive over the point grids on the real code; the optimality inequality for convex f makes comparison against all grid points a complete characterisation on the grid.')

P('P10', 'Smooth functions: value, gradient and their combinations are consistent',
  'For every smooth function that the library offers (constant, entropy, Huber, linear, quadratic, quadratic error, log determinant) and every point of its domain the value is the documented one, the gradient is the gradient of that value, and the combined evaluation equals both. '
  'Translating or rebuilding a function from its parts preserves this.',
  ['inputs', 'configurations', 'programs'],
  'all smooth constructors x parameters x all grid points x all transformation chains up to depth 2',
  'The suite evaluates each function at one point and never checks gradients against values for translated or rebuilt functions.',
  [L + 'opt/smooth/' + f for f in ('smooth.py', 'constant.py', 'entropy.py', 'huber.py', 'linear.py', 'logdet.py', 'quad.py')],
  [('build and build2 and build3', L + 'opt/smooth/smooth.py')],
  'Exhaustive over grids and transformation chains on the real code against reference formulas and central differences.')

P('P11', 'Iterative linear solvers take the steps their theory prescribes',
  'After any number of steps conjugate gradients and preconditioned conjugate gradients have minimised the energy norm, and LSQR the (damped) residual norm, over the Krylov space of that dimension; hence they solve every well-conditioned system exactly once the dimension is exhausted. '
  'Reported residual norms, solution norms and iteration counts are those of the returned iterate; each method stops at the first iterate that meets its tolerance (relative or absolute, at every scale of the data), and power iterations return a unit eigenvector of the dominant eigenvalue.',
  ['histories', 'inputs', 'configurations'],
  'all listed matrices, start vectors, damping values and preconditioners x every iteration budget x every right-hand side of the set',
  'The suite solves one or two systems to convergence; intermediate iterates, damping with a start vector, complex systems and reported norms are not examined.',
  [L + 'opt/cg.py', L + 'opt/pcg.py', L + 'sls/lsqr.py', L + 'sls/power.py'],
  [('cg.solve_from', L + 'opt/cg.py'), ('pcg.solve_from', L + 'opt/pcg.py'), ('lsqr.solve', L + 'sls/lsqr.py'), ('power_iterations', L + 'sls/power.py')],
  'Every iterate of every enumerated history is compared with the state of a Krylov projection model.')

P('P12', 'Lanczos bidiagonalisation and truncated SVD satisfy their identities',
  'For every operator, start vector and number of steps the bidiagonalisation returns orthonormal left and right vectors and a bidiagonal matrix with A V = U B + residual and A^T U = V B^T. '
  'The truncated SVD returns orthonormal singular vectors with A V = U S, values that never exceed the true ones, that are exact once the Krylov space is complete, error bounds which hold, and a count of converged values that counts exactly the leading ones with a bound at rounding level.',
  ['histories', 'inputs', 'configurations'],
  'all matrices of the family x all (listed) step counts x start vectors',
  'The suite factorises one or two matrices with a spread spectrum; repeated, clustered and decaying spectra, restarts and partial step counts are not reached.',
  [L + 'sls/svdpack/lanbpro.py', L + 'sls/svdpack/lansvd.py', L + 'sls/svdpack/util.py'],
  [('lanbpro', L + 'sls/svdpack/lanbpro.py'), ('lansvd_simple', L + 'sls/svdpack/lansvd.py')],
  'Every step count (history prefix) of the enumerated matrices on the real code.')

P('P13', 'Convex l1 solvers return minimisers of the problems they document',
  'For every measurement vector and regularisation level the interior point, first-order (l1-regularised, lasso, ordered l1), SPGL1, spectral projected gradient and YALL1 solvers return a feasible point whose objective matches the exact optimum of their documented problem within their tolerance, with weights, sparsifying basis, non-negativity and start points respected. '
  'Reported residuals, gradients, norms and operator counts belong to the returned point, and zero or fully regularised data gives the zero solution. Stopped after any number of iterations the spectral projected gradient method is in the state of its recursion (spectral step, projected direction, non-monotone line search with quadratic interpolation), SPGL1 is at a feasible point with non-monotone descent, and YALL1 and SPGL1 stop only for a reason their stopping rules give, within the iteration and operator budgets.',
  ['inputs', 'configurations'],
  'all listed matrices x all supports and sign patterns of the sparse signals, perturbed, generic, scaled and zero measurements x regularisation levels x solver options',
  'The suite solves one random instance per solver and checks that the sparse signal was found, which also succeeds with a wrong weight, a wrong constraint level or a misreported residual.',
  [L + 'cvx/l1ls.py', L + 'cvx/spgl1.py', L + 'cvx/adm/yall1.py', L + 'fom/fom.py', L + 'fom/l1rls.py', L + 'fom/lasso.py', L + 'fom/owl1rls.py', L + 'fom/scd.py', L + 'opt/spg.py'],
  [('solve loops', L + 'cvx'), ('fom', L + 'fom/fom.py')],
  'Exhaustive over the enumerated problems; the oracle enumerates all supports, sign patterns and bases, so it is exact. YALL1 is additionally replayed against its iteration. The smoothed conic dual drivers are recorded findings.')

P('P14', 'Proximal gradient and reweighting iterations follow their recursions and rates',
  'Stopped after any number of iterations, ISTA, FISTA (any threshold rule, sparsifying basis, start, step size, real or complex operator) and FOCUSS are in the state that their recursion prescribes, they stop at the first state which satisfies a stopping rule, and their limits are minimisers of the lasso problem or solutions of the linear system. '
  'The accelerated first-order method is, after any number of iterations, in the state of its recursion with backtracking (from feasible and infeasible starts), stops once the change is within the tolerance, and obeys the published O(1/k^2) bound at every iteration when the Lipschitz constant is known.',
  ['histories', 'inputs', 'configurations'],
  'every iteration budget 0..T x every enumerated measurement vector, start, threshold rule, basis and step size',
  'The suite runs the methods to convergence once; a wrong momentum, a stale residual or a late stop does not change the limit.',
  [L + 'sls/ista.py', L + 'sls/fista.py', L + 'sls/defs.py', L + 'cvx/focuss.py', L + 'fom/fom.py'],
  [('ista', L + 'sls/ista.py'), ('fista', L + 'sls/fista.py'), ('matrix_solve_noiseless', L + 'cvx/focuss.py')],
  'Every prefix of every enumerated history is compared with the reference state machine.')

P('P15', 'Dictionaries and their measures are what they are documented to be',
  'Every dictionary constructor returns a matrix or operator of the requested size with the documented structure (unit norm atoms, orthonormal bases, Dirac, Fourier, cosine, wavelet and Hadamard unions, frames with the requested rows), as a function of its key alone. '
  'Coherence, Babel function, Gram and frame matrices, frame bounds, coherent pairs, mutual coherence and matching-atom ratios equal their definitions for every dictionary, real or complex; the Grassmannian construction keeps unit norm atoms and a Gram matrix that is symmetric with unit diagonal.',
  ['inputs', 'configurations'],
  'all constructors x all sizes of the grid x keys; all small integer and complex matrices of the listed shapes for the measures',
  'The suite measures one or two random dictionaries; complex dictionaries, ties, tiny sizes and repeated or opposite atoms are not reached.',
  [L + 'dict/simple.py', L + 'dict/props.py', L + 'dict/comparison.py', L + 'dict/grass.py'],
  [('constructors', L + 'dict/simple.py'), ('measures', L + 'dict/props.py'), ('Grassmannian frames', L + 'dict/grass.py')],
  'Exhaustive over the enumerated matrices and sizes against NumPy definitions.')

P('P16', 'Synthetic data and bundled test problems satisfy their stated model',
  'Every generated sparse signal has exactly the requested number of non-zero entries or blocks at the returned positions with values in the documented range; block, subspace and angle generators return data with the stated correlation, orthonormality, dimensions and principal angles; the same key gives the same data. '
  'Every bundled test problem has b = A x with A = Phi Psi, matching shapes, a sparse x, and a reconstruction that maps x to the signal.',
  ['inputs', 'configurations'],
  'all generators x all sizes, sparsity levels, signal counts, block layouts and angles of the grid x keys; all problems x sizes x keys',
  'The suite draws one sample and checks its shape or support size; extreme sparsity, single signals, negative correlation, dimension limits and the internal consistency of the problems are not checked.',
  [L + 'data/synthetic/random.py', L + 'data/synthetic/subspaces.py', L + 'problems/problems.py', L + 'problems/spec.py'] + [L + f'problems/prob{i:03d}.py' for i in range(1, 12)],
  [('generators', L + 'data/synthetic'), ('problem registry', L + 'problems')],
  'Exhaustive over the grids on the real code; statistical statements only where the model is a distribution.')

P('P17', 'Clustering returns partitions consistent with its criteria',
  'k-means follows Lloyd iterations from its seeds and reports the assignment, centroids, distortion and iteration count of the state it stopped in; spectral clustering of a graph with k connected components returns exactly these components; sparse subspace clustering represents every point by other points only, greedily and with least squares coefficients, with or without batching. '
  'Label utilities (sizes, index ranges, best label mapping, clustering error), angles, neighbour lists and subspace preservation statistics equal their definitions for every labelling.',
  ['inputs', 'histories', 'configurations'],
  'all label vectors up to length 5, all set partitions of up to 6 vertices, all prefixes of k-means histories, all point sets of the listed families',
  'The suite clusters one or two well separated data sets; different numbers of true and predicted labels, repeated points, opposite points and batching are not reached.',
  [L + 'cluster/util.py', L + 'cluster/kmeans.py', L + 'cluster/spectral.py', L + 'cluster/ssc/omp.py', L + 'cluster/ssc/util.py'],
  [('best_map', L + 'cluster/util.py'), ('kmeans', L + 'cluster/kmeans.py'), ('spectral clustering', L + 'cluster/spectral.py'), ('SSC-OMP', L + 'cluster/ssc/omp.py')],
  'Exhaustive over labellings, partitions and history prefixes; the reference for best_map enumerates all label injections.')

P('P18', 'Block sparse Bayesian learning and 1-bit decoding follow their models',
  'Stopped after any number of iterations, BSBL-EM and BSBL-BO (with or without pruning, for every lambda rule and with or without block correlation) hold the posterior means, gammas, prior covariances, noise variance and residual that their update rules prescribe, and they recover block sparse signals from noiseless measurements. '
  'Binary iterative hard thresholding and the renormalised fixed point iteration follow their recursions, report the bits that really disagree, stop as soon as all bits agree, and block layout helpers tile the signal.',
  ['histories', 'inputs', 'configurations'],
  'all option combinations x every iteration budget x all supports of one or two blocks; all sign patterns of up to 10 one-bit measurements x sparsity x step',
  'No test runs BSBL at all and one instance is decoded from 1-bit measurements, so wrong updates that still converge somewhere are invisible.',
  [L + 'block/bsbl.py', L + 'block/util.py', L + 'cs/cs1bit/biht.py', L + 'cs/cs1bit/rfp.py', L + 'cs/cs1bit/util.py'],
  [('bsbl_em / bsbl_bo / bsbl_bo_np', L + 'block/bsbl.py'), ('biht', L + 'cs/cs1bit/biht.py'), ('rfp', L + 'cs/cs1bit/rfp.py')],
  'Every prefix of every enumerated history is compared with the reference state machine.')

P('P19', 'Evaluation tools report what actually happened',
  'Recovery performance measures (errors, SNR, supports, overlap, success) are those of the given signal and estimate however the estimate is passed; recovery trials run every trial on its own signal and count successes, failures and iterations exactly; phase transition grids contain every distinct configuration once. '
  'Progress trackers are told of every iteration of the solver exactly once with the true iterate and whether more follow, without changing the result; geophysical thresholding rules, vision kernels and wavelets equal their definitions.',
  ['inputs', 'histories', 'configurations'],
  'all signal/estimate pairs of the grid, all trial layouts with scripted solver outcomes, all tracked solvers and iterations, all thresholds and inputs of the grid',
  'The suite only calls these tools for their side effects and never checks the numbers they report.',
  [L + 'tools/performance.py', L + 'tools/trials_at_fixed_m_n.py', L + 'pursuit/phasetransition.py', L + 'tracker.py', L + 'geo/thresholding.py', L + 'geo/wavelets.py', L + 'vision/kernels.py'],
  [('RecoveryPerformance', L + 'tools/performance.py'), ('RecoveryTrialsAtFixed_M_N', L + 'tools/trials_at_fixed_m_n.py'), ('configuration', L + 'pursuit/phasetransition.py'), ('ProgressTracker', L + 'tracker.py')],
  'Exhaustive over the enumerated reports on the real code with scripted solvers and independently computed expectations.')
