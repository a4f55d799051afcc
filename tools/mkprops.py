"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
T="tt_sketch/tensor.py"; S="tt_sketch/sketch.py"; D="tt_sketch/sketch_dispatch.py"
C="tt_sketch/sketch_container.py"; B="tt_sketch/drm_base.py"; G="tt_sketch/tt_gmres.py"
U="tt_sketch/utils.py"; V="tt_sketch/tt_svd.py"; X="tt_sketch/drm/fast_lazy_gaussian.pyx"
DG="tt_sketch/drm/dense_gaussian_drm.py"; SG="tt_sketch/drm/sparse_gaussian_drm.py"
SS="tt_sketch/drm/sparse_sign_drm.py"; TD="tt_sketch/drm/tensor_train_drm.py"
M=["tt_sketch/sketching_methods/%s_sketch.py"%k for k in("dense","sparse","tensor_train","cp","tucker")]

p("C01","Every tensor format denotes the array its definition says",
 "A dense, sparse (distinct indices), tensor-train, CP or Tucker tensor, an MPO viewed as tensor or TT, and any (nested, weighted, empty) lazy sum denotes the multi-index array given by its defining formula: to_numpy, dense(), to_sparse, gather at any list of indices, split into any number of summands, partial contractions of a TT from either side, TensorTrain.zero and shape/ndim all agree with that array. Transposition reverses the order of the modes and is an involution (for an MPO it swaps input and output modes instead). `size` is the number of coefficients the representation stores.",
 ["inputs"],"all shapes (modes of size 1 included), orders, ranks larger than the modes, index lists (repeated, empty, unordered), integer and float data, memory layouts",
 "The tests convert a handful of random cubes of order 3 to 6 between formats with random data; nothing ranges over formats x orders x mode sizes, non-contiguous data, empty or repeated index lists or sums of sums.",
 [T,G],[("to_numpy / T / gather / split / to_sparse / partial_dense","%s classes DenseTensor, SparseTensor, TensorTrain, TensorSum, CPTensor, TuckerTensor"%T),("MPO.to_tt / MPO.to_numpy / MPO.T",G)],
 ["to_numpy()","T","gather()","shape","size"])
p("C02","Tensor arithmetic is entrywise arithmetic, for all mixes of formats",
 "Sum, difference, negation, multiplication by a scalar from either side, division by a scalar, in-place addition to a lazy sum, termwise weighting of a lazy sum, TensorTrain.add and any composition of these denote the entrywise result on the denoted arrays, whatever the formats of the operands and however sums are nested. A lazy sum holds one summand per term, and a weighting with the wrong number of weights is refused.",
 ["inputs","programs"],"every program of arithmetic operations over operands of every format",
 "Tests evaluate one expression per format pair; nested sums on the right, weighting after +=, sums of transposes and longer programs are never composed.",
 [T],[("Tensor.__add__/__sub__/__neg__/__truediv__, __mul__ of each class, TensorSum.__add__/__iadd__/__mul__, TensorTrain.add",T)],
 ["to_numpy() of every result","num_summands"])
p("C03","Operations never modify operands, and nothing stale is ever returned",
 "No public operation (arithmetic, conversion, transposition, contraction, rounding, sketching, solving) changes the array denoted by any existing tensor, sketch, linear map or random matrix, nor an input array, except the operations that are in place by definition (+= on a lazy sum, assigning to a core, writing to a tensor's own data); a lazy sum changed by += changes only through that object, and assigning to a core of a result never changes an operand. Every later observation reflects in-place changes made before it, and repeating an observation or computation on unchanged objects gives the same result.",
 ["histories"],"every sequence of operations interleaved with observations, in-place updates and aliases",
 "The tests build an object, use it once and drop it; a write through to an operand, a cached dictionary or a shared list only shows when an operand is observed again later in a history.",
 [T,S,C,G],[("copy-on-write of core lists, list concatenation in TensorSum, no caching",T),("SketchContainer arithmetic",C),("MPO.__mul__, TTPrecond",G)],
 ["to_numpy() of every live object after every operation"])
p("C04","Inner products, norms and errors agree with the dense arrays",
 "For every pair of formats (lazy sums and streaming sketches included, in either order) dot/@ is the Euclidean inner product of the denoted arrays, norm is its induced norm, and error(other) is the norm of the difference, with `relative` divided by the norm of the second operand, `rmse` divided by the square root of the number of entries, both flags combining, and `fast` giving the same value up to the documented loss of accuracy. Relative error with respect to a zero tensor is infinite; the second operand of error may be a numpy array.",
 ["inputs"],"all format pairs, shapes, flags, zero tensors, negative and cancelling data",
 "Tests compare a few random pairs where every flag is used alone; asymmetric flag combinations, zero operands and sums against each other are not sampled.",
 [T,S],[("Tensor.dot/norm/error, SparseTensor.dot/norm, TensorTrain.dot/norm/error, TensorSum.dot",T),("SketchedTensorTrain.dot",S)],
 ["dot()","norm()","error()"])
p("C05","Streaming sketch components are the defined two-sided contractions",
 "For every tensor in every format a random matrix pair supports (lazy sums, nested and empty sums included), each component of the streaming sketch equals the tensor contracted with the left random matrix on the modes before and the right random matrix on the modes after (for the matrices between cores: split between two modes). Hence the components depend only on the denoted array and the two random matrices, never on the format, and a right random matrix acts on the modes in the tensor's own order.",
 ["inputs"],"all tensors, formats, orders >= 2, ranks, random matrix types and rank slices",
 "Tests compare sketches of one tensor in two formats with one random matrix type, orders 3-5 and equal mode sizes, where mode-order mistakes are invisible.",
 [D,B,DG,SG,SS,TD]+M,[("general_sketch and the OMEGA/PSI method tables",D),("handle_transpose",B),("sketch_* of each DRM","tt_sketch/drm/*"),("sketch_psi_*/sketch_omega_*","tt_sketch/sketching_methods/*")],
 ["Psi_cores","Omega_mats"])
p("C06","Streaming updates are linear and order-independent over any history",
 "After any sequence of updates of a streaming sketch with tensors of any formats, mixed with scaling, negation and transposition, the sketch equals the sketch, with the same random matrices, of the corresponding combination of the tensors; the order and the grouping of the updates do not matter and the pre-update sketch object stays valid.",
 ["histories"],"every sequence of updates, scalings and transpositions, all formats of the updates",
 "Tests perform at most one or two updates of one format in one order.",
 [S,C,D],[("SketchedTensorTrain.__add__/__mul__/T, SketchContainer.__add__/__mul__/T",S),("linearity of the psi/omega methods",D)],
 ["Psi_cores, Omega_mats after each step"])
p("C07","A tensor of TT-rank within the sketch ranks is recovered exactly",
 "If every unfolding of the tensor has rank at most the smaller of the two sketch ranks (streaming, in either direction; orthogonal) or at most the sketch rank (HMT), the returned tensor train equals the input up to round-off, whatever the format of the input, the random matrix types that support it and the seed.",
 ["inputs","configurations"],"all tensors of admissible TT-rank, all methods, formats, random matrices, ranks (non-uniform included) and seeds",
 "Tests try a few random tensors with uniform ranks; they do not range over non-uniform ranks, unequal modes, either direction, sums and rank equal to the exact rank together.",
 [S,D,U],[("assemble_sketched_tt",S),("orth_step, OrthogTTDRM",D),("right_mul_pinv/left_mul_pinv",U)],
 ["to_numpy() of the result"])
p("C08","The streaming sketch object is consistent under assembly and algebra",
 "The train assembled from a streaming sketch in either direction solves, core by core, the least-squares problem posed by its components, has the ranks of the smaller (auto) or requested side, and to_tt, to_numpy, dot, error and norm all describe that same train. Scaling, negation, division and transposition of a sketch scale, negate, divide and transpose that train, keep the sketch updatable, and report shape, left and right rank and size matching the stored components.",
 ["inputs","programs"],"all sketches, both directions, every composition of algebra, transposition and updates",
 "Tests assemble a sketch once and compare its error to a bound; transposed-then-updated or scaled sketches and explicit directions are not exercised.",
 [S,C],[("assemble_sketched_tt, SketchedTensorTrain properties",S),("SketchContainer",C)],
 ["C_cores(direction)","to_tt()","left_rank/right_rank/size"])
p("C09","Growing or partitioning sketch ranks equals sketching from scratch",
 "Increasing the ranks of a streaming sketch any number of times, by any non-uniform increments, gives exactly the sketch that random matrices of the final ranks with the same seeds give from scratch, and keeps supporting updates; sketching block by block over any partition of the left and right rank ranges (empty ranges included) and assembling gives the unpartitioned sketch. A slice of a random matrix is the corresponding rows of the whole matrix, on either side.",
 ["inputs","histories"],"all partitions of the ranks, sequences of increases, random matrix types supporting it, formats",
 "Tests use one partition into a few uniform blocks and one increase step for two random matrix types.",
 [S,B,DG,SG,SS,TD],[("_blocked_stream_sketch_components/_assemble_blocked_stream_sketches/increase_rank",S),("CanSlice.slice/CanIncreaseRank.increase_rank",B)],
 ["Psi_cores, Omega_mats","drm.slice(...).sketch_*"])
p("C10","A seed determines every random result, in any process and history",
 "With an integer seed, every random matrix, random tensor and sketch (all three methods) is a function of its arguments and the seed alone: the same in every process (whatever the hash seed, number of CPUs, earlier calls, other threads or state of numpy's global generator) and every repetition; different seeds and the two sides of one sketch get different random matrices. Seeded calls leave numpy's global generator untouched, and a random matrix made without seed still gives the same answers each time it is used, sliced or extended.",
 ["histories","configurations"],"all seeds (zero and large ones included), processes, environments, preceding histories",
 "Tests run in one process with one environment and compare at most two consecutive calls.",
 [S,B,DG,U,T],[("seed handling of *_sketch",S),("DRM.__init__",B),("RandomState use",DG),("SeedSequence streams",U)],
 ["random matrices and sketches across processes","np.random.get_state()"])
p("C11","Lazily hashed random matrices are a fixed matrix, revealed on demand",
 "An entry of a lazily evaluated (hashed) random matrix depends only on the multi-index of its row, its column, the mode and the seed: never on the batch it is requested with, its position, the rank slice or the other ranks (Gaussian), or the integer type of the indices. Within one matrix, distinct rows and distinct columns get different, uncorrelated entries even in index spaces far beyond 2^32, entries are finite with standard normal distribution, and each row of a sign matrix has exactly the prescribed number of non-zeros, all +1 or -1, spread over the columns.",
 ["inputs","histories"],"all shapes (index spaces up to 2^63), multi-indices, batches, slices, seeds",
 "Tests look at means and a few small shapes; overflow, batch-dependence and slicing need huge or permuted index sets.",
 [X,SG,SS],[("_inds_to_rand_double, hash_int_c, uint_to_normal, _inds_to_sparse_sign",X),("sketch_sparse",SG)],
 ["inds_to_normal","inds_to_sparse_sign","sketch_sparse"])
p("C12","TT orthogonalization, rounding and singular values are correct",
 "Orthogonalization leaves the denoted array unchanged and makes all cores but the last left-orthonormal; rounding with neither eps nor smaller ranks leaves it unchanged, makes all cores but the first right-orthonormal, never exceeds max_rank, keeps exactly the singular values above eps times the largest (at least one) subject to max_rank, and its squared error is at most the sum of the discarded squared singular values; svdvals returns the singular values of each unfolding in decreasing order. All hold, up to round-off relative to the largest singular value, for ranks larger than the modes admit, rank-deficient, zero, badly scaled trains and singular values spread over ten decades.",
 ["inputs"],"all TTs (any ranks, rank-deficient, zero), eps and max_rank (integer, tuple)",
 "Tests round a few random full-rank trains and compare errors with loose bounds.",
 [T],[("TensorTrain.orthogonalize/round/svdvals/norm",T)],
 ["cores, rank, to_numpy() of results"])
p("C13","TT-ranks are validated and trimmed to the greatest admissible ranks",
 "Trimming returns the componentwise greatest ranks not exceeding the given ones for which each rank is at most the adjacent rank times the mode size on either side; it is idempotent, monotone and independent of the representation of the rank (integer, list, tuple, numpy integers), and an integer means that rank at every bond. Every function taking ranks (random tensors, random matrices, sketches, TT-SVD, rounding of sums) returns objects whose ranks are exactly the ones so defined, never more.",
 ["inputs"],"all shapes and rank tuples, all rank-taking entry points",
 "Tests check trimming only through shapes of a few results; long chains needing many sweeps and non-monotone ranks are not covered.",
 [U,S,T,V],[("trim_ranks, process_tt_rank",U),("rank handling of sketches",S)],
 ["rank of every returned object"])
p("C14","TT-SVD is exact at full rank and quasi-optimal when truncated",
 "TT-SVD without rank, or with ranks at least those of the unfoldings, reproduces the tensor (any format) up to round-off; its cores except the last are left-orthonormal, its ranks never exceed the trimmed requested ranks, and the squared error of a truncated TT-SVD is at most the sum over the unfoldings of the squared discarded singular values and at least the largest of these sums. Truncation keeps the dominant singular directions, also those of singular values ten decades below the largest.",
 ["inputs"],"all tensors, formats, orders >= 2, requested ranks",
 "Tests call it on a few dense cubes and compare one error.",
 [V,U],[("tt_svd",V),("matricize",U)],["cores, rank, to_numpy()"])
p("C15","Orthogonal and HMT sketches return orthonormal projections of the input",
 "In the tensor train returned by the orthogonal and the HMT sketch all cores except the last are left-orthonormal, and the denoted tensor is the orthogonal projection of the input on the subspace these cores span, so the residual is orthogonal to the result and the result is never larger than the input. This holds at every admissible rank, format and random matrix, also when the tensor is not of low rank, and the ranks are those requested.",
 ["inputs"],"all tensors, formats, ranks, random matrices",
 "Tests only look at the final error of these methods for a few inputs.",
 [D,S],[("orth_step, OrthogTTDRM, general_sketch",D),("orthogonal_sketch, hmt_sketch",S)],["cores and to_numpy() of results"])
p("C16","Linear maps in TT format act as the matrices they represent",
 "An MPO applied to a TT denotes the matrix-vector product of the denoted arrays with the map's input modes (first) contracted as the representation defines, its transpose is the adjoint, eye is the identity, scaling scales, and a sum of maps applied to a TT or a lazy sum of TTs is the sum of all pairwise applications. The mode preconditioner's backward call is exactly the inverse of its forward call, which multiplies the chosen mode by its matrix, for any mode and size.",
 ["inputs"],"all MPOs (rectangular, any ranks), maps sums, TTs, preconditioner modes",
 "Tests apply MPOs once with square modes; rectangular maps, adjoint identities, sums of sums and other preconditioner modes are not compared with dense matrices.",
 [G],[("MPO.__call__/T/eye/__mul__, TTPrecond, TTLinearMapSum.__call__",G)],["to_numpy() of results"])
p("C17","TT-GMRES minimises the residual and reports and stops truthfully",
 "With sufficient ranks the k-th iterate minimises the (preconditioned) residual over the k-th Krylov space from the initial guess; the reported relative residuals start at the initial one, never increase, and are the true relative residuals of the (preconditioned) system up to the tolerance. It stops at the first iteration whose reported residual is below the tolerance, which may be zero, when the Krylov space is exhausted (its next basis vector is zero) or after maxiter iterations, never later or earlier, returns a TT within the requested final ranks, and handles zero right-hand sides and exact initial guesses; incompatible shapes are refused.",
 ["inputs","configurations"],"all systems, right-hand sides, initial guesses, preconditioners, tolerances, maxiter, rounding methods, symmetric flag",
 "One test solves one random system and checks the residual of the result.",
 [G],[("tt_sum_gmres",G)],["returned TT","history"],
 [dict(name="nu_list, H_matrix",meaning="Krylov basis and Hessenberg matrix",where=G)])
p("C18","Rounding a sum of TTs is exact when ranks suffice, for every method",
 "For every rounding method, rounding a lazy sum of one or more tensor trains to ranks at least the TT-ranks of the sum (for the pairwise method also of the partial sums), with no eps, denotes the sum; the result never exceeds the requested ranks, and for the deterministic methods its error is at most what the discarded singular values allow. Any number of summands, non-uniform ranks and any oversampling factor above one are handled; the method None returns the sum itself and an unknown method is refused.",
 ["inputs","configurations"],"all sums of TTs, methods, ranks, eps, oversampling",
 "The tests only use it through one GMRES run.",
 [G,T,S],[("round_tt_sum",G)],["to_numpy(), rank"])
p("C19","Inconsistent requests are rejected with an error, never answered wrongly",
 "A sketch whose left and right ranks are not strictly ordered (right strictly larger, for the orthogonal method), whose ranks have the wrong length or differ from those of a given random matrix, or whose random matrix was made for another shape; updating with a tensor of another shape; growing or slicing a random matrix that cannot; a sign matrix with more non-zeros than its rank; unknown directions, rounding methods or norm goals; orthogonal random TTs without trimming; weights of the wrong number; and linear maps of mismatched shapes are all refused with an exception. Nothing is modified by a refused call, and a request that satisfies the conditions is accepted.",
 ["inputs"],"all ranks, shapes, random matrix pairs and flags, on both sides of each condition",
 "Tests try a handful of invalid calls, none at the boundary and none checking that neighbouring valid calls are accepted.",
 [S,B,U,SS,T,G],[("argument checks of stream_sketch/orthogonal_sketch/hmt_sketch/increase_rank/blocked_stream_sketch",S),("handle_transpose shape check",B),("process_tt_rank",U)],
 ["raised exceptions"])
p("C20","Parallel random generation is independent of scheduling and complete",
 "The parallel normal generator fills every entry exactly once with a value that depends only on seed, shape and position, whatever order, overlap or delay the worker threads run with, whatever the shape (scalar, empty and sizes not divisible by the number of workers included), and returns only when all entries are written; workers use disjoint segments and independent streams.",
 ["schedules","inputs"],"all interleavings of the workers, shapes, seeds, thread counts",
 "Tests use it under whatever schedule happens, and never look for unfilled or doubly filled entries.",
 [U],[("MultithreadedRNG.fill",U)],["random_normal(shape, seed)"])
p("C21","Matricization, projectors and model tensors satisfy their definitions",
 "Matricization with respect to any mode or tuple of modes lists the entries in the stated mode order, dematricization is the exact inverse of matricization in one mode (also if the number of rows has been changed in between), and neither changes its argument. Multiplication by a pseudo-inverse from either side is the minimum-norm least-squares solution, for matrices of any shape and rank, singular values below the given cut-off (by default: round-off) counting as zero. The oblique projector is X (Y^T X)^+ Y^T: idempotent, it fixes the range of X and annihilates the orthogonal complement of Y if Y^T X has the rank of X (of Y). The Hilbert, square-root and power-decay tensors have the requested shape and the entries (unit norm, for the square-root tensor; decay, for the power-decay tensor) their definitions prescribe.",
 ["inputs"],"all shapes, modes, matrices of any shape and rank",
 "These helpers are not tested directly.",
 [U],[("matricize/dematricize/projector/right_mul_pinv/left_mul_pinv/hilbert_tensor/sqrt_tensor/power_decay_tensor",U)],["return values"])
p("C22","Random tensor constructors deliver the promised structure",
 "Random TTs have the requested shape and ranks (trimmed if asked), with left-orthonormal cores except the last when orthogonal is asked and core entries of the variance the norm goal states; random CP and Tucker tensors have the requested ranks (Tucker ranks capped by the modes, with orthonormal factors); random sparse tensors have exactly nnz distinct in-range indices, spread over all positions, and non-zero entries, for any nnz from zero to the full size; random MPOs have the requested input and output modes, trimmed ranks and cores of norm sqrt(in x out), symmetric for equal modes. The parts of an object are independent of each other, equal seeds give equal and other requests new objects, arguments that cannot be met raise ValueError, and making an object never changes or shares memory with another one.",
 ["inputs"],"all shapes, ranks, seeds, flags",
 "Tests use the constructors as input generators and never check what they deliver.",
 [T,G],[("random classmethods",T),("MPO.random",G)],["constructed objects"])
p("C23","An experiment log runs each configuration once and loses nothing",
 "A configuration is a name with keyword conditions: numbers are compared by value, types and functions by name, any other value by its text (text conditions are not numerals, results are not missing). do_experiment runs a configuration exactly if no row of the log agrees with its name and all its conditions, however many experiments with whatever other conditions lie in between and however often the log was reloaded from its file in the meantime (None, tuples, numbers of every kind and mixed kinds under one key included); the function receives exactly the given input and keyword arguments. A successful run appends one row with the conditions, name and results and saves the log; earlier rows never change or disappear, and the rows in memory, in the file and in a reloaded log agree. An experiment that raises leaves log and file as they were, an interrupted save leaves a file with all the rows saved before, force_overwrite starts an empty log without touching the file until the next save, and logs on different files do not influence each other.",
 ["histories","crash_points","inputs"],"all histories of experiments, reloads, failing experiments and interrupted saves",
 "The scripts are not tested at all; what matters are sequences of runs, reloads and failures.",
 ["scripts/experiment_base.py"],[("Experiment.do_experiment/check_experiment_done/save/load","scripts/experiment_base.py")],["calls of the experiment function","log.data","the file"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
