import json
P=[]
N="fast_bss_eval/numpy/"; T="fast_bss_eval/torch/"
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
API=["fast_bss_eval/__init__.py"]
both=lambda *f:[x+y for y in f for x in (N,T)]
p("C01","SDR is the orthogonal-projection SDR of the definition",
 "For every pair of finite, non-silent signals and every filter length (1, odd, even, power of two or not, shorter or longer than the signals) whose shifted references are linearly independent, the SDR reported with the default solver by the SDR functions is 10*log10(|Pe|^2/|e-Pe|^2), where P projects the estimate e orthogonally onto the span of the filter_length delayed copies of the reference; the error is of the order of the rounding of the input precision. This holds for every (reference, estimate) pair of the pairwise form and for the one-to-one form.",
 ["inputs","configurations"],"all signals, numbers of channels, lengths and filter lengths, in both back ends and precisions",
 "The tests compare a few Gaussian draws of one size (2 channels, 1600 samples, default filter length) with mir_eval; other lengths, odd or short filters, filters longer than the signal, more channels and structured signals are never compared with a ground truth.",
 API+both("metrics.py","linalg.py","helpers.py"),
 [("correlation by FFT, normal equations, coherence","compute_stats, sdr_loss"),("closed form for filter length one","square_cosine_metrics_length_one_filter"),("coherence to decibels","_coherence_to_neg_sdr")],
 ["sdr_loss","sdr","sdr_pit_loss","si_sdr_loss","si_sdr"])
p("C02","SIR and SAR follow the three-way orthogonal decomposition",
 "For every set of references whose filter_length delayed copies are jointly linearly independent and every finite non-silent estimate, the reported SDR, SIR and SAR are the energy ratios of the decomposition of the estimate into its projection on the assigned reference, the remainder of its projection on all references, and the rest, up to rounding. This holds for any number of references and estimates, with or without permutation solving.",
 ["inputs","configurations"],"all reference sets, estimates, filter lengths and channel counts (also unequal), in both back ends and precisions",
 "Only two-channel Gaussian mixtures (and 4 channels for filter length one) are compared with a ground truth; the block-Toeplitz system for three or more references or unequal counts is never checked.",
 API+both("metrics.py","linalg.py","helpers.py"),
 [("block-Toeplitz normal equations of all references","square_cosine_metrics, compute_stats_2, block_toeplitz"),("conversion of square cosines to SDR, SIR, SAR","_base_metrics_bss_eval")],
 ["bss_eval_sources","si_bss_eval_sources"])
p("C03","The chosen permutation is optimal and the metrics follow it",
 "Functions that solve the permutation return, for every batch item, an injective assignment between references and estimates that maximises the total SIR (full metrics) or the total SDR (SDR-only and PIT functions) over all assignments of the smaller side into the larger; every returned metric is the one of the assigned pair. The permutation indexes the larger side, one entry per channel of the smaller side in order (references when the counts are equal).",
 ["inputs"],"all score matrices reachable from signals, square and rectangular, all batch shapes, both back ends",
 "Tests use mixtures where the natural order (or its reverse) is clearly the best; optimality over all assignments, and with unequal channel counts, is not tested through the metrics.",
 API+both("helpers.py","metrics.py"),
 [("per-item assignment, gathers all metrics with it","_solve_permutation"),("target of the selection","bss_eval_sources, sdr")],
 ["bss_eval_sources","sdr","sdr_pit_loss","si_*"])
p("C04","The assignment solver is optimal, total and terminating",
 "For every real cost matrix whose sums are representable in its data type, square or rectangular and with ties, the assignment solvers used by both back ends terminate and return min(rows, columns) pairwise distinct row and column indices, rows increasing, with minimum total cost. Infinite entries of one sign are handled: the assignment uses as few +infinite (as many -infinite) entries as possible and is then optimal on the finite ones; a matrix with both signs of infinity, or NaN, is rejected with ValueError.",
 ["inputs"],"all cost matrices up to large sizes, including integer ties, duplicates, negative, huge and infinite entries",
 "Tests draw Gaussian matrices, which never tie and contain no infinities; wide coverage of the covering/augmentation paths of the algorithm is accidental.",
 [T+"hungarian.py",T+"helpers.py",N+"helpers.py"],
 [("Hungarian state machine","linear_sum_assignment, _step1 ... _step6"),("finite stand-ins for infinite costs","_linear_sum_assignment_with_inf")],
 ["fast_bss_eval.torch.hungarian.linear_sum_assignment","_linear_sum_assignment_with_inf","sdr / si_sdr with designed scores"],
 [("marked","starred and primed zeros","torch/hungarian.py _Hungary"),("row_uncovered/col_uncovered","line covers","torch/hungarian.py _Hungary")])
p("C05","NumPy and PyTorch, single and double precision agree",
 "For every input and every combination of options, a call with numpy arrays and the same call with torch tensors return the same metrics and an equally good permutation, and single precision input gives the same metrics as double precision, up to the rounding of the precision used amplified by the conditioning of the problem.",
 ["inputs","configurations"],"all functions, options, channel counts, lengths and filter lengths; 2 back ends x 2 precisions",
 "Each back end is compared with mir_eval on a few draws; options such as load_diag, zero_mean, clamp_db, unequal channels and short or odd filters are not compared across back ends.",
 API+both("metrics.py","cgd.py","helpers.py","linalg.py"),
 [("two parallel implementations behind one dispatcher","_dispatch_backend")],["all eight public functions"])
p("C06","Metrics ignore gains, polarity, channel labels and common silence",
 "Multiplying any reference or estimate by a non-zero gain (positive or negative, as long as its norm stays well within the range of the data type and above 1e-6) leaves all metrics unchanged; so does appending or prepending the same number of zero samples to all signals (when means are not removed). Reordering references or estimates reorders the metrics accordingly and changes nothing else.",
 ["inputs"],"all signals, all per-channel gains, all channel permutations, all amounts of zero padding, all functions and options",
 "Only permutations of the estimates on one kind of mixture are tested; gains, polarity, reference permutations and padding are not.",
 API+both("metrics.py","helpers.py"),
 [("normalisation of each signal","_normalize"),("zero-padded FFT","compute_stats, compute_stats_2")],["all eight public functions"])
p("C07","Every batch item is evaluated as if it were alone",
 "For every leading batch shape (none, one or several dimensions, size one, large) the metrics and the permutation of an item equal those obtained by passing that item alone, whatever the other items contain (finite signals that can be evaluated alone); the leading dimensions of the outputs are those of the inputs.",
 ["inputs","configurations"],"all batch shapes and contents, all functions and options, both back ends",
 "Tests use a single item or a batch of 10 statistically identical items with the same permutation.",
 API+both("metrics.py","helpers.py","cgd.py","linalg.py"),
 [("broadcast linear algebra over leading dimensions","metrics.py, linalg.py, cgd.py"),("loop over batch items","_solve_permutation")],["all eight public functions"])
p("C08","The functions of the family are mutually consistent",
 "On the same signals and options: losses are the negated metrics; the one-to-one form gives the diagonal of the pairwise form; the PIT loss is the negated SDR with the same assignment; the SDR of the full metrics at a pair equals the pairwise SDR of that pair; the si_ functions equal the regular ones with filter length one; change_sign, return_perm and compute_permutation change only what they name. Each public function applies every option it accepts.",
 ["inputs","configurations"],"all signals and all option combinations accepted by two or more functions",
 "Tests compare the functions on one kind of two-channel mixture with a loose tolerance (1e-2, 1e-1) and few option combinations.",
 API+both("metrics.py","scale_invariant.py","helpers.py"),
 [("thin wrappers over sdr_loss and square_cosine_metrics","metrics.py, scale_invariant.py, __init__.py")],["all eight public functions","pairwise_sdr_loss and pairwise_si_sdr_loss of the back ends"])
p("C09","clamp_db bounds the metrics and changes nothing else",
 "With clamp_db=c every returned metric that is defined (the SIR of a silent estimate is not) lies in [-c, c] (up to rounding of the last digits), in both precisions and for any input, including perfect, orthogonal and silent estimates; a pair's metric whose unclamped value lies inside the range is unchanged and one outside becomes the nearest bound, up to rounding.",
 ["inputs","configurations"],"all c>0, all inputs, functions, both back ends and precisions",
 "One test checks c=30 with a tolerance of 1 dB on the outside of the range; nothing checks that values inside are untouched, larger ranges, or degenerate inputs.",
 API+both("helpers.py","metrics.py"),
 [("clamping of the coherence and of the ratio","_db_clamp_eps, _coherence_to_neg_sdr")],["all eight public functions"])
p("C10","Outputs have the promised container, dtype, shape and arity",
 "For every accepted configuration the outputs are of the container type of the input (numpy array or torch tensor), metrics have the floating dtype of the inputs and permutations are 64-bit integers, the number of outputs is the documented one, and shapes are the batch shape (of at least one item) followed by min(references, estimates), by the channel count for one-to-one forms, or by (references, estimates) for pairwise forms. Evaluating full metrics without permutation on unequal channel counts is refused by an AssertionError.",
 ["configurations"],"the full product of functions, back ends, precisions, batch shapes, channel counts, filter lengths, solvers and options",
 "Tests check dtypes for the default options only and never the shapes; the product of options has tens of thousands of members.",
 API+both("metrics.py","scale_invariant.py","helpers.py","cgd.py"),
 [("dispatch on the type of the first argument","_dispatch_backend"),("output allocation","_solve_permutation")],["all eight public functions"])
p("C11","zero_mean removes exactly the mean of every signal",
 "With zero_mean=True the metrics equal those of the definition applied to the signals minus their own temporal means, so adding any constant to any channel changes nothing; with zero_mean=False (the default) nothing is removed and constants do count.",
 ["inputs","configurations"],"all signals and per-channel offsets, filter length one or more, both solvers, all functions",
 "zero_mean is only exercised on zero-mean noise, where it has no visible effect.",
 API+both("metrics.py","helpers.py"),
 [("mean removal before normalisation","_remove_mean")],["all eight public functions"])
p("C12","load_diag regularises the normalised system and tames silent references",
 "For filter lengths above one, load_diag=d gives the metrics of the definition with d added to the diagonal of the normal equations of the unit-norm signals (both the per-reference and the joint system); with filter length one it applies to the joint system only. A silent reference then yields an SDR of -infinity (-clamp_db when clamped) without NaN and, as d tends to 0, the metrics of the other references tend to those without it.",
 ["inputs","configurations"],"all signals including silent references in any position, all d>0, all functions that accept it",
 "load_diag=1e-5 is exercised on well conditioned mixtures with loose tolerances; no test has a silent reference.",
 API+both("metrics.py"),
 [("loading of the zero-lag diagonal","sdr_loss, square_cosine_metrics")],["bss_eval_sources","sdr","sdr_loss","sdr_pit_loss","si_bss_eval_sources"])
p("C13","The iterative solver converges to the direct solution",
 "For well-conditioned signals and any filter length, with use_cg_iter of a few tens all metrics and the selected assignment agree with those of the direct solver within about a fifth of a decibel for metrics within +-20 dB (2e-4 on the square cosines), in both back ends and precisions, for every channel count, batch shape and with or without permutation solving.",
 ["inputs","configurations"],"all well-conditioned inputs with moderate SDR, all filter lengths, channel counts and options",
 "Tests use one size (2 channels, filter length 512) with a tolerance of 0.1 dB; short, odd and non power of two lengths and more channels are never run with the iterative solver.",
 API+both("cgd.py","metrics.py"),
 [("preconditioned conjugate gradient","conjugate_gradient"),("fast Toeplitz and circulant operators","SymmetricToeplitzOperator, BlockToeplitzOperator, *CirculantPreconditionerOperator")],["bss_eval_sources","sdr","sdr_loss","sdr_pit_loss"])
p("C14","Degenerate inputs never give NaN or hang; invalid inputs are refused",
 "For finite signals no function returns NaN (but for the SIR, which is undefined, of an estimate that is silent or orthogonal to all references): exact matches give +infinity or a very large value and unrelated signals -infinity or a very low one, also when all pairs are such; a silent estimate gives an SDR of -infinity. Functions that solve the permutation always terminate and raise ValueError when any sample is NaN or infinite, or when both +infinity and -infinity occur among the scores to be optimised; loss functions without permutation solving propagate NaN to the metrics of the affected channels only.",
 ["inputs"],"all placements of exact, orthogonal, silent, NaN and infinite channels in all functions, both back ends and precisions",
 "Tests place one NaN in one estimate, and check one recorded file for the absence of NaN.",
 API+both("helpers.py","metrics.py")+[T+"hungarian.py"],
 [("clamping of the coherence to [0,1]","_coherence_to_neg_sdr"),("rejection of NaN and mixed infinities","_linear_sum_assignment_with_inf, linear_sum_assignment")],["all eight public functions"])
p("C15","With torch inputs the gradients are those of the returned values",
 "For torch inputs that require gradients, back-propagating any returned metric yields, for references and estimates alike, the derivative of that metric (of the assigned pairs, the assignment being treated as constant), for all functions, solvers and options; where clamp_db is active the gradient is zero. Wherever the differentiated metric is finite and unclamped (up to some 50 dB in magnitude) its gradient is finite, whatever the values of the other pairs in the same call, including infinite or nearly infinite ones.",
 ["inputs","configurations"],"all differentiable configurations, all finite non-degenerate inputs",
 "Tests only check that backward() runs; the values of the gradients are never compared with anything.",
 API+[T+"metrics.py",T+"helpers.py",T+"cgd.py",T+"linalg.py",T+"compatibility.py"],
 [("autograd through FFT, solve and gather","torch/metrics.py, torch/cgd.py, torch/helpers.py")],["torch results and their backward()"])
p("C16","Calls are pure: no mutation, no memory of past calls",
 "A call never modifies its arguments, whatever their memory layout, returns arrays that share no memory with its arguments or earlier results, prints nothing, and leaves global state (random generators, default dtype, gradient mode, floating-point error handling) as it was, also when it raises. The same call with the same arguments returns the same result bit for bit whatever calls, successful or failing, came before or run concurrently in other threads, and whether or not the arguments are contiguous in memory (up to rounding).",
 ["histories","schedules"],"all sequences and interleavings of calls, all memory layouts of the arguments",
 "Each test makes isolated calls on fresh contiguous arrays and looks only at the returned values.",
 API+both("metrics.py","helpers.py","linalg.py","cgd.py"),
 [("in-place operations only on temporaries","metrics.py (acf += load_diag)"),("stride tricks on private copies","linalg.py hankel_view")],["arguments and global state before and after every call"])
p("C17","SDR, SIR and SAR satisfy their ordering and energy identities",
 "For every channel returned by the full metrics with the direct solver, the square cosine of the SDR equals the product of those of SIR and SAR (the square cosine of a metric of x decibels being 10^(x/10)/(1+10^(x/10))); hence SDR never exceeds SIR or SAR. SAR of an estimate does not depend on the reference it is assigned to, and for a single reference SIR is +infinity (or very large) and SDR equals SAR. No pair's SDR and no estimate's SAR decreases when the filter is made longer, and no estimate's SAR decreases when references are added.",
 ["inputs","configurations"],"all inputs and options without clamping and diagonal loading, any filter lengths and reference subsets",
 "No test relates the three metrics to each other or results for different filter lengths or reference sets.",
 API+both("metrics.py"),
 [("nested projection subspaces","square_cosine_metrics"),("ratio of square cosines","_base_metrics_bss_eval")],["bss_eval_sources","si_bss_eval_sources","sdr_loss"])
p("C18","Exactly the distortions realisable by the filter are forgiven",
 "An estimate that is its reference filtered by any FIR filter of at most filter_length taps that fits in the signal frame has an (almost) infinite SDR, and one that is a combination of so filtered references an (almost) infinite SAR; a delay of filter_length samples or more, or an advance, counts as distortion whose amount is given by the definition. This holds for the default length of 512 and long signals as for short ones, at every signal length.",
 ["inputs","configurations"],"all filters up to the length, all delays, all signal lengths around powers of two, default and other filter lengths",
 "No test evaluates a filtered or delayed reference.",
 API+both("metrics.py","linalg.py"),
 [("FFT size avoids circular wrap-around","compute_stats, compute_stats_2"),("only lags 0..filter_length-1 enter the system","compute_stats, compute_stats_2, toeplitz, block_toeplitz")],["sdr_loss","sdr","bss_eval_sources"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
