"""Writes /verif/properties.jsonl (kept as code only so that it is easy to edit)."""
import json, pathlib

MS, GR, JX, PC, LOOP, BA, DBG = ('src/bartz/mcmcstep.py', 'src/bartz/grove.py', 'src/bartz/jaxext.py',
    'src/bartz/prepcovars.py', 'src/bartz/mcmcloop.py', 'src/bartz/BART.py', 'src/bartz/debug.py')
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))

NOTEST = 'No test of the reliable suite runs the sampler at all; the interface tests (which need R) run a couple of seeds on 30 points.'

prop('C01', 'Sampled trees are always proper binary decision trees',
     'After any number of sampler steps from a fresh state, in every tree of the ensemble each decision node other than the root has a decision node as parent, no decision node lies on the deepest level allowed, and the unused slot of each tree stays empty. One step changes each tree by at most one move: turning one leaf into a decision node with two leaf children, or turning one decision node with two leaf children into a leaf.',
     ['inputs', 'histories'], 'all data sets, all reachable sampler states, all random draws',
     NOTEST + ' A stray node appears only for particular tree shapes and draws.',
     [MS, GR], [('leaf and leaf-parent masks', GR + ':is_actual_leaf, is_leaves_parent'), ('apply the accepted move', MS + ':apply_moves_to_split_trees')],
     [('split_trees', 'thresholds in heap order, 0 marks a leaf', MS + ':init')], [MS + ':step'])

prop('C02', 'Every decision rule in a sampled tree is a usable rule',
     'In every sampled tree each decision node splits on an existing predictor, with a cutpoint between 1 and the number of cutpoints of that predictor, and the cutpoint lies strictly inside the range that the rules of its ancestors leave open for that predictor (so neither child covers an empty range of bins). This also holds when some predictors have no cutpoints and when a node has used up all the cutpoints of all predictors.',
     ['inputs', 'histories', 'configurations'], 'all predictor bin counts, reachable trees and random draws, with and without a minimum leaf size',
     NOTEST + ' Exhausted ranges need nested splits on the same predictor; constant predictors are not tested.',
     [MS], [('range left by ancestors', MS + ':split_range'), ('predictors that cannot be split', MS + ':fully_used_variables, randint_exclude'), ('rule choice', MS + ':choose_variable, choose_split')],
     [('var_trees', 'decision axes', MS + ':init'), ('max_split', 'number of cutpoints of each predictor', MS + ':init')], [MS + ':step'])

prop('C03', 'Stored leaf memberships agree with routing the data down the trees',
     'After any number of sampler steps, the leaf that the sampler state records for each training point in each tree is the leaf reached by following that tree\'s decision rules from the root with the point\'s binned predictors.',
     ['inputs', 'histories'], 'all binned predictor matrices, reachable states, random draws; also at the tree depths where the index type becomes wider',
     NOTEST + ' The membership is updated incrementally and never compared with a traversal.',
     [MS, GR], [('incremental update', MS + ':apply_grow_to_indices, apply_moves_to_leaf_indices'), ('routing', GR + ':traverse_tree')],
     [('leaf_indices', 'leaf of each point in each tree', MS + ':init')], [MS + ':step', GR + ':traverse_forest'])

prop('C04', 'Tracked residuals equal response minus ensemble prediction',
     'After any number of sampler steps, the residual vector in the sampler state equals the response minus the sum over trees of the value of the leaf each point falls into, up to floating-point rounding.',
     ['inputs', 'histories'], 'all responses, predictors, reachable states and random draws (identity over exact arithmetic)',
     NOTEST + ' Residuals are updated one tree at a time with values copied between nodes; an error for one accept/reject combination is invisible in aggregate output.',
     [MS], [('residual update', MS + ':accept_move_and_sample_leaves'), ('values copied so that larger-tree indices work', MS + ':adapt_leaf_trees_to_grow_indices')],
     [('resid', 'data minus forest', MS + ':init'), ('leaf_trees', 'leaf values', MS + ':init')], [MS + ':step'])

prop('C05', 'Minimum number of points per leaf is never violated',
     'When a minimum number of points per leaf is configured, after any number of sampler steps every leaf of every tree that has been split contains at least that many training points. The sampler\'s record of which leaves are populous enough to be split again (at least twice the minimum) is exact for every leaf above the deepest level.',
     ['inputs', 'histories', 'configurations'], 'all data, minimum sizes, reachable states, random draws',
     NOTEST,
     [MS], [('acceptance guard', MS + ':accept_move_and_sample_leaves'), ('affluence mask', MS + ':accept_moves_parallel_stage'), ('counts', MS + ':compute_count_trees')],
     [('affluence_trees', 'leaves with at least twice the minimum', MS + ':init'), ('min_points_per_leaf', 'threshold', MS + ':init')], [MS + ':step'])

prop('C06', 'Transition and prior factor of the Metropolis ratio is exact and reversible',
     'For every move that the sampler can make, the transition-times-prior factor it uses equals [P(propose new->old) P(new tree)] / [P(propose old->new) P(old tree)] computed from the two trees, where grow and prune are equally likely when both are possible, leaves are picked for growth with probability proportional to their prior nonterminal probability among growable leaves, prunable nodes are picked uniformly, and the prior is the product of depth-dependent nonterminal probabilities. A prune move uses the reciprocal of the factor of the grow move that would undo it.',
     ['inputs', 'histories'], 'all trees up to the stated depth, all prior probabilities in (0,1), all leaf occupancies and minimum sizes',
     NOTEST + ' A wrong factor in a rare situation (root, last growable leaf, leaf just above the bottom, under-populated children) only biases the posterior slightly.',
     [MS], [('partial ratio', MS + ':compute_partial_ratio'), ('probability of the reverse move', MS + ':compute_p_prune, choose_leaf_parent')],
     [('ratios', 'saved Metropolis-Hastings ratios', MS + ':init'), ('p_nonterminal', 'prior', MS + ':init')], [MS + ':step'])

prop('C07', 'Likelihood factor of the Metropolis ratio is the exact Gaussian one',
     'For every proposed move, the log likelihood factor equals the log ratio of the marginal densities of the partial residuals with the leaf split in two versus kept whole, under independent Gaussian noise with the current variance and Gaussian leaf values with variance one over the number of trees, where the partial residuals are the response minus all the other trees as already updated in this step.',
     ['inputs', 'histories'], 'all responses, leaf values, noise variances, leaf occupancies (identity over exact arithmetic)',
     NOTEST,
     [MS], [('precomputed terms', MS + ':precompute_likelihood_terms'), ('ratio', MS + ':compute_likelihood_ratio'), ('sums of residuals', MS + ':sum_resid')],
     [('ratios', 'saved ratios', MS + ':init')], [MS + ':step'])

prop('C08', 'Moves are accepted exactly by the Metropolis-Hastings rule',
     'A proposed move is carried out if and only if it is possible, both children it concerns hold at least the minimum number of points, and the log of the uniform acceptance draw does not exceed the log of the product of the move\'s transition-prior and likelihood factors (each inverted for a prune move). When the move is not carried out the tree keeps its structure, decision rules and leaf memberships.',
     ['inputs', 'histories'], 'all proposals, data, reachable states, acceptance draws',
     NOTEST,
     [MS], [('acceptance', MS + ':accept_move_and_sample_leaves'), ('undo of a rejected grow', MS + ':apply_moves_to_split_trees, apply_moves_to_leaf_indices')],
     [], [MS + ':step'])

prop('C09', 'Leaf values are drawn from their exact conditional posterior',
     'In each step the new value of every leaf of every tree (in the tree as it stands after the accept/reject decision) is the conjugate Gaussian posterior mean given the partial residuals of the points in that leaf plus a standard normal draw times the posterior standard deviation, with prior variance one over the number of trees and the current noise variance. Distinct leaves of a tree and distinct trees use distinct normal draws.',
     ['inputs', 'histories'], 'all data, reachable states, random draws (identity over exact arithmetic)',
     NOTEST,
     [MS], [('precomputed factors', MS + ':precompute_leaf_terms'), ('leaf update', MS + ':accept_move_and_sample_leaves')],
     [('leaf_trees', 'leaf values', MS + ':init')], [MS + ':step'])

prop('C10', 'Noise variance is drawn from its exact conditional posterior',
     'In each step the new noise variance equals (prior scale + half the sum of squared updated residuals) divided by a Gamma draw whose shape is (prior shape + half the number of data points), and it is positive whenever the prior scale is positive.',
     ['inputs', 'histories'], 'all residuals, priors, numbers of points up to the bound, random draws',
     NOTEST,
     [MS], [('variance update', MS + ':sample_sigma')], [('sigma2', 'noise variance', MS + ':init')], [MS + ':step', MS + ':sample_sigma'])

prop('C11', 'Random draws never share randomness',
     'Within a sampler step and across all the steps of a run, no two random draws use the same random key and no key used for a draw is also used to derive other keys, so that all random quantities are independent and a run is a deterministic function of its inputs and seed key.',
     ['histories', 'configurations'], 'all numbers of steps, trees and schedules (burn-in, saved, thinning)',
     'A reused key yields plausible but dependent draws; no test measures dependence.',
     [MS, LOOP], [('key splitting', MS + ':step, sample_trees, sample_moves, grow_move'), ('key chain across iterations', LOOP + ':run_mcmc')],
     [], [MS + ':step', LOOP + ':run_mcmc'])

prop('C12', 'Proposals follow their stated distribution',
     'A grow proposal picks a leaf among those that can be grown with probability proportional to its prior nonterminal probability, a predictor uniformly among those that still have cutpoints available at that leaf, and a cutpoint uniformly among the available ones; a prune proposal picks uniformly among decision nodes with two leaf children. Grow is chosen with probability one half when both kinds are possible and with probability one or zero otherwise.',
     ['inputs', 'histories'], 'all trees up to the stated depth, predictor bin counts, draws',
     'A slightly non-uniform or off-by-one choice leaves all outputs plausible; tests do not look at proposals.',
     [MS], [('leaf choice', MS + ':choose_leaf, categorical'), ('rule choice', MS + ':choose_variable, choose_split, randint_exclude'), ('prune choice', MS + ':choose_leaf_parent, randint_masked'), ('move kind', MS + ':sample_moves')],
     [], [MS + ':sample_moves'])

prop('C13', 'Proposal and acceptance counters are exact',
     'After each step the counters give the number of trees for which a grow or a prune was proposed and the number of trees that actually grew or were pruned in that step (not cumulated over steps); accepted never exceeds proposed and grow plus prune proposals never exceed the number of trees.',
     ['inputs', 'histories'], 'all states and random draws', NOTEST,
     [MS], [('counters', MS + ':accept_moves_parallel_stage, accept_moves_final_stage')],
     [('grow_prop_count etc.', 'per-step counters', MS + ':init')], [MS + ':step'])

prop('C14', 'A step alters neither its input nor the data and settings',
     'Performing a sampler step leaves the state passed in unchanged (every array in it, including nested ones, keeps its value), and in the returned state the response, predictors, cutpoint counts, prior parameters, minimum leaf size and options are the ones of the input. The returned state has the same fields, shapes and types as the input.',
     ['inputs', 'configurations'], 'all states, with and without saved ratios and minimum leaf size',
     'Tests run only under compilation, where in-place changes of the Python containers are invisible.',
     [MS], [('copies before update', MS + ':accept_moves_parallel_stage, accept_moves_sequential_stage')],
     [], [MS + ':step'])

prop('C15', 'A fresh sampler state is consistent',
     'A freshly initialized sampler state describes trees that are single zero-valued leaves containing all the points, residuals equal to the response, a strictly positive noise variance, the populous-leaf record matching the number of points, and nonterminal probabilities that are those given, extended with zero at the deepest level, for both the prior and the leaf-picking weights. All per-tree and per-point arrays have types wide enough for their largest legal value.',
     ['inputs', 'configurations'], 'all responses, noise priors (including degenerate ones), numbers of points, trees, predictors, depths in range',
     'No reliable test builds a sampler state.',
     [MS, GR], [('initialization', MS + ':init'), ('node depths', GR + ':tree_depths')], [], [MS + ':init'])

prop('C16', 'Counting and summing over leaves does not depend on batching',
     'The number of points per leaf and the sum of residuals per leaf are the exact count and sum over the points in each leaf, for any batch size or none, also when the batch size does not divide the number of points or exceeds it.',
     ['inputs', 'configurations'], 'all memberships and residuals; batch sizes and numbers of points up to the bound (sums over exact arithmetic)',
     'The batched code paths are only exercised by the R comparison test.',
     [MS], [('counting', MS + ':count_datapoints_per_leaf'), ('summing', MS + ':sum_resid')], [], [MS + ':count_datapoints_per_leaf', MS + ':sum_resid', MS + ':step'])

prop('C17', 'Tree evaluation follows the decision rules',
     'Evaluating a tree at a point starts from the root and goes to the right child exactly when the point\'s value on the node\'s predictor is at least the node\'s cutpoint, until a node with cutpoint zero or the deepest level is reached; the ensemble prediction is the sum over trees of the values of the leaves reached, and the per-tree values when sums are not requested. This holds for any depth, number of trees and number of predictors, including where the index types become wider.',
     ['inputs', 'configurations'], 'all trees, points and leaf values up to the bound, plus boundary sizes',
     'No reliable test evaluates a tree.',
     [GR], [('traversal', GR + ':traverse_tree, traverse_forest'), ('evaluation', GR + ':evaluate_forest')], [], [GR + ':traverse_forest', GR + ':evaluate_forest'])

prop('C18', 'Predictions from a trace use exactly the trees of each sample',
     'Row k of the predictions computed from a saved trace equals the sum of the leaf values of the trees of sample k, and of no other sample, at each requested point, whatever the number of samples, trees and points and however the computation is batched to limit memory.',
     ['inputs', 'configurations'], 'all traces and points up to the bound; all batch splits of the point axis or tree axis',
     'Tests never batch evaluation (the memory threshold is half a gigabyte).',
     [LOOP, GR, JX], [('evaluation', LOOP + ':evaluate_trace'), ('batching', JX + ':autobatch')], [], [LOOP + ':evaluate_trace'])

prop('C19', 'Quantile cutpoints separate the observed values',
     'For each predictor, the quantile cutpoints in use are strictly increasing, each lies at or above one observed value and below the next larger one, unused slots hold the largest value of the type, and the reported number of cutpoints is the smaller of the number of distinct values minus one and the number allowed. Each bin delimited by the cutpoints in use contains observed values; when cutpoints are fewer than the gaps between distinct values, the numbers of distinct values in the bins differ by at most one. In particular, if enough bins are allowed, binning the training data puts different values in different bins and equal values in the same bin, for floats (subnormals, which the platform flushes to zero, excepted) as well as signed and unsigned integers of any magnitude.',
     ['inputs', 'configurations'], 'all finite predictor values (bit-precise integers and float32) for up to the stated number of points and bins',
     'Tests use small round numbers; neighbouring floats, values near the type limits, and decimation with ties are not sampled.',
     [PC, JX], [('cutpoints', PC + ':quantilized_splits_from_matrix'), ('distinct values', JX + ':unique')], [], [PC + ':quantilized_splits_from_matrix', PC + ':bin_predictors'])

prop('C20', 'Binning is exact and right-closed',
     'A predictor value is mapped to the number of cutpoints strictly smaller than it: value x gets bin i exactly when cutpoint i-1 < x <= cutpoint i. Hence binning is monotone, never exceeds the number of cutpoint slots, and the result type is wide enough to hold it; this holds for integers and floats, and independently of how rows are batched.',
     ['inputs', 'configurations'], 'all values and sorted cutpoints (bit-precise) up to the stated number of slots, and slot counts at type boundaries',
     'Two boundary examples are tested.',
     [PC], [('binning', PC + ':bin_predictors')], [], [PC + ':bin_predictors'])

prop('C21', 'Uniform cutpoints divide the observed range evenly',
     'The uniform grid for each predictor consists of the requested number of bins minus one cutpoints that divide the interval between the smallest and largest observed value into equal parts, excluding both ends, up to floating-point rounding, and the reported number of cutpoints is the number requested for every predictor.',
     ['inputs', 'configurations'], 'all predictor values of bounded magnitude and bin counts up to the bound plus the default',
     'No test calls the uniform grid.',
     [PC], [('grid', PC + ':uniform_splits_from_matrix')], [], [PC + ':uniform_splits_from_matrix'])

prop('C22', 'Distinct-value extraction is exact',
     'Extracting distinct values returns the distinct values of the input in increasing order followed by the fill value, and the number of distinct values returned; if fewer slots are requested than there are distinct values, the smallest ones are returned.',
     ['inputs', 'configurations'], 'all inputs (bit-precise integers and finite floats) and output sizes up to the bound',
     'Four fixed examples are tested, none with duplicates together with a short output.',
     [JX], [('extraction', JX + ':unique')], [], [JX + ':unique'])

prop('C23', 'Automatic batching is transparent and respects the memory limit',
     'A function wrapped for automatic batching returns the same result as the function itself for any batched and unbatched arguments, batch axes and sizes. The number of batches divides the size, and each batch fits in the byte limit unless batches are already single elements, in which case a warning is given.',
     ['inputs', 'configurations'], 'all element values for the stated shapes and axes; all sizes, row sizes and byte limits up to the bound',
     'A handful of shapes and limits are tested.',
     [JX], [('batching', JX + ':autobatch')], [], [JX + ':autobatch'])

prop('C24', 'The MCMC loop saves exactly the scheduled iterations',
     'Running the loop with given burn-in, saved and thinning counts performs burn-in + saved * thinning steps in sequence; the k-th saved sample is the state after burn-in + (k + 1) * thinning steps, the burn-in trace holds the state after each burn-in step, and the final state is the last one. The sequence of states does not depend on how iterations are divided between burn-in, thinning and saving, and the callback is called once per iteration with the right iteration indices and burn-in flag.',
     ['inputs', 'configurations', 'histories'], 'all initial states and keys, with the step an arbitrary function; schedules up to the bound',
     'Only a test that cannot run here compares two schedules.',
     [LOOP], [('loop', LOOP + ':run_mcmc')], [], [LOOP + ':run_mcmc'])

prop('C25', 'Regression outputs are in the units of the response',
     'The sampler sees the response shifted by the offset and divided by the scale; predictions returned to the user are offset + scale * (sum of the sampled trees) and error standard deviations are scale * sqrt(sampled variance), for burn-in and main phase, training and test points. By default the offset is the mean of the response and the scale is its range divided by twice k (1 with fewer than two points); an affine change of the response changes outputs by the same affine map.',
     ['inputs', 'configurations'], 'all responses and predictors of bounded size, all offsets, k, prior scales, with the sampler step an arbitrary function',
     'The interface tests need R and check one shift and scale.',
     [BA], [('response transforms', BA + ':gbart._transform_input, _transform_output, _extract_sigma'), ('defaults', BA + ':gbart._process_offset_settings, _process_scale_settings')], [], [BA + ':gbart'])

prop('C26', 'Predicting at the training points reproduces the training predictions',
     'Predicting at the training predictors returns exactly the training predictions; test points are binned with the cutpoints of the training data; data frames and series give the same results as the corresponding arrays; and supplying test points at construction gives the same as predicting later.',
     ['inputs', 'configurations'], 'all predictors and responses of bounded size, both binning methods, array and data frame inputs, with the sampler step an arbitrary function',
     'The interface tests need R and check a few data sets.',
     [BA, PC, LOOP], [('prediction', BA + ':gbart.predict, yhat_train')], [], [BA + ':gbart'])

prop('C27', 'Tree diagnostics report exactly what is in the trees',
     'The leaf mask, the leaf-parent mask, node depths, actual tree depth, distributions of tree depth and of points per leaf agree with a direct walk of the tree, for every well-formed tree; the tree checker raises its stray-node flag exactly for trees with a decision node below a leaf, and its other flags exactly for their conditions.',
     ['inputs'], 'all trees, data and leaf values up to the bound',
     'No reliable test calls the diagnostics.',
     [DBG, GR], [('masks', GR + ':is_actual_leaf, is_leaves_parent, tree_depths'), ('diagnostics', DBG + ':check_tree, points_per_leaf_distr, forest_depth_distr')], [], [DBG + ':check_forest', DBG + ':forest_depth_distr'])

prop('C28', 'Compact integer types are always wide enough and minimal',
     'The smallest-unsigned-type helper returns, for every non-negative maximum up to 2^64 - 1, a type that can hold it while no narrower one can, signed types are mapped to the unsigned type of the same width without changing their bits, and the largest-value helper returns the largest value of a type.',
     ['inputs'], 'all maxima in [0, 2^64), all integer types, all values',
     'Only used indirectly with small values in tests.',
     [JX], [('type helpers', JX + ':minimal_unsigned_dtype, signed_to_unsigned, ensure_unsigned, huge_value')], [], [JX + ':minimal_unsigned_dtype'])

prop('C29', 'Prior settings reach the sampler as documented',
     'The regression interface starts the sampler with node nonterminal probabilities base / (1 + depth)^power for each depth below the last, a noise variance prior with shape half the degrees of freedom and scale equal to that shape times the requested scale divided by the squared response scale, at least five points per leaf, the requested number of trees, and predictors binned by the chosen method; explicit initialization options override these. The burn-in, saved and thinning counts and the random seed (or key) are handed to the MCMC loop unchanged.',
     ['inputs', 'configurations'], 'all base, lamda, degrees of freedom, response values; depths and powers over a stated list',
     'The interface tests need R and do not look at the state.',
     [BA], [('setup', BA + ':gbart._setup_mcmc')], [], [BA + ':gbart'])

prop('C30', 'Sampling does not depend on the order of the data points',
     'Reordering the training points (rows of predictors and response together) and keeping the random draws fixed reorders the residuals and leaf memberships produced by a step in the same way and leaves the trees, leaf values, noise variance and counters unchanged, up to floating-point rounding.',
     ['inputs', 'histories'], 'all states, data, draws and permutations of up to the stated number of points',
     'No test permutes the data.',
     [MS], [('aggregation over points', MS + ':sum_resid, count_datapoints_per_leaf')], [], [MS + ':step'])

prop('C31', 'Default noise prior scale follows the estimate and the requested quantile',
     'Unless given, the scale of the noise variance prior is such that the prior probability of an error standard deviation below the estimate is the requested quantile: lamda = sigest^2 * (1 - sigquant quantile of the chi-squared with sigdf degrees of freedom) / sigdf. The estimate sigest, if not given, is 1 with fewer than two points, the standard deviation of the response with no more points than predictors, and otherwise the square root of the residual sum of squares of the regression of the response on predictors and intercept, divided by the number of points minus the rank of the centered predictors; it does not depend on the offset and stays finite when all the predictors are constant. A given lamda is used as is.',
     ['inputs', 'configurations'], 'all responses and given estimates; predictors, quantiles and degrees of freedom over a stated list',
     'The interface tests need R and compare a few data sets.',
     [BA, JX], [('noise prior', BA + ':gbart._process_noise_variance_settings')], [], [BA + ':gbart'])

prop('C32', 'Progress reports appear when due and tell the truth',
     'With the standard logging callback, a line is printed after exactly the iterations whose 1-based number is a multiple of the requested interval; it gives that number, the total number of iterations burn-in + saved * thinning, the fractions of trees with a grow and with a prune proposal, the fractions of those proposals that were accepted, and whether the iteration belongs to the burn-in.',
     ['inputs', 'configurations'], 'all iteration numbers and counters; intervals, numbers of trees and schedules over a stated list',
     'No reliable test runs the loop.',
     [LOOP], [('logging', LOOP + ':make_simple_print_callback')], [], [LOOP + ':make_simple_print_callback'])

prop('N01', 'The chain converges to the BART posterior',
     'The empirical distribution of the saved samples converges to the posterior of the BART model as the number of iterations grows.',
     ['histories'], 'all data and seeds, infinite histories', 'A limit statement about a stochastic process.',
     [MS, LOOP], [('MCMC', MS + ':step')])
prop('N02', 'Rounding errors do not accumulate',
     'Over a long run the incrementally updated residuals stay within a small relative error of the residuals recomputed from the trees.',
     ['histories'], 'all data, thousands of steps in float32', 'The R-dependent test checks one run of 1000 steps.',
     [MS], [('batched sums', MS + ':sum_resid')])
pathlib.Path(__file__).parent.parent.joinpath('properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, p['title']
