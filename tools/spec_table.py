"""Properties: statement, anchors, and how each is decided."""

IR = ('IR value analysis: the JAX front end lowers the function to its typed IR; a symbolic value numbering (exact '
      'rationals, guarded normal forms, random draws as opaque atoms) of the IR outputs is compared with the normal form the rule states. ')
EXT = ('Data values, keys and parameters are unconstrained symbols; array extents, depths and tree shapes are the enumerated '
       'configurations listed in the evidence. Real arithmetic: roundoff is out of scope.')

PROPS = [
dict(
    id='C03', title='Every point is routed to the leaf its decision rules select',
    statement='''For every forest and every matrix of binned predictors, each point is assigned in each tree to the node reached from
    the root by going left when its value of the node's predictor is strictly below the node's cutpoint and right otherwise,
    stopping at the first node without a cutpoint or at the bottom level. This holds for every tree depth, tree shape, predictor and
    cutpoint type up to the largest representable cutpoint.''',
    over=['inputs', 'configurations'], quant='all binned points, trees (any pattern of decision nodes), depths 1 to 8, and integer types of predictors and cutpoints',
    why='No stable test traverses a tree; a fixed forest exercises one shape and never the boundary cutpoint of the type.',
    mech=[('tree traversal', 'grove.py:traverse_tree'), ('vectorised traversal', 'grove.py:traverse_forest')],
    observe=['leaf index per tree and point', 'prediction'],
    technique=IR + 'Rule: leaf index == recursive routing definition, for symbolic trees and points.', note=EXT),
dict(
    id='C07', title='The acceptance ratio uses the exact marginal likelihood ratio',
    statement='''The log ratio that decides a grow or prune move contains exactly the log ratio of the marginal likelihoods of the residuals
    under the tree with and without the split, with the leaf values integrated out under their prior (variance one over the number of
    trees) and the current noise variance. A prune move uses the exact inverse of the ratio of the corresponding grow move, and the
    likelihood ratios reported on request are those same numbers.''',
    over=['inputs', 'histories'], quant='all residuals, predictors, cutpoints, noise variances, tree states with any admissible move at any node, batch settings of the reductions; to 10 levels, 257 trees, 65538 points',
    why='The MCMC is not run by any stable test, and a wrong constant in the ratio only biases the stationary distribution.',
    mech=[('likelihood precomputation', 'mcmcstep.py:precompute_likelihood_terms'), ('log likelihood ratio', 'mcmcstep.py:compute_likelihood_ratio'),
          ('residual sums', 'mcmcstep.py:sum_resid'), ('leaf counts', 'mcmcstep.py:compute_count_trees')],
    observe=['accepted moves', 'reported log likelihood ratios'],
    technique=IR + 'Rule: threshold compared with the log uniform == log marginal likelihood ratio, per move kind, node and predictor.', note=EXT),
dict(
    id='C08', title='The acceptance ratio uses the exact transition and prior ratio',
    statement='''The log ratio that decides a grow or prune move contains exactly the log of the tree prior ratio times the ratio of the
    probabilities of proposing the move and its reverse, computed from the number of growable leaves before and after, the
    weights used to pick the leaf, the number of prunable nodes after the growth, and the probability of choosing each kind of move in
    either tree. A node at the last allowed level never gets a prior chance of being split, and the ratios reported on request are those same numbers.''',
    over=['inputs', 'histories'], quant='all tree shapes up to the enumerated depths, patterns of growable leaves, axes and cutpoints, prior probabilities per level, leaf counts',
    why='A detailed-balance error leaves all outputs plausible; no test runs the sampler, and sampling tests cannot resolve a missing factor.',
    mech=[('transition and prior ratio', 'mcmcstep.py:compute_partial_ratio'), ('completion after counting', 'mcmcstep.py:complete_ratio'),
          ('grow proposal', 'mcmcstep.py:grow_move'), ('prune proposal', 'mcmcstep.py:prune_move')],
    observe=['accepted moves', 'reported log transition-prior ratios'],
    technique=IR + 'Rule: proposal-phase ratio and completed acceptance ratio == Metropolis-Hastings ratio of the documented proposal, for each tree shape and growability pattern.', note=EXT),
dict(
    id='C09', title='A move is applied iff it passes the Metropolis-Hastings test',
    statement='''A proposed change of a tree is applied if and only if the proposal was possible, the log of one uniform draw does not exceed the log
    acceptance ratio, and, when a minimum number of points per leaf is set, both leaves created or removed by the move hold at least that many
    points. Trees for which no move is possible are left exactly as they were.''',
    over=['inputs', 'histories'], quant='all data, random draws, tree states with any admissible move, with and without minimum leaf size; to 10 levels, 257 trees, 258 points',
    why='Needs control of the random draw relative to the ratio at every node and kind of move; tests do not run this phase at all.',
    mech=[('acceptance', 'mcmcstep.py:accept_move_and_sample_leaves'), ('whole phase', 'mcmcstep.py:accept_moves_and_sample_leaves')],
    observe=['tree structure after an iteration'],
    technique=IR + 'Rule: acceptance indicator (as visible in the new structure) == allowed and (log u <= ratio) and both leaf counts >= minimum.', note=EXT),
dict(
    id='C10', title='Leaf values are drawn from their full conditional distribution',
    statement='''After its structure update, every leaf of every tree is replaced by an independent normal draw with the exact conditional
    posterior mean and variance given the current noise variance, the leaf prior with variance one over the number of trees, and the residuals obtained by
    removing that tree's current contribution from the data. Trees are processed one after the other, each seeing the trees before it already
    updated, and no random draw is shared between leaves or trees.''',
    over=['inputs', 'histories'], quant='all residuals, noise variances, leaf assignments, moves accepted or rejected at any node, batch settings',
    why='A distribution is not observable from single outputs, and no stable test runs the update.',
    mech=[('leaf draw', 'mcmcstep.py:accept_move_and_sample_leaves'), ('precomputed leaf terms', 'mcmcstep.py:precompute_leaf_terms')],
    observe=['leaf values after an iteration'],
    technique=IR + 'Rule: (new leaf - conditional mean)/conditional sd is a single standard normal draw, distinct per leaf and tree.', note=EXT),
dict(
    id='C11', title='The noise variance is drawn from its full conditional distribution',
    statement='''At each iteration the noise variance is replaced by one draw from the inverse gamma distribution whose shape is the prior one plus half the
    number of points and whose scale is the prior one plus half the sum of the squared residuals left after all trees were updated. The trees of that
    iteration are updated given the previous noise variance, and the data and prior parameters in the state are never changed.''',
    over=['inputs', 'histories'], quant='all residuals and prior parameters, number of points including 0 and 1',
    why='A wrong count or a missing half gives plausible values; order of updates is invisible in single runs.',
    mech=[('noise variance draw', 'mcmcstep.py:sample_sigma'), ('iteration', 'mcmcstep.py:step')],
    observe=['noise variance trace'],
    technique=IR + 'Rule: new variance times the single gamma draw == scale, gamma shape == required shape; frame of the state unchanged.', note=EXT),
dict(
    id='C12', title='Residuals always equal the data minus the sum of the trees',
    statement='''If the residuals equal the data minus the sum of the tree predictions before an iteration, they do so after it: for each point and tree the residual changes
    by exactly the old leaf value of the point minus its new leaf value, whichever moves are proposed, accepted or rejected. The result does not depend on the batch sizes used for the reductions.''',
    over=['inputs', 'histories'], quant='all states, moves, acceptance outcomes, batch settings; enumerated numbers of points and trees, to 10 levels, 257 trees, 258 points',
    why='An error shows up only for particular moves (e.g. an accepted prune) and accumulates silently; tests do not run the update.',
    mech=[('residual update', 'mcmcstep.py:accept_move_and_sample_leaves')],
    observe=['residuals in the state', 'predictions at the training points'],
    technique=IR + 'Rule: residual after each tree minus before == old leaf value - new leaf value at the recorded leaves.', note=EXT),
dict(
    id='C13', title='The update changes exactly the proposed node and keeps the bookkeeping right',
    statement='''An accepted growth sets the cutpoint of the grown leaf and nothing else, an accepted pruning clears the one of the pruned node and nothing else, and a rejected move changes no rule. The
    recorded leaf of each point, the marks telling which leaves hold enough points to be split (twice the minimum), and the counts of proposed and accepted
    moves are updated to match the new trees.''',
    over=['inputs', 'histories'], quant='all states, nodes, predictors, cutpoints and acceptance outcomes',
    why='Bookkeeping drifts only after particular accepted moves and is not compared with a recomputation by any stable test.',
    mech=[('leaf index update', 'mcmcstep.py:apply_grow_to_indices'), ('final leaf indices', 'mcmcstep.py:apply_moves_to_leaf_indices'),
          ('structure update', 'mcmcstep.py:apply_moves_to_split_trees'), ('acceptance', 'mcmcstep.py:accept_move_and_sample_leaves')],
    observe=['trees, leaf of each point and move counters in the state'],
    technique=IR + 'Rule: per node / per point equality of the new structure, recorded leaves, growability marks and counters with their definition; all other fields unchanged.', note=EXT),
dict(
    id='C21', title='Tree predicates agree with the heap layout',
    statement='''For every tree, the nodes reported as leaves are exactly those without a cutpoint whose parent has one (or the root), and the nodes reported as prunable are exactly the decision nodes both of whose children are leaves.
    The reported depth of a node is the position of its index's leading bit, the number of levels of a tree is the base-2 logarithm of its array length, and a new tree of given depth has that length and no decision node.''',
    over=['inputs', 'configurations'], quant='all tree shapes (exhaustive up to depth 4, sampled at depth 5), all cutpoint values, number of levels 0 to 8',
    why='These helpers are only used inside the sampler, which stable tests do not run.',
    mech=[('leaf mask', 'grove.py:is_actual_leaf'), ('prunable mask', 'grove.py:is_leaves_parent'), ('depths', 'grove.py:tree_depths'),
          ('number of levels', 'grove.py:tree_depth'), ('allocation', 'grove.py:make_tree')],
    technique=IR + 'Rule: each mask entry == its definition for every tree shape with symbolic cutpoints.', note=EXT),
dict(
    id='C22', title='Moves pick kind and node with the documented probabilities',
    statement='''In each tree, growing and pruning are equally likely when both are possible, and the only possible kind is chosen otherwise; a growth picks only leaves that are not at the bottom level, hold enough points and
    do so in proportion to the documented weights, and a pruning picks uniformly among the decision nodes with two leaf children. When neither kind is possible nothing is proposed, and each tree uses its own random draws.''',
    over=['inputs', 'histories'], quant='all tree shapes up to the enumerated depths, growability patterns, weights, and values of the uniform draws including its end points',
    why='Selection bias is invisible in a single run and the sampler is not exercised by stable tests.',
    mech=[('grow proposal', 'mcmcstep.py:grow_move'), ('prune proposal', 'mcmcstep.py:prune_move'), ('leaf choice', 'mcmcstep.py:choose_leaf'),
          ('node choice', 'mcmcstep.py:choose_leaf_parent'), ('weighted choice', 'mcmcstep.py:categorical'), ('uniform choice', 'mcmcstep.py:randint_masked')],
    observe=['proposed moves'],
    technique=IR + 'Rule: chosen kind/node as a function of the uniform draws has the required support and interval lengths.', note=EXT),
dict(
    id='C26', title='New decision rules are drawn uniformly among the admissible ones',
    statement='''A new rule uses a predictor drawn uniformly among those not exhausted by the rules of the ancestors, and a cutpoint drawn uniformly among those compatible with the ancestors that use the same predictor, so that no rule is ever
    proposed that sends all points to one side by construction. Predictors with no cutpoint at all are never used by an applied rule, and a leaf with no admissible rule is not grown.''',
    over=['inputs', 'histories'], quant='all tree shapes up to the enumerated depths, ancestor axes and cutpoints, numbers of cutpoints per predictor up to the largest value of the type',
    why='Depends on the combination of ancestor rules and on integer type boundaries; no stable test proposes a rule.',
    mech=[('predictor choice', 'mcmcstep.py:choose_variable'), ('exhausted predictors', 'mcmcstep.py:fully_used_variables'),
          ('cutpoint choice', 'mcmcstep.py:choose_split'), ('range left by ancestors', 'mcmcstep.py:split_range'), ('draw with exclusions', 'mcmcstep.py:randint_exclude')],
    observe=['proposed rules'],
    technique=IR + 'Rule: drawn predictor and cutpoint are in bijection with uniform integer draws over the admissible set, for each ancestor pattern.', note=EXT),

dict(
    id='C01', title='Results are a function of the inputs and the seed; no random draw is reused',
    statement="""All random numbers derive from the given seed or key, and from no other source, so that the same inputs and seed always determine the same result, whatever was computed before in the same process. Within an iteration and across the iterations of
    a run, including across the boundary between burn-in and saved samples, no random key is ever consumed twice, so no two draws share randomness.""",
    over=['histories', 'configurations'], quant='all keys and data, lengths of the phases, numbers of trees and depths, integer or key seeds',
    why='A reused key gives correlated but plausible draws; repeating a run with the same seed cannot reveal it.',
    mech=[('iteration', 'mcmcstep.py:step'), ('loop', 'mcmcloop.py:run_mcmc'), ('seeding', 'BART.py:gbart')],
    observe=['random keys consumed by each draw'],
    technique='Typestate of random keys over the IR: every consumption (draw, split, fold, hand-over to an iteration) of every key value is recorded with its path condition; rule: at most one consumption per key, all keys rooted in the given one. Syntax-tree query for other entropy sources. Slices and normal forms of a call after other calls == those of the call alone.', note=EXT),
dict(
    id='C02', title='Inputs are never modified',
    statement="""Creating a sampler, running iterations or whole runs, predicting and computing diagnostics leave arrays, dataframes, dictionaries and states passed by the user exactly as they were,
    including the entries and order of dictionaries and the default arguments. A state can thus be reused to start any number of runs, and its buffers are not given away to compiled code.""",
    over=['inputs', 'histories'], quant='all data values, input kinds (arrays, pandas- and polars-like frames), states with all optional fields',
    why='Aliasing bugs appear only when an object is reused after a call, which tests of single calls do not do.',
    mech=[('iteration', 'mcmcstep.py:step'), ('loop', 'mcmcloop.py:run_mcmc'), ('user interface', 'BART.py:gbart')],
    observe=['user objects after the call'],
    technique='Effect analysis at tracing time: container snapshots around the traced body, recording proxies in place of user arrays and frames, and a query of the IR for donated buffers; rule: empty effect set.', note=EXT),
dict(
    id='C04', title='Predictors are binned by the cutpoints below them',
    statement="""Each predictor value is replaced by the number of cutpoints of its row strictly below it, so it gets bin i if and only if it lies above cutpoint i-1 and not above cutpoint i, in the smallest unsigned type
    that holds all the bins. The training predictors are binned with the grid made from them, of the kind and with the number of cutpoints the user asked for, and new points are always binned with that same training grid.""",
    over=['inputs', 'configurations'], quant='all predictor values and increasing grids including padding, grids of 0 to 4 and 254 to 257 cutpoints (the type of the bins up to a million), float and integer types, both kinds of grids',
    why='Boundary values, padding and the largest value of a type are met only by special data.',
    mech=[('binning', 'prepcovars.py:bin_predictors'), ('use', 'BART.py:gbart')],
    observe=['binned predictors'],
    technique=IR + 'Rule: bin == sum of indicators [cutpoint < value]; smallest sufficient type; the grid argument of each binning call is the output of the grid call on the training data.', note=EXT),
dict(
    id='C05', title='Cutpoint grids follow their definition',
    statement="""The uniform grid has exactly the requested cutpoints, evenly spaced strictly between the smallest and largest value of each predictor. The quantile grid has one cutpoint halfway (rounded down for integers) between
    each pair of consecutive distinct values, or, if there are too many, the requested number of cutpoints nearest to equally spaced ranks of those; unused entries hold the largest value of the type and the reported number counts the used ones.""",
    over=['inputs', 'configurations'], quant='all predictor values with every pattern of ties and order up to 4 values (5 in the thorough tier), hundreds of distinct values at the boundaries of index types (types of the counts up to 70000 points and a million bins), 8 and 32 bit and float types including values at both ends of the type',
    why='Depends on ties, order and type boundaries jointly; tests use a few fixed rows.',
    mech=[('quantile grid', 'prepcovars.py:quantilized_splits_from_matrix'), ('uniform grid', 'prepcovars.py:uniform_splits_from_matrix'), ('distinct values', 'jaxext.py:unique')],
    observe=['cutpoints', 'numbers of cutpoints'],
    technique=IR + 'Rule: each grid entry == its definition for each pattern of ties, with free values and gaps.', note=EXT),
dict(
    id='C14', title='The run performs the requested schedule and records the right iterations',
    statement="""A run performs exactly the burn-in iterations plus thinning times saved ones, each starting from the state left by the previous one, and returns the last state. The burn-in trace holds the state after each burn-in iteration,
    the main trace the state after every thinning-th iteration after burn-in, with the documented fields whatever the lengths of the phases, including zero; the user interface passes its burn-in, saved and thinning numbers unchanged.""",
    over=['histories', 'configurations'], quant='all states and iteration functions (the iteration is opaque), enumerated lengths of the phases including 0',
    why='Off-by-one errors in thinning or at the end of burn-in leave shapes and values plausible.',
    mech=[('loop', 'mcmcloop.py:run_mcmc'), ('use', 'BART.py:gbart')],
    observe=['traces', 'final state'],
    technique=IR + 'The iteration is summarised as an opaque call; rule: dataflow of states between calls and from calls to trace entries.', note=EXT),
dict(
    id='C15', title='The callback is invoked once per iteration with the right arguments',
    statement="""The callback of a run is invoked exactly once per iteration, in order, by keyword with the state left by that iteration, whether it was in the burn-in phase, its index in the run, its index since the last saved
    iteration, and the lengths of the phases as given.""",
    over=['histories', 'configurations'], quant='all states, enumerated lengths of the phases including 0',
    why='Arguments at the phase boundary are only visible to a recording callback, which no stable test uses.',
    mech=[('loop', 'mcmcloop.py:run_mcmc')], observe=['callback invocations'],
    technique=IR + 'Iteration and callback are opaque calls; rule: one callback per iteration with the required argument values and no guard.', note=EXT),
dict(
    id='C16', title='Predictions and noise samples are in the units of the response',
    statement="""Predictions at any points, for each saved sample, equal the prior mean plus the response scale times the sum over trees of the leaf values selected for the point; the training prediction is the same function at the training predictors and
    the test prediction the one at the test predictors. The reported noise standard deviations are the scale times the square root of the sampled variances, for burn-in and saved samples respectively, and means are averages over the saved samples.""",
    over=['inputs', 'histories'], quant='all data, traces and trees; number of points including 0 and 1, user-specified or automatic offset and scale, both kinds of grids',
    why='No stable test runs the user interface; swapped traces or missing offsets keep shapes right.',
    mech=[('user interface', 'BART.py:gbart'), ('evaluation of a trace', 'mcmcloop.py:evaluate_trace'), ('evaluation of a forest', 'grove.py:evaluate_forest')],
    observe=['yhat_train', 'yhat_test', 'predict', 'sigma', 'first_sigma'],
    technique=IR + 'The sampler is an opaque call; rule: attributes == their definition on the outputs of the sampler; evaluation == sum of routed leaf values.', note=EXT),
dict(
    id='C18', title='Automatic batching is transparent',
    statement="""A function wrapped for automatic batching returns the same values, shapes and types as the function itself, whatever the batch axes, the size of the axes including 0 and 1, shared arguments and memory limit. The batch axis is divided evenly, each batch respects the
    limit unless it cannot be divided further, and a warning is given exactly when the limit cannot be respected.""",
    over=['inputs', 'configurations'], quant='all values, enumerated function structures, axes, sizes and limits around the multiples of the item size',
    why='The number of combinations of size, divisors and limit is large, and results differ only for some of them.',
    mech=[('batching', 'jaxext.py:autobatch')], observe=['outputs and number of batches'],
    technique=IR + 'Rule: outputs of the wrapped function == outputs of the function, entry by entry; arithmetic on the number of batches.', note=EXT),
dict(
    id='C19', title='The prior is calibrated on the data as documented',
    statement="""Unless given, the prior mean is the mean of the response, the scale is its range over twice k (one with less than two values), and the noise prior has the documented shape and puts its sigquant quantile at the estimated noise variance: the residual variance
    of the linear regression with intercept, the variance of the response if there are no more points than predictors, one with less than two points. The sampler receives the standardised response, the noise prior in standardised units, the node prior base/(1+depth)^power with no split
    at the last level, at least five points per leaf, the requested number of trees and depth, and user overrides of these options.""",
    over=['inputs', 'configurations'], quant='all responses, predictors and parameters; 0 to 5 points, 1 to 3 predictors, each combination of user-given parameters, float and integer responses',
    why='Each branch depends on which arguments are given and on the data size; tests do not run the interface.',
    mech=[('user interface', 'BART.py:gbart'), ('quantile function', 'jaxext.py:scipy')],
    observe=['offset, scale, lamda, sigest attributes', 'initial state of the sampler'],
    technique=IR + 'Rule: attributes and arguments of the sampler == documented formulas, with the regression and the incomplete gamma inverse as opaque functions.', note=EXT),
dict(
    id='C23', title='The initial state represents zero trees and the given data',
    statement="""A new state has all trees with a single zero leaf, all points at the roots, residuals equal to the response, zero counters, noise variance at the scale over the shape of its prior (one if that is not finite and positive), and the node prior extended with zero at the last level.
    The root is marked growable if and only if it holds at least twice the minimum of points per leaf, optional fields are present exactly when requested, and the integer types hold every predictor index, node index and cutpoint.""",
    over=['inputs', 'configurations'], quant='all data and prior parameters, 0 to 9 points, depths 1 to 10, up to 65537 predictors, all combinations of options',
    why='Capacity and option combinations are many; no stable test builds a state.',
    mech=[('initialization', 'mcmcstep.py:init')], observe=['initial state'],
    technique=IR + 'Rule: each field == its definition; type capacity compared with the largest value at the boundaries.', note=EXT),
dict(
    id='C24', title='Diagnostics of trees agree with their definition',
    statement="""For every tree, forest and trace, the depth diagnostics count trees by their actual depth and the leaf-size diagnostics count leaves by the number of points they hold, without integer overflow. The consistency check
    of a tree reports exactly the violated conditions: wrong types or sizes, a used entry 0, leaf values that are not finite, and decision nodes below leaves.""",
    over=['inputs', 'configurations'], quant='all tree shapes up to 4 levels (valid or not for the consistency check), symbolic cutpoints and points, up to 257 points',
    why='Diagnostics are not run by stable tests and a wrong one silently validates broken trees.',
    mech=[('depth', 'debug.py:tree_actual_depth'), ('leaf sizes', 'debug.py:points_per_leaf_distr'), ('consistency check', 'debug.py:check_tree')],
    observe=['diagnostic outputs'],
    technique=IR + 'Rule: each diagnostic == its definition for each tree shape.', note=EXT),

dict(
    id='C06', title='An iteration keeps the form of the state and fits its integer types',
    statement="""An iteration maps any sampler state to a state with the same fields, shapes and types, for all options, floating point types and with 64-bit types enabled, so it can be iterated, used to continue a finished run and vectorised over chains.
    Node, predictor and cutpoint indices are handled without overflow of the integer types of the state, up to the deepest trees, largest predictor index and largest cutpoint these types hold.""",
    over=['configurations', 'histories'], quant='all data; enumerated options and types; trees along the extreme branches up to depth 10, up to 300 predictors, up to 65535 cutpoints per predictor',
    why='Types drift only for some combinations of options, and small integers overflow only in deep trees or with many predictors, which no test builds.',
    mech=[('iteration', 'mcmcstep.py:step'), ('initialization', 'mcmcstep.py:init'), ('loop', 'mcmcloop.py:run_mcmc'), ('proposals', 'mcmcstep.py:sample_moves')],
    observe=['fields, shapes and types of the state', 'proposed moves in deep trees'],
    technique='Type analysis: abstract types of the state before and after each stage of an iteration, as inferred by the JAX front end, for each configuration, compared field by field; vectorisation and scan typing as type checks. '
    + 'For the overflow part, IR value analysis with exact integer ranges. Rule: same fields, shapes and types; node, predictor and cutpoint of a move along extreme branches == their mathematical value.', note=EXT),
dict(
    id='C17', title='Results follow the units of the response and of the predictors',
    statement="""If the response is rescaled by a positive factor and shifted, with any prior parameters the user gives in its units changed likewise, the sampler receives exactly the same data, and predictions, noise standard deviations, offset and scale change by
    the same transformation. If a predictor is rescaled by a positive factor and shifted, its cutpoints follow and all training and test points keep their bins, so the results do not change.""",
    over=['inputs'], quant='all responses, predictors, positive factors and shifts; enumerated numbers of points, predictors, user-given parameters and kinds of grid',
    why='A metamorphic relation over all data and units; the stable tests do not run the interface.',
    mech=[('user interface', 'BART.py:gbart'), ('uniform grid', 'prepcovars.py:uniform_splits_from_matrix'), ('quantile grid', 'prepcovars.py:quantilized_splits_from_matrix')],
    observe=['predictions', 'sigma', 'bins'],
    technique=IR + 'Relational rule: normal forms of the outputs and of the arguments of the sampler for transformed symbolic inputs == transformed normal forms for the original inputs.', note=EXT),
dict(
    id='C20', title='Every documented configuration works and gives the documented outputs',
    statement="""Fitting and predicting work for any numbers of points (0, 1 or more), predictors, trees, levels, cutpoints, samples, burn-in and thinning, for any real or integer input types, with or without test points, seed as integer or key, with any option of the
    sampler, and with 64-bit types enabled. The attributes are exactly the documented ones, with the documented shapes, and samples have at least single precision.""",
    over=['configurations'], quant='all data; about 70 configurations (several hundred in the thorough tier) chosen at the boundaries of each argument',
    why='The space of configurations is large and errors appear at its boundaries; the stable tests do not run the interface.',
    mech=[('user interface', 'BART.py:gbart'), ('initialization', 'mcmcstep.py:init'), ('loop', 'mcmcloop.py:run_mcmc')],
    observe=['attributes of the fitted object', 'predict'],
    technique='Type checking of the whole interface by the JAX front end with abstract data for each configuration; rule: lowering succeeds, and names, shapes and types of the outputs are the documented ones.', note='Decides acceptance, shapes and types, for any data of the given shape and type; values are decided by other properties.'),
dict(
    id='C25', title='Inconsistent inputs are rejected; dataframes mean the arrays they hold',
    statement="""Training data whose predictors and response differ in number of points or have the wrong number of axes are rejected with an error, and so are test points whose number of predictors, format (dataframe or array), or names and order of columns
    differ from the training ones. Data in a pandas- or polars-like dataframe and series gives exactly the results of the array with the columns of the frame as rows.""",
    over=['inputs', 'configurations'], quant='all data values; enumerated kinds of inconsistency, at construction and prediction, and kinds of containers',
    why='Accepting inconsistent data gives plausible wrong results by broadcasting; no stable test passes inconsistent inputs.',
    mech=[('user interface', 'BART.py:gbart')],
    observe=['exceptions', 'predictions'],
    technique=IR + 'Rule: lowering of the inconsistent calls stops at an error raised by the sources; outputs and arguments of the sampler for dataframe input == those for arrays.', note=EXT),
dict(
    id='C27', title='Progress reports are truthful and printed when requested',
    statement="""The user interface prints a report after every `printevery`-th iteration of the run, counted from the start of burn-in and including the iterations that are not saved, and at no other iteration. The report states the number of iterations done and the
    total number of iterations of the run, the fractions of trees for which growing and pruning were proposed at that iteration, the fractions of those proposals that were accepted, and whether the iteration belongs to burn-in.""",
    over=['histories', 'configurations'], quant='all states of the sampler; lengths of the phases, thinning and reporting periods around their boundaries',
    why='The stable tests never run the sampler nor look at its log; swapped or misnormalised rates look plausible.',
    mech=[('report', 'mcmcloop.py:make_simple_print_callback'), ('printing', 'mcmcloop.py:_simple_print_callback'), ('use', 'BART.py:gbart')],
    observe=['standard output'],
    technique=IR + 'The call back to the host is an opaque call in the IR; the host function is decided by abstract interpretation of its syntax tree (texts are sequences of literals and rendered value numbers). Rule: condition of printing, and value after each label.', note=EXT),
dict(
    id='C28', title='Summaries of a fit agree with the samples they summarise',
    statement="""The acceptance, proposal and move rates summarised from a fit are ratios of the total counts over all saved samples; the conditional and prior noise scales are the square root of scale over shape of the respective inverse gamma distribution, in the units of the response. The residual comparison returns the residuals kept by
    the sampler and those recomputed from its final trees. The depth and leaf size distributions and the tree errors cover each saved sample and tree, and a tree goes bad at a sample if it has errors there but not at the previous sample.""",
    over=['inputs', 'configurations'], quant='all states and traces; enumerated numbers of points, samples, trees and levels',
    why='These summaries exist to reveal errors of the sampler and are not run by stable tests; averages of ratios or shifted samples look plausible.',
    mech=[('rates', 'BART.py:_avg_acc'), ('rates', 'BART.py:_avg_prop'), ('noise', 'BART.py:_sigma_harmonic_mean'), ('residuals', 'BART.py:_compare_resid'), ('errors', 'BART.py:_tree_goes_bad')],
    observe=['outputs of the summaries'],
    technique=IR + 'The sampler is an opaque call; rule: each summary == its definition on the outputs of the sampler.', note=EXT),
dict(
    id='C32', title='Printed trees show the tree',
    statement="""Printing a tree writes one line per node, each before the lines of its left and then of its right subtree: by default the nodes of the tree, on request all the nodes with room in its arrays, labelled as decision nodes, leaves or unused. Each line has the index of the node, the predictor and then the
    cutpoint of a decision node or the value of a leaf, and no value of another node. The drawing indents nodes by their depth, its vertical lines continue exactly down to the next child, and leaves of the last level are drawn differently from the others. The printed tree of a fit is the requested tree of the requested saved sample.""",
    over=['inputs', 'configurations'], quant='all values of leaves, predictors and cutpoints; all tree shapes up to 3 levels, shapes of 4 and 5 levels, branches to 10 levels, stray decision nodes below leaves',
    why='It is how one looks at a fitted tree, and no test runs it; exchanged branches or values of the wrong node look plausible.',
    mech=[('printing', 'debug.py:print_tree'), ('interface', 'BART.py:_show_tree')],
    observe=['standard output'],
    technique='Abstract interpretation of the syntax tree of the host functions that print: arrays are value numbers, texts are sequences of literals and rendered value numbers. Rule: sequence of nodes, values rendered on the line of each, columns and box drawing characters as a function of the position in the tree.', note=EXT),
dict(
    id='C29', title='Rounding errors stay negligible',
    statement="""In single precision, the log acceptance ratios, leaf means and residuals differ from their exact values by relative errors that do not grow with the number of iterations, for responses of any scale.""",
    over=['inputs', 'histories'], quant='all data and lengths of the run', why='Errors accumulate over long runs.',
    mech=[('residual update', 'mcmcstep.py:accept_move_and_sample_leaves')],
    na="""The rules are over the reals. A sound static bound of the rounding error needs ranges of the data and a number of iterations which nothing in the code bounds, and the drift of the residuals is a random walk that no static argument in reach bounds usefully."""),
dict(
    id='C30', title='The chain converges to the posterior in practical time',
    statement="""After the default burn-in the samples are from the posterior distribution to within Monte Carlo error, in agreement with other implementations of BART.""",
    over=['histories'], quant='all data and seeds', why='Statistical statement on long runs.',
    mech=[('loop', 'mcmcloop.py:run_mcmc')],
    na="""Asymptotic behaviour of a Markov chain, relative to an external program: not a property of the text or IR of this code. The exactness of each transition, from which invariance of the posterior follows, is decided by C07 to C13, C22 and C26."""),
dict(
    id='C31', title='Memory and time stay within the documented envelope',
    statement="""The sampler runs in time linear in the number of points and trees, batch sizes keep temporary memory below the target on any device, and a run is compiled once per configuration.""",
    over=['configurations', 'schedules'], quant='all data sizes and devices', why='Needs large data and accelerators.',
    mech=[('batch sizes', 'mcmcstep.py:_choose_suffstat_batch_size'), ('batching', 'jaxext.py:autobatch')],
    na="""Decided by code generation and buffer assignment in the XLA compiler, below the IR that is analysed. The part that is arithmetic on sizes is decided by C18."""),
]
