"""the catalogue of properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)"""
AI = 'abstract interpretation of the syntax tree with a value-number domain (trace-partitioned, symbolic sizes), equalities decided by normal form'
S = 'simple_einet/'
SUMF = [S + 'layers/linsum.py', S + 'layers/einsum.py', S + 'layers/sum.py', S + 'layers/mixing.py', S + 'abstract_layers.py']
EINF = [S + 'einet.py', S + 'layers/factorized_leaf.py', S + 'layers/product.py']
LEAFF = [S + 'layers/distributions/' + n + '.py' for n in
         ('abstract_leaf', 'normal', 'bernoulli', 'binomial', 'categorical', 'multivariate_normal', 'multidistribution', 'piecewise_linear', 'mixture')]
SAMF = [S + 'sampling_utils.py']

PROPS = [
    dict(id='P01', title='Every sum node is a convex combination: total probability mass is one',
         statement='Each sum node combines its children with non-negative weights that add up to one in log space, so a circuit whose inputs all '
                   'integrate to one integrates to one. The output of every sum layer has one entry per sample, merged scope, output sum and repetition.',
         over=['configurations', 'inputs'], quant='all parameter values, all batch sizes, feature counts, sum/leaf/repetition/class counts',
         why='The tests draw a few random layers and check output shapes only; normalisation must hold for every parameter value and size.',
         files=SUMF + EINF, mech=[('weight normalisation', 'forward() of every sum layer, Einet.forward, mixing layer')],
         technique=AI, note='Exact over reals for all sizes in each symbolic context (feature parity, singleton axes); configuration depth enumerated.'),
    dict(id='P02', title='Products decompose: every input variable enters a root value exactly once',
         statement='For every number of features, each input variable contributes exactly once to the value of every root, whichever layer type, '
                   'depth, random feature permutation and padding is used.',
         over=['configurations', 'inputs'], quant='all feature counts (even/odd and every residue), depths, repetitions, permutations',
         why='Tests use powers of two and one seed; a variable that is dropped or counted twice by padding or permutation still gives plausible values.',
         files=SUMF + EINF, mech=[('pairing and padding of scopes', 'sum/product layers forward()'), ('leaf-to-scope grouping', 'FactorizedLeaf*')],
         technique=AI, note='Permutation and sizes symbolic; depth 0-2 (top-down) and 1-2 (bottom-up) enumerated.'),
    dict(id='P03', title='Unconditional sampling draws from the distribution the forward pass defines',
         statement='Without evidence, the probability that sampling reaches a given combination of leaves equals that combination\'s weight in the '
                   'forward pass, for every layer type, repetition count and temperature; with several classes the class is drawn from the uniform prior.',
         over=['configurations', 'inputs'], quant='all parameter values, sizes, layer types, both sampling modes, all temperatures',
         why='Tests check only the shape of samples; agreement of the sampling distribution with the density is a law over all parameters.',
         files=SUMF + EINF + SAMF, mech=[('top-down index sampling', 'sample() of every layer, Einet.sample'), ('leaf parameter gathering', 'AbstractLeaf.sample, FactorizedLeaf*.sample')],
         technique=AI + '; sampling law derived by symbolic expectation over the categorical draws', note='Law equality decided for every parameter value; depth enumerated.'),
    dict(id='P04', title='Conditional sampling draws from the exact posterior given the evidence',
         statement='With evidence, every sum node reached by sampling chooses each child with its posterior probability, i.e. prior weight times the '
                   'child\'s likelihood of that sample\'s own evidence divided by the node value. This holds for every layer, for repetitions and for the class variable.',
         over=['configurations', 'inputs'], quant='all parameter and evidence values, sizes, layer types, both sampling modes, all temperatures',
         why='Tests check shapes only; an off-by-one in cached inputs still returns plausible samples.',
         files=SUMF + EINF + SAMF, mech=[('input caches and posterior weights', 'sum layers _condition_weights_on_evidence/sample, Einet.sample')],
         technique=AI + '; sampling law derived by symbolic expectation over the categorical draws', note='Law equality decided for every parameter and evidence value; sum layers with symbolic sizes.'),
    dict(id='P05', title='Differentiable and index-based sampling agree',
         statement='Differentiable sampling follows the same law as index-based sampling at every layer: the same children are selected with the same '
                   'probabilities (and the same ones for most probable explanations), for every size.',
         over=['configurations', 'inputs'], quant='all parameter values, sizes, layer types',
         why='The two paths share no code; tests only run each of them for shape.',
         files=SUMF + EINF + SAMF, mech=[('one-hot vs. index routing', 'sample() of every layer, index_one_hot, sample_categorical_differentiably')],
         technique=AI, note='Distribution of each selected child compared in normal form for all sizes.'),
    dict(id='P06', title='MPE selects the maximal-weight child, deterministically',
         statement='In most-probable-explanation mode no random number influences any selected child, and each sum node picks a child that maximises '
                   'the same (evidence-conditioned) weight that sampling would draw from.',
         over=['configurations', 'inputs'], quant='all parameter and evidence values, sizes, layer types, both sampling modes',
         why='Needs all parameter values; tests check only shapes.',
         files=SUMF + EINF + SAMF, mech=[('argmax selection', 'sample() of every sum layer with is_mpe')],
         technique=AI, note='Argmax operand compared with the forward weight in normal form; draws forbidden in the result by provenance.'),
    dict(id='P07', title='Inference is a pure, repeatable function of its input',
         statement='Evaluating a trained model (log-likelihoods, complete or partially marginalised input) changes neither the caller\'s tensor nor any '
                   'parameter or buffer of the model, draws no random number, leaves the gradient mode alone and gives the same value when repeated.',
         over=['inputs', 'configurations', 'histories'], quant='all inputs incl. NaN entries, leaf types, structures, layer types, class counts',
         why='Tests look at one output; a write into the caller\'s data or a leftover state shows only in a later, different call.',
         files=EINF + LEAFF + SUMF, mech=[('marginalisation writes', 'AbstractLeaf._marginalize_input, Einet.forward')],
         technique='effect analysis (writes by storage provenance, random draws, gradient mode) over ' + AI, note='All paths of every context; sizes symbolic.'),
    dict(id='P09', title='Conditional sampling keeps the evidence and fills exactly the missing entries',
         statement='A conditional sample or MPE completion equals the evidence at every observed position and is newly generated at every missing position '
                   '(NaN, or the marginalised scopes); it has the shape of the evidence, never NaN at a filled entry, and the caller\'s evidence tensor is not modified or shared.',
         over=['inputs', 'configurations'], quant='all evidence tensors (2-d, 3-d), missing patterns, leaf types, structures, both sampling modes, MPE',
         why='Tests check shapes and a few entries; every position and every missing pattern must be right.',
         files=EINF + SAMF + LEAFF, mech=[('evidence fill-in', 'Einet.sample'), ('missing-value handling', 'AbstractLeaf._marginalize_input')],
         technique=AI + '; effects by storage provenance', note='Result derived per element position under the case split observed / missing.'),
    dict(id='P10', title='Sampling leaves no state behind, also when it fails',
         statement='After sampling or MPE returns or raises at any point, the model\'s input caches are off and empty, gradient mode and random-generator state '
                   'are as before, and later forward or sample calls behave as if the call had never happened.',
         over=['histories', 'faults'], quant='every exception point inside the call, all structures, layer types, with and without evidence and seeds',
         why='Needs a failure at an arbitrary point inside the call followed by another call; tests have no such history.',
         files=SAMF + EINF + SUMF, mech=[('context manager for caches, gradient mode, seed', 'sampling_utils.sampling_context')],
         technique='typestate over all normal and exceptional exits (fault injected at every call site reached) on top of ' + AI,
         note='Every repository function reached by the call is an injection point, first and last invocation.'),
    dict(id='P11', title='A seed determines the samples and does not disturb the caller\'s generator',
         statement='With a seed given, sampling draws depend on nothing but the seed and the arguments, and the caller\'s random-number stream is exactly where it was; '
                   'without a seed sampling consumes the caller\'s stream and seeds nothing.',
         over=['histories', 'inputs'], quant='all seeds incl. 0, all configurations, both sampling modes, evidence or not',
         why='A leaked or ignored seed changes only statistical independence of later draws; tests cannot see it.',
         files=SAMF + EINF, mech=[('seed handling', 'sampling_utils.sampling_context, Einet.sample')],
         technique='typestate of the random generator (save, seed, draw, restore) on every path of ' + AI, note='Draw sites and generator-state transitions enumerated on all paths.'),
    dict(id='P08', title='Cached leaf evaluations are indistinguishable from uncached ones',
         statement='Evaluating with a cache index returns, for every call after the first with that index, the same value as evaluating the same data without one; different '
                   'indices never mix, evaluations without an index ignore the cache, and after reset_cache new data under a used index is evaluated afresh.',
         over=['histories', 'inputs', 'configurations'], quant='call sequences over two data sets and two cache indices, all parameter values, structures, leaf types',
         why='Tests evaluate once; stale or shared cache entries need a sequence of calls, and a tensor written in place after it was cached only shows on the next hit.',
         files=EINF + LEAFF, mech=[('leaf cache', 'Einet.forward cache_index, Einet.reset_cache')],
         technique=AI + '; storage aliasing tracked', note='One history of eight calls covering hit, miss, interleaving, reset; values compared symbolically.'),
    dict(id='P12', title='Every trainable parameter receives a gradient from what it influences, and index sampling records none',
         statement='The log-likelihood and the differentiable sample depend differentiably on every trainable parameter that takes part in the model, in every structure '
                   'and for every leaf with a reparametrised sampler; index-based sampling records no gradient graph.',
         over=['configurations'], quant='every parameter of every module, structures, layer types, leaf types, class counts',
         why='A detach, an in-place index or a no-grad block leaves all values right and only stops learning; tests check that some gradient exists.',
         files=EINF + SUMF + LEAFF + SAMF, mech=[('gradient flow through the forward pass', 'Einet.forward'), ('straight-through sampling', 'sampling_utils, Einet.sample')],
         technique='gradient-dependence dataflow (per parameter, through every tensor operation, no_grad/detach/argmax kill) over ' + AI,
         note='Existence of a differentiable dependence is decided, not its numeric size.'),
    dict(id='P13', title='A model restored from its state dict is the same model',
         statement='Two models built from the same configuration agree in every later forward pass, sample and conditional sample (same random draws) once the parameters and '
                   'buffers of one are loaded into the other; neither anything random nor anything fitted to data that influences results is kept outside the saved state.',
         over=['configurations', 'histories'], quant='all parameter values, random structures (permutations, random scope assignment), leaf types',
         why='A random permutation kept as a plain attribute is equal under the seed used in tests and different after a restart.',
         files=EINF + SUMF + LEAFF, mech=[('registered buffers and parameters', '__init__ of every module')],
         technique='provenance analysis (values not reaching state_dict) over ' + AI, note='Every value drawn during construction is distinct in the two models, so any unsaved influence differs symbolically. Known finding: the tables of a fitted PiecewiseLinear leaf are not saved.'),
    dict(id='P17', title='Marginalised variables are integrated out exactly',
         statement='For NaN entries and for marginalised scopes (list or tensor), the likelihood is the one of the remaining variables: exactly the factors of the missing '
                   'variables are replaced by one (log 0), per sample, and the value is log 1 when everything is marginalised.',
         over=['inputs', 'configurations'], quant='all missing patterns per row, all data values, leaf types, structures',
         why='Tests check one pattern; a mask applied to the wrong axis, batch-wide masks or a partly marginalised variable still give finite values.',
         files=EINF + LEAFF, mech=[('missing-value handling', 'AbstractLeaf.forward, AbstractLeaf._marginalize_input'), ('scope forwarding', 'Einet.forward, FactorizedLeaf*.forward')],
         technique=AI, note='Leaf values per element under the case split observed/missing, plus the function above the leaf layer compared with the one for complete data. Leaves of cardinality > 1: only the all-marginalised query.'),
    dict(id='P21', title='The class posterior is Bayes\' rule with a uniform prior',
         statement='posterior(x) returns, for every input and number of classes, the log of p(x|c) divided by the sum over all classes of p(x|c); one row per sample, one entry per class.',
         over=['inputs', 'configurations'], quant='all parameter values and inputs, class counts 2 and 3, structures, layer types',
         why='Tests check the shape; normalising over the batch instead of the classes is right for batch size one.',
         files=['simple_einet/einet.py'], mech=[('posterior', 'Einet.posterior')], technique=AI, note='Identity in normal form.'),
    dict(id='P33', title='Rows of a batch do not influence each other',
         statement='The likelihood of a row, and its conditional sample or completion, depend on that row of the input only (and, for samples, on random draws of its own), '
                   'whatever else is in the batch, including rows with missing values.',
         over=['inputs'], quant='all batches and missing patterns, structures, layer types, leaf types, both sampling modes',
         why='Batch-wide conditions (any NaN anywhere) and wrong broadcasting give plausible results for the row the test looks at.',
         files=EINF + SUMF + LEAFF + SAMF, mech=[('batch axis', 'forward/sample of every module')],
         technique='dependence analysis on batch indices over ' + AI, note='Every element of the derived row value mentions its own row index only.'),
    dict(id='P18',
         title='Leaf parameters are valid for every value of the trainable tensors, and modes stay inside the support',
         statement='Whatever values training gives the raw parameters, the distributions they stand for are valid: standard deviations are positive and within the configured bounds, means within theirs, probabilities within [0, 1], the Cholesky factor lower triangular with positive diagonal. Samples and most probable values lie in the support of the leaf; bounds that cannot be respected are rejected when the leaf is built.',
         over=['inputs', 'configurations'],
         quant='all raw parameter values incl. saturated logits, all accepted constructor bounds, sizes, both sampling modes',
         why='Tests look at freshly initialised parameters; invalid values appear only after training has pushed a logit far out or for unusual bounds (zero, one-sided).',
         files=LEAFF,
         mech=[('parameter projections', 'RatNormal._project_params, Binomial/Bernoulli._get_base_distribution, MultivariateNormal.scale_tril'), ('modes', 'dist_mode')],
         technique='interval analysis of the derived parameter terms (sigmoid closed, exp open) over abstract interpretation of the syntax tree',
         note='Real arithmetic except that sigmoid may saturate to 0 or 1.'),
    dict(id='P19',
         title="A leaf's density, samples and most probable values belong to one and the same distribution",
         statement="For every leaf type the log-likelihood is the log-density (or log-mass) of exactly the distribution its samples are drawn from, at the position chosen by the parents; every sample, channel and variable gets its own random draw; a most probable value is the mode of that distribution and involves no randomness; the leaf temperature scales a normal's variance (divides categorical logits) and 1 is neutral.",
         over=['inputs', 'configurations'],
         quant='all parameter values, all sizes, leaf types and leaf options, both sampling modes, temperatures',
         why='Density and sampler are separate code paths; tests check only shapes and a few statistical moments.',
         files=LEAFF,
         mech=[('log density', 'AbstractLeaf.forward, dist_forward, log_prob of the custom distributions'), ('sampling and modes', 'dist_sample, dist_mode, CustomNormal, DifferentiableBinomial, CustomMultivariateNormalDist')],
         technique=AI + '; sampling law read off the derived sample term and compared with the derived density',
         note='Library densities (torch.distributions) are trusted; DifferentiableBinomial is compared with its documented normal approximation. PiecewiseLinear: see P30.'),
    dict(id='P28',
         title='A multi-distribution leaf uses for each variable the distribution assigned to it, in the original variable order',
         statement='A MultiDistributionLayer evaluates, marginalises, samples and completes variable d with exactly the distribution whose scope list contains d, with parameters and random draws of its own, whatever the order of the scope lists; scope lists that do not cover every variable exactly once are rejected.',
         over=['configurations', 'inputs'],
         quant='scope orders (sorted, permuted, mixed sizes), leaf families, all parameter values, both sampling modes',
         why='Tests use sorted scopes, where a missing or inverted permutation does nothing.',
         files=['simple_einet/layers/distributions/multidistribution.py', 'simple_einet/layers/distributions/abstract_leaf.py', 'simple_einet/utils.py'],
         mech=[('scope permutation', 'MultiDistributionLayer.__init__/forward/sample')],
         technique=AI,
         note='Five scope assignments over four variables; sizes otherwise symbolic.'),
    dict(id='P14',
         title='Validation accepts a value exactly when it has the expected type and lies in [lower, upper)',
         statement='check_valid returns the value unchanged when its type matches the expected one (python, numpy or torch integer/float) and lower <= value < upper for whichever bounds are given - including bounds equal to zero - and raises otherwise: OutOfBoundsException outside the bounds, an exception for a wrong or unsupported type (booleans, strings, lists). None passes only when it is explicitly allowed, and then stays None.',
         over=['inputs'],
         quant='all values and bounds (symbolic), each combination of absent, zero and non-zero bounds, python and torch types',
         why='Every constructor relies on it with different bounds; tests sample a few values and miss zero bounds and the boundary values.',
         files=['simple_einet/type_checks.py'],
         mech=[('validation', 'check_valid, _check_bounds, _check_type*')],
         technique=AI,
         note='numpy scalars are modelled as python numbers.'),
    dict(id='P15',
         title='Every valid configuration builds a model that runs; every invalid one is refused when the model is built',
         statement='EinetConfig.assert_valid accepts exactly the supported configurations (sizes of at least one, at least two features, 0 <= dropout < 1, 2**depth <= features / leaf cardinality, known layer type and structure, bottom-up only with linsum layers and univariate leaves, a leaf class). For every accepted one the model can be built, and forward, posterior, sample and mpe (index-based and differentiable) run and return the documented shapes; every other one raises when the Einet is built.',
         over=['configurations', 'inputs'],
         quant='structures, layer types, depths 0-2, all leaf types, one or several repetitions/classes/channels, one or several sums/leaves, symbolic feature counts; a matrix of invalid settings; depth against concrete feature counts and cardinalities',
         why='Tests build a few fixed sizes; corner cases (depth 0, a single sum, a single repetition, odd feature counts, unusual leaf) are combinations nobody runs.',
         files=EINF + SUMF,
         mech=[('validation', 'EinetConfig.assert_valid'), ('construction', 'Einet._build_structure_top_down/_bottom_up')],
         technique=AI,
         note='Depth bounded by 2; features multiples of 4 plus every residue for bottom-up.'),
    dict(id='P24',
         title='Dropout removes children of sum nodes during training only, never all children of a node, and changes nothing else',
         statement="With dropout p, in training mode every sum layer (linsum, linsum2, einsum, sum, mixing) removes each child of a sum node independently with probability p: the result equals the evaluation-mode result with the removed children at probability zero. No mask that removes all children of one sum node is ever used, and a mask removing one of several children can be; the caller's tensor is not written. In evaluation mode or with p = 0 nothing is drawn and nothing changes. EinetConfig.dropout reaches every intermediate layer of the model.",
         over=['inputs', 'configurations', 'schedules'],
         quant='all inputs, parameters, sizes and masks (symbolic), all layer types, even and odd feature counts, one or two repetitions; models of depth 0-2',
         why='Tests run with dropout 0 or only check that nothing crashes; a guard over the wrong axis or an inactive mask goes unnoticed in random runs.',
         files=['simple_einet/abstract_layers.py', 'simple_einet/layers/sum.py', 'simple_einet/layers/linsum.py', 'simple_einet/layers/einsum.py', 'simple_einet/layers/mixing.py', 'simple_einet/einet.py'],
         mech=[('mask', 'AbstractSumLayer._sample_log_dropout, MixingLayer.forward'), ('use', 'forward of the sum layers'), ('wiring', 'Einet._build_structure_*')],
         technique=AI,
         note='The resampling loop is analysed for its first two rounds and its exit condition.'),
    dict(id='P20',
         title='A mixture of circuits treats every row and every draw by the right component and hands every option on',
         statement="mixture.Mixture: each row of a forward pass gets the value of the circuit whose centroid is nearest over the observed, non-marginalised variables, in the original row order, whatever the other rows are; sampling and mpe with evidence complete each row by that circuit; marginalised scopes, seed, temperatures, mpe_at_leaves and the other options reach the circuits. Sampling without evidence draws components from the mixture weights, asks each for exactly as many samples as it was drawn, and returns every sample once; with a seed the component draw is a function of it and the random state is restored. Initialisation makes the weights the relative cluster sizes, one per circuit (also for empty clusters), and keeps the centroids. Results have one row per requested sample and the caller's tensors are not written.",
         over=['inputs', 'configurations', 'histories'],
         quant='1-3 components, every assignment of up to three rows to components, every outcome of the component draws for up to three samples, symbolic circuits, data and centroids, one or two channels and classes',
         why='The existing tests cannot build a mixture (the clustering package is absent), and row order or per-component options only go wrong for particular assignments of rows to clusters.',
         files=['simple_einet/mixture.py', 'simple_einet/einet.py'],
         mech=[('routing of rows', 'Mixture._predict_cluster, forward'), ('sampling', 'Mixture.sample, sample_differentiable, mpe'), ('fit', 'Mixture.initialize')],
         technique=AI,
         note='The external k-means and the component circuits are uninterpreted functions; sampling without evidence is analysed per outcome of the component draws. Class lists over several components are not covered.'),
    dict(id='P25',
         title='Convolutional circuits: normalised, decomposable, sampled by their own law, with evidence kept and state restored',
         statement="ConvPc, bottom-up and top-down, sum-before-product or product-before-sum: with every leaf integrated out the value is 1, every pixel enters exactly once, marginalised or missing pixels contribute a factor of one and rows do not influence each other. Sampling follows the forward weights (with evidence: the posterior given it), mpe takes the arg max of the forward weights; every pixel is drawn from the leaf its route selects. sample/mpe with evidence keep every observed entry, fill every missing or marginalised one, leave the caller's tensors, the parameters, caches, gradient mode and (with a seed) random state as they were, also after a failure at any call.",
         over=['inputs', 'configurations', 'histories', 'faults'],
         quant='all parameters, data and random outcomes (symbolic) for images of 1x2 to 4x4 and depth 1-2 (thorough: to depth 3 and 8x4), five leaf types, each order and structure, a fault at each repository call site',
         why='The existing tests only sample shapes of unconditional draws; normalisation over the wrong axis or a wrong pixel order produces plausible images.',
         files=['simple_einet/conv_pc.py'],
         mech=[('layers', 'SumConv, ProdConv forward/sample'), ('model', 'ConvPc.forward, sample, mpe'), ('evidence', 'conv_pc.sampling_context')],
         technique=AI,
         note='Square product kernels that divide the image, as the model constructors require.'),
    dict(id='P22',
         title='n-bit data preparation and the leaves configured for it cover exactly the levels 0..2^n-1',
         statement='For every n in 1..8 and every 8-bit image scaled to [0, 1], utils.preprocess yields the top n bits of every pixel: integers 0..2^n-1 for discrete leaves, level/2^n - 1/2 for continuous ones, plus - only when dequantising - independent uniform noise of one bin per pixel, so that values stay in [-1/2, 1/2]; the image passed in is not written. dist.get_distribution maps every distribution name to its leaf class, binomial and categorical leaves have exactly the support 0..2^n-1, and configured sigma range and cardinality reach the leaf; get_data_type_from_dist calls exactly those two discrete and refuses unknown names; Domain constructors hold exactly the values they are given. calc_bpd is the mean negative log2 probability of the levels per pixel value, with the bin width accounted for exactly for continuous models.',
         over=['inputs', 'configurations'],
         quant='every pixel level (symbolic), n = 1..8, images of any size, discrete and continuous, with and without dequantisation; all six distribution names',
         why='No test touches this code; an off-by-one in the support crashes or silently drops the brightest level only for images that contain it.',
         files=['simple_einet/utils.py', 'simple_einet/dist.py'],
         mech=[('levels', 'reduce_bits, dequantize_image, preprocess'), ('leaf choice', 'get_distribution, get_data_type_from_dist, Domain'), ('bits per dimension', 'calc_bpd')],
         technique='interval analysis and normal-form equality of the derived pixel terms',
         note='Real arithmetic: float rounding of level/255*255 is not modelled.'),
    dict(id='P23',
         title='Every catalogued data set loads into disjoint, reproducible, correctly labelled splits of the catalogued shape',
         statement='For every data set name: get_data_shape, get_data_num_classes, is_1d_data, is_classification_data and get_datasets agree; the training, validation and test sets share no row (except the placeholder "fake"), test rows come from the official test part where there is one, split lengths sum to the number of rows for every size, and splits and synthetic draws are seeded. Every row keeps its own label and has the catalogued shape; images are resized to it and normalised (per channel, to [-1, 1]) exactly when asked; scaling and PCA are learned from training rows only and applied alike to all splits. build_dataloader serves each split through its own loader, shuffles (or endlessly resamples with the given seed) only training rows and drops none; TrainingSampler yields one permutation of all rows after another, determined by its seed, without touching the global random state.',
         over=['inputs', 'configurations', 'schedules'],
         quant='all 49 catalogued names, normalised or not, with symbolic row contents and source sizes; sampler sizes 1-5 and both modes',
         why='No test touches this code (it needs downloads); leakage between splits or shuffled labels produce plausible results.',
         files=['simple_einet/data.py'],
         mech=[('catalogue', 'get_data_shape, get_data_num_classes, is_1d_data, is_classification_data'), ('splits', 'get_datasets, generate_data, load_debd'), ('loaders', 'build_dataloader, _make_loader, TrainingSampler')],
         technique='provenance (taint) analysis of rows, labels and learned scalings through get_datasets, with the external loaders as opaque row sources',
         note='The external libraries behave as documented; downloads and the contents of the files are not analysed.'),
    dict(id='P26',
         title='The trainer builds the configured model and optimises and reports the right figures',
         statement='make_einet and make_convpc hand every configured size and option (pixels, channels, classes, depth, sums, leaves, repetitions, dropout, layer type, structure, leaf family with its arguments, mixture components) on to the model and return it. SpnGenerative: the training, validation and test loss is the mean (or sum) negative log-likelihood of the preprocessed batch, an unknown reduction or model is refused, generated images are samples of the circuit in the image shape. SpnDiscriminative: the loss is the mean negative log posterior of the labels, the accuracy the share of rows whose most probable class is the label. Logged figures are those values, named after the step and data set they were computed on. preprocess leaves the batch alone, passes continuous data on unchanged and maps discrete data from [0, 1] onto the levels 0..2^n_bits-1 of the leaves. The optimiser gets all parameters and the configured learning rate.',
         over=['inputs', 'configurations'],
         quant='all leaf families, model kinds and steps, symbolic batch size and contents, 1-4 classes, 1/5/8 bits',
         why='No test imports the trainer; a wrong label axis, a batch scaled in place or a dropped option still trains.',
         files=['models_pl.py'],
         mech=[('construction', 'make_einet, make_convpc'), ('losses', 'SpnGenerative, SpnDiscriminative, LitModel.preprocess')],
         technique='abstract interpretation of the trainer with the circuit as an opaque function: derived loss, accuracy and logged terms vs. their definitions',
         note='PyTorch Lightning calls the steps as documented; convergence of training is not analysed.'),
    dict(id='P30',
         title='Piecewise linear leaves fit, evaluate and sample the same normalised density',
         statement='After initialize, each leaf (repetition, leaf, channel, variable) represents the histogram of exactly its own cluster, channel and variable: its density is proportional to the Laplace-smoothed histogram at the bin midpoints (continuous) or levels (discrete), linear between them, vanishes outside the histogram (finite floor of the log density) and has mass one (sum one over the levels of a consecutive integer domain); leaves without data are uniform. Samples follow that density: discrete samples are domain values with the probabilities of the levels, continuous samples reach each segment with its mass in increasing order; every sampled value uses its own draw; the mode has the highest density. Fitting does not modify the data, and an unfitted leaf refuses to answer.',
         over=['inputs', 'configurations'],
         quant='symbolic histogram heights and evaluation points in every segment; shapes up to 3 variables, 2 channels, 3 leaves, 2 repetitions; smoothing 0, 0.5, 1; sampling for concrete histograms',
         why='No test covers this leaf family; a shifted bin or swapped leaf index only shows for particular data.',
         files=['simple_einet/layers/distributions/piecewise_linear.py', 'simple_einet/layers/distributions/abstract_leaf.py'],
         mech=[('fit', 'PiecewiseLinear.initialize'), ('density', 'interp, PiecewiseLinearDist.log_prob'), ('draws', 'PiecewiseLinearDist.sample, PiecewiseLinearDist.mpe')],
         technique='abstract interpretation with opaque histograms and symbolic evaluation points; normal-form proof of proportionality, linearity and unit mass; inverse-CDF and outcome enumeration of the draws',
         note='Clustering, bin edges and torch.histogram are opaque; the law inside a continuous segment is approximated by the code itself and not decided.'),
    dict(id='P27',
         title='Likelihoods are computed in log space and neither underflow nor overflow',
         statement='Log-likelihoods, marginals, posteriors and the selections made while sampling, completing or maximising given evidence are finite for finite leaf log densities of any magnitude: no intermediate value of the scale of a likelihood is formed. Every exponential taken on the way is of a quantity that does not change when the leaf log densities of a row are shifted (normalised weights, differences to a maximum), so adding the same amount to all leaf log densities of a variable shifts log-likelihoods by exactly that amount and leaves posteriors and selections as they are. This holds for every layer type of Einet and for ConvPc.',
         over=['inputs', 'configurations'],
         quant='all leaf log densities and all shifts per row and variable; layer types, structures, class and repetition counts, query modes',
         why='exp/log instead of logsumexp gives the same numbers on the small inputs of the tests and -inf or NaN on images with hundreds of variables.',
         files=EINF + SUMF + ["simple_einet/conv_pc.py"],
         mech=[('stable reductions', 'forward and _condition_weights_on_evidence of EinsumLayer, LinsumLayer, SumLayer, MixingLayer, ConvPc'), ('posterior', 'posterior'), ('SIMPLE / gumbel selections', 'sampling_utils')],
         technique='typestate of magnitudes over abstract interpretation: each exponential reached is tested for invariance under a symbolic shift of the leaf log densities; one that is not invariant and flows into a result is the violation',
         note='Rounding itself is not bounded; differentiable completion of bottom-up models with several repetitions or classes is analysed for fully observed rows only.'),
    dict(id='P29',
         title='A model moved to another device computes, samples and completes there',
         statement='After a model (Einet with every leaf family, ConvPc, Mixture, PiecewiseLinear leaf) and its inputs are moved to a device, every forward pass, posterior, sample, completion and most probable completion runs without combining tensors of two devices, and its result lives on the device of the model. This includes state fitted before the move.',
         over=['configurations', 'histories'],
         quant='leaf families, structures, layer types, sampling modes, with and without evidence and marginalised scopes; symbolic sizes and values',
         why='The tests run on the CPU only, where a forgotten device= argument or a tensor kept outside parameters and buffers cannot be seen.',
         files=EINF + SUMF + LEAFF + ["simple_einet/conv_pc.py", "simple_einet/mixture.py"],
         mech=[('tensor creation', 'device= arguments of zeros/ones/arange/tensor and draws'), ('registered state', 'register_buffer, nn.Parameter')],
         technique='device typestate (effect domain with one abstract device besides the CPU) over abstract interpretation; refuted at the operation that mixes devices or by the device of the result',
         note='CPU tensors of zero dimensions and CPU index tensors are legal operands in torch and accepted. Known finding: fitted PiecewiseLinear tables stay where they were fitted.'),
    dict(id='P16',
         title='Training converges to parameters that fit the data',
         statement='Training with the documented optimiser settings increases the likelihood of the training data, and EM-like or gradient steps do not leave the model with degenerate leaves.',
         over=['inputs', 'histories'],
         quant='data sets, seeds, learning rates',
         why='A statement about optimisation trajectories.',
         files=EINF,
         mech=[('training loop', 'main.py, models_pl.py')],
         technique='-',
         note='-'),
    dict(id='P31',
         title='Floating-point results are within a known error of the exact ones',
         statement='Computed log-likelihoods differ from the exact ones by at most a bound that depends on the depth and the precision.',
         over=['inputs'],
         quant='all parameters and data',
         why='Rounding errors.',
         files=EINF + SUMF,
         mech=[('stable reductions', 'logsumexp, log-einsum-exp')],
         technique='-',
         note='-'),
    dict(id='P32',
         title='Time and memory grow as documented with depth, width and features',
         statement='Forward and sampling cost is linear in batch size, features and repetitions and polynomial in the layer widths.',
         over=['configurations'],
         quant='all sizes',
         why='A performance statement.',
         files=EINF + SUMF,
         mech=[('layer kernels', 'einsum, logsumexp')],
         technique='-',
         note='-'),
]
NA = {
    'P16': 'outcome of an optimisation trajectory on data: no static argument bounds it; what is decidable of training (losses, gradients reaching every parameter entry, optimiser arguments) is P12 and P26',
    'P31': 'needs a rounding-error analysis with data-dependent ranges through torch kernels whose summation order is unspecified; only the absence of under- and overflow by construction is decided (P27)',
    'P32': 'the cost is that of torch kernels and the allocator, outside the analysed source; no static cost model of them is available here',
}
