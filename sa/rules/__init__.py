"""property id -> (rule functions, what is decided, minimum number of obligations)"""
TABLE = {
    'P01': ('sums.unit_mass model.mass', 'with every child (leaf) value set to log 1 the derived value of every sum layer and of every root of the assembled circuit must normalise to 0', 1),
    'P02': ('sums.decomposable model.mass', 'every input feature of a layer / every variable of the assembled circuit must have coefficient exactly one in the derived value', 1),
    'P03': ('sums.duality_free model.routing', 'expected leaf weight along the derived sampling route vs. the derived forward value with the same weights as likelihoods', 1),
    'P04': ('sums.duality_evidence model.post', 'as P03, with evidence: route law vs. derivative of the evidence likelihood, per layer and for the assembled circuit', 1),
    'P05': ('sums.diff_agree model.model_agree', 'derived one-hot selection vs. derived index selection, law by law and choice by choice', 1),
    'P06': ('sums.mpe model.model_mpe', 'argmax operand of every selection vs. the forward weights; no draw may reach a most probable explanation', 1),
    'P07': ('infer.pure_inference', 'effects (stores into the caller\'s storage, parameters, buffers, random draws, gradient mode) of evaluation-mode inference on every path; repeated evaluation gives the same term', 1),
    'P09': ('infer.evidence', 'per element: value of the completed sample at observed and at missing positions, storage identity and writes into the evidence', 1),
    'P10': ('infer.cleanup', 'a fault injected at every repository call site reached while sampling: caches, gradient mode and random state after the exceptional exit equal the state of an untouched model', 1),
    'P11': ('infer.seeds', 'random-state typestate: with a seed every draw is a function of it and the caller\'s generator state is restored; without one nothing is seeded', 1),
    'P08': ('whole.leaf_cache', 'a history of cached, uncached and reset evaluations; each value against the uncached evaluation of the same data', 1),
    'P12': ('whole.gradients', 'per trainable parameter: gradient dependence of log-likelihood, differentiable sample, differentiable completion; none for index-based sampling', 1),
    'P13': ('whole.saved_state', 'second model of the same configuration with the first one\'s state loaded: forward, sample, completion compared symbolically', 1),
    'P17': ('whole.marginal', 'leaf values at missing/observed elements, and the circuit above the leaves as a function of the leaf values, vs. complete data', 1),
    'P21': ('whole.class_posterior', 'derived posterior vs. Bayes\' rule', 1),
    'P33': ('whole.rows', 'batch-index dependence of each derived result row', 1),
    'P18': ('leaves.domains', 'range of every distribution parameter, sample and mode by interval analysis; refuted only by a witness valuation', 1),
    'P19': ('leaves.laws', 'distribution read off the derived sample vs. derived log density, tempered sample and modes', 1),
    'P28': ('leaves.multi', 'per variable: family, parameters, input, draws; rejected scope lists', 1),
    'P14': ('config.values config.types', 'accepting paths of the validation summed to a condition on value and bounds, compared with lower <= value < upper; type matrix', 1),
    'P15': ('config.rejected config.usable', 'every accepted configuration analysed from construction to results; every invalid one must reach a raise', 1),
    'P24': ('config.dropout config.dropout_models', 'training-mode value as a function of the mask vs. evaluation-mode value with removed children; acceptance condition of the mask at one sum node', 1),
    'P20': ('families.mixture', 'per row: value, component, options and completion against the cluster assignment; per outcome of the component draws: counts, rows, options; fitted weights', 1),
    'P25': ('families.conv families.conv_state families.sumconv', 'mass, scopes, route law vs. forward/posterior weights, mpe choices, evidence completion, effects, faults and marginalisation of the convolutional circuit', 1),
    'P22': ('bits.levels bits.supports bits.bpd', 'derived pixel value vs. top bits of the level, its interval, and the support of the leaf configured for it', 1),
    'P23': ('datasets.catalogue datasets.loaders', 'per data set: provenance of the rows and labels of the three splits, split lengths, seeds, transforms and learned scalings; loaders and sampler', 1),
    'P26': ('trainer.losses trainer.construction', 'derived losses, accuracies and logged values vs. their definitions for an opaque circuit; options received by the constructed model', 1),
    'P30': ('pwl.densities', 'derived log density at symbolic points vs. the histogram; law of samples and modes', 1),
    'P27': ('logspace.magnitudes', 'shift invariance of the operand of every exponential; flow of exponentials that are not invariant into results', 1),
    'P29': ('place.devices', 'device of every operand combined and of every result', 1),
}
