"""rules on the assembled circuit: leaf cache, gradients, saved state, marginal queries, class posterior, row independence"""
from ..scen import *
from ..equal import compare
from ..terms import BASES
from .model import new_einet, Mz, few, contexts, q, LOADER, EIN, same_shape, probe_leaves
from ..interp import MISSING
from .. import torchmodel as tmod
from .infer import LEAFKW, grid, some_scopes, build, data, modules, tensors_of, changed_tensors, input_writes, fixed_draws


def out_pos(m):
    return [opq('nn', m.N), opq('kk', m.K)]


# ------------------------------------------------------------------ P08 leaf cache
def leaf_cache(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        jobs.append((tier, m, leaf))
    rep.parallel(_leaf_cache, jobs)


def _leaf_cache(rep, tier, m, leaf):
    c = f'{m},leaf={leaf}'

    def run(it):
        net = build(it, m, leaf)
        a, b = data(m, 'xa'), data(m, 'xb')
        plain = [it.call(net, [a], {}), it.call(net, [b], {})]
        got = [it.call(net, [x], dict(cache_index=i)) for x, i in ((a, 0), (b, 1), (a, 0), (b, 1), (a, 0))]
        after = it.call(net, [a], {})
        it.call(it.getattr(net, 'reset_cache'), [], {})
        swapped = it.call(net, [b], dict(cache_index=0))
        return plain, got, after, swapped
    for r in rep.paths('cached', 'Einet.forward', c, explore(LOADER, run)):
        plain, got, after, swapped = r.value
        if not all(isinstance(t, Ten) for t in plain + got + [after, swapped]):
            rep.und('cached', 'Einet.forward', c, 'not analysable')
            continue
        pos = out_pos(m)
        for i, (g, w) in enumerate(zip(got, [0, 1, 0, 1, 0])):
            if rep.cond(same_shape(g, plain[w].shape), 'cached-shape', 'Einet.forward', c, f'cached evaluation has shape {g.shape}'):
                rep.equal('cached', 'Einet.forward', f'{c},call {i}', g.at(pos), plain[w].at(pos), r.facts,
                          'value with cache_index vs. the value without')
        rep.equal('uncached-after-cached', 'Einet.forward', c, after.at(pos), plain[0].at(pos), r.facts,
                  'evaluation without cache_index after cached ones')
        rep.equal('reset-cache', 'Einet.reset_cache', c, swapped.at(pos), plain[1].at(pos), r.facts,
                  'value of new data under a used cache_index after reset_cache')


# ------------------------------------------------------------------ P12 gradient paths
def gradients(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        jobs.append((tier, m, leaf, 'forward'))
        if leaf in ('Normal', 'RatNormal') and (m.K.cint == 1 or tier == 'thorough' or m.structure == 'bottom-up'):
            jobs.append((tier, m, leaf, 'sample'))
            if not (tier == 'quick' and m.K.cint == 3 and m.R.cint == 2):
                jobs.insert(0, (tier, m, leaf, 'evidence'))
        jobs.append((tier, m, leaf, 'index'))
    rep.parallel(_gradients, jobs)
    sizes = [('linsum', 'top-down', 1, 2), ('linsum2', 'top-down', 1, 2), ('einsum', 'top-down', 1, 2), ('linsum', 'bottom-up', 1, 2),
             ('linsum', 'top-down', 1, 4), ('linsum', 'top-down', 2, 4), ('linsum', 'bottom-up', 1, 3)]
    jobs = []
    for layer, s, depth, D in sizes[:None if tier == 'thorough' else 5]:
        for R in (1, 2):
            m = Mz(layer, s, depth, D, R, 1, S=2, I=2)
            jobs += [(m, 'forward', 0, None)] + [(m, 'sample', d, None) for d in range(D)]
            if R == 1 or (depth == 1 and layer != 'einsum' and D == 2 and (layer == 'linsum' or tier == 'thorough')):
                jobs += [(m, 'evidence', d, k) for d in range(D) for k in range(D) if k != d]
    rep.parallel(_entries, jobs)


def _entries(rep, m, mode, d, seen):
    """per parameter entry: whatever influences the value also has a gradient path to it"""
    c = f'{m},{mode},variable {d}' + (f',observed {seen}' if seen is not None else '')
    E = 'Einet.forward' if mode == 'forward' else 'Einet.sample'

    def run(it):
        net = build(it, m, 'Normal')
        it.training = True
        it.track = True
        if mode == 'forward':
            return it.call(net, [data(m)], {})
        kw = dict(is_differentiable=True)
        if mode == 'evidence':
            base('e')
            kw['evidence'] = mk([m.N, m.C, m.D], lambda v: sel(tm.eq0(v[2] - seen), el('e', *v), tm.NAN), store=Storage('input:e'))
        else:
            kw['num_samples'] = py(m.N)
        return it.call(it.getattr(net, 'sample'), [], kw)

    def may_match(p, z):
        for i, j in zip(p.args[1], z.args[1]):
            k = (lift(i) - lift(j))
            if k.cint is not None and k.cint != 0:
                return False
        return True
    for r in rep.paths('gradient', E, c, explore(LOADER, run, training=True)):
        y = r.value
        if not isinstance(y, Ten):
            rep.und('gradient', E, c, f'result {y!r}'[:100])
            continue
        t = y.at([opq('nn', m.N), opq('kk', m.K)] if mode == 'forward' else [opq('nn', m.N), ZERO, lift(d)])
        for flip in (False, True):
            # one concrete feature permutation at a time: observed and missing variables stay apart
            def place(a):
                if a.kind == 'el' and BASES.get(a.args[0], {}).get('perm'):
                    n, i = BASES[a.args[0]]['range'], tm.rebuild(lift(a.args[1][-1]), place)
                    return n - 1 - i if flip else i
                return None
            u = tm.rebuild(t, lambda a: place(a))
            ps = [a for a in tm.all_atoms(u) if a.kind == 'el' and a.args[0].startswith('param')]
            live = [a for a in ps if not a.args[0].endswith('~')]
            bad = [a for a in ps if a.args[0].endswith('~') and not any(b.args[0] == a.args[0][:-1] and may_match(b, a) for b in live)]
            rep.cond(bool(live) and not bad, 'gradient-entries', E, f'{c},{"reversed" if flip else "original"} order',
                     f'the value depends on {bad[0] if bad else "no trainable entry"} only through a detached computation')


FIXED = ('marginalization_constant', 'dropout')


def _trainable(net):
    out = {}
    for o in modules(net).values():
        for n, t in o.params.items():
            if isinstance(t, Ten):
                out[(o.cls.name, o.id, n)] = t
    return out


def _gradients(rep, tier, m, leaf, mode):
    c = f'{m},leaf={leaf},{mode}'
    E = 'Einet.forward' if mode == 'forward' else 'Einet.sample'

    def run(it):
        net = build(it, m, leaf)
        it.training = True
        ps = _trainable(net)
        res = []
        keys = [k for k, t in ps.items() if t.requires_grad]

        def go():
            if mode == 'forward':
                return it.call(net, [data(m)], {})
            kw = dict(is_differentiable=mode != 'index')
            if mode == 'evidence':
                kw['evidence'] = data(m, 'e', maynan=True)
                kw['mpe_at_leaves'] = True
            else:
                kw['num_samples'] = py(m.N)
            return it.call(it.getattr(net, 'sample'), [], kw)
        if mode == 'index':
            y = go()
            return keys, [('all', y.grad if isinstance(y, Ten) else None)], sorted({k[0] + '.' + k[2] for k, t in ps.items() if not t.requires_grad})
        for key in keys:
            for k2, t in ps.items():
                t.requires_grad = t.grad = k2 == key
            y = go()
            res.append((f'{key[0]}.{key[2]}', y.grad if isinstance(y, Ten) else None))
        return keys, res, sorted({k[0] + '.' + k[2] for k in ps if k not in keys})
    for r in rep.paths('gradient', E, c, explore(LOADER, run, training=True)):
        keys, res, fixed = r.value
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        for n, g in res:
            if g is None:
                rep.und('gradient', E, f'{cc},{n}', 'result not analysable')
            elif mode == 'index':
                rep.cond(not g, 'no-graph', E, cc, 'index-based sampling records a gradient graph')
            elif n.startswith('SumLayer') and m.K.cint == 3 and mode != 'forward':
                continue
            else:
                rep.cond(bool(g), 'gradient', E, f'{cc},{n}', f'no gradient path from the result to parameter {n}')


# ------------------------------------------------------------------ P13 saved state
def saved_state(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        jobs.append((tier, m, leaf))
    if tier == 'thorough':
        jobs += [(tier, m, 'Normal') for m in contexts(tier)]
    rep.parallel(_saved, jobs)
    rep.parallel(_saved_mixture, [(2, (0, 1, 0), 1), (3, (2, 0, 1, 1), 2)])
    _saved_tables(rep)


def load_into(a, b):
    """module state (parameters and persistent buffers) of a into b; names must match"""
    def go(x, y, path):
        for n, t in list(x.params.items()) + list(x.bufs.items()):
            u = y.params.get(n, y.bufs.get(n))
            if isinstance(t, Ten) and isinstance(u, Ten) and n not in getattr(x, 'nonpersistent', ()):
                u._body = tm.subst(t._body, dict(zip([n_ for n_, s in t.axes if n_], [v for v, (n_, s) in zip(u.vars(), t.axes) if n_])))
                u.stale = False
        for n, c in x.mods.items():
            if isinstance(c, Obj) and isinstance(y.mods.get(n), Obj):
                go(c, y.mods[n], path + '.' + n)
    go(a, b, '')


def _saved(rep, tier, m, leaf):
    c = f'{m},leaf={leaf}'

    def run(it):
        a = build(it, m, leaf)
        b = build(it, m, leaf)
        load_into(a, b)
        x = data(m)
        ys = [it.call(n, [x], {}) for n in (a, b)]
        ss = [fixed_draws(it, lambda n=n: it.call(it.getattr(n, 'sample'), [], dict(num_samples=py(m.N)))) for n in (a, b)]
        es = None
        if leaf != 'MultivariateNormal':
            es = [fixed_draws(it, lambda n=n: it.call(it.getattr(n, 'sample'), [], dict(evidence=data(m, 'e', maynan=True), mpe_at_leaves=True))) for n in (a, b)]
        return ys, ss, es
    for r in rep.paths('saved-state', 'Einet', c, explore(LOADER, run)):
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        for lab, t, pos in zip(('forward', 'sample', 'conditional sample'), r.value,
                               (out_pos(m), [opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)], [opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)])):
            if t is None:
                continue
            if not all(isinstance(z, Ten) for z in t):
                rep.und('saved-state', 'Einet', f'{cc},{lab}', 'not analysable')
                continue
            rep.equal('saved-state', 'Einet', f'{cc},{lab}', t[1].at(pos), t[0].at(pos), r.facts,
                      'a second model with the saved state of the first vs. the first')


def _saved_mixture(rep, K, a, KC):
    """a mixture that was never fitted, with the state of a fitted one: same component and centroids for every row, same weights"""
    from . import families as fam
    c = f'components={K},assignment={a},classes={KC}'
    con = 'Mixture'

    def run(it):
        fit = [i % K for i in range(K + 1)]
        out = []
        A, ra = fam._mixture(it, K, 4, 1, KC, fit)
        ha, ka = dict(it.hooks), it.kmeans
        B, rb = fam._mixture(it, K, 4, 1, KC, fit, init=False)
        hb = dict(it.hooks)
        kb = it.kmeans
        load_into(A, B)
        base('x')
        x = mk([len(a), 1, 4], lambda v: el('x', *v), store=Storage('input:x'))
        for m, h, km in ((A, ha, ka), (B, hb, kb)):
            it.hooks.update(h)
            it.kmeans = km
            km.update(sim=list(a), compared=[])
            y = it.call(m, [x], {})
            cmp_ = list(it.kmeans['compared'])
            probs = []

            def oracle(it, lg, sizes):
                probs.append(lg)
                return tmod.cast(it, tmod.as_ten(it, [0] * sizes[0].cint), 'long')
            it.oracle = oracle
            it.call(it.getattr(m, 'sample'), [], dict(num_samples=2))
            it.oracle = None
            out.append((y, cmp_, probs))
        return out
    for r in rep.paths('saved-state', con, c, explore(LOADER, run)):
        (y1, c1, p1), (y2, c2, p2) = r.value
        if not all(isinstance(t, Ten) for t in (y1, y2)) or len(c1) != len(c2) or len(p1) != len(p2):
            rep.und('saved-state', con, c, 'not analysable')
            continue
        for lab, s, t in [('forward', y1, y2)] + [('centroids', p[1], q_[1]) for p, q_ in zip(c1, c2)] + [('component weights', p, q_) for p, q_ in zip(p1, p2)]:
            if not (isinstance(s, Ten) and isinstance(t, Ten)) or s.dim != t.dim:
                rep.und('saved-state', con, f'{c},{lab}', 'not analysable')
                continue
            pos = [opq(f'o{i}', z) for i, z in enumerate(s.shape)]
            rep.equal('saved-state', con, f'{c},{lab}', t.at(pos), s.at(pos), r.facts, 'a mixture with the saved state of another vs. that one')


def _saved_tables(rep):
    """a piecewise linear leaf that was never fitted, with the state of a fitted one"""
    from . import pwl
    con = pwl.PW + '.PiecewiseLinear'
    c = 'variables=cd'

    def run(it):
        A, data_, sims, hists = pwl._setup(it, 'cd', 1, 2, 2, 5, 0.0)
        B = it.call(it.repo_attr(pwl.PW, 'PiecewiseLinear'), [], dict(num_features=2, num_channels=1, num_leaves=2, num_repetitions=2, alpha=0.0))
        load_into(A, B)
        base('x')
        x = mk([1, 1, 2], lambda v: lift(2))
        return [it.call(it.getattr(m, 'forward'), [x], dict(marginalized_scopes=None)) for m in (A, B)]
    for r in rep.paths('saved-fit', con, c, explore(LOADER, run)):
        s, t = r.value
        if not (isinstance(s, Ten) and isinstance(t, Ten)):
            rep.und('saved-fit', con, c, 'not analysable')
            continue
        pos = [opq(f'o{i}', z) for i, z in enumerate(s.shape)]
        rep.equal('saved-fit', con, c, t.at(pos), s.at(pos), r.facts, 'a leaf with the saved state of a fitted one vs. that one')


# ------------------------------------------------------------------ P17 marginal queries
def marginal(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        for mode in ('nan', 'scopes', 'all'):
            if leaf == 'MultivariateNormal' and mode == 'nan':
                continue
            jobs.append((tier, m, leaf, mode))
    rep.parallel(_marginal, jobs)


def _marginal(rep, tier, m, leaf, mode):
    """the leaf layer gives log 1 at the missing variables and its ordinary value elsewhere; everything above the leaf
    layer is the same function of the leaf values as for complete data"""
    c = f'{m},leaf={leaf},{ {"nan": "missing entries", "scopes": "marginalised scopes", "all": "everything marginalised"}[mode]}'
    card = LEAFKW.get(leaf, {}).get('cardinality', 1)

    def run(it):
        net = build(it, m, leaf)
        leaves = [o for o in modules(net).values() if any(k.name == 'AbstractLeaf' for k in o.cls.mro if hasattr(k, "name")) and o.cls.name == leaf]
        if len(leaves) != 1:
            raise Unk(f'{len(leaves)} leaf distributions found')
        bl = leaves[0]
        fwd = it.getattr(bl, 'forward')
        qual = fwd.func.qual
        seen = []
        base('ll')

        def watch(it_, f, args, kwargs):
            if not args or args[0] is not bl:
                return MISSING
            del it.hooks[qual]
            try:
                L = it.call_func(f, args, kwargs)
            finally:
                it.hooks[qual] = watch
            seen.append(L)
            if not isinstance(L, Ten):
                raise Unk('leaf output')
            return mk(L.shape, lambda v: el('ll', *v), store=Storage('leafval'))
        it.hooks[qual] = watch
        x = data(m)
        y0 = it.call(net, [x], {})
        if mode == 'nan':
            y1 = it.call(net, [data(m, 'xm', maynan=True)], {})
        elif mode == 'scopes':
            y1 = it.call(net, [x], dict(marginalized_scopes=some_scopes(m)))
        else:
            allS = mk([m.D], lambda v: v[0], 'long', store=Storage('input:scopes'))
            y1 = it.call(net, [x], dict(marginalized_scopes=allS))
        return y0, y1, seen
    for r in rep.paths('marginal', 'Einet.forward', c, explore(LOADER, run)):
        y0, y1, seen = r.value
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        if len(seen) != 2 or not all(isinstance(t, Ten) for t in [y0, y1] + seen):
            rep.und('marginal', 'Einet.forward', cc, f'{len(seen)} leaf evaluations, {y0!r} {y1!r}'[:200])
            continue
        pos = out_pos(m)
        rep.equal('marginal-above-leaves', 'Einet.forward', cc, y1.at(pos), y0.at(pos), r.facts,
                  'value of the marginal query as a function of the leaf values vs. the same function for complete data')
        L0, L1 = seen
        if not rep.cond(same_shape(L1, L0.shape), 'marginal-shape', 'AbstractLeaf.forward', cc, f'leaf values have shape {L1.shape} instead of {L0.shape}'):
            continue
        lp = [opq('v%d' % i, n) for i, n in enumerate(L0.shape)]
        A, B = L0.at(lp), L1.at(lp)
        if mode == 'all':
            rep.equal('marginal-all', 'AbstractLeaf.forward', cc, B, ZERO, r.facts, 'leaf values with every variable marginalised vs. log 1')
            continue
        if mode == 'nan':
            ref = sel(tm.isnan(el('xm', *lp[:3])), ZERO, tm.subst_base(A, {'x': lambda *i: el('xm', *i)}))
        elif card > 1:
            rep.ok('marginal', 'AbstractLeaf.forward', cc, 'cardinality > 1: only completion of the query is required')
            continue
        else:
            ref = A
            for s in some_scopes(m):
                ref = sel(eq0(lp[2] - s), ZERO, ref)
        rep.equal('marginal', 'AbstractLeaf.forward', cc, B, ref, r.facts,
                  'leaf values of the marginal query vs. log 1 at the missing variables and the complete values elsewhere')


# ------------------------------------------------------------------ P21 class posterior
def class_posterior(rep, tier):
    jobs = [(tier, m) for k in (2, 3) for m in few(tier, K=k)]
    rep.parallel(_class_posterior, jobs)


def _class_posterior(rep, tier, m):
    c = str(m)

    def run(it):
        net = build(it, m, 'Normal')
        x = data(m)
        y = it.call(net, [x], {})
        p = it.call(it.getattr(net, 'posterior'), [x], {})
        return y, p
    for r in rep.paths('posterior', 'Einet.posterior', c, explore(LOADER, run)):
        y, p = r.value
        if not isinstance(p, Ten):
            rep.und('posterior', 'Einet.posterior', c, repr(p)[:200])
            continue
        if not rep.cond(same_shape(p, [m.N, m.K]), 'posterior-shape', 'Einet.posterior', c, f'shape {p.shape}'):
            continue
        n, k = opq('nn', m.N), opq('kk', m.K)
        kn, kv = tm.newvar(m.K)
        rep.equal('posterior', 'Einet.posterior', c, tm.expand(tm.exp(p.at([n, k]))),
                  tm.expand(tm.div(tm.exp(y.at([n, k])), tm.red('sum', [(kn, m.K)], tm.exp(y.at([n, kv]))))), r.facts,
                  'p(y|x) vs. p(x|y) p(y) / sum_y p(x|y) p(y) with the uniform prior')


# ------------------------------------------------------------------ P33 rows do not influence each other
def rows(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        jobs.append((tier, m, leaf, 'forward'))
        jobs.append((tier, m, leaf, 'missing'))
        for diff in (False, True):
            jobs.append((tier, m, leaf, f'conditional sample,{"differentiable" if diff else "indices"}'))
    rep.parallel(_rows, jobs)


def _rows(rep, tier, m, leaf, mode):
    if leaf == 'MultivariateNormal' and mode != 'forward':
        return
    c = f'{m},leaf={leaf},{mode}'
    E = 'Einet.forward' if mode in ('forward', 'missing') else 'Einet.sample'

    def run(it):
        net = build(it, m, leaf)
        x = data(m, 'x', maynan=mode != 'forward')
        if E == 'Einet.forward':
            return it.call(net, [x], {})
        return it.call(it.getattr(net, 'sample'), [], dict(evidence=x, is_differentiable='differentiable' in mode, mpe_at_leaves=True))
    for r in rep.paths('row', E, c, explore(LOADER, run)):
        y = r.value
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        if not isinstance(y, Ten):
            rep.und('row', E, cc, repr(y)[:100])
            continue
        n = opq('nn', m.N)
        t = y.at(out_pos(m) if E == 'Einet.forward' else [n, opq('cc', m.C), opq('dd', m.D)])
        other = set()

        def look(a):
            if a.kind == 'el' and a.args[0] == 'x' and a.args[1][0] is not n:
                other.add(repr(a))
            if a.kind == 'draw' and a.args[2] and not any(i is n or tm.contains_atom(i, lambda z: z is n.single()) for i in a.args[2]):
                if m.N.cint != 1:
                    other.add('shared random draw ' + repr(a)[:80])
            return False
        tm.contains_atom(t, look)
        rep.cond(not other, 'row', E, c, f'the result of one row depends on other rows: {sorted(other)[:2]}')
