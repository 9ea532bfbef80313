"""rules on the other model families: mixtures of circuits and convolutional circuits"""
import itertools
from ..scen import *
from ..equal import compare
from .model import LOADER, EIN, new_einet, same_shape
from .. import torchmodel as tmod

MIX = P + 'mixture'


def _mixture(it, K, D, C, KC, fit, init=True):
    """a mixture of K circuits fitted to rows whose clusters are fit; its circuits answer symbolically, one function per circuit"""
    base('centroid')
    base('fitdata')
    it.kmeans = dict(K=K, fit=fit, sim=None)
    Cfg = it.repo_attr(EIN, 'EinetConfig')
    E = it.repo_attr(EIN, 'Einet')
    L = it.repo_attr(P + 'layers.distributions.normal', 'Normal')
    cfg = it.call(Cfg, [], dict(num_features=D, num_channels=C, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=KC, depth=1,
                                leaf_type=L, layer_type='linsum', structure='top-down'))
    m = it.call(it.repo_attr(MIX, 'Mixture'), [K, cfg], {})
    it.training = False
    if init:
        it.call(it.getattr(m, 'initialize'), [], dict(data=mk([len(fit), C, D], lambda v: el('fitdata', *v))))
    comps = list(it.iterate(it.getattr(m, 'models')))
    rec = []

    def which(o):
        k = [i for i, c in enumerate(comps) if c is o]
        if not k:
            raise Unk('a circuit outside the mixture')
        return k[0]

    def fwd(it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        k, x = which(b['self']), b['x']
        rec.append(('forward', k, b))
        xs = x if x.dim == 3 else None
        base(f'a{k}')
        base(f'b{k}')

        def val(v):
            t = el(f'b{k}', v[1])
            for c in range(C):
                for d in range(D):
                    t = t + el(f'a{k}', v[1], lift(c), lift(d)) * (x.at([v[0], lift(c), lift(d)]) if x.dim == 3 else x.at([v[0], lift(d)]))
            return t
        return mk([x.shape[0], lift(KC)], val)

    def smp(it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        k = which(b['self'])
        j = len(rec)
        rec.append(('sample', k, b))
        e, n = b['evidence'], b['num_samples']
        base(f'g{k}')
        base(f's{k}.{j}')
        if e is None:
            if isinstance(b.get('class_index'), list):
                n = len(b['class_index'])
            n = 1 if n is None else n
            return mk([lift(n), lift(C), lift(D)], lambda v: el(f's{k}.{j}', *v))
        return mk(e.shape, lambda v: el(f'g{k}', *v[1:]) * e.at(v) + el(f's{k}.{j}', ZERO, *v[1:]))
    fq = it.find_attr(E, 'forward').qual
    sq = it.find_attr(E, 'sample').qual
    it.hooks[fq] = fwd
    it.hooks[sq] = smp
    return m, rec


def mixture(rep, tier):
    jobs = []
    for K, N in ((2, 3), (3, 3)) if tier == 'quick' else ((2, 3), (3, 3), (2, 4), (3, 4)):
        A = list(itertools.product(range(K), repeat=N))
        if K == 3:
            A = [a for a in A if a[0] != 0 or len(set(a)) == 3] if tier == 'quick' else A
        for a in A:
            for KC, C, sc in ((1, 1, None), (2, 1, [1]), (2, 2, None)):
                jobs.append((K, a, KC, C, sc))
    # regroupings of the rows that are not their own inverse
    jobs += [(K, a, 2, 1, None) for K, a in ((2, (0, 1, 0, 0)), (2, (1, 0, 0, 1, 1)), (3, (2, 0, 1, 2, 0)))]
    rep.parallel(_mixture_rows, jobs)
    jobs = []
    for K, N in ((2, 3), (3, 4)):
        A = list(itertools.product(range(K), repeat=N))
        if N == 4 and tier == 'quick':
            A = A[::5]
        for a in A:
            jobs.append((K, a))
    rep.parallel(_mixture_draws, jobs)
    rep.parallel(_mixture_fit, [(K, f) for K in (1, 2, 3) for f in itertools.product(range(K), repeat=3)])


def _bind_opts(b, names):
    return {n: b.get(n) for n in names if n in b}


def same_opt(a, b):
    if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return lift(a) is lift(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return sorted(a) == sorted(b)
    return a is b or a == b


def _mixture_rows(rep, K, a, KC, C, sc):
    N, D = len(a), 4
    c = f'components={K},assignment={a},classes={KC},channels={C},marginalized={sc}'
    fit = [i % K for i in range(K + 1)]
    opts = dict(is_mpe=False, mpe_at_leaves=True, temperature_leaves=Fraction(1, 2), temperature_sums=Fraction(3, 4), seed=17)

    def run(it):
        m, rec = _mixture(it, K, D, C, KC, fit)
        it.kmeans['sim'] = list(a)
        base('x')
        x = mk([N, C, D], lambda v: el('x', *v), store=Storage('input:x'))
        it.kmeans['compared'] = []
        out = {}
        e0 = len(it.effects)
        y = it.call(m, [x], {} if sc is None else dict(marginalized_scope=list(sc)))
        out['fwd'] = (y, list(rec), list(it.kmeans['compared']))
        it.kmeans['compared'] = []
        del rec[:]
        s0 = it.rngstate
        it.oracle = lambda it, lg, sizes: tmod.cast(it, tmod.as_ten(it, [0] * sizes[0].cint), 'long')
        y = it.call(it.getattr(m, 'sample'), [], dict(opts, evidence=x, marginalized_scopes=None if sc is None else list(sc)))
        out['smp'] = (y, list(rec), list(it.kmeans['compared']))
        it.kmeans['compared'] = []
        del rec[:]
        y = it.call(it.getattr(m, 'mpe'), [], dict(evidence=x, marginalized_scopes=None if sc is None else list(sc)))
        out['mpe'] = (y, list(rec), list(it.kmeans['compared']))
        out['writes'] = sorted({e['where'] for e in it.effects[e0:] if e['kind'] in ('mutate', 'setdata') and str(e.get('tag') or '').startswith('input:')})
        return out
    for r in rep.paths('rows', 'Mixture', c, explore(LOADER, run)):
        v = r.value
        rep.cond(not v['writes'], 'input-untouched', 'Mixture', c, f'writes into the caller\'s tensor in {v["writes"]}')
        for what, entry in (('fwd', 'Mixture.forward'), ('smp', 'Mixture.sample'), ('mpe', 'Mixture.mpe')):
            y, rec, cmp_ = v[what]
            keep = [d for d in range(C * D) if sc is None or d not in sc]
            ok = len(cmp_) >= 1
            for xa, xb in cmp_:
                if not (xa.dim == xb.dim == 2 and xa.shape[1].cint == len(keep) and xb.shape[1].cint == len(keep)):
                    ok = False
                    continue
                n = opq('nn', N)
                k = opq('kk', K)
                for j, d in enumerate(keep):
                    rep.equal('nearest centroid over the observed variables', entry, c, xa.at([n, lift(j)]),
                              el('x', n, lift(d // D), lift(d % D)), r.facts, 'variables of the row that are compared')
                    rep.equal('nearest centroid over the observed variables', entry, c, xb.at([k, lift(j)]), el('centroid', k, lift(d)),
                              r.facts, 'variables of the centroids that are compared')
            rep.cond(ok, 'nearest centroid over the observed variables', entry, c, 'rows are not compared with the centroids over the observed variables')
            good = [b for b in rec if b[0] == ('forward' if what == 'fwd' else 'sample')]
            want = dict(marginalized_scopes=sc) if what == 'fwd' else dict(opts, marginalized_scopes=sc) if what == 'smp' else dict(
                is_mpe=True, marginalized_scopes=sc)
            bad = {f'{n} = {b.get(n)!r} instead of {w!r}' for _, k, b in good for n, w in want.items() if not same_opt(b.get(n), w)}
            rep.cond(not bad, 'options reach the component', entry, c, f'a component is called with {sorted(bad)}')
            if not isinstance(y, Ten):
                rep.und('rows', entry, c, repr(y)[:100])
                continue
            shape = [lift(N), lift(KC)] if what == 'fwd' else [lift(N), lift(C), lift(D)]
            if not rep.cond(same_shape(y, shape), 'result-shape', entry, c, f'result shape {y.shape}'):
                continue
            for i in range(N):
                k = a[i]
                if what == 'fwd':
                    cl = opq('cl', KC)
                    w = el(f'b{k}', cl)
                    for ch in range(C):
                        for d in range(D):
                            w = w + el(f'a{k}', cl, lift(ch), lift(d)) * el('x', lift(i), lift(ch), lift(d))
                    rep.equal('each row by its own component', entry, c, y.at([lift(i), cl]), w, r.facts, f'row {i}')
                else:
                    ch, d = opq('ch', C), opq('dd', D)
                    t = y.at([lift(i), ch, d])
                    js = [j for j, b in enumerate(rec) if b[0] == 'sample' and b[1] == k]
                    w = [el(f'g{k}', ch, d) * el('x', lift(i), ch, d) + el(f's{k}.{j}', ZERO, ch, d) for j in js]
                    hit = [q for q in w if compare(t, q, r.facts)[0] == 'eq'][:1]
                    rep.equal('each row by its own component', entry, c, t, (hit or w or [ZERO])[0], r.facts, f'row {i}')


def _mixture_draws(rep, K, a):
    """sampling without evidence: a component is drawn per sample from the mixture weights and asked for as many samples as it was drawn"""
    N, D, C = len(a), 2, 1
    fit = [i for i in range(K) for _ in range(i + 1)]
    c = f'components={K},draws={a}'
    opts = dict(is_mpe=False, mpe_at_leaves=True, temperature_leaves=Fraction(1, 2), temperature_sums=Fraction(3, 4))

    for mode in ('samples', 'per cluster', 'mpe', 'default'):
        def run(it):
            m, rec = _mixture(it, K, D, C, 2, fit)
            seen = []

            def oracle(it, lg, sizes):
                n = 1
                for s in sizes:
                    n *= s.cint
                seen.append((lg, n))
                v = [a[i % N] for i in range(n)]
                t = tmod.cast(it, tmod.as_ten(it, v), 'long')
                return t if len(sizes) == 1 else it.call(it.getattr(t, 'view'), [s.cint for s in sizes], {})
            it.oracle = oracle
            r0, s0 = len(it.rng), it.rngstate
            kw = dict(opts, seed=17)
            if mode == 'samples':
                kw['num_samples'] = N
            elif mode == 'per cluster':
                kw['num_samples_per_cluster'] = 2
            elif mode == 'mpe':
                kw.update(num_samples=N, is_mpe=True)
            y = it.call(it.getattr(m, 'sample'), [], kw)
            ev, s1 = it.rng[r0:], it.rngstate
            return dict(y=y, rec=list(rec), seen=seen, ev=ev, s=(s0, s1), kw=kw)
        cc = f'{c},{mode}'
        for r in rep.paths('draws', 'Mixture.sample', cc, explore(LOADER, run)):
            v = r.value
            n = {'samples': N, 'per cluster': 2 * K, 'mpe': N, 'default': 1}[mode]
            y, rec = v['y'], v['rec']
            d = [i for i, e in enumerate(v['ev']) if e[1] == 'draw']
            k0 = [i for i, e in enumerate(v['ev']) if e[1] == 'seed' and e[0] == 'torch' and same_opt(e[2], 17)]
            rep.cond(not d or bool(k0) and all(i > k0[0] for i in d), 'seed-before-draws', 'Mixture.sample', cc,
                     f'with a seed given, events are {[(e[0], e[1]) for e in v["ev"]][:6]}')
            rep.cond(v['s'][0] == v['s'][1], 'rng-restored', 'Mixture.sample', cc, f'random state before: {v["s"][0]}, after: {v["s"][1]}')
            want = {n_: w for n_, w in v['kw'].items() if not n_.startswith('num_')}
            bad = {f'{n_} = {b.get(n_)!r} instead of {w!r}' for _, _, b in rec for n_, w in want.items() if not same_opt(b.get(n_), w)}
            rep.cond(not bad, 'options reach the component', 'Mixture.sample', cc, f'a component is called with {sorted(bad)}')
            if not isinstance(y, Ten):
                rep.und('draws', 'Mixture.sample', cc, repr(y)[:100])
                continue
            if not rep.cond(same_shape(y, [lift(n), lift(C), lift(D)]), 'result-shape', 'Mixture.sample', cc, f'{y.shape} for {n} samples'):
                continue
            if mode in ('samples', 'default'):
                cnt = [0] * K
                for i in range(n):
                    cnt[a[i]] += 1
                rep.cond(sum(q[1] for q in v['seen']) == n, 'one component drawn per sample', 'Mixture.sample', cc, f'{v["seen"]}')
                for lg, _ in v['seen']:
                    tot = ZERO
                    for k in range(K):
                        tot = tot + tm.exp(lg.at([lift(k)]))
                    for k in range(K):
                        rep.equal('components drawn from the mixture weights', 'Mixture.sample', cc, tm.div(tm.exp(lg.at([lift(k)])), tot),
                                  lift(Fraction(fit.count(k), len(fit))), r.facts, f'probability of component {k}')
            elif mode == 'per cluster':
                cnt = [2] * K
            else:
                cnt = [n if k == K - 1 else 0 for k in range(K)]   # the last cluster is the largest one
            got = [0] * K
            for _, k, b in rec:
                q = b['num_samples']
                got[k] += 1 if q is None else int(q)
            rep.cond(got == cnt, 'samples per component', 'Mixture.sample', cc, f'samples drawn per component: {got}, required: {cnt}')
            rows = [el(f's{k}.{j}', lift(i), ZERO, ZERO) for j, (_, k, b) in enumerate(rec) for i in range(int(b['num_samples'] or 1))]
            out = [y.at([lift(i), ZERO, ZERO]) for i in range(n)]
            rep.cond(sorted(map(repr, rows)) == sorted(map(repr, out)), 'every drawn sample returned once', 'Mixture.sample', cc,
                     f'returned rows {out}, drawn rows {rows}')
            x0, x1 = y.at([ZERO, ZERO, ZERO]), y.at([ZERO, ZERO, ONE])
            for i in range(n):
                q = out[i].single()
                ok = q is not None and q.kind == 'el' and y.at([lift(i), ZERO, ONE]) is el(q.args[0], q.args[1][0], ZERO, ONE)
                rep.cond(ok, 'every drawn sample returned once', 'Mixture.sample', cc, f'row {i} mixes samples: {out[i]}')


def _mixture_fit(rep, K, f):
    """initialize: the weights are the relative cluster sizes, one per component"""
    c = f'components={K},clusters={f}'

    def run(it):
        m, rec = _mixture(it, K, 2, 1, 1, f)
        return it.getattr(m, 'mixture_weights'), it.getattr(m, 'centroids'), it.kmeans.get('fitted')
    for r in rep.paths('fit', 'Mixture.initialize', c, explore(LOADER, run)):
        w, ce, fitted = r.value
        if not rep.cond(isinstance(w, Ten) and same_shape(w, [lift(K)]), 'one weight per component', 'Mixture.initialize', c, f'weights of shape {getattr(w, "shape", w)}'):
            continue
        for k in range(K):
            rep.equal('weights are relative cluster sizes', 'Mixture.initialize', c, w.at([lift(k)]), lift(Fraction(f.count(k), len(f))), r.facts, f'weight {k}')
        n, d = opq('nn', len(f)), opq('dd', 2)
        for x in fitted:
            rep.equal('all data is clustered', 'Mixture.initialize', c, x.at([n, d]), el('fitdata', n, ZERO, d), r.facts, 'data handed to the clustering')
        rep.equal('centroids are kept', 'Mixture.initialize', c, ce.at([opq('kk', K), d]), el('centroid', opq('kk', K), d), r.facts, 'centroid')


# ================================================================ convolutional circuits
CONV = P + 'conv_pc'


class Cz:
    """one convolutional model"""

    def __init__(self, structure, order, nch, H, W, C=1, kernel=2, sizes=None):
        self.structure, self.order, self.H, self.W, self.kernel = structure, order, H, W, kernel
        self.C = C
        self.N = sym('N')
        self.ch = [lift(z) for z in sizes] if sizes else [sym('I', 2)] + [sym(f'S{i}', 2) for i in range(1, nch)]

    def __str__(self):
        return f'{self.structure}/{self.order},layers={len(self.ch)},{self.H}x{self.W},channels={self.C},kernel={self.kernel}'


def conv_contexts(tier):
    out = []
    for order in ('sum-prod', 'prod-sum'):
        out += [Cz('bottom-up', order, 1, 2, 2), Cz('bottom-up', order, 2, 4, 2), Cz('bottom-up', order, 2, 2, 4, 2),
                Cz('top-down', order, 1, 4, 2), Cz('top-down', order, 1, 2, 4, 2)]
        if tier == 'thorough':
            out += [Cz('bottom-up', order, 2, 4, 4), Cz('bottom-up', order, 3, 4, 4), Cz('top-down', order, 2, 4, 4),
                    Cz('bottom-up', order, 2, 3, 3, kernel=3), Cz('top-down', order, 2, 8, 4)]
    return out


def new_conv(it, m, leaf='Normal', **kw):
    Cfg = it.repo_attr(CONV, 'ConvPcConfig')
    M = it.repo_attr(CONV, 'ConvPc')
    L = it.repo_attr(P + 'layers.distributions.' + LEAFS[leaf], leaf)
    S = it.repo_attr(P + 'data', 'Shape')
    cfg = it.call(Cfg, [], dict(dict(channels=[py(z) for z in m.ch], kernel_size=m.kernel, num_channels=m.C, num_classes=1, leaf_type=L, leaf_kwargs={},
                                     structure=m.structure, order=m.order), **kw))
    net = it.call(M, [cfg, it.call(S, [], dict(channels=m.C, height=m.H, width=m.W))], {})
    it.training = False
    return net


def _img(m, name='x', maynan=False):
    base(name, maynan=maynan)
    return mk([m.N, lift(m.C), lift(m.H), lift(m.W)], lambda v: el(name, *v), store=Storage('input:' + name))


def _conv_mass(rep, m):
    from .model import probe_leaves, pull
    c = str(m)

    def run(it):
        net = new_conv(it, m)
        return it.call(net, [_img(m)], {})
    for r in rep.paths('model-mass', 'ConvPc.forward', c, explore(LOADER, run)):
        y = r.value
        if not rep.cond(same_shape(y, [m.N]), 'output-shape', 'ConvPc.forward', c, f'output has shape {getattr(y, "shape", y)}'):
            continue
        Y = y.at([opq('nn', m.N)])
        try:
            one = probe_leaves(Y, lambda i, mean: ZERO)
        except Unk as e:
            rep.und('model-mass', 'ConvPc.forward', c, f'not recognised: {e}')
            continue
        rep.equal('model-mass', 'ConvPc.forward', c, tm.expand(one), ZERO, r.facts, 'every leaf integrates to one, the root must too')
        Wt = sym('W', 0, integer=False)
        for ch in range(m.C):
            for d in range(m.H * m.W):
                uni = probe_leaves(Y, lambda i, mean: eq0(i[1] - lift(ch)) * eq0(i[2] - lift(d)) * Wt)
                rep.equal('each-variable-once', 'ConvPc.forward', f'{c},channel {ch},pixel {d}', pull(tm.expand(uni), Wt), Wt, r.facts,
                          'root value when every leaf of one variable has log density W and all others zero')


def _conv_routes(rep, m, mpe, ev, temp=False):
    from .model import probe_leaves, mean_bases, exp_means
    c = f'{m}{",mpe" if mpe else ""}{",evidence" if ev else ""}{",temperature" if temp else ""}'
    T_ = sym('T', 0, integer=False, pos=True)
    rule = 'mpe-routing' if mpe else 'posterior-routing-law' if ev else 'routing-law'

    def run(it):
        net = new_conv(it, m)
        x = _img(m, 'e' if ev else 'x', maynan=ev)
        y = it.call(net, [x], {})
        kw = dict(mpe_at_leaves=True, is_mpe=mpe)
        if temp:
            kw['temperature_sums'] = T_
        if ev:
            kw['evidence'] = x
        else:
            kw['num_samples'] = py(m.N)
        return y, it.call(it.getattr(net, 'sample'), [], kw)
    for r in rep.paths(rule, 'ConvPc.sample', c, explore(LOADER, run)):
        y, s = r.value
        if ev and any(not b and 'isnan' in repr(a) for a, b in r.facts):
            continue                     # a path on which nothing is missing
        if not rep.cond(same_shape(s, [m.N, lift(m.C), lift(m.H), lift(m.W)]), 'sample-shape', 'ConvPc.sample', c, f'samples have shape {getattr(s, "shape", s)}'):
            continue
        n = opq('nn', m.N)
        Y = y.at([n])
        mb = mean_bases(Y)
        for ch in range(m.C):
            for d in range(m.H * m.W):
                pos = [n, lift(ch), lift(d // m.W), lift(d % m.W)]
                cc = f'{c},channel {ch},pixel {d}'
                try:
                    v, num, den = s.at(pos), Y, None
                    if ev:
                        miss = tm.isnan(el('e', *pos))
                        v = tm.assume(v, miss, True)
                        den = tm.assume(Y, miss, True)
                        num = tm.assume(Y, miss, False)

                        def w(idx, mean, a):
                            h = eq0(idx[1] - lift(ch)) * eq0(idx[2] - lift(d))
                            return h * mean + (ONE - h) * lift(a)
                    else:
                        def w(idx, mean, a):
                            return eq0(idx[1] - lift(ch)) * eq0(idx[2] - lift(d)) * mean
                    J = tm.expand(joint(exp_means(v, mb)))
                    ref = probe_leaves(num, w)
                    if temp:
                        ref = tempered(ref, T_, mb)
                    ref = tm.exp(tm.expand(ref))
                    if den is not None:
                        ref = tm.div(ref, tm.exp(tm.expand(den)))
                except Unk as e:
                    rep.und(rule, 'ConvPc.sample', cc, f'not recognised: {e}')
                    continue
                rep.equal(rule, 'ConvPc.sample', cc, J, ref, r.facts,
                          'E[leaf weight reached by the sampled route] vs. the forward value with that weight as leaf likelihood')


def conv(rep, tier):
    cs = conv_contexts(tier)
    rep.parallel(_conv_mass, [(m,) for m in cs])
    jobs = [(m, mpe, ev) for m in cs for mpe in (False, True) for ev in (False, True)] + [(m, False, False, True) for m in cs]
    rep.parallel(_conv_routes, jobs)


def _img_any(m, name):
    h, w = opq('hh', m.H), opq('ww', m.W)
    return [opq('nn', m.N), opq('cc', m.C), h, w]


def _conv_probe(it, net, m):
    from .infer import fixed_draws

    def smp():
        return fixed_draws(it, lambda: it.call(it.getattr(net, 'sample'), [], dict(num_samples=py(m.N), mpe_at_leaves=True)))
    s = smp()
    y = it.call(net, [_img(m, 'later')], {})
    return s, y, smp()


CONV_SCOPES = [0, 3]


def _conv_use(rep, m, mode, mpe, fault=None):
    """one call of sample() with evidence and a seed: the completion, its effects, and what later calls see"""
    from .infer import tensors_of, changed_tensors, input_writes, leaf_values
    seed = sym('SEED', 0)
    c = f'{m},missing={mode}{",mpe" if mpe else ""}'
    E = 'ConvPc.sample'
    found = set()

    def attempt(fault=None):
        def run(it):
            net = new_conv(it, m)
            p0 = _conv_probe(it, net, m)
            e = _img(m, 'e', maynan=mode == 'nan')
            b0, T0, i0, r0, rng0, ng0 = e.body, tensors_of(net), len(it.effects), len(it.rng), it.rngstate, it.nograd
            v0, it.visited = set(it.visited), set()
            kw = dict(evidence=e, seed=seed, is_mpe=mpe)
            if mode == 'scopes':
                kw['marginalized_scopes'] = list(CONV_SCOPES)
            err = None
            if fault:
                def boom(it_, f, a, k):
                    raise PyRaise('InjectedFault', fault, fault)
                it.hooks[fault] = boom
            s = None
            try:
                s = it.call(it.getattr(net, 'sample'), [], kw)
            except PyRaise as ex:
                if ex.etype != 'InjectedFault':
                    raise
                err = ex
            it.hooks.pop(fault, None)
            seen, it.visited = set(it.visited), it.visited | v0
            out = dict(e=e, b0=b0, s=s, w=input_writes(it, i0), ch=changed_tensors(T0, net), ev=it.rng[r0:], rng=(rng0, it.rngstate),
                       ng=it.nograd == ng0, seen=seen, p0=p0)
            if fault and err is None:
                return None
            out['p1'] = _conv_probe(it, net, m)
            return out
        return explore(LOADER, run)

    def later(c, r):
        v = r.value
        rep.cond(v['rng'][0] == v['rng'][1], 'rng-restored', E, c, f'random state before: {v["rng"][0]}, after: {v["rng"][1]}')
        rep.cond(v['ng'], 'grad-mode-restored', E, c, 'gradient mode is left changed')
        if not all(isinstance(t, Ten) for t in v['p0'] + v['p1']):
            rep.und('later-calls', E, c, 'probe not analysable')
            return
        pos = _img_any(m, 'later')
        for i, what in ((0, 'an unconditional sample'), (2, 'an unconditional sample after a forward pass')):
            rep.equal('later-sample', E, c, v['p1'][i].at(pos), v['p0'][i].at(pos), r.facts, f'{what} drawn afterwards vs. before')
        rep.equal('later-forward', E, c, v['p1'][1].at(pos[:1]), v['p0'][1].at(pos[:1]), r.facts, 'a forward pass afterwards vs. before')
    for r in rep.paths('evidence', E, c, attempt()):
        v = r.value
        found |= v['seen']
        later(c + ',normal exit', r)
        e, s = v['e'], v['s']
        rep.cond(not v['w'] and not e.stale and e.body is v['b0'], 'evidence-untouched', E, c, f"the caller's evidence is overwritten: {v['w']}")
        rep.cond(not v['ch'], 'parameters-untouched', E, c, f'sampling modifies {v["ch"]}')
        d = [i for i, q in enumerate(v['ev']) if q[1] == 'draw']
        k0 = [i for i, q in enumerate(v['ev']) if q[1] == 'seed' and q[0] == 'torch' and lift(q[2]) is seed]
        rep.cond(not d or bool(k0) and all(i > k0[0] for i in d), 'seed-before-draws', E, c, f'events {[(q[0], q[1]) for q in v["ev"]][:6]}')
        if not isinstance(s, Ten):
            rep.und('evidence-kept', E, c, repr(s)[:100])
            continue
        if not rep.cond(same_shape(s, e.shape), 'result-shape', E, c, f'{s.shape}'):
            continue
        rep.cond(s.store is not e.store, 'evidence-untouched', E, c, 'the result shares memory with the evidence')
        pos = _img_any(m, 'e')
        own = el('e', *pos)
        try:
            if mode == 'nan':
                got = s.at(pos)
                rep.equal('evidence-kept', E, c, tm.assume(got, tm.isnan(own), False), own, r.facts, 'result at an observed entry vs. the evidence')
                filled = tm.assume(got, tm.isnan(own), True)
                rep.cond(not any(x is own for x in leaf_values(filled)), 'missing-filled', E, c, f'a missing entry can keep its old value: {filled!r}'[:300])
            else:
                for j in range(m.H * m.W):
                    p = pos[:2] + [lift(j // m.W), lift(j % m.W)]
                    own = el('e', *p)
                    if j in CONV_SCOPES:
                        rep.cond(not any(x is own for x in leaf_values(s.at(p))), 'missing-filled', E, f'{c},pixel {j}', 'a marginalised entry can keep its old value')
                    else:
                        rep.equal('evidence-kept', E, f'{c},pixel {j}', s.at(p), own, r.facts, 'result at an observed entry vs. the evidence')
        except Unk as ex:
            rep.und('evidence-kept', E, c, str(ex))
    if fault:
        skip = ('sampling_context', 'ConvPc.sample', '_enable_input_cache', '_disable_input_cache', '__device')
        for f in sorted(s for s in found if s.startswith('simple_einet/') and not s.endswith(('__init__',) + skip)):
            cc = f'{c},failure inside {f.split(":")[-1]}'
            for r in rep.paths('clean-exit', E, cc, attempt(f)):
                if r.value is not None:
                    later(cc, r)


def _conv_marginal(rep, m, leaf):
    """marginalised or missing pixels contribute a factor of one, rows do not influence each other, nothing is written"""
    from .infer import tensors_of, changed_tensors, input_writes
    c = f'{m},leaf={leaf}'
    E = 'ConvPc.forward'
    lk = dict(leaf_kwargs=dict(total_count=5)) if leaf == 'Binomial' else dict(leaf_kwargs=dict(num_bins=4)) if leaf == 'Categorical' else {}

    def run(it):
        net = new_conv(it, m, leaf, **lk)
        x = _img(m, 'x')
        xn = _img(m, 'xm', maynan=True)
        b0, T0, i0, r0 = (x.body, xn.body), tensors_of(net), len(it.effects), len(it.rng)
        y = it.call(net, [x], {})
        ys = it.call(net, [x], dict(marginalized_scopes=list(CONV_SCOPES)))
        yn = it.call(net, [xn], {})
        y2 = it.call(net, [x], {})
        return dict(y=y, ys=ys, yn=yn, y2=y2, w=input_writes(it, i0), same=x.body is b0[0] and xn.body is b0[1], ch=changed_tensors(T0, net),
                    drawn=[e for e in it.rng[r0:] if e[1] == 'draw'])
    for r in rep.paths('marginal', E, c, explore(LOADER, run)):
        v = r.value
        rep.cond(not v['w'] and v['same'], 'input-untouched', E, c, f'inference writes into the caller\'s tensor: {v["w"]}')
        rep.cond(not v['ch'] and not v['drawn'], 'parameters-untouched', E, c, f'inference modifies {v["ch"]} / draws {v["drawn"][:1]}')
        n = opq('nn', m.N)
        try:
            Y, S, Z = v['y'].at([n]), v['ys'].at([n]), v['yn'].at([n])
            rep.equal('repeatable', E, c, v['y2'].at([n]), Y, r.facts, 'second evaluation')
            cut = {}

            def xs(t, name):
                return [a for a in tm.all_atoms(t) if a.kind == 'el' and a.args[0] == name]
            bad = [a for a in xs(Y, 'x') + xs(S, 'x') + xs(Z, 'xm') if a.args[1][0] is not n]
            rep.cond(not bad, 'row-independence', E, c, f'the value of a row depends on {bad[:2]}')
            gone = [a for a in xs(S, 'x') if a.args[1][2].cint is None or a.args[1][3].cint is None or
                    a.args[1][2].cint * m.W + a.args[1][3].cint in CONV_SCOPES]
            rep.cond(not gone, 'marginal', E, c, f'a marginalised pixel still enters the value: {gone[:2]}')
            # a marginalised pixel is a pixel whose leaf density is one; an observed one keeps its density
            F = leaf_free(Y, 'x', lambda p: p[2].cint * m.W + p[3].cint in CONV_SCOPES)
            rep.equal('marginal', E, c, S, F, r.facts, 'value with marginalised pixels vs. the complete-data value with their densities set to one')
            for pix in range(m.H * m.W):
                for ch in range(m.C):
                    a = el('xm', n, lift(ch), lift(pix // m.W), lift(pix % m.W))
                    Zm = tm.assume(Z, tm.isnan(a), True)
                    if any(q is a.single() for q in tm.all_atoms(Zm)) and not any(not b and 'isnan' in repr(z) for z, b in r.facts):
                        rep.bad('missing', E, c, f'a missing pixel still enters the value: {a}')
            if all(b for z, b in r.facts if 'isnan' in repr(z)):
                full = Z
                for ch in range(m.C):
                    for pix in range(m.H * m.W):
                        full = tm.assume(full, tm.isnan(el('xm', n, lift(ch), lift(pix // m.W), lift(pix % m.W))), pix in CONV_SCOPES)
                rep.equal('missing', E, c, tm.subst_base(full, {'xm': lambda *i: el('x', *i)}), S, r.facts,
                          'value with missing pixels vs. the value with the same pixels marginalised')
        except Unk as ex:
            rep.und('marginal', E, c, str(ex))


def leaf_free(t, name, gone):
    """every log density of a pixel for which gone(position) replaced by zero"""
    def f(a):
        if a.kind == 'fn' and a.args[0] == 'logp':
            hit = [z for z in tm.all_atoms(lift(a)) if z.kind == 'el' and z.args[0] == name]
            if len({z.args[1] for z in hit}) != 1 or any(p.cint is None for p in hit[0].args[1][1:]):
                raise Unk(f'leaf {a}')
            return ZERO if gone(hit[0].args[1]) else lift(a)
        return None
    return tm.rebuild(t, f)


def conv_state(rep, tier):
    cs = [Cz('bottom-up', 'sum-prod', 2, 4, 2), Cz('top-down', 'prod-sum', 1, 2, 4, 2)]
    if tier == 'thorough':
        cs = conv_contexts(tier)
    rep.parallel(_conv_use, [(m, mode, mpe, mode == 'nan' and not mpe) for m in cs for mode in ('nan', 'scopes') for mpe in (False, True)])
    rep.parallel(_conv_marginal, [(m, lf) for m in cs for lf in ('Normal', 'Binomial', 'RatNormal', 'Bernoulli', 'Categorical')])


def sumconv(rep, tier):
    rep.parallel(_sumconv, [(K, H, W, ev, mpe, temp) for K, H, W in ((1, 2, 2), (2, 2, 4), (2, 4, 2)) for ev in (False, True) for mpe in (False, True)
                            for temp in (False, True) if not (temp and (ev or mpe))])


def _sumconv(rep, K, H, W, ev, mpe, temp):
    c = f'kernel={K},{H}x{W}{",evidence" if ev else ""}{",mpe" if mpe else ""}{",temperature" if temp else ""}'
    Ci, Co, N = sym('Ci', 2), sym('Co', 2), sym('N')
    T_ = sym('T', 0, integer=False, pos=True)

    def run(it):
        L = it.call(it.repo_attr(CONV, 'SumConv'), [], dict(in_channels=py(Ci), out_channels=py(Co), kernel_size=K))
        it.training = False
        base('x')
        base('e')
        x = mk([N, Ci, lift(H), lift(W)], lambda v: el('x', *v))
        e = mk([N, Ci, lift(H), lift(W)], lambda v: el('e', *v))
        y = it.call(L, [x], {})
        ye = it.call(L, [e], {})
        yx = it.call(L, [mk([N, Ci, lift(H), lift(W)], lambda v: el('e', *v) + el('x', *v))], {})
        Ctx = it.repo_attr(CONV, 'SamplingContext')
        base('s', rng=Co, integer=True)
        io = mk([N, Co, lift(H), lift(W)], lambda v: eq0(el('s', v[0], v[2], v[3]) - v[1]))
        kw = dict(num_samples=py(N), indices_out=io, is_mpe=mpe, is_differentiable=True)
        if temp:
            kw['temperature_sums'] = T_
        ctx = it.call(Ctx, [], kw)
        if ev:
            it.call(it.getattr(L, '_enable_input_cache'), [], {})
            it.call(L, [e], {})
        ctx = it.call(it.getattr(L, 'sample'), [], dict(ctx=ctx))
        return y, ye, yx, it.getattr(ctx, 'indices_out')
    for r in rep.paths('sum-layer', 'SumConv', c, explore(LOADER, run)):
        y, ye, yx, o = r.value
        if not rep.cond(same_shape(y, [N, Co, lift(H), lift(W)]) and same_shape(o, [N, Ci, lift(H), lift(W)]), 'shapes', 'SumConv', c, f'{y!r} {o!r}'[:200]):
            continue
        for h in range(H):
            for w in range(W):
                p = [lift(h), lift(w)]
                n, k = opq('nn', N), opq('kk', Co)
                cc = f'{c},position ({h},{w})'
                try:
                    Y = y.at([n, k] + p)
                    mass = tm.subst_base(Y, {'x': lambda *i: ZERO})
                    rep.equal('layer-mass', 'SumConv.forward', cc, tm.expand(mass), ZERO, r.facts, 'every child of log value zero')
                    u, v = tm.newvar(Ci)
                    ex = tm.red('sum', [(u, Ci)], o.at([n, v] + p) * tm.exp(el('x', n, v, *p)))
                    J = tm.expand(joint(ex))
                    s = el('s', n, *p)
                    if ev:
                        ref = tm.div(tm.exp(yx.at([n, s] + p)), tm.exp(ye.at([n, s] + p)))
                    else:
                        ref = tm.exp(y.at([n, s] + p))
                    if temp:
                        ref = tempered(ref, T_)
                except Unk as e:
                    rep.und('selection-law', 'SumConv.sample', cc, str(e))
                    continue
                rep.equal('selection-law', 'SumConv.sample', cc, J, ref, r.facts, 'E[value of the selected child] vs. the forward value')
