"""rules on the training harness: the models built from a configuration, the losses that are optimised and the figures that are reported"""
import itertools
from fractions import Fraction
from ..scen import *
from .model import LOADER, EIN, same_shape
from .leaves import domain
from .. import torchmodel as tmod

MP = 'models_pl'
DI = P + 'dist'
SET = {0: 'train', 1: 'val', 2: 'test'}
LEAF = dict(NORMAL='Normal', NORMAL_RAT='RatNormal', BINOMIAL='Binomial', CATEGORICAL='Categorical', MULTIVARIATE_NORMAL='MultivariateNormal')
T1 = 'T1 the circuit is built with the configured sizes'
T2 = 'T2 the loss is the mean negative log-likelihood of the preprocessed batch'
T3 = 'T3 the classification loss is the mean negative log posterior of the labels'
T4 = 'T4 the accuracy is the share of rows whose most probable class is the label'
T5 = 'T5 preprocessing leaves the batch alone'
T6 = 'T6 preprocessed data lie in the support of the leaves'
T7 = 'T7 what is reported is what was computed'
T10 = 'T10 generated images are samples of the circuit'
T8 = 'T8 unknown options are refused'
T9 = 'T9 every parameter is trained with the configured learning rate'


def _ns(**kw):
    o = Obj(Cls('cfg', None, None))
    o.attrs.update(kw)
    return o


def _cfg(it, dist, model='einet', mixture=False, n_bits=8, **kw):
    D = it.repo_attr(DI, 'Dist')
    a = dict(dataset='wine', dist=it.getattr(D, dist), model=model, mixture=mixture, n_bits=n_bits, dropout=Fraction(3, 10), min_sigma=Fraction(1, 8), max_sigma=Fraction(3, 2),
             multivariate_cardinality=2, num_classes=7, tag='t', epochs=10, lr=Fraction(1, 64), temperature_leaves=Fraction(1, 2), temperature_sums=Fraction(3, 4),
             einet=_ns(S=5, I=6, D=3, R=2, layer_type='linsum', structure='top-down'),
             convpc=_ns(channels=[3, 5], order='sum-prod', structure='bottom-up', kernel_size=2))
    a.update(kw)
    return _ns(**a)


def _stub(it, classes=True):
    """the external trainer: logging is recorded, the progress display does nothing"""
    rec = []
    if classes:
        for n in ('SpnGenerative', 'SpnDiscriminative'):
            c = it.repo_attr(MP, n)

            def log(it, a, k):
                a = [x for x in a if not (isinstance(x, Obj) and x.cls is not None and x.cls.name.startswith('Spn'))]
                rec.append((a[0] if a else k.get('name'), a[1] if len(a) > 1 else k.get('value'), k))
            c.attrs['log'] = Builtin('log', log)
            c.attrs['save_hyperparameters'] = Builtin('save_hyperparameters', lambda it, a, k: None)
    tmod.EXT['rtpt.RTPT'] = lambda it, a, k: _ns(start=Builtin('start', lambda it, a, k: None), step=Builtin('step', lambda it, a, k: None))
    return rec


def _spn(it, KC):
    """the circuit answers symbolically: log-likelihoods and class posteriors are opaque functions of the input it is given"""
    got = []
    E = it.repo_attr(EIN, 'Einet')
    base('ll')
    base('lp')

    def at(b, x, n, k):
        t = el(b, k)
        for i in itertools.product(*[range(s.cint) for s in x.shape[1:]]):
            t = t + el(b + '.w', k, *map(lift, i)) * x.at([n] + list(map(lift, i)))
        return t
    base('ll.w')
    base('lp.w')

    def fwd(it, f, a, k):
        b = it.bind_args(f, a, k)
        got.append(('forward', {q: v for q, v in b.items() if q not in ('self', 'x')}))
        return mk([b['x'].shape[0], lift(KC)], lambda v: at('ll', b['x'], v[0], v[1]))

    def post(it, f, a, k):
        b = it.bind_args(f, a, k)
        x = next(v for q, v in b.items() if q != 'self')
        got.append(('posterior', {}))
        return mk([x.shape[0], lift(KC)], lambda v: at('lp', x, v[0], v[1]))
    it.hooks[it.find_attr(E, 'forward').qual] = fwd
    it.hooks[it.find_attr(E, 'posterior').qual] = post
    it.hooks[it.find_attr(E, '__init__').qual] = lambda it, f, a, k: setattr(a[0], 'is_module', True)
    return at


def _model(it, name, dist, n_bits, KC, **kw):
    rec = _stub(it)
    at = _spn(it, KC)
    m = it.call(it.repo_attr(MP, name), [], dict(cfg=_cfg(it, dist, num_classes=KC, n_bits=n_bits, **kw), steps_per_epoch=3))
    return m, at, rec


def losses(rep, tier):
    rep.parallel(_generative, [(d, n, KC) for d in LEAF for n in (8, 5, 1) for KC in (1, 3) if n == 8 or d in ('BINOMIAL', 'CATEGORICAL')])
    rep.parallel(_discriminative, [(d, n, KC) for d in LEAF for n in (8, 5) for KC in (2, 3) if n == 8 or d in ('BINOMIAL', 'CATEGORICAL')])
    _refusals(rep)
    rep.parallel(_images, [(ds, n, df) for ds in ('mnist', 'svhn') for n in (1, 5) for df in (False, True)])
    _optimizer(rep)


def _pre(dist, n, x):
    """the input a leaf of this kind expects for a value of the batch"""
    return x if dist not in ('BINOMIAL', 'CATEGORICAL') else x * (2 ** n - 1)


SHAPE = [1, 1, 2]


def _batch(dist):
    """a batch; for discrete leaves its values are the levels 0..255 scaled to [0, 1]"""
    base('img')
    base('lev', integer=True, rng=256)
    disc = dist in ('BINOMIAL', 'CATEGORICAL')
    return (lambda *v: el('lev', *v) * lift(Fraction(1, 255))) if disc else (lambda *v: el('img', *v)), disc


def _data(it, dist, KC):
    N = sym('N', 2)
    raw, disc = _batch(dist)
    x = mk([N] + SHAPE, lambda v: raw(*v), store=Storage('input:batch'))
    base('y', integer=True, rng=KC)
    y = mk([N], lambda v: el('y', v[0]), 'long', store=Storage('input:labels'))
    return N, raw, disc, x, y


def _writes(it):
    return sorted({e['where'] for e in it.effects if e['kind'] in ('mutate', 'setdata') and str(e.get('tag') or '').startswith('input:')})


def _steps(it, m):
    """the three steps of the trainer: name -> call"""
    out = {'training_step': lambda b: it.call(it.getattr(m, 'training_step'), [b, 0], {}), 'validation_step': lambda b: it.call(it.getattr(m, 'validation_step'), [b, 0], {})}
    for i in SET:
        out[f'test_step {SET[i]}'] = lambda b, i=i: it.call(it.getattr(m, 'test_step'), [b, 0], dict(dataloader_idx=i))
    return out


def _generative(rep, dist, n, KC):
    con = MP + '.SpnGenerative'
    for step in ('training_step', 'validation_step', 'test_step train', 'test_step val', 'test_step test', 'sum'):
        c = f'{dist},{n} bits,classes={KC},{step}'

        def run(it):
            m, at, rec = _model(it, 'SpnGenerative', dist, n, KC)
            N, raw, disc, x, y = _data(it, dist, KC)
            it.training = step == 'training_step'
            if step == 'sum':
                r = it.call(it.getattr(m, 'negative_log_likelihood'), [x], dict(reduction='sum'))
                z = x
            else:
                r = _steps(it, m)[step]((x, y))
                z = it.call(it.getattr(m, 'preprocess'), [mk(x.shape, lambda v: raw(*v))], {})
            return r, at, rec, N, raw, disc, x, z, _writes(it)
        for p in rep.paths(T2, con, c, explore(LOADER, run)):
            r, at, rec, N, raw, disc, x, z, wr = p.value
            rep.cond(not wr, T5, con, c, f'the batch is written at {wr[:2]}')
            nn, u = tm.newvar(N)
            kn, ku = tm.newvar(lift(KC)) if KC > 1 else (None, ZERO)
            vs = [(nn, N)] + ([(kn, lift(KC))] if KC > 1 else [])
            want = -tm.red('sum', vs, at('ll', z, u, ku))
            if step != 'sum':
                want = tm.div(want, N * KC)
                if not step.startswith('test'):
                    _same(rep, T2, con, c, r, want, p.facts, 'returned value')
                _logged(rep, con, c, rec, step, {'loss': want, 'nll': want}, p.facts, need=True)
                _support(rep, con, c, dist, n, z, raw, p.facts)
            else:
                _same(rep, T2, con, c, r, want, p.facts, 'summed loss')


def _same(rep, rule, con, c, t, want, facts, what):
    if not isinstance(t, Ten) or t.dim != 0:
        rep.bad(rule, con, c, f'{what} is not a number: {t!r}'[:200])
        return
    rep.equal(rule, con, c, t.at([]), want, facts, what)


def _logged(rep, con, c, rec, step, want, facts, need=False):
    """every logged figure: named after the step and the data set it was computed on, and equal to what its name says"""
    pre = {'training_step': 'Train/', 'validation_step': 'Val/'}.get(step, 'Test/' + step.split()[-1])
    if need:
        rep.cond(bool(rec), T7, con, c, 'nothing is reported')
    for name, v, k in rec:
        if not isinstance(name, str) or not isinstance(v, Ten):
            rep.und(T7, con, c, f'logged {name!r}: {v!r}'[:200])
            continue
        rep.cond(name.startswith(pre), T7, con, c, f'{step} reports {name!r}')
        for kind, w in want.items():
            if name.lower().endswith(kind):
                _same(rep, T7, con, c, v, w, facts, f'logged {name}')


def _support(rep, con, c, dist, n, z, raw, facts):
    I = [opq('i0', sym('N', 2))] + [opq(f'i{j + 1}', lift(s)) for j, s in enumerate(SHAPE)]
    t = z.at(I)
    if dist not in ('BINOMIAL', 'CATEGORICAL'):
        rep.equal(T6, con, c, t, raw(*I), facts, 'continuous data are passed on unchanged')
        return
    domain(rep, T6, con, c, t, 0, 2 ** n - 1, what='model input')
    if n == 8:
        rep.equal(T6, con, c, t, raw(*I) * 255, facts, 'level given to the leaf')


def _discriminative(rep, dist, n, KC):
    con = MP + '.SpnDiscriminative'
    for step in ('training_step', 'validation_step', 'test_step train', 'test_step val', 'test_step test'):
        c = f'{dist},{n} bits,classes={KC},{step}'

        def run(it):
            m, at, rec = _model(it, 'SpnDiscriminative', dist, n, KC)
            N, raw, disc, x, y = _data(it, dist, KC)
            it.training = step == 'training_step'
            r = _steps(it, m)[step]((x, y))
            z = it.call(it.getattr(m, 'preprocess'), [mk(x.shape, lambda v: raw(*v))], {})
            return r, at, rec, N, y, z, _writes(it)
        for p in rep.paths(T3, con, c, explore(LOADER, run)):
            r, at, rec, N, y, z, wr = p.value
            rep.cond(not wr, T5, con, c, f'the batch is written at {wr[:2]}')
            nn, u = tm.newvar(N)
            loss = -tm.div(tm.red('sum', [(nn, N)], at('lp', z, u, el('y', u))), N)
            kn, ku = tm.newvar(lift(KC))
            acc = tm.div(tm.red('sum', [(nn, N)], tm.eq0(el('y', u) - tm.red('argmax', [(kn, lift(KC))], at('lp', z, u, ku)))), N)
            if not step.startswith('test'):
                _same(rep, T3, con, c, r, loss, p.facts, 'returned value')
            _logged(rep, con, c, rec, step, {'loss': loss, 'accuracy': acc}, p.facts, need=True)
            rep.cond(any(str(a[0]).endswith('accuracy') for a in rec), T4, con, c, 'no accuracy is reported')


def _refusals(rep):
    con = MP + '.SpnGenerative'

    def run(it):
        m, at, rec = _model(it, 'SpnGenerative', 'NORMAL', 8, 1)
        N, raw, disc, x, y = _data(it, 'NORMAL', 1)
        return it.call(it.getattr(m, 'negative_log_likelihood'), [x], dict(reduction='median'))
    for p in explore(LOADER, run):
        rep.cond(p.exc is not None, T8, con, 'reduction=median', 'an unknown reduction is accepted')
    for name in ('SpnGenerative', 'SpnDiscriminative'):
        def run(it):
            return _model(it, name, 'NORMAL', 8, 2, model='transformer')[0]
        for p in explore(LOADER, run):
            rep.cond(p.exc is not None, T8, MP + '.' + name, 'model=transformer', 'an unknown model is accepted')


def _images(rep, ds, n, df):
    con = MP + '.SpnGenerative'
    c = f'{ds},samples={n},differentiable={df}'
    ch, h = dict(mnist=(1, 28), svhn=(3, 32))[ds]

    def run(it):
        m, at, rec = _model(it, 'SpnGenerative', 'BINOMIAL', 8, 1, dataset=ds)
        got = []
        base('smp')

        def smp(it, f, a, k):
            b = it.bind_args(f, a, k)
            got.append(b)
            return mk([n, ch, h * h], lambda v: el('smp', *v))
        it.hooks[it.find_attr(it.repo_attr(EIN, 'Einet'), 'sample').qual] = smp
        return it.call(it.getattr(m, 'generate_samples'), [], dict(num_samples=n, differentiable=df)), got
    for p in rep.paths(T10, con, c, explore(LOADER, run)):
        y, got = p.value
        if not rep.cond(len(got) == 1 and got[0].get('num_samples') == n, T10, con, c, f'requests to the circuit: {[g.get("num_samples") for g in got]}'):
            continue
        rep.cond(bool(got[0].get('is_differentiable')) == df, T10, con, c, f'is_differentiable={got[0].get("is_differentiable")}')
        rep.cond(got[0].get('evidence') is None and got[0].get('class_index') is None, T10, con, c, 'samples are conditioned')
        if not isinstance(y, Ten) or not same_shape(y, [lift(v) for v in (n, ch, h, h)]):
            rep.bad(T10, con, c, f'shape of the generated images: {y!r}'[:200])
            continue
        i, j, k, l = opq('i', lift(n)), opq('j', lift(ch)), opq('k', lift(h)), opq('l', lift(h))
        a = {x for x in tm.all_atoms(y.at([i, j, k, l])) if x.kind == 'el' and x.args[0] == 'smp'}
        rep.cond(a == set(el('smp', i, j, k * h + l).atoms()), T10, con, c, f'pixel (j, k, l) shows {a!r}'[:200])


def _optimizer(rep):
    for name in ('SpnGenerative', 'SpnDiscriminative'):
        con = MP + '.' + name
        seen = []

        def run(it):
            del seen[:]
            m, at, rec = _model(it, name, 'NORMAL', 8, 2)
            tmod.EXT['torch.optim.Adam'] = lambda it, a, k: (seen.append(('opt', a, k)), _ns(kind='opt'))[1]
            tmod.EXT['torch.optim.lr_scheduler.MultiStepLR'] = lambda it, a, k: (seen.append(('sched', a, k)), _ns(kind='sched'))[1]
            m.attrs.setdefault('parameters', Builtin('parameters', lambda it, a, k: 'all parameters'))
            return it.call(it.getattr(m, 'configure_optimizers'), [], {})
        for p in rep.paths(T9, con, 'einet', explore(LOADER, run)):
            o = [s for s in seen if s[0] == 'opt']
            if len(o) != 1:
                rep.und(T9, con, 'einet', 'the optimiser is not Adam')
                continue
            a, k = o[0][1], o[0][2]
            ps = a[0] if a else k.get('params')
            lr = a[1] if len(a) > 1 else k.get('lr')
            rep.cond(ps == 'all parameters', T9, con, 'einet', f'parameters given to the optimiser: {ps!r}'[:200])
            rep.cond(lr == Fraction(1, 64), T9, con, 'einet', f'learning rate {lr!r}')


# ------------------------------------------------------------------ construction
def construction(rep, tier):
    rep.parallel(_einet, [(d, mix, K, ds) for d in LEAF for mix in (False, True) for K in (1, 4) for ds in ('wine', 'mnist', 'svhn')])
    rep.parallel(_convpc, [(d, mix, K, ds) for d in LEAF for mix in (False, True) for K in (1, 4) for ds in ('mnist', 'svhn')])


def _leaf_kwargs(d):
    return dict(NORMAL={}, NORMAL_RAT=dict(min_sigma=Fraction(1, 8), max_sigma=Fraction(3, 2)), BINOMIAL=dict(total_count=31), CATEGORICAL=dict(num_bins=32),
                MULTIVARIATE_NORMAL=dict(cardinality=2))[d]


def _built(it, make, kinds, d, mix, K, ds):
    seen = []
    for mod, cls in kinds:
        c = it.repo_attr(mod, cls)
        f = it.find_attr(c, '__init__')

        def init(it, f, a, k, cls=cls):
            seen.append((cls, it.bind_args(f, a, k)))
            return None
        it.hooks[f.qual] = init
    cfg = _cfg(it, d, n_bits=5, mixture=mix, dataset=ds)
    r = it.call(it.repo_attr(MP, make), [cfg], dict(num_classes=K))
    return r, seen, it.call(it.repo_attr(P + 'data', 'get_data_shape'), [ds], {})


def _fields(rep, rule, con, c, cfg, want, it):
    for n, w in want.items():
        v = cfg.attrs.get(n, MISSING) if isinstance(cfg, Obj) else MISSING
        if v is MISSING:
            rep.und(rule, con, c, f'configuration field {n} not found')
            continue
        if n == 'leaf_type':
            v = getattr(v, 'name', v)
        if isinstance(v, dict):
            v = {q: norm(x) if isinstance(x, T) else x for q, x in v.items()}
        ok = v == w or (isinstance(v, (int, float, Fraction)) and isinstance(w, (int, float, Fraction)) and float(v) == float(w))
        rep.cond(ok, rule, con, c, f'{n} = {v!r}, configured {w!r}')


def _einet(rep, d, mix, K, ds):
    con = MP + '.make_einet'
    c = f'{d},mixture={mix},classes={K},{ds}'
    px, ch = dict(wine=(13, 1), mnist=(28 * 28, 1), svhn=(32 * 32, 3))[ds]

    def run(it):
        return _built(it, 'make_einet', [(EIN, 'Einet'), (P + 'mixture', 'Mixture')], d, mix, K, ds) + (it,)
    for p in rep.paths(T1, con, c, explore(LOADER, run)):
        r, seen, sh, it = p.value
        if not rep.cond(len(seen) == 1 and seen[0][0] == ('Mixture' if mix else 'Einet'), T1, con, c, f'built {[s[0] for s in seen]}'):
            continue
        b = seen[0][1]
        rep.cond(isinstance(r, Obj) and r.cls.name == seen[0][0], T1, con, c, 'the circuit that was built is not returned')
        if mix:
            rep.cond(b.get('n_components') == K, T1, con, c, f'{b.get("n_components")} components')
        _fields(rep, T1, con, c, b.get('config'), dict(num_features=px, num_channels=ch, depth=3, num_sums=5, num_leaves=6, num_repetitions=2, num_classes=K,
                                                         leaf_type=LEAF[d], leaf_kwargs=_leaf_kwargs(d), dropout=Fraction(3, 10), layer_type='linsum', structure='top-down'), it)


def _convpc(rep, d, mix, K, ds):
    con = MP + '.make_convpc'
    c = f'{d},mixture={mix},classes={K},{ds}'
    px, ch, h = dict(mnist=(28 * 28, 1, 28), svhn=(32 * 32, 3, 32))[ds]

    def run(it):
        return _built(it, 'make_convpc', [(P + 'conv_pc', 'ConvPc'), (P + 'mixture', 'Mixture')], d, mix, K, ds) + (it,)
    for p in rep.paths(T1, con, c, explore(LOADER, run)):
        r, seen, sh, it = p.value
        if not rep.cond(len(seen) == 1 and seen[0][0] == ('Mixture' if mix else 'ConvPc'), T1, con, c, f'built {[s[0] for s in seen]}'):
            continue
        b = seen[0][1]
        rep.cond(isinstance(r, Obj) and r.cls.name == seen[0][0], T1, con, c, 'the circuit that was built is not returned')
        if mix:
            rep.cond(b.get('n_components') == K, T1, con, c, f'{b.get("n_components")} components')
        s = b.get('data_shape')
        rep.cond(s is not None and list(it.iterate(s) or s) == [ch, h, h], T1, con, c, f'image shape {s!r}')
        _fields(rep, T1, con, c, b.get('config'), dict(channels=[3, 5], num_channels=ch, num_classes=K, leaf_type=LEAF[d], leaf_kwargs=_leaf_kwargs(d), structure='bottom-up',
                                                         order='sum-prod', kernel_size=2), it)
