"""rules on where tensors live: a model moved to another device computes, samples and completes there"""
from ..scen import *
from .. import device as dv
from .model import LOADER, same_shape, Mz, few, q
from .infer import LEAFKW, grid, build, data, some_scopes
from .families import conv_contexts, new_conv, _img, CONV_SCOPES
from .. import torchmodel as tmod
from fractions import Fraction

dv.install()


def on(t):
    t.store.dev = 'M'
    return t


def start(it, net):
    """from here on tensors carry their device; net.to('M') has just been called"""
    dv.move(net)
    for o in list(_plain(net)):
        for v in o.attrs.values():
            for t in dv.collect(v, []):
                if t.store.dev is None:
                    t.store.dev = 'cpu'


def _plain(net, seen=None):
    seen = set() if seen is None else seen
    if isinstance(net, Obj) and id(net) not in seen:
        seen.add(id(net))
        yield net
        for m in net.mods.values():
            yield from _plain(m, seen)


def devices(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        for mode in MODES:
            if leaf == 'MultivariateNormal' and mode == 'nan' or mode.startswith('class') and m.K.cint == 1 or mode == 'posterior' and m.K.cint == 1:
                continue
            if mode in ('mpe', 'completion', 'diff-completion') and leaf == 'MultivariateNormal':
                continue
            jobs.append((tier, m, leaf, mode))
    rep.parallel(_devices, jobs)
    rep.parallel(_conv_devices, [(m, mode) for m in conv_contexts(tier)[:None if tier == 'thorough' else 4] for mode in CMODES])
    rep.parallel(_mixture_devices, [(K, a, KC, mode) for K, a, KC in ((2, (0, 1, 0), 1), (3, (2, 0, 1), 3)) for mode in XMODES])
    rep.parallel(_table_devices, [(kinds, mode) for kinds in ('cd', 'd') for mode in ('forward', 'sample', 'mpe')])
    _fitted_then_moved(rep)


MODES = ('forward', 'nan', 'scopes', 'posterior', 'sample', 'diff', 'mpe', 'class', 'class-list', 'class-diff', 'class-list-diff', 'completion', 'scoped', 'diff-completion', 'params')
CMODES = ('forward', 'sample', 'completion', 'scoped', 'mpe')


def _report(rep, E, c, ps, shape=None):
    for r in rep.paths('device', E, c, ps):
        y, ev, n = r.value
        rep.cond(not ev, 'device', E, c, '; '.join(f'{op}: {why} at {w}' for op, why, w in ev[:3]))
        ts = dv.collect(y, [])
        if not ts:
            rep.und('result-device', E, c, repr(y)[:80])
            continue
        for t in ts:
            if t.store.dev is None:
                rep.und('result-device', E, c, 'device of the result not derived')
            else:
                rep.cond(t.store.dev == 'M', 'result-device', E, c, f'the result lives on the {t.store.dev}, not on the device of the model')


def _devices(rep, tier, m, leaf, mode):
    c = f'{m},leaf={leaf},{mode}'
    E = {'forward': 'Einet.forward', 'nan': 'Einet.forward', 'scopes': 'Einet.forward', 'posterior': 'Einet.posterior', 'mpe': 'Einet.mpe'}.get(mode, 'Einet.sample')

    def run(it):
        it.dev = D = dv.State(it)
        net = build(it, m, leaf)
        D.events.clear()
        start(it, net)
        x = on(data(m, 'x', maynan=mode in ('nan', 'completion', 'diff-completion', 'mpe')))
        call = lambda fn, **kw: it.call(it.getattr(net, fn), [], kw)
        if mode in ('forward', 'nan', 'scopes'):
            y = it.call(net, [x], dict(marginalized_scopes=some_scopes(m)) if mode == 'scopes' else {})
        elif mode == 'posterior':
            y = call('posterior', x=x)
        elif mode in ('sample', 'diff'):
            y = call('sample', num_samples=m.N, is_differentiable=mode == 'diff', seed=3 if mode == 'sample' else None)
        elif mode == 'params':
            if leaf not in ('Normal', 'RatNormal'):
                return None
            y = call('sample', num_samples=m.N, is_differentiable=True, return_leaf_params=True)
        elif mode == 'class':
            y = call('sample', num_samples=m.N, class_index=1)
        elif mode == 'class-diff':
            y = call('sample', num_samples=m.N, class_index=1, is_differentiable=True)
        elif mode.startswith('class-list'):
            y = call('sample', num_samples=3, class_index=[2, 0, 1], is_differentiable=mode.endswith('diff'))
        elif mode == 'mpe':
            y = call('mpe', evidence=x)
        elif mode == 'scoped':
            y = call('sample', evidence=x, marginalized_scopes=some_scopes(m))
        else:
            y = call('sample', evidence=x, is_differentiable=mode == 'diff-completion')
        return y, list(D.events), D.checked
    ps = [r for r in explore(LOADER, run)]
    if mode == 'params' and all(r.exc is None and r.value is None for r in ps):
        return
    _report(rep, E, c, ps)


def _conv_devices(rep, m, mode):
    c = f'{m},{mode}'
    E = 'ConvPc.forward' if mode == 'forward' else 'ConvPc.sample'

    def run(it):
        it.dev = D = dv.State(it)
        net = new_conv(it, m)
        D.events.clear()
        start(it, net)
        x = on(_img(m, 'x', maynan=mode == 'completion'))
        sample = lambda **kw: it.call(it.getattr(net, 'sample'), [], kw)
        if mode == 'forward':
            y = it.call(net, [x], {})
        elif mode == 'sample':
            y = sample(num_samples=m.N)
        elif mode == 'mpe':
            y = sample(num_samples=m.N, is_mpe=True)
        elif mode == 'scoped':
            y = sample(evidence=x, marginalized_scopes=list(CONV_SCOPES))
        else:
            y = sample(evidence=x)
        return y, list(D.events), D.checked
    _report(rep, E, c, explore(LOADER, run))


XMODES = ('forward', 'scopes', 'sample', 'completion', 'scoped', 'mpe')


def _mixture_devices(rep, K, a, KC, mode):
    from . import families as fam
    c = f'components={K},assignment={a},classes={KC},{mode}'
    E = 'Mixture.forward' if mode in ('forward', 'scopes') else 'Mixture.mpe' if mode == 'mpe' else 'Mixture.sample'

    def run(it):
        it.dev = D = dv.State(it)
        m, rec = fam._mixture(it, K, 4, 1, KC, [i % K for i in range(K + 1)])
        D.events.clear()
        for q_, h in list(it.hooks.items()):
            it.hooks[q_] = (lambda h: lambda it, f, a, k: on(h(it, f, a, k)))(h)
        start(it, m)
        it.kmeans['sim'] = list(a)
        base('x')
        x = on(mk([len(a), 1, 4], lambda v: el('x', *v), store=Storage('input:x')))
        it.oracle = lambda it, lg, sizes: on(tmod.cast(it, tmod.as_ten(it, [i % K for i in range(sizes[0].cint)]), 'long'))
        if mode in ('forward', 'scopes'):
            y = it.call(m, [x], {} if mode == 'forward' else dict(marginalized_scope=[0, 2]))
        else:
            kw = dict(num_samples=3) if mode == 'sample' else dict(evidence=x)
            if mode == 'scoped':
                kw['marginalized_scopes'] = [0, 2]
            y = it.call(it.getattr(m, 'mpe' if mode == 'mpe' else 'sample'), [], kw)
        return y, list(D.events), D.checked
    _report(rep, E, c, explore(LOADER, run))


def _table_devices(rep, kinds, mode):
    from . import pwl
    c = f'variables={kinds},{mode}'
    E = pwl.PW + '.PiecewiseLinear'
    F = len(kinds)
    H = [Fraction(v) for v in (3, 1, 5, 2, 7, 4)]

    def run(it):
        it.dev = D = dv.State(it)
        leaf, data, sims, hists = pwl._setup(it, kinds, 1, 2, 2, 5, 0.0, lambda j, n: [H[(i + j) % 6] for i in range(n)], place=on)
        dv.move(leaf)
        if mode == 'forward':
            base('x')
            x = on(mk([sym('N'), 1, F], lambda v: lift(Fraction(1, 3)), store=Storage('input:x')))
            y = it.call(it.getattr(leaf, 'forward'), [x], dict(marginalized_scopes=None))
        else:
            io = on(tmod.cast(it, tmod.as_ten(it, [[l] * F for l in (0, 1)]), 'long'))
            ir = on(tmod.cast(it, tmod.as_ten(it, [1, 0]), 'long'))
            y = it.call(it.getattr(leaf, 'sample'), [], dict(ctx=new_ctx(it, num_samples=2, is_mpe=mode == 'mpe', indices_out=io, indices_repetition=ir)))
        return y, list(D.events), D.checked
    _report(rep, E, c, explore(LOADER, run))


def _fitted_then_moved(rep):
    """a piecewise linear leaf fitted on one device and moved to another afterwards"""
    from . import pwl
    E = pwl.PW + '.PiecewiseLinear'
    c = 'fitted, then moved'

    def run(it):
        it.dev = D = dv.State(it)
        leaf, data, sims, hists = pwl._setup(it, 'cd', 1, 2, 2, 5, 0.0, lambda j, n: [lift(1)] * n, place=lambda t: setattr(t.store, 'dev', 'cpu'))
        start(it, leaf)
        base('x')
        x = on(mk([sym('N'), 1, 2], lambda v: lift(Fraction(1, 3)), store=Storage('input:x')))
        return it.call(it.getattr(leaf, 'forward'), [x], dict(marginalized_scopes=None)), list(D.events)
    for r in rep.paths('moved-fit', E, c, explore(LOADER, run)):
        y, ev = r.value
        rep.cond(not ev, 'moved-fit', E, c, '; '.join(f'{op}: {why} at {w}' for op, why, w in ev[:2]))
