"""rules on value validation, accepted configurations and dropout"""
from ..scen import *
from ..equal import compare
from .model import LOADER, EIN, Mz, q, contexts, same_shape
from .infer import LEAFKW, build, data
from .. import torchmodel as tmod
from fractions import Fraction


def _exc(r):
    return None if r.exc is None else r.exc.etype


# ------------------------------------------------------------------ check_valid
def values(rep, tier):
    rep.parallel(_values, [(t, lo, hi) for t in ('int', 'float') for lo in (None, 'sym', 0, -1) for hi in (None, 'sym', 0, 1)])


def _values(rep, ty, lo, hi):
    rule, con = 'C1 a value is accepted exactly when lower <= value < upper', 'simple_einet.type_checks.check_valid'
    c = f'{ty},lower={lo},upper={hi}'

    def run(it):
        cv = it.repo_attr(P + 'type_checks', 'check_valid')
        base('v', integer=ty == 'int'); base('lo', integer=ty == 'int'); base('hi', integer=ty == 'int')
        v = el('v')
        L = el('lo') if lo == 'sym' else lo
        H = el('hi') if hi == 'sym' else hi
        return it.call(cv, [v, tmod.builtin(it, ty)], dict(lower_bound=L, upper_bound=H))
    v, L, H = el('v'), el('lo') if lo == 'sym' else lo, el('hi') if hi == 'sym' else hi
    req = (ONE if L is None else tm.ge0(v - lift(L))) * (ONE if H is None else ONE - tm.ge0(v - lift(H)))
    good = []
    for r in explore(LOADER, run):
        rep.saw(r.it)
        if r.it.tainted or r.it.unknown or isinstance(r.value, Unknown):
            rep.und(rule, con, c, '; '.join(r.it.unknown[:2]))
            return
        good.append(r)

    def sub(t, w):
        return tm.subst_base(t, {'v': lambda: w})
    for pos, w in [('arbitrary value', v)] + ([] if L is None else [('value = lower', lift(L))]) + ([] if H is None else [('value = upper', lift(H))]):
        acc = ZERO
        for r in good:
            if r.exc is None:
                p = ONE
                for a, b in r.facts:
                    p = p * (tm.lift(a) if b else ONE - tm.lift(a))
                acc = acc + p
        rep.equal(rule, con, f'{c},{pos}', sub(acc, w), sub(req, w), what='accepted indicator')
    for r in good:
        if r.exc is None:
            rep.equal('C2 an accepted value is returned unchanged', con, c, lift(r.value), v, facts=r.facts)
        else:
            rep.cond(_exc(r) == 'OutOfBoundsException', 'C3 a value outside its bounds raises OutOfBoundsException', con, c, str(r.exc))


TYPES = [  # value, expected type, accepted
    ('integer', 'int', True), ('integer', 'float', False), ('float', 'float', True), ('float', 'int', False),
    ('boolean', 'int', False), ('string', 'int', False), ('string', 'float', False), ('list', 'int', False),
    ('none', 'int', False), ('none', 'float', False), ('float tensor', 'float', True), ('float tensor', 'int', False),
    ('integer tensor', 'int', True), ('integer tensor', 'float', False)]


def types(rep, tier):
    rule, con = 'C4 only values of the expected type are accepted', 'simple_einet.type_checks.check_valid'
    for what, ty, ok in TYPES:
        for none in (False, True):
            def run(it):
                base('t')
                v = {'integer': 3, 'float': 2.5, 'boolean': True, 'string': '3', 'list': [3], 'none': None}.get(what)
                if what.endswith('tensor'):
                    v = mk([], lambda i: el('t'), dtype='long' if what.startswith('i') else 'float')
                return it.call(it.repo_attr(P + 'type_checks', 'check_valid'), [v, tmod.builtin(it, ty)], dict(allow_none=none))
            c = f'{what} where {ty} is expected' + (', None allowed' if none else '')
            want = ok or (none and what == 'none')
            for r in explore(LOADER, run):
                rep.saw(r.it)
                if r.it.tainted or isinstance(r.value, Unknown):
                    rep.und(rule, con, c, '; '.join(r.it.unknown[:2]))
                elif r.exc is not None:
                    rep.cond(not want, rule, con, c, f'raises {r.exc}')
                else:
                    rep.cond(want, rule, con, c, f'returns {r.value!r}')
                    if what == 'none':
                        rep.cond(r.value is None, rule, con, c, f'None becomes {r.value!r}')


# ------------------------------------------------------------------ configurations
def rejected(rep, tier):
    """configurations that no model supports are refused when the model is built"""
    bad = [dict(num_features=1), dict(num_features=0), dict(num_features=-4), dict(num_features=None), dict(num_features=4.0), dict(num_channels=0),
           dict(num_channels=None), dict(num_sums=0), dict(num_sums=2.5), dict(num_leaves=0), dict(num_repetitions=0), dict(num_repetitions=None),
           dict(num_classes=0), dict(num_classes=None), dict(depth=-1), dict(depth=None), dict(depth=1.0), dict(dropout=-0.1), dict(dropout=1.0),
           dict(dropout=1.5), dict(dropout=None), dict(leaf_type=None), dict(leaf_type='Normal'), dict(leaf_type='int'), dict(layer_type='sum'),
           dict(layer_type=None), dict(structure='sideways'), dict(structure=None), dict(layer_type='einsum', structure='bottom-up'),
           dict(layer_type='linsum2', structure='bottom-up'), dict(leaf='MultivariateNormal', structure='bottom-up', leaf_kwargs=dict(cardinality=2))]
    ok = [dict(num_features=2), dict(dropout=0.0), dict(dropout=0.99), dict(depth=0)]
    for D in range(2, 10 if tier == 'quick' else 18):
        for d in range(0, 5 if tier == 'quick' else 6):
            for card in (1, 2, 3):
                for s in ('top-down', 'bottom-up'):
                    if card > 1 and s == 'bottom-up':
                        continue
                    k = dict(num_features=D, depth=d, structure=s)
                    if card > 1:
                        k.update(leaf='MultivariateNormal', leaf_kwargs=dict(cardinality=card))
                    if 2 ** d <= D // card and D % card == 0:
                        ok.append(k)
                    else:
                        bad.append(k)
    jobs = [(b, False) for b in bad] + [(b, True) for b in ok]
    rep.parallel(_config, [(jobs[i::8],) for i in range(8)])


def _config(rep, jobs):
    for kw, good in jobs:
        rule = 'C5 a valid configuration is accepted' if good else 'C6 an invalid configuration is refused when the model is built'
        con = 'simple_einet.einet.EinetConfig.assert_valid'
        k = dict(num_features=4, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1, depth=1, dropout=0.0,
                 layer_type='linsum', structure='top-down')
        k.update(kw)
        leaf = k.pop('leaf', 'Normal')

        def run(it):
            kk = dict(k)
            if 'leaf_type' not in kk:
                kk['leaf_type'] = it.repo_attr(P + 'layers.distributions.' + LEAFS[leaf], leaf)
            elif kk['leaf_type'] == 'int':
                kk['leaf_type'] = tmod.builtin(it, 'int')
            cfg = it.call(it.repo_attr(EIN, 'EinetConfig'), [], kk)
            if good:
                return it.call(it.getattr(cfg, 'assert_valid'), [], {})
            return it.call(it.repo_attr(EIN, 'Einet'), [cfg], {})
        c = ', '.join(f'{a}={b}' for a, b in kw.items())
        for r in explore(LOADER, run):
            rep.saw(r.it)
            if r.it.tainted or isinstance(r.value, Unknown):
                rep.und(rule, con, c, '; '.join(r.it.unknown[:2]))
            elif r.exc is not None:
                rep.cond(not good, rule, con, c, f'raises {r.exc}')
            else:
                rep.cond(good, rule, con, c, 'a model is built')


def usable(rep, tier):
    """every supported combination of structure, layer, depth, sizes and leaf builds and runs"""
    ms = [(m, 'Normal') for m in contexts(tier) + contexts(tier, K=3)]
    for layer, s in (('linsum', 'top-down'), ('linsum2', 'top-down'), ('einsum', 'top-down'), ('linsum', 'bottom-up')):
        for R in (1, 2):
            D = 4 * q
            ms += [(Mz(layer, s, 1, D, R, K=3, C=3), 'Normal'), (Mz(layer, s, 2, D, R, S=1, I=1), 'Normal'),
                   (Mz(layer, s, 1, D, R, S=1, I=sym('I', 2), K=3), 'Normal'), (Mz(layer, s, 2, D, R, I=1, K=1), 'Normal')]
    for leaf in list(LEAFKW) + ['MultiDistributionLayer']:
        if leaf == 'Normal':
            continue
        for s in ('top-down', 'bottom-up'):
            for R in (1, 2):
                if s == 'bottom-up' and leaf == 'MultivariateNormal':
                    continue
                for depth, C in ((0, 1), (1, 1)) + (((1, 2),) if leaf != 'MultiDistributionLayer' else ()):
                    D = lift(4) if leaf == 'MultiDistributionLayer' else 4 * q
                    ms.append((Mz('linsum', s, depth, D, R, C=C), leaf))
    rep.parallel(_usable, [(m, lf, w) for m, lf in ms for w in ('forward', 'forward-images', 'sample', 'sample-diff', 'mpe', 'mpe-diff', 'posterior')
                           if (w != 'posterior' or m.K.cint == 3) and (w != 'forward-images' or m.depth == 1)])


def _usable(rep, m, leaf, what):
    rule, con = 'C8 a valid configuration builds a model that runs', {'forward': 'Einet.forward', 'forward-images': 'Einet.forward',
                                                                     'posterior': 'Einet.posterior'}.get(what, 'Einet.mpe' if what.startswith('mpe') else 'Einet.sample')
    c = f'{m},leaf={leaf},{what}'

    def run(it):
        net = build(it, m, leaf)
        diff = what.endswith('diff')
        if what == 'forward-images':
            base('x')
            # an image whose height times width is the number of features
            x = mk([m.N, m.C, m.D, ONE], lambda v: el('x', v[0], v[1], v[2]), store=Storage('input:x'))
            return it.call(net, [x], {})
        if what == 'forward':
            return it.call(net, [data(m)], {})
        if what == 'posterior':
            return it.call(it.getattr(net, 'posterior'), [data(m)], {})
        if what.startswith('mpe'):
            return it.call(it.getattr(net, 'mpe'), [], dict(is_differentiable=diff))
        kw = dict(num_samples=py(m.N), is_differentiable=diff)
        if m.K.cint == 3:
            kw['class_index'] = 2
        return it.call(it.getattr(net, 'sample'), [], kw)
    want = [m.N, m.K] if what in ('forward', 'forward-images', 'posterior') else [ONE if what.startswith('mpe') else m.N, m.C, m.D]
    for r in rep.paths(rule, con, c, explore(LOADER, run)):
        if not isinstance(r.value, Ten):
            rep.und(rule, con, c, repr(r.value)[:100])
            continue
        rep.cond(same_shape(r.value, want), 'C9 the result has the documented shape', con, c, f'shape {r.value.shape}, documented {want}')


# ------------------------------------------------------------------ dropout
def dropout(rep, tier):
    jobs = []
    for kind in SUMS:
        for z in ([Sz('even', R=R, Ci=sym('Ci', 2)) for R in (1, 2)] if kind == 'EinsumLayer' else [Sz(p, R=R, Ci=sym('Ci', 2)) for p in ('even', 'odd') for R in (1, 2)]
                  if kind.startswith('Lin') else [Sz('any', R=R, Ci=sym('Ci', 2)) for R in (1, 2)]):
            for mode in ('train', 'eval', 'zero'):
                jobs.append((kind, z, mode))
    rep.parallel(_dropout, jobs)


def _dropout(rep, kind, z, mode):
    con = f'{kind}.forward'
    c = f'{z},{"training" if mode == "train" else "evaluation" if mode == "eval" else "training, no dropout"}'

    def run(it):
        from .infer import input_writes
        lay = new_sum(it, kind, z, dropout=0.0 if mode == 'zero' else 0.25)
        x = sum_input(kind, z)
        b0 = x.body
        it.training = False
        r = it.call(lay, [x], {})
        ex = {}
        if mode == 'train':
            base('m', boolean=True)
            for how in ('input', 'product') if kind == 'LinsumLayer' else ('input',):
                def drop(*i, how=how):
                    j = list(i)
                    keep = ONE
                    if how == 'product':
                        keep, j[1] = eq0(tm.mod(i[1], lift(2))), tm.fdiv(i[1], lift(2))
                    return el('x', *i) + sel(el('m', *j) * keep, -INF, ZERO)
                ex[how] = it.call(lay, [sum_input(kind, z, drop)], {})
        it.training = mode != 'eval'
        i0, r0 = len(it.effects), len(it.rng)
        y = it.call(lay, [x], {})
        return dict(r=r, y=y, ex=ex, w=input_writes(it, i0) or x.body is not b0 or x.stale, rng=[e for e in it.rng[r0:] if e[1] == 'draw'])
    good = rep.paths('D0 forward runs', con, c, explore(LOADER, run))
    rejected = []
    for r in good:
        v = r.value
        rep.cond(not v['w'], 'D1 dropout leaves the caller\'s input alone', con, c, str(v['w']))
        if not (isinstance(v['y'], Ten) and isinstance(v['r'], Ten)):
            rep.und('D2 dropout law', con, c, repr(v['y'])[:200])
            continue
        pos = [opq(f'i{j}', s) for j, s in enumerate(v['y'].shape)]
        y, ref = v['y'].at(pos), v['r'].at(pos)
        if mode != 'train':
            rep.cond(not v['rng'], 'D2 no random draws without active dropout', con, c, str(v['rng']))
            rep.equal('D3 no effect without active dropout', con, c, y, ref, r.facts)
            continue
        ds = {}
        for a in sorted(_draws(y), key=lambda a: a.key):
            ds.setdefault(a.args[0], a)
        if not rep.cond(ds, 'D4 active dropout draws a mask', con, c, 'the training-mode value does not depend on any draw'):
            continue
        for a in ds.values():
            if a.args[1] != 'bernoulli' or a.args[3]:
                rep.und('D5 each value is dropped with the configured probability', con, c, repr(a))
                continue
            rep.equal('D5 each value is dropped with the configured probability', con, c, a.args[4][0], lift(Fraction(1, 4)))
        _mask(rep, con, c, y, ref, r, ds, {h: e.at(pos) for h, e in v['ex'].items()}, rejected)
    if rejected:
        rep.cond(not all(rejected), 'D9 one of several children can be dropped', con, c, 'every mask that drops a child is rejected')


def _draws(t):
    return {a for a in tm.all_atoms(t) if a.kind == 'draw'}


def _mask(rep, con, c, y, ref, r, ds, expected, rejected):
    """the value as a function of the drawn mask"""
    facts = [(lift(t), w) for t, w in r.facts]

    a0 = ds[min(ds)]
    node0 = [None if x.fv else x for x in a0.args[2]]            # the child axis is the one that is summed over
    node = {k: node0 for k, a in ds.items() if len(a.args[2]) == len(node0)}

    def value(t, f):
        """a path condition when the draws are given by f; quantified conditions at the probed sum node"""
        a = t.single()
        if a is not None and a.kind == 'red' and a.args[0] == 'any':
            names, sizes, body = tm.open_red(a)
            mp = {}
            for d in _draws(body):
                for i, o in zip(d.args[2], node.get(d.args[0], [])):
                    v = i.single()
                    if o is not None and v is not None and v.kind == 'var' and v.args[0] in names:
                        mp[v.args[0]] = o
            t = subst(body, mp)
        return tm.rebuild(t, f)

    def possible(f):
        """the path can be taken when the draws are given by f; None: not decided"""
        st = True
        for t, w in facts:
            k = value(t, f).const
            if k is None:
                st = None
            elif bool(k) != w:
                return False
        if st is None:
            A = ONE
            for t, w in facts:
                t = tm.rebuild(t, f)
                A = A * (t if w else ONE - t)
            st = {'diff': True, 'eq': False}.get(compare(A, ZERO)[0])
        return st

    def none(a):
        return ZERO if a.kind == 'draw' else None
    rule = 'D6 nothing dropped, nothing changed'
    if possible(none):
        rep.equal(rule, con, c, tm.rebuild(y, none), ref)
    # all children of one sum node drawn for removal, everything else kept: must not be accepted
    rule = 'D7 a sum node never loses all of its children'
    def whole(a):
        if a.kind != 'draw':
            return None
        nd = node0
        if len(nd) != len(a.args[2]):
            return None
        p = ONE
        for i, o in zip(a.args[2], nd):
            if o is not None:
                p = p * eq0(i - o)
        return p
    st = possible(whole)
    if st is False:
        rep.ok(rule, con, c)
    elif st is True:
        rep.bad(rule, con, c, f'a mask that removes every child of one sum node is accepted [{" & ".join(r.conds())}]')
    else:
        rep.und(rule, con, c, f'{facts}')
    ch = [k for k, o in enumerate(node0) if o is None]

    def one(a):
        w = whole(a)
        if w is None or len(ch) != 1:
            return w
        return w * eq0(a.args[2][ch[0]])
    rejected.append(possible(one) is False)
    # one mask: the value equals evaluation mode with the dropped children at probability zero
    if len(ds) == 1:
        rule = 'D8 dropping removes children of sum nodes and nothing else'

        def m(a):
            if a.kind != 'draw':
                return None
            i = list(a.args[2])
            return el('m', *(i[:3] + i[4:] if len(i) == 5 else i))
        y1 = tm.rebuild(y, m)
        f1 = [(tm.rebuild(t, m), w) for t, w in facts]
        got = []
        for how, e in expected.items():
            s, wit = compare(y1, e, f1)
            got.append((s, wit, e))
            if s == 'eq':
                rep.ok(rule, con, c)
                return
        if all(g[0] == 'diff' for g in got):
            rep.bad(rule, con, c, f'{got[0][1]}; derived {y1!r} required {got[0][2]!r}'[:1200])
        else:
            rep.und(rule, con, c, f'{[g[:2] for g in got]} {y1!r}  VS {got[0][2]!r}')


def dropout_models(rep, tier):
    """EinetConfig.dropout is active in every mixing step of the model"""
    jobs = []
    for layer, s in (('linsum', 'top-down'), ('linsum2', 'top-down'), ('einsum', 'top-down'), ('linsum', 'bottom-up')):
        for depth in (0, 1, 2):
            for R in (1, 2):
                jobs.append((Mz(layer, s, depth, 2 ** depth * q, R, S=sym('S', 2), I=sym('I', 2)),))
    rep.parallel(_dropout_model, jobs)


def _dropout_model(rep, m):
    rule, con, c = 'D10 the configured dropout is active in every intermediate layer', 'Einet.forward', f'{m},training'

    def run(it):
        net = build(it, m, 'Normal', dropout=0.25)
        x = data(m)
        it.training = True
        r0 = len(it.rng)
        y = it.call(net, [x], {})
        n = len([e for e in it.rng[r0:] if e[1] == 'draw'])
        it.training = False
        r1 = len(it.rng)
        it.call(net, [x], {})
        return n, len([e for e in it.rng[r1:] if e[1] == 'draw']), x.stale
    need = max(m.depth, 1 if m.structure == 'top-down' else 0) + (1 if m.R.cint == 2 else 0)
    for r in rep.paths(rule, con, c, explore(LOADER, run, first=True)):
        n, e, st = r.value
        rep.cond(n >= need, rule, con, c, f'{n} masks drawn, the circuit has {need} intermediate layers')
        rep.cond(e == 0, 'D11 dropout is inactive in evaluation mode', con, c, f'{e} random draws')
        rep.cond(not st, 'D1 dropout leaves the caller\'s input alone', con, c)
