"""rules on the path from 8-bit images to model inputs: bit reduction, dequantisation, leaf supports, bits per dimension"""
import math
from fractions import Fraction
from ..scen import *
from .model import LOADER, same_shape
from .leaves import domain, interval, Lz, sizes_of, pos3
from .. import torchmodel as tmod

U = P + 'utils'
DI = P + 'dist'


def _image(k):
    """an image whose pixels are the 8-bit levels k, scaled to [0, 1]"""
    return mk([sym('N'), sym('C'), sym('H'), sym('W')], lambda v: k(*v) * lift(Fraction(1, 255)), store=Storage('input:image'))


def levels(rep, tier):
    rep.parallel(_levels, [(n,) for n in range(1, 9)])


def _levels(rep, n):
    base('level', rng=256, integer=True)
    I = [opq(f'i{j}', sym(s)) for j, s in enumerate('NCHW')]
    k = el('level', *I)
    step = 2 ** (8 - n)
    want = tm.fdiv(k, lift(step))
    con = U + '.preprocess'
    for gauss in (False, True):
        for deq in (False, True):
            c = f'{n} bits,{"continuous" if gauss else "discrete"},dequantize={deq}'

            def run(it):
                x = _image(lambda *v: el('level', *v))
                y = it.call(it.repo_attr(U, 'preprocess'), [x, n, 2 ** n], dict(dequantize=deq, has_gauss_dist=gauss))
                return x, y, list(it.rng)
            for r in rep.paths('B1 every 8-bit level is kept at its top bits', con, c, explore(LOADER, run)):
                x, y, rng = r.value
                if not isinstance(y, Ten) or not same_shape(y, [sym(s) for s in 'NCHW']):
                    rep.bad('B1 every 8-bit level is kept at its top bits', con, c, f'result is not an image of the same shape: {y!r}'[:300])
                    continue
                t = y.at(I)
                rep.equal('B2 preprocessing leaves its input image alone', con, c, x.at(I), k * lift(Fraction(1, 255)), r.facts, 'the image passed in')
                if not gauss:
                    rep.cond(y.dtype == 'long', 'B3 discrete data are integers', con, c, f'dtype {y.dtype}')
                    rep.equal('B1 every 8-bit level is kept at its top bits', con, c, t, want, r.facts, 'model input')
                    domain(rep, 'B4 discrete data lie in 0..2^n-1', con, c, t, 0, 2 ** n - 1, what='model input')
                    rep.cond(not rng, 'B5 only dequantisation is random', con, c, 'discrete preprocessing draws random numbers')
                    continue
                noise = [a for a in tm.all_atoms(t) if a.kind == 'draw']
                if not deq:
                    rep.cond(not noise and not rng, 'B5 only dequantisation is random', con, c, f'random terms {noise[:2]!r}')
                    rep.equal('B6 continuous data are level / 2^n - 1/2', con, c, t, want * lift(Fraction(1, 2 ** n)) - lift(Fraction(1, 2)), r.facts, 'model input')
                else:
                    if len(noise) != 1 or noise[0].args[1] != 'rand':
                        rep.bad('B7 dequantisation adds uniform noise of one bin per pixel', con, c, f'noise terms: {noise[:3]!r}'[:300])
                        continue
                    rep.equal('B7 dequantisation adds uniform noise of one bin per pixel', con, c, t,
                              want * lift(Fraction(1, 2 ** n)) - lift(Fraction(1, 2)) + lift(noise[0]) * lift(Fraction(1, 2 ** n)), r.facts, 'model input')
                    J = [opq('j0', sym('N'))] + I[1:]
                    rep.cond(repr(y.at(J)).replace('j0', 'i0') == repr(t) and noise[0] not in tm.all_atoms(y.at(J)), 'B8 every pixel draws its own noise', con, c, 'pixels share their noise')
                domain(rep, 'B9 continuous data lie in [-1/2, 1/2]', con, c, t, -0.5, 0.5, what='model input')


# ------------------------------------------------------------------ the leaf chosen for a data set of n-bit images
DISTS = dict(NORMAL='Normal', NORMAL_RAT='RatNormal', BINOMIAL='Binomial', CATEGORICAL='Categorical',
             MULTIVARIATE_NORMAL='MultivariateNormal', PIECEWISE_LINEAR='PiecewiseLinear')


def supports(rep, tier):
    rep.parallel(_supports, [(d, n) for d in DISTS for n in ((1, 3, 8) if tier == 'quick' else range(1, 9))])
    _kinds(rep)
    _ranges(rep)


def _cfg(it, n):
    o = Obj(it.repo_attr(DI, 'Domain'))
    o.attrs.update(n_bits=n, n_bins=2 ** n, min_sigma=0.01, max_sigma=0.75, multivariate_cardinality=2, dist=None)
    return o


def _supports(rep, dist, n):
    con = DI + '.get_distribution'
    rule = 'B10 the leaf configured for n-bit data supports exactly the levels 0..2^n-1'
    c = f'{dist},{n} bits'
    leaf = DISTS[dist]
    z = Lz(leaf, D=4, C=1, I=2, R=1, N=2, kw={})

    def run(it):
        dd = it.getattr(it.repo_attr(DI, 'Dist'), dist)
        kw, ty = it.call(it.repo_attr(DI, 'get_distribution'), [dd, _cfg(it, n)], {})
        if not isinstance(kw, dict):
            kw, ty = ty, kw
        if leaf == 'PiecewiseLinear':
            return kw, ty, None, None, None
        lf = it.call(ty, [], dict(kw, num_features=4, num_channels=1, num_leaves=2, num_repetitions=1))
        it.training = False
        base('x')
        x = mk([2, 1, 4], lambda v: el('x', *v), store=Storage('input:x'))
        f = it.call(lf, [x], dict(marginalized_scopes=None))
        z.card = kw.get('cardinality', 1)
        from .leaves import parents
        io, ir, S, RH = parents(z, False)
        s = it.call(it.getattr(lf, 'sample'), [], dict(ctx=new_ctx(it, num_samples=2, indices_out=io, indices_repetition=ir, is_differentiable=False)))
        top = None
        if dist in ('BINOMIAL', 'CATEGORICAL'):
            top = [it.call(lf, [mk([2, 1, 4], lambda v, j=j: lift(j), 'float')], dict(marginalized_scopes=None)) for j in (0, 2 ** n - 1)]
        return kw, ty, f, s, top
    for r in rep.paths(rule, con, c, explore(LOADER, run)):
        kw, ty, f, s, top = r.value
        rep.cond(getattr(ty, 'name', None) == leaf, 'B11 every distribution name yields its leaf class', con, c, f'{ty!r} for {dist}')
        if leaf == 'PiecewiseLinear':
            continue
        if not isinstance(f, Ten) or not isinstance(s, Ten):
            rep.und(rule, con, c, 'leaf not analysable')
            continue
        t = s.at([opq('nn', 2), opq('cc', 1), opq('dd', 4)])
        F = f.at([opq('nn', 2), opq('cc', 1), opq('gg', f.shape[2]), opq('oo', 2), ZERO])
        if top is not None:
            l, ls, h, hs = interval(t)
            ds = [a for a in tm.all_atoms(t) if a.kind == 'draw']
            if abs(l) == math.inf or abs(h) == math.inf:
                rep.und(rule, con, c, f'support of {t!r} not bounded'[:300])
            else:
                rep.cond(l == 0 and h == 2 ** n - 1, rule, con, c, f'{leaf} built for {n}-bit data takes the values {l:g}..{h:g} instead of 0..{2 ** n - 1}')
            for g in top:
                rep.cond(isinstance(g, Ten), rule, con, c, 'an extreme level has no density')
        elif dist == 'NORMAL_RAT':
            lp = [a for a in tm.all_atoms(F) if a.kind == 'fn' and a.args[0] == 'logp']
            if len(lp) != 1:
                rep.und('B12 the configured range of standard deviations is handed on', con, c, f'{F!r}'[:200])
            else:
                domain(rep, 'B12 the configured range of standard deviations is handed on', con, c, lp[0].args[1][2], 0.01, 0.75, what='standard deviation')
                l, ls, h, hs = interval(lp[0].args[1][2])
                rep.cond(abs(l - 0.01) < 1e-9 and abs(h - 0.75) < 1e-9, 'B12 the configured range of standard deviations is handed on', con, c, f'standard deviations range over {l:g}..{h:g}')
        elif dist == 'MULTIVARIATE_NORMAL':
            rep.cond(kw.get('cardinality') == 2 and f.shape[2] is lift(2), 'B13 the configured cardinality is handed on', con, c, f'{kw!r}')


def _kinds(rep):
    rule, con = 'B14 a distribution is discrete exactly when its samples are levels', DI + '.get_data_type_from_dist'

    def run(it):
        D = it.repo_attr(DI, 'Dist')
        out = {}
        for m in it.iterate(D):
            try:
                out[m.name] = it.call(it.repo_attr(DI, 'get_data_type_from_dist'), [m], {}).name
            except PyRaise as e:
                out[m.name] = f'raises {e.etype}'
        try:
            it.call(it.repo_attr(DI, 'get_data_type_from_dist'), ['no such distribution'], {})
            bad = 'accepted'
        except PyRaise as e:
            bad = e.etype
        return out, bad
    for r in rep.paths(rule, con, '', explore(LOADER, run)):
        out, bad = r.value
        for k in set(out) | set(DISTS):
            want = 'DISCRETE' if k in ('BINOMIAL', 'CATEGORICAL') else 'CONTINUOUS' if k in DISTS else None
            if want is None:
                rep.cond(out[k] in ('DISCRETE', 'CONTINUOUS'), rule, con, k, f'{k}: {out.get(k)}')
            else:
                rep.cond(out.get(k) == want, rule, con, k, f'{k}: {out.get(k)}')
        rep.cond(bad == 'ValueError', rule, con, 'unknown name', f'an unknown distribution is not refused: {bad}')


def _ranges(rep):
    rule, con = 'B15 a domain holds exactly the values it was built from', DI + '.Domain'

    def run(it):
        D = it.repo_attr(DI, 'Domain')
        g = lambda o: {k: it.getattr(o, k) for k in ('values', 'min', 'max', 'data_type')}
        out = {}
        for lo, hi in ((0, 1), (0, 7), (-2, 3), (5, 5)):
            out['range', lo, hi] = g(it.call(it.getattr(D, 'discrete_range'), [lo, hi], {}))
        out['bins'] = g(it.call(it.getattr(D, 'discrete_bins'), [[4, 1, 9]], {}))
        out['cont'] = g(it.call(it.getattr(D, 'continuous_range'), [-2.5, 3.5], {}))
        out['inf'] = g(it.call(it.getattr(D, 'continuous_inf_support'), [], {}))
        for k, o in out.items():
            if o['values'] is not None:
                o['values'] = [norm(v) for v in it.iterate(o['values'])]
        return out
    for r in rep.paths(rule, con, '', explore(LOADER, run)):
        for k, o in r.value.items():
            ty = getattr(o['data_type'], 'name', None)
            lo, hi = norm(o['min']), norm(o['max'])
            if k[0] == 'range':
                rep.cond(o['values'] == list(range(k[1], k[2] + 1)) and (lo, hi) == k[1:] and ty == 'DISCRETE', rule, con, f'discrete_range{k[1:]}', f'{o!r}'[:300])
            elif k == 'bins':
                rep.cond(o['values'] == [4, 1, 9] and (lo, hi) == (1, 9) and ty == 'DISCRETE', rule, con, 'discrete_bins([4, 1, 9])', f'{o!r}'[:300])
            elif k == 'cont':
                rep.cond(o['values'] is None and (float(lo), float(hi)) == (-2.5, 3.5) and ty == 'CONTINUOUS', rule, con, 'continuous_range(-2.5, 3.5)', f'{o!r}'[:300])
            else:
                rep.cond(lift(o['max']) is INF and lift(o['min']) is -INF and ty == 'CONTINUOUS', rule, con, 'continuous_inf_support()', f'{o!r}'[:300])


# ------------------------------------------------------------------ bits per dimension
def bpd(rep, tier):
    rule, con = 'B16 bits per dimension is the mean negative log2 probability of the levels per pixel value', U + '.calc_bpd'
    for gauss in (True, False):
        for shape in ((1, 2, 3), (3, 4, 4), (1, 1, 1)):
            for n in (1, 5, 8):
                def run(it):
                    base('ll')
                    lp = mk([sym('N')], lambda v: el('ll', *v))
                    return it.call(it.repo_attr(U, 'calc_bpd'), [lp, shape, gauss, 2 ** n], {})
                c = f'{"continuous" if gauss else "discrete"},image={shape},{n} bits'
                px = shape[0] * shape[1] * shape[2]
                for r in rep.paths(rule, con, c, explore(LOADER, run)):
                    v = r.value
                    t = v.at([]) if isinstance(v, Ten) else lift(v)
                    nv, x = tm.newvar(sym('N'))
                    mean = tm.div(tm.red_sum([(nv, sym('N'))], el('ll', x)), sym('N'))
                    want = -tm.div(mean, tm.log(lift(2)) * px)
                    if gauss:
                        want = want + tm.div(tm.log(lift(2 ** n)), tm.log(lift(2)))
                    rep.equal(rule, con, c, t, want, r.facts, 'bits per dimension')
