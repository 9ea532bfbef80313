"""rules on the piecewise linear leaf: histograms, densities, samples and modes"""
import itertools
from fractions import Fraction
from ..scen import *
from .model import LOADER, same_shape
from .. import torchmodel as tmod

PW = P + 'layers.distributions.piecewise_linear'
HI = P + 'histogram'
DI = P + 'dist'
EDGES = [[Fraction(0), Fraction(1, 2), Fraction(2), Fraction(3)], [Fraction(-1), Fraction(1)], [Fraction(-3), Fraction(-2), Fraction(1)]]
ONEF = Fraction(1)
RANGE = (1, 4)                # levels of a discrete variable: not starting at zero, so that a level and its position differ


def edges_of(c, f):
    return EDGES[(c + f) % 3]


def _setup(it, kinds, C, L, R, M, alpha, dens=None, empty=False, place=None):
    """a leaf layer fitted to M rows; cluster of row m in repetition r is (m + r) mod L, histograms are opaque positive densities"""
    F = len(kinds)
    # empty: nothing falls into the last cluster
    E = int(empty)
    sims = [[(m + r) % (L - E) if m != 1 else (r + 1) % (L - E) for m in range(M)] for r in range(R)]
    it.kmeans = dict(K=L, fit=sims[0], sim=sims[0], sims=sims)
    base('data')
    base('centroid')
    data = mk([M, C, F], lambda v: el('data', *v), store=Storage('input:data'))
    hists = []
    if place is not None:
        place(data)

    def rows_of(it, t):
        """which entries of the data a histogram is built from: (rows, channel, feature)"""
        if isinstance(t, Unknown):
            raise Unk(t.why)
        n = [s.cint for s in t.shape]
        if None in n:
            raise Unk('number of rows of a histogram')
        out = []
        for v in itertools.product(*map(range, n)):
            a = t.at([lift(i) for i in v]).single()
            if a is None or a.kind != 'el' or a.args[0] != 'data':
                raise Unk('a histogram of transformed data')
            out.append(tuple(i.cint for i in a.args[1]))
        return out

    def bin_edges(it, f, a, k):
        b = it.bind_args(f, a, k)
        r = rows_of(it, b['a'])
        e = edges_of(r[0][1], r[0][2]) if r else [Fraction(0), ONEF]
        return (tmod.as_ten(it, [lift(v) for v in e]), (e[0], e[-1], len(e) - 1))
    f = it.repo_attr(PW, '_get_bin_edges_torch')
    it.hooks[f.qual] = bin_edges

    def histogram(it, a, k):
        x, bins, w, d = tmod.bind(it, 'histogram', a, {q: v for q, v in k.items() if q != 'range'}, 'input', 'bins', ('weight', None), ('density', False))
        if w is not None or not isinstance(bins, Ten):
            raise Unk('histogram arguments')
        n = bins.shape[0].cint
        e = [bins.at([lift(i)]).const for i in range(n)]
        if None in e:
            raise Unk('histogram bins')
        j = len(hists)
        base(f'h{j}')
        hists.append((rows_of(it, x), e))
        if not hists[j][0]:
            return _hist(mk([n - 1], lambda v: tm.NAN if d else ZERO), bins)
        val = (lambda i: tm.exp(el(f'h{j}', i))) if dens is None else (lambda i: tmod.pick(None, [lift(v) for v in dens(j, n - 1)], i))
        h = mk([n - 1], lambda v: val(v[0]) * (ONE if d else tmod.pick(None, [lift((e[i + 1] - e[i]) * len(hists[j][0])) for i in range(n - 1)], v[0])))
        return _hist(h, bins)
    tmod.EXT['torch.histogram'] = histogram
    Dom = it.repo_attr(DI, 'Domain')
    doms = [it.call(it.getattr(Dom, 'discrete_range'), [RANGE[0], RANGE[1]], {}) if q == 'd' else it.call(it.getattr(Dom, 'continuous_range'), [-9, 9], {}) for q in kinds]
    leaf = it.call(it.repo_attr(PW, 'PiecewiseLinear'), [], dict(num_features=F, num_channels=C, num_leaves=L, num_repetitions=R, alpha=alpha))
    it.training = False
    it.call(it.getattr(leaf, 'initialize'), [data, doms], {})
    return leaf, data, sims, hists


def _hist(h, bins):
    o = Obj(Cls('histogram', None, None))
    o.attrs.update(hist=h, bin_edges=bins)
    return o


W1 = 'W1 each leaf is fitted to its own cluster, channel and feature'
W2 = 'W2 one histogram bin per level of a discrete variable'
W3 = 'W3 the density is proportional to the (smoothed) histogram'
W4 = 'W4 the density is linear between the knots'
W5 = 'W5 the density vanishes outside the histogram'
W6 = 'W6 the density has mass one'
W7 = 'W7 discrete samples follow the density of the levels'
W8 = 'W8 each segment is sampled with its mass'
W9 = 'W9 the mode has the highest density'
W10 = 'W10 every drawn value uses its own draw'
W11 = 'W11 fitting leaves the data alone'
W12 = 'W12 an unfitted leaf refuses to answer'


def _fits(kinds, C, L, R, M, sims, hists, alpha, rep, con, c, dens=None):
    """per leaf (r, l, f, c): histogram edges and (smoothed) densities as recorded; None if a histogram is wrong"""
    out, used = {}, set()
    for r, l, f, ch in itertools.product(range(R), range(L), range(len(kinds)), range(C)):
        rows = [(m, ch, f) for m in range(M) if sims[r][m] == l]
        j = [i for i, (h, e) in enumerate(hists) if sorted(h) == rows and i not in used]
        if not rows:
            # nothing fell into this cluster: a uniform density
            n = RANGE[1] - RANGE[0] + 1 if kinds[f] == 'd' else 1
            out[r, l, f, ch] = (list(range(RANGE[0], RANGE[1] + 2)) if kinds[f] == 'd' else [Fraction(0), ONEF], [ONE] * n)
            continue
        if not rep.cond(bool(j), W1, con, c, f'no histogram of rows {[m for m, _, _ in rows]}, channel {ch}, feature {f} (repetition {r}, leaf {l})'):
            return None
        used.add(j[0])
        e = hists[j[0]][1]
        n = len(e) - 1
        h = [tm.exp(el(f'h{j[0]}', lift(i))) for i in range(n)] if dens is None else [lift(v) for v in dens(j[0], n)]
        if alpha:
            h = [tm.div(x * len(rows) + lift(alpha), lift(len(rows) + n * alpha)) for x in h]
        if kinds[f] == 'd' and not rep.cond(e == list(range(RANGE[0], RANGE[1] + 2)), W2, con, c, f'edges {e}'):
            return None
        out[r, l, f, ch] = (e, h)
    return out


def densities(rep, tier):
    jobs = [(k, C, L, R, M, al) for k, C, L, R, M in (('dc', 1, 2, 1, 4), ('cd', 2, 2, 2, 4), ('cc', 2, 1, 2, 3), ('dd', 1, 2, 2, 4), ('c', 1, 3, 1, 4), ('dcc', 2, 2, 1, 3))
            for al in (0.0, 1.0, 0.5)]
    rep.parallel(_densities, jobs + [(k, 1, 2, 1, 2, al, True) for k in ('d', 'dc') for al in (0.0, 1.0)])
    rep.parallel(_draws, [j[:5] + (s,) for j in jobs if j[5] == 0.0 for s in range(6 if tier != 'quick' else 3)])
    _unfitted(rep)


def _probes(e, tag):
    """positions at which a density over the edges e is read: name -> position, and the symbols' ranges"""
    n = len(e) - 1
    mid = [(e[i] + e[i + 1]) / 2 for i in range(n)]
    d = Fraction(1, 100)

    def between(name, a, b):
        return sym(f'{tag}.{name}', lo=a + d, hi=b - d, integer=False)
    out = {f'm{i}': lift(m) for i, m in enumerate(mid)}
    for i in range(n - 1):
        out[f's{i}'] = between(f's{i}', mid[i], mid[i + 1])
    out['l'] = between('l', e[0], mid[0])
    out['l0'] = lift((e[0] + mid[0]) / 2)
    out['r'] = between('r', mid[-1], e[-1])
    out['r0'] = lift((e[-1] + mid[-1]) / 2)
    out['below'] = between('below', e[0] - 5, e[0])
    out['above'] = between('above', e[-1], e[-1] + 5)
    return out, mid


def _affine(x, a, pa, b, pb):
    """the value at x of the line through (a, pa) and (b, pb)"""
    return pa + (x - a) * tm.div(pb - pa, lift(b - a))


def _densities(rep, kinds, C, L, R, M, alpha, empty=False):
    F = len(kinds)
    c = f'variables={kinds},channels={C},leaves={L},repetitions={R},rows={M},alpha={alpha}{",last cluster empty" if empty else ""}'
    con = PW + '.PiecewiseLinear'
    P_ = {}
    for f, ch in itertools.product(range(F), range(C)):
        if kinds[f] == 'd':
            P_[ch, f] = ({f'v{v}': lift(v) for v in range(RANGE[0] - 2, RANGE[1] + 3)}, None)
        else:
            P_[ch, f] = _probes(edges_of(ch, f), f'x{ch}{f}')
        P_[ch, f][0].update(half=lift(Fraction(1, 2)))
    K = max(len(p[0]) for p in P_.values())
    pos = {k: list(p[0].values()) + [list(p[0].values())[-1]] * (K - len(p[0])) for k, p in P_.items()}

    def run(it):
        leaf, data, sims, hists = _setup(it, kinds, C, L, R, M, alpha, None, empty)
        pk = lambda i, g, n: tmod.pick(None, [g(j) for j in range(n)], i)
        x = mk([K, C, F], lambda v: pk(v[1], lambda ch: pk(v[2], lambda f: pk(v[0], lambda q: pos[ch, f][q], K), F), C), store=Storage('input:x'))
        y = it.call(it.getattr(leaf, 'forward'), [x], dict(marginalized_scopes=None))
        wr = sorted({e['where'] for e in it.effects if e['kind'] in ('mutate', 'setdata') and str(e.get('tag') or '').startswith('input:')})
        return y, sims, hists, wr
    for p in rep.paths(W3, con, c, explore(LOADER, run)):
        y, sims, hists, wr = p.value
        rep.cond(not wr, W11, con, c, f'written at {wr[:2]}')
        if not isinstance(y, Ten) or not same_shape(y, [lift(K), lift(C), lift(F), lift(L), lift(R)]):
            rep.bad(W3, con, c, f'shape of the log densities: {y!r}'[:200])
            continue
        fits = _fits(kinds, C, L, R, M, sims, hists, alpha, rep, con, c)
        if fits is None:
            continue
        for (r, l, f, ch), (e, h) in fits.items():
            n = len(e) - 1
            at = lambda name: tm.exp(y.at([lift(list(P_[ch, f][0]).index(name)), lift(ch), lift(f), lift(l), lift(r)]))
            here = f'{c},channel={ch},variable={f},leaf={l},repetition={r}'
            facts = list(p.facts)
            if kinds[f] == 'd':
                v = [at(f'v{i}') for i in range(RANGE[0], RANGE[1] + 1)]
                tot = sum(h, ZERO)
                for i in range(n):
                    rep.equal(W3, con, here, v[i] * tot, h[i], facts, f'density of level {RANGE[0] + i} times the sum')
                rep.equal(W6, con, here, sum(v, ZERO), ONE, facts, 'sum over the levels')
                for i in (RANGE[0] - 2, RANGE[0] - 1, RANGE[1] + 1, RANGE[1] + 2):
                    _zero(rep, con, here, y.at([lift(list(P_[ch, f][0]).index(f'v{i}')), lift(ch), lift(f), lift(l), lift(r)]), f'value {i}')
                continue
            if not any(sims[r][m] == l for m in range(M)):
                k = at('half').const
                if k is None and at('half') is not tm.NAN and tm.NAN_A not in tm.all_atoms(at('half')):
                    rep.und(W3, con, here, f'density of a leaf nothing fell into: {at("half")!r}'[:200])
                else:
                    rep.cond(k is not None and abs(k - 2) < Fraction(1, 1000), W3, con, here, f'density in the middle of [0, 1] of a leaf nothing fell into: {at("half")!r}'[:200])
                continue
            mid = P_[ch, f][1]
            v = [at(f'm{i}') for i in range(n)]
            for i in range(1, n):
                rep.equal(W3, con, here, v[i] * h[0], v[0] * h[i], facts, f'density at midpoint {i} against midpoint 0')
            for i in range(n - 1):
                rep.equal(W4, con, here, at(f's{i}'), _affine(P_[ch, f][0][f's{i}'], mid[i], v[i], mid[i + 1], v[i + 1]), facts, f'between midpoints {i} and {i + 1}')
            ends = []
            for side, m, vm, q, edge in (('l', mid[0], v[0], (e[0] + mid[0]) / 2, e[0]), ('r', mid[-1], v[-1], (e[-1] + mid[-1]) / 2, e[-1])):
                v0 = at(side + '0')
                rep.equal(W4, con, here, at(side), _affine(P_[ch, f][0][side], m, vm, q, v0), facts, f'tail {side}')
                # the tail reaches zero at the outer edge of the histogram (up to a hair)
                ratio = _ratio(v0, vm)
                z = None if ratio is None or ratio == 1 else m + (q - m) / (1 - ratio)
                if z is None:
                    rep.und(W5, con, here, f'the tail {side} is not a multiple of the outermost density')
                    continue
                rep.cond(abs(z - edge) <= Fraction(1, 1000), W5, con, here, f'tail {side} reaches zero at {float(z):.4g}, the histogram ends at {float(edge):.4g}')
                ends.append(z)
            if len(ends) == 2:
                xs, ps = [ends[0]] + mid + [ends[1]], [ZERO] + v + [ZERO]
                mass = sum(((ps[i] + ps[i + 1]) * lift((xs[i + 1] - xs[i]) / 2) for i in range(len(xs) - 1)), ZERO)
                rep.equal(W6, con, here, mass, ONE, facts, 'area under the density')
            for side in ('below', 'above'):
                _zero(rep, con, here, y.at([lift(list(P_[ch, f][0]).index(side)), lift(ch), lift(f), lift(l), lift(r)]), side + ' the histogram')


def _ratio(a, b):
    """the constant a / b, None if there is none"""
    x, y = dict(a.ms), dict(b.ms)
    q = {x[m] / y[m] for m in y if m in x}
    return q.pop() if len(q) == 1 and set(x) == set(y) else None


def _zero(rep, con, c, t, what):
    k = t.const
    if k is None:
        if t is -tm.INF:
            rep.bad(W5, con, c, f'log density {what} is -inf')
        else:
            rep.und(W5, con, c, f'log density {what}: {t!r}'[:300])
        return
    rep.cond(k <= -50, W5, con, c, f'log density {what} is {float(k):.4g}')


def _draws(rep, kinds, C, L, R, M, shift):
    """samples and modes for known histograms: every level / segment is reached with its mass, the mode has the highest density"""
    F = len(kinds)
    c = f'variables={kinds},channels={C},leaves={L},repetitions={R},rows={M},histogram={shift}'
    con = PW + '.PiecewiseLinear'
    H = [Fraction(v) for v in (3, 1, 5, 2, 7, 4)]
    dens = lambda j, n: [H[(i * (1 + shift % 2) + j + shift) % 6] for i in range(n)]
    rows = [(l, r) for l in range(L) for r in range(R)] * 2
    N = len(rows)

    def run(it):
        leaf, data, sims, hists = _setup(it, kinds, C, L, R, M, 0.0, dens)
        out = {}
        for mode in (False, True):
            io = tmod.cast(it, tmod.as_ten(it, [[l] * F for l, r in rows]), 'long')
            ir = tmod.cast(it, tmod.as_ten(it, [r for l, r in rows]), 'long')
            ctx = new_ctx(it, num_samples=N, is_mpe=mode, indices_out=io, indices_repetition=ir)
            out[mode] = it.call(it.getattr(leaf, 'sample'), [], dict(ctx=ctx))
        return out, sims, hists
    for p in rep.paths(W8, con, c, explore(LOADER, run)):
        out, sims, hists = p.value
        fits = _fits(kinds, C, L, R, M, sims, hists, 0.0, rep, con, c, dens)
        if fits is None:
            continue
        seen = []
        for mode in (False, True):
            y = out[mode]
            if not isinstance(y, Ten) or not same_shape(y, [lift(N), lift(C), lift(F)]):
                rep.bad(W8 if not mode else W9, con, c, f'shape {y!r}'[:200])
                continue
            for (r, l, f, ch), (e, h) in fits.items():
                for n in [i for i in range(N) if rows[i] == (l, r)]:
                    t = y.at([lift(n), lift(ch), lift(f)])
                    here = f'{c},channel={ch},variable={f},leaf={l},repetition={r}'
                    kn = [(e[i] + e[i + 1]) / 2 for i in range(len(h))] if kinds[f] == 'c' else list(range(RANGE[0], RANGE[1] + 1))
                    if mode:
                        top = [k for k, v in zip(kn, h) if v.const == max(w.const for w in h)]
                        if t.const is None:
                            rep.und(W9, con, here, f'{t!r}'[:200])
                        else:
                            rep.cond(t.const in top, W9, con, here, f'mode {t.const}, densities {[(str(k), str(v)) for k, v in zip(kn, h)]}')
                        continue
                    ds = [a for a in tm.all_atoms(t) if a.kind == 'draw']
                    if len(ds) != 1:
                        rep.und(W8, con, here, f'draws of one sample: {ds[:3]!r}'[:200])
                        continue
                    seen.append(ds[0])
                    (_level_law if kinds[f] == 'd' else _segment_law)(rep, con, here, t, ds[0], e, kn, [v.const for v in h], p.facts)
        if len(seen) > 1:
            rep.cond(len(set(seen)) == len(seen), W10, con, c, f'{len(seen)} sampled values use {len(set(seen))} draws')


def _level_law(rep, con, c, t, d, e, kn, h, facts):
    if d.args[1] != 'cat' or len(d.args[3]) != 1 or d.args[3][0].cint is None:
        rep.und(W7, con, c, f'not drawn from finitely many levels: {t!r}'[:200])
        return
    n = d.args[3][0].cint
    lg = [tm.subst(d.args[4][0], {v: lift(i)}) for i in range(n) for v in [_cat_var(d)]] if n > 1 else [ZERO]
    ws = [tm.exp(x) for x in lg]
    tot = sum(ws, ZERO)
    prob = {}
    for i in range(n):
        v = tm.rebuild(t, (lambda a, i=i: lift(i) if a is d else None))
        if v.const is None:
            rep.und(W7, con, c, f'value of outcome {i}: {v!r}'[:200])
            return
        prob[v.const] = prob.get(v.const, ZERO) + ws[i]
    for k in sorted(set(prob) | set(kn)):
        w = h[kn.index(k)] if k in kn else 0
        rep.equal(W7, con, c, prob.get(k, ZERO) * lift(sum(h)), tot * lift(w), facts, f'probability of value {k} (levels {kn}), times both totals')


def _cat_var(d):
    fv = [a for a in d.args[4][0].fv] if d.args[4] else []
    return fv[0]


def _segment_law(rep, con, c, t, d, e, kn, h, facts):
    """t is an increasing function of one uniform number, affine between the cumulated masses of the segments"""
    if d.args[1] != 'rand':
        rep.und(W8, con, c, f'not drawn by inverting the distribution function: {t!r}'[:200])
        return
    xs, ps = [e[0]] + kn + [e[-1]], [0] + h + [0]
    mass = [(ps[i] + ps[i + 1]) * (xs[i + 1] - xs[i]) / 2 for i in range(len(xs) - 1)]
    cum = [Fraction(0)]
    for m in mass:
        cum.append(cum[-1] + m / sum(mass))
    eps = Fraction(1, 10 ** 5)
    for i in range(len(mass)):
        a, b = cum[i] + eps, cum[i + 1] - eps
        last = None
        for q in (a, a + (b - a) / 4, (a + b) / 2, a + 3 * (b - a) / 4, b):
            v = tm.rebuild(t, (lambda s, q=q: lift(q) if s is d else None)).const
            if v is None:
                rep.und(W8, con, c, 'sampled value is not a number')
                return
            tol = (xs[i + 1] - xs[i]) / 100
            ok = xs[i] - tol <= v <= xs[i + 1] + tol and (last is None or v > last)
            if not rep.cond(ok, W8, con, c, f'uniform number {float(q):.4f} in segment [{float(xs[i]):.3g}, {float(xs[i + 1]):.3g}] (mass {float(cum[i]):.3f}..{float(cum[i + 1]):.3f}) gives {float(v):.4g}'
                            + ('' if last is None else f' after {float(last):.4g}')):
                return
            last = v
        # the ends of the segment are reached
        for q, x in ((a, xs[i]), (b, xs[i + 1])):
            v = tm.rebuild(t, (lambda s, q=q: lift(q) if s is d else None)).const
            rep.cond(abs(v - x) <= (xs[i + 1] - xs[i]) / 50, W8, con, c, f'uniform number {float(q):.5f} gives {float(v):.4g}, the segment ends at {float(x):.4g}')


def _unfitted(rep):
    con = PW + '.PiecewiseLinear'

    def run(it):
        leaf = it.call(it.repo_attr(PW, 'PiecewiseLinear'), [], dict(num_features=2, num_channels=1, num_leaves=2, num_repetitions=1))
        it.training = False
        base('x')
        return it.call(it.getattr(leaf, 'forward'), [mk([3, 1, 2], lambda v: el('x', *v))], dict(marginalized_scopes=None))
    for p in explore(LOADER, run):
        rep.cond(p.exc is not None, W12, con, 'never fitted', 'log densities of a leaf that was never fitted')
