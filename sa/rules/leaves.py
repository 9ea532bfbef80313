"""rules on the input distributions: parameter domains, agreement of density, sample and mode, per-variable assignment"""
import math
from fractions import Fraction
from ..scen import *
from ..equal import compare
from .model import LOADER, same_shape
from .infer import LEAFKW, multi_kw

DISC = ('Bernoulli', 'Binomial', 'Categorical')


class Lz:
    """sizes of one leaf layer"""

    def __init__(self, leaf, D=None, C=None, I=None, R=None, N=None, kw=None, label=''):
        self.leaf = leaf
        self.kw = dict(LEAFKW.get(leaf, {}) if kw is None else kw)
        card = self.kw.get('cardinality', 1)
        self.D = lift(D) if D is not None else card * sym('q')
        self.C = sym('C') if C is None else lift(C)
        self.I = sym('I') if I is None else lift(I)
        self.R = sym('R', 2) if R is None else lift(R)
        self.N = sym('N') if N is None else lift(N)
        self.card, self.label = card, label

    def __str__(self):
        return f'{self.leaf}({", ".join(f"{k}={v}" for k, v in self.kw.items())}),features={self.D},channels={self.C},leaves={self.I},repetitions={self.R}'


def new_leaf(it, z, **kw):
    Cl = it.repo_attr(P + 'layers.distributions.' + LEAFS[z.leaf], z.leaf)
    k = dict(num_features=py(z.D), num_channels=py(z.C), num_leaves=py(z.I), num_repetitions=py(z.R))
    k.update(z.kw)
    k.update(kw)
    return it.call(Cl, [], k)


def parents(z, diff):
    base('s', rng=z.I, integer=True)
    base('rho', rng=z.R, integer=True)
    S = lambda n, k: el('s', n, k) if z.I.cint != 1 else ZERO
    RH = lambda n: el('rho', n) if z.R.cint != 1 else ZERO
    # one parent choice per leaf: with cardinality > 1 the variables of a leaf share it
    G = (lambda k: tm.fdiv(k, lift(z.card))) if z.card > 1 else (lambda k: k)
    if diff:
        io = mk([z.N, z.D, z.I], lambda v: eq0(S(v[0], G(v[1])) - v[2]), store=Storage('input:indices_out'))
        ir = mk([z.N, z.R], lambda v: eq0(RH(v[0]) - v[1]), store=Storage('input:indices_repetition'))
    else:
        io = mk([z.N, z.D], lambda v: S(v[0], G(v[1])), dtype='long', store=Storage('input:indices_out'))
        ir = mk([z.N], lambda v: RH(v[0]), dtype='long', store=Storage('input:indices_repetition'))
    return io, ir, S, RH


def sizes_of(leaf, tier):
    out = [Lz(leaf)]
    one = [dict(I=1), dict(R=1), dict(N=1), dict(C=1)]
    if tier == 'thorough':
        one += [dict(I=1, R=1), dict(N=1, R=1), dict(N=1, I=1, R=1, C=1)]
    if leaf != 'MultivariateNormal':
        one.append(dict(D=1))
    for o in one:
        out.append(Lz(leaf, **o))
    if leaf == 'RatNormal':
        for kw in (dict(min_sigma=0.5, max_sigma=2.0), dict(min_mean=-1.0, max_mean=3.0), dict(min_mean=0.0, max_mean=1.0), dict(min_mean=-1.0, max_mean=0.0)):
            out.append(Lz(leaf, kw=kw))
    if leaf == 'Binomial':
        out += [Lz(leaf, kw=dict(total_count=1)), Lz(leaf, kw=dict(total_count=255))]
    if leaf == 'Categorical':
        out.append(Lz(leaf, kw=dict(num_bins=2)))
    if leaf == 'MultivariateNormal':
        out.append(Lz(leaf, kw=dict(cardinality=3)))
    return out


def run_leaf(z, sample=None, diff=False, forward=True):
    def run(it):
        lf = new_leaf(it, z)
        it.training = False
        f = s = None
        base('x')
        x = mk([z.N, z.C, z.D], lambda v: el('x', *v), store=Storage('input:x'))
        if forward:
            f = it.call(lf, [x], dict(marginalized_scopes=None))
        if sample is not None:
            io, ir, S, RH = parents(z, diff)
            kw = dict(num_samples=py(z.N), indices_out=io, indices_repetition=ir, is_differentiable=diff)
            kw.update(sample)
            s = it.call(it.getattr(lf, 'sample'), [], dict(ctx=new_ctx(it, **kw)))
        return lf, f, s
    return explore(LOADER, run)


def pos3(z):
    return opq('nn', z.N), opq('cc', z.C), opq('dd', z.D)


def chosen(z, n, d):
    _, _, S, RH = parents(z, False)
    g = tm.fdiv(d, lift(z.card)) if z.card > 1 else d
    return S(n, g), RH(n)


def draws(t):
    return sorted({a for a in tm.all_atoms(t) if a.kind == 'draw'}, key=lambda a: a.key)


def affine_in(t, d):
    """t = A + B*d"""
    A, B = ZERO, ZERO
    for m, c in t.ms:
        k = [p for a, p in m if a is d]
        if not k:
            A = A + tm.T({m: c})
        elif k == [1]:
            B = B + tm.T({tuple((a, p) for a, p in m if a is not d): c})
        else:
            return None
    if any(z is d for z in tm.all_atoms(A)) or any(z is d for z in tm.all_atoms(B)):
        return None
    return A, B


def closed_form(t):
    """normal densities written out"""
    def f(a):
        if a.kind == 'fn' and a.args[0] == 'logp' and repr(a.args[1][0]) == 'NORMAL':
            _, m, s, x = a.args[1]
            m, s, x = (tm.rebuild(y, f) for y in (m, s, x))
            return -tm.div((x - m) * (x - m), 2 * s * s) - tm.log(s) - lift(Fraction(1, 2)) * tm.log(2 * tm.lift(PI))
        return None
    return tm.rebuild(t, f)


PI = Fraction(math.pi)
TAU = 'tau'


def L(name, *a):
    return tm.fn('logp', tm.sym(name, None, False), *a)


# ------------------------------------------------------------------ P19 density / sample / mode
def laws(rep, tier):
    jobs = []
    for leaf in LEAFKW:
        for z in range(len(sizes_of(leaf, tier))):
            for diff in (False, True):
                jobs.append((tier, leaf, z, diff))
    rep.parallel(_laws, jobs)


def sample_law(rep, con, c, z, s, n, cc, d):
    """(family, parameters) of a derived sample term, or None (undecided)"""
    ds = draws(s)
    if not ds:
        rep.bad('leaf-sample', con, c, f'the sample does not depend on any random draw: {s!r}'[:300])
        return None
    own = [i for i, size_ in ((n, z.N), (cc, z.C), (d, z.D)) if size_.cint != 1 and i.const is None]
    if z.card > 1:
        own = own[:-1]
    for a in ds:
        miss = [repr(i) for i in own if not any(tm.contains_atom(j, lambda y, i=i: y is i.single()) for j in a.args[2])]
        if not rep.cond(not miss, 'leaf-own-draw', con, c, f'one random draw is shared along {miss}: every sample, channel and variable needs its own'):
            return None
    if len(ds) == 1:
        a = ds[0]
        kind, lw = a.args[1], a.args[4]
        if kind == 'randn':
            r = affine_in(s, a)
            if r:
                return ('normal',) + r
        elif s.single() is a and kind == 'bernoulli':
            return 'bernoulli', lw[0]
        elif s.single() is a and kind == 'binomial':
            return 'binomial', lw[0], lw[1]
        elif s.single() is a and kind == 'cat':
            nm, sz, body = tm.open_draw(a)
            return 'cat', nm, sz, body[0]
    return ('other', ds)


def _laws(rep, tier, leaf, zi, diff):
    z = sizes_of(leaf, tier)[zi]
    how = 'differentiable' if diff else 'indices'
    c = f'{z},{how}'
    con = leaf
    base(TAU, integer=False)
    n, cc, d = pos3(z)
    got = {}
    for what, kw in (('sample', {}), ('tempered', dict(temperature_leaves=norm(sym(TAU, 0, False)))), ('mpe', dict(is_mpe=True)),
                     ('mode', dict(mpe_at_leaves=True))):
        for r in rep.paths('leaf-' + what, con, c, run_leaf(z, kw, diff)):
            lf, f, s = r.value
            if not isinstance(s, Ten) or not isinstance(f, Ten):
                rep.und('leaf-' + what, con, c, f'not analysable: {s!r} {f!r}'[:200])
                continue
            if not rep.cond(same_shape(s, [z.N, z.C, z.D]), 'leaf-shape', con, c, f'{what} has shape {s.shape}'):
                continue
            got[what] = (r, f, s)
    if 'sample' not in got:
        return
    r, f, s = got['sample']
    want = [z.N, z.C, tm.div(z.D, lift(z.card)) if z.card > 1 else z.D, z.I, z.R]
    if not rep.cond(same_shape(f, want), 'leaf-shape', con, c, f'log density has shape {f.shape}, required {want}'):
        return
    o, rr = chosen(z, n, d)
    g = tm.fdiv(d, lift(z.card)) if z.card > 1 else d
    F = f.at([n, cc, g, o, rr])
    s0 = s.at([n, cc, d])
    if leaf == 'MultivariateNormal':
        return _mvn(rep, con, c, z, got, n, cc, d)
    _law_at(rep, con, c, z, got, F, n, cc, d, leaf, z.kw, diff)


def _law_at(rep, con, c, z, got, F, n, cc, d, leaf, lkw, diff):
    """density F, sample, tempered sample and modes at one variable"""
    r, f, s = got['sample']
    s0 = s.at([n, cc, d])
    law = sample_law(rep, con, c, z, s0, n, cc, d)
    if law is None:
        return
    x = el('x', n, cc, d)
    tau = sym(TAU, 0, False)
    params = None
    if law[0] == 'normal':
        params = ('n', law[1], law[2])
        req = L('NORMAL', law[1], law[2], x)
    elif law[0] == 'bernoulli':
        params = ('b', law[1])
        req = L('BERNOULLI', law[1], x)
    elif law[0] == 'binomial':
        params = ('bin', law[1], law[2])
        req = L('BINOMIAL', law[1], law[2], x)
    elif law[0] == 'cat':
        nm, sz, body = law[1:]
        lse = tm.red('lse', [(nm[0], sz[0])], body)
        params = ('cat', nm[0], sz[0], body)
        req = L('CATEGORICAL', tm.subst(body, {nm[0]: x}) - lse, x)
        rep.equal('leaf-support', con, c, sz[0], lift(lkw['num_bins']), r.facts, 'number of categories that can be sampled')
    elif leaf == 'Binomial' and diff:
        return _diff_binomial(rep, con, c, z, got, s0, F, x, n, cc, d)
    else:
        rep.und('leaf-law', con, c, f'sampling scheme not recognised: {s0!r}'[:200])
        return
    a, b = F, req
    if compare(a, b, r.facts)[0] != 'eq':
        a, b = closed_form(F), closed_form(req)
    rep.equal('leaf-law', con, c, a, b, r.facts, 'log density of the leaf vs. the density its samples are drawn from')
    # temperature
    if 'tempered' in got:
        st = got['tempered'][2].at([n, cc, d])
        lt_ = sample_law(rep, con, c, z, st, n, cc, d)
        if lt_ is not None and lt_[0] == law[0]:
            ft = got['tempered'][0].facts
            if law[0] == 'normal':
                rep.equal('leaf-temperature', con, c, lt_[1], law[1], ft, 'mean of the tempered leaf vs. the mean')
                rep.equal('leaf-temperature', con, c, tm.expand(lt_[2] * lt_[2]), tm.expand(tau * law[2] * law[2]), ft,
                          'variance of the tempered leaf vs. temperature times the variance')
            elif law[0] == 'cat':
                y = tm.subst(lt_[4 - 1], {lt_[1][0]: tm.lift(tm.Atom('var', nm[0]))})
                rep.equal('leaf-temperature', con, c, y, tm.div(law[3], tau), ft, 'logits of the tempered leaf vs. logits / temperature')
            else:
                rep.ok('leaf-temperature', con, c, 'no temperature for this leaf')
    # modes
    for what in ('mpe', 'mode'):
        if what not in got:
            continue
        m = got[what][2].at([n, cc, d])
        fm = got[what][0].facts
        if not rep.cond(not draws(m), 'leaf-mode', con, c, f'the most probable value depends on a random draw: {m!r}'[:200]):
            continue
        if params[0] == 'n':
            req = params[1]
        elif params[0] == 'b':
            req = tm.ge0(params[1] - lift(Fraction(1, 2)))
        elif params[0] == 'bin':
            req = tm.fn('floor', params[2] * (params[1] + 1))
            m = unclip(m)
        else:
            req = tm.red('argmax', [(params[1], params[2])], params[3])
        rep.equal('leaf-mode', con, c, m, req, fm, 'most probable value vs. the mode of the distribution samples are drawn from')


def unclip(t):
    """clipping to the support [0, n] is the identity for 0 < p < 1"""
    def f(a):
        if a.kind == 'fn' and a.args[0] in ('tmin', 'tmax'):
            k = [x for x in a.args[1] if x.const is None]
            if len(k) == 1 and k[0].single() is not None and k[0].single().kind == 'fn' and k[0].single().args[0] == 'floor':
                return k[0]
        return None
    return tm.rebuild(t, f)


def _diff_binomial(rep, con, c, z, got, s0, F, x, n, cc, d):
    """gaussian approximation: mean n p and variance n p (1-p), clipped to [0, n]"""
    ds = draws(s0)
    if len(ds) != 1 or ds[0].args[1] != 'randn':
        rep.und('leaf-law', con, c, f'sampling scheme not recognised: {s0!r}'[:200])
        return
    lp = [a for a in tm.all_atoms(F) if a.kind == 'fn' and a.args[0] == 'logp']
    if len(lp) != 1 or repr(lp[0].args[1][0]) != 'BINOMIAL' or F.single() is not lp[0]:
        rep.und('leaf-law', con, c, f'density not recognised: {F!r}'[:200])
        return
    _, tc, p, _x = lp[0].args[1]
    e = lift(ds[0])
    mu, var = tc * p, tc * p * (1 - p)
    raw = mu + tm.tpow(var, Fraction(1, 2)) * e
    req = tm.fn('tmin', tm.fn('tmax', ZERO, raw), tc)
    rep.equal('leaf-law', con, c, s0, req, got['sample'][0].facts, 'differentiable sample vs. the clipped normal approximation n p + sqrt(n p (1-p)) eps')
    for what in ('mpe', 'mode'):
        if what in got:
            m = got[what][2].at([n, cc, d])
            k = tm.fn('floor', p * (tc + 1))
            rep.equal('leaf-mode', con, c, unclip(m), k, got[what][0].facts, 'most probable value vs. the mode of the binomial density')


def _mvn(rep, con, c, z, got, n, cc, d):
    """one group of variables: sample = mean + L eps must belong to the density logp(MVN, mean, L)"""
    r, f, s = got['sample']
    K = z.card
    g = opq('gg', tm.div(z.D, lift(K)))
    _, _, S, RH = parents(z, False)
    o, rr = S(n, g), RH(n)
    F = f.at([n, cc, g, o, rr])
    base('mvn_fp'), base('mvn_fp2')
    x = ml = Lm = ZERO
    means, eps = [], {}
    own = [i for i, size_ in ((n, z.N), (cc, z.C), (g, tm.div(z.D, lift(K)))) if size_.cint != 1]
    for j in range(K):
        t = s.at([n, cc, K * g + j])
        ds = draws(t)
        if not rep.cond(bool(ds), 'leaf-sample', con, c, 'the sample does not depend on any random draw'):
            return
        if any(a.args[1] != 'randn' for a in ds):
            rep.und('leaf-law', con, c, f'sampling scheme not recognised: {t!r}'[:200])
            return
        for a in ds:
            miss = [repr(i) for i in own if not any(tm.contains_atom(k, lambda y, i=i: y is i.single()) for k in a.args[2])]
            if not rep.cond(not miss, 'leaf-own-draw', con, c, f'one random draw is shared along {miss}: every sample, channel and group of variables needs its own'):
                return
            r_ = affine_in(t, a)
            if r_ is None:
                rep.und('leaf-law', con, c, f'not affine in the draw: {t!r}'[:200])
                return
            i = eps.setdefault(a, len(eps))
            Lm = Lm + el('mvn_fp2', lift(j), _dim(a)) * r_[1]
        mean = tm.rebuild(t, lambda a: ZERO if a.kind == 'draw' else None)
        means.append(mean)
        ml = ml + el('mvn_fp', lift(j)) * mean
        x = x + el('mvn_fp', lift(j)) * el('x', n, cc, K * g + j)
    rep.equal('leaf-law', con, c, tm.expand(F), tm.expand(L('MVN', ml, Lm, x)), r.facts, 'log density of the leaf vs. the density its samples are drawn from')
    for what in ('mpe', 'mode'):
        if what in got:
            for j in range(K):
                rep.equal('leaf-mode', con, c, got[what][2].at([n, cc, K * g + j]), means[j], got[what][0].facts,
                          'most probable value vs. the mean of the distribution samples are drawn from')


def _dim(a):
    """component of a standard normal vector draw"""
    return a.args[2][-1]


# ------------------------------------------------------------------ P28 several distributions in one leaf layer
MULTI = [[((0, 1), 'Normal', {}), ((2, 3), 'Binomial', dict(total_count=5))],
         [((2, 0), 'Normal', {}), ((3, 1), 'Binomial', dict(total_count=5))],
         [((3,), 'Categorical', dict(num_bins=4)), ((1,), 'Bernoulli', {}), ((0, 2), 'RatNormal', {})],
         [((1, 2, 3, 0), 'Normal', {})],
         [((2, 3), 'Binomial', dict(total_count=5)), ((0,), 'Binomial', dict(total_count=7)), ((1,), 'Normal', {})]]


def multi(rep, tier):
    rep.parallel(_multi, [(tier, i, diff, o) for i in range(len(MULTI)) for diff in (False, True)
                          for o in ((dict(), dict(I=1), dict(R=1), dict(N=1)) if tier == 'thorough' or i == 1 else (dict(),))])
    rep.parallel(_multi_bad, [(s,) for s in ([(0, 1), (1, 2)], [(0, 1), (3, 4)], [(0, 0), (2, 3)], [(0, 1), (2,)], [(0, 1, 2), (2, 3)])])


def _multi(rep, tier, i, diff, over):
    z = Lz('MultiDistributionLayer', D=4, kw={}, **over)
    spec = MULTI[i]
    owner = {d: (nm, kw) for sc, nm, kw in spec for d in sc}
    con = 'MultiDistributionLayer'
    c = f'{ {sc: nm for sc, nm, kw in spec} },repetitions={z.R},leaves={z.I},samples={z.N},{"differentiable" if diff else "indices"}'
    base(TAU, integer=False)

    def run(what, kw):
        def go(it):
            lf = new_leaf(it, z, scopes_to_dist=multi_kw(it, spec))
            it.training = False
            base('x')
            x = mk([z.N, z.C, z.D], lambda v: el('x', *v), store=Storage('input:x'))
            f = it.call(lf, [x], dict(marginalized_scopes=None))
            io, ir, S, RH = parents(z, diff)
            k = dict(num_samples=py(z.N), indices_out=io, indices_repetition=ir, is_differentiable=diff)
            k.update(kw)
            s = it.call(it.getattr(lf, 'sample'), [], dict(ctx=new_ctx(it, **k)))
            m = it.call(lf, [x], dict(marginalized_scopes=[1])) if what == 'sample' else None
            return f, s, m
        return explore(LOADER, go)
    got = {}
    for what, kw in (('sample', {}), ('tempered', dict(temperature_leaves=norm(sym(TAU, 0, False)))), ('mpe', dict(is_mpe=True)),
                     ('mode', dict(mpe_at_leaves=True))):
        for r in rep.paths('multi-' + what, con, c, run(what, kw)):
            f, s, m = r.value
            if not isinstance(f, Ten) or not isinstance(s, Ten):
                rep.und('multi-' + what, con, c, 'not analysable')
                continue
            if rep.cond(same_shape(s, [z.N, z.C, z.D]) and same_shape(f, [z.N, z.C, z.D, z.I, z.R]), 'multi-shape', con, c,
                        f'shapes {f.shape}, {s.shape}'):
                got[what] = (r, f, s, m)
    if 'sample' not in got:
        return
    r, f, s, m = got['sample']
    n, cc = opq('nn', z.N), opq('cc', z.C)
    seen, used = {}, {}
    fam = dict(Normal='NORMAL', RatNormal='NORMAL', Bernoulli='BERNOULLI', Binomial='BINOMIAL', Categorical='CATEGORICAL')
    g3 = {k: v[:3] for k, v in got.items()}
    for d in range(4):
        o, rr = chosen(z, n, lift(d))
        nm, kw = owner[d]
        F = f.at([n, cc, lift(d), o, rr])
        lp = [a for a in tm.all_atoms(F) if a.kind == 'fn' and a.args[0] == 'logp']
        cd = f'{c},variable {d}'
        if len(lp) == 1:
            rep.cond(repr(lp[0].args[1][0]) == fam[nm] and (nm != 'Binomial' or lp[0].args[1][1].cint == kw['total_count']), 'multi-assignment', con, cd,
                     f'variable {d} is assigned to {nm}{kw} but evaluated with {lp[0].args[1][:2]}')
            xs = {repr(a) for a in tm.all_atoms(F) if a.kind == 'el' and a.args[0] == 'x'}
            rep.cond(xs == {repr(el('x', n, cc, lift(d)))}, 'multi-input', con, cd, f'log density of variable {d} reads {xs}')
            ps = tuple(sorted(repr(a) for a in tm.all_atoms(F) if a.kind == 'el' and a.args[0].startswith('param')))
            rep.cond(ps not in seen, 'multi-own-parameters', con, cd, f'variables {d} and {seen.get(ps)} share parameters {ps}')
            seen[ps] = d
        else:
            rep.und('multi-assignment', con, cd, f'density not recognised: {F!r}'[:200])
        for a in draws(s.at([n, cc, lift(d)])):
            rep.cond(a not in used, 'multi-own-draw', con, cd, f'variables {d} and {used.get(a)} share one random draw')
            used[a] = d
        _law_at(rep, con, cd, z, g3, F, n, cc, lift(d), nm, kw, diff)
        if isinstance(m, Ten):
            rep.equal('multi-marginal', con, cd, m.at([n, cc, lift(d), o, rr]), ZERO if d == 1 else F, r.facts, 'value with scope 1 marginalised')


def _multi_bad(rep, scopes):
    z = Lz('MultiDistributionLayer', D=4, kw={})
    c = f'scopes={scopes}'

    def run(it):
        try:
            new_leaf(it, z, scopes_to_dist=multi_kw(it, [(s, 'Normal', {}) for s in scopes]))
        except PyRaise:
            return 'rejected'
        return 'accepted'
    for r in rep.paths('multi-coverage', 'MultiDistributionLayer', c, explore(LOADER, run)):
        rep.cond(r.value == 'rejected', 'multi-coverage', 'MultiDistributionLayer.__init__', c, 'scopes that do not cover every variable exactly once are accepted')


# ------------------------------------------------------------------ P18 parameter domains
NEG, POS_ = float('-inf'), float('inf')


def interval(t, env=None):
    """(lo, lo strict, hi, hi strict) of a term over every value of the opaque reals; sigmoid closed (it saturates in floats), exp open"""
    t = lift(t)
    lo, ls, hi, hs = 0.0, False, 0.0, False
    for m, c in t.ms:
        a = (float(c),) * 2
        iv = (float(c), False, float(c), False)
        for x, p in m:
            iv = _imul(iv, _ipow(_iatom(x), p))
        lo, ls, hi, hs = lo + iv[0], ls or iv[1], hi + iv[2], hs or iv[3]
    return lo, ls, hi, hs


def _iatom(a):
    if a.kind == 'exp':
        return 0.0, True, POS_, True
    if a.bool:
        return 0.0, False, 1.0, False
    if a.kind == 'fn':
        f, v = a.args[0], a.args[1]
        if f == 'sigmoid':
            return 0.0, False, 1.0, False
        if f == 'tanh':
            return -1.0, False, 1.0, False
        if f in ('softplus',):
            return 0.0, True, POS_, True
        if f in ('relu', 'abs'):
            return 0.0, False, POS_, True
        if f == 'erf':
            return -1.0, False, 1.0, False
        if f == 'round':
            l, ls, h, hs = interval(v[0])
            # half a unit of slack is rounded away; 1e-9 covers the rational end points being read as floats
            return (math.ceil(l - 0.5 - 1e-9) if l > NEG else l), False, (math.floor(h + 0.5 + 1e-9) if h < POS_ else h), False
        if f == 'floor':
            l, ls, h, hs = interval(v[0])
            return (math.floor(l) if abs(l) != POS_ else l), False, (math.floor(h) if abs(h) != POS_ else h), False
        if f == 'fdiv' and v[1].const is not None and v[1].const > 0:
            q = float(v[1].const)
            l, ls, h, hs = interval(v[0])
            return (l if l == NEG else float(math.floor(l / q))), False, (h if h == POS_ else float(math.floor(h / q))), False
        if f in ('tmin', 'tmax'):
            ivs = [interval(x) for x in v]
            g = min if f == 'tmin' else max
            l = g(i[0] for i in ivs)
            h = g(i[2] for i in ivs)
            return l, all(i[1] for i in ivs if i[0] == l), h, all(i[3] for i in ivs if i[2] == h)
        if f == 'pow' and v[1].const is not None:
            l, ls, h, hs = interval(v[0])
            if l >= 0 and v[1].const > 0:
                e = float(v[1].const)
                return l ** e, ls, (h ** e if h != POS_ else POS_), hs
    if a.kind == 'sel':
        _, x, y = a.args
        i, j = interval(x), interval(y)
        l, h = min(i[0], j[0]), max(i[2], j[2])
        return l, all(k[1] for k in (i, j) if k[0] == l), h, all(k[3] for k in (i, j) if k[2] == h)
    if a.kind == 'draw' and a.args[1] == 'bernoulli':
        return 0.0, False, 1.0, False
    if a.kind == 'draw' and a.args[1] == 'rand':
        return 0.0, False, 1.0, True
    if a.kind == 'draw' and a.args[1] == 'binomial':
        l, ls, h, hs = interval(a.args[4][0])
        return 0.0, False, h, False
    if a.kind == 'draw' and a.args[1] == 'cat' and len(a.args[3]) == 1 and a.args[3][0].cint is not None:
        return 0.0, False, a.args[3][0].cint - 1.0, False
    if a.kind == 'red' and a.args[0] in ('argmax', 'argmin') and len(a.args[1]) == 1 and a.args[1][0].cint is not None:
        return 0.0, False, a.args[1][0].cint - 1.0, False
    if a.kind == 'el':
        i = tm.BASES.get(a.args[0], {})
        if i.get('int') and i.get('range') is not None and lift(i['range']).cint is not None:
            return 0.0, False, lift(i['range']).cint - 1.0, False
    if a.kind == 'sym':
        i = tm.SYMS.get(a.args[0], {})
        if i.get('lo') is not None:
            return float(i['lo']), False, float(i.get('hi', POS_) or POS_), False
    return NEG, True, POS_, True


def _m0(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def _imul(a, b):
    c = []
    for i in (0, 2):
        for j in (0, 2):
            x, y = a[i], b[j]
            s = a[i + 1] or b[j + 1]
            if (x == 0 and not a[i + 1]) or (y == 0 and not b[j + 1]):
                s = False
            c.append((_m0(x, y), s))
    lo, hi = min(v for v, _ in c), max(v for v, _ in c)
    return lo, all(s for v, s in c if v == lo), hi, all(s for v, s in c if v == hi)


def _ipow(a, p):
    if p == 1:
        return a
    if isinstance(p, int) and p > 0 and p % 2 == 0:
        l, ls, h, hs = a
        if l >= 0:
            return l ** p, ls, h ** p if h != POS_ else POS_, hs
        m = max(abs(l), abs(h))
        return 0.0, False, m ** p if m != POS_ else POS_, (ls if abs(l) == m else hs)
    if p == -1:
        l, ls, h, hs = a
        if l > 0 or (l == 0 and ls):
            return (1 / h if h != POS_ else 0.0), hs or h == POS_, (1 / l if l > 0 else POS_), ls or l == 0
    return NEG, True, POS_, True


def domain(rep, rule, con, c, t, lo=None, hi=None, strict_lo=False, what='', eps=1e-9):
    """t must lie in [lo, hi]: proven by intervals, refuted by a witness valuation"""
    from ..equal import Val, NoVal
    l, ls, h, hs = interval(t)
    ok = (lo is None or l > lo - eps and (not strict_lo or l > lo or ls)) and (hi is None or h < hi + eps)
    if ok:
        rep.ok(rule, con, c)
        return True

    def out(v):
        return v != v or lo is not None and (v < lo - eps or strict_lo and v <= lo) or hi is not None and v > hi + eps
    sat = sorted({a for a in tm.all_atoms(t) if a.kind == 'fn' and a.args[0] == 'sigmoid'}, key=lambda a: a.key)
    forms = [(t, 'ordinary parameter values')]
    for val in (ZERO, ONE):
        if sat:
            forms.append((tm.rebuild(t, lambda a, val=val: val if a in sat else None), f'a saturated logit (sigmoid = {val})'))
    for f, how in forms:
        for s in range(24):
            try:
                v = float(Val(s).ev(f, {}))
            except (NoVal, ArithmeticError, TypeError, ValueError):
                continue
            if out(v):
                rep.bad(rule, con, c, f'{what}: {t!r} takes the value {v:.6g} outside [{lo}, {hi}] for {how}'[:600])
                return False
    rep.und(rule, con, c, f'{what}: range of {t!r} not bounded'[:300])
    return False


def domains(rep, tier):
    jobs = [(tier, leaf, i, diff) for leaf in LEAFKW for i in range(len(sizes_of(leaf, tier))) for diff in (False, True)]
    rep.parallel(_domains, jobs)
    rep.parallel(_ratnormal_args, [(a, b) for a in (None, -1.0, 0.0, 1.0) for b in (None, -1.0, 0.0, 1.0)])


def _domains(rep, tier, leaf, zi, diff):
    z = sizes_of(leaf, tier)[zi]
    c = f'{z},{"differentiable" if diff else "indices"}'
    n, cc, d = pos3(z)
    g = opq('gg', tm.div(z.D, lift(z.card))) if z.card > 1 else d
    sup = dict(Bernoulli=(0, 1), Binomial=(0, z.kw.get('total_count')), Categorical=(0, z.kw.get('num_bins', 1) - 1)).get(leaf)
    for what, kw in (('sample', {}), ('mpe', dict(is_mpe=True)), ('mode', dict(mpe_at_leaves=True))):
        for r in rep.paths('leaf-domain', leaf, c, run_leaf(z, kw, diff)):
            lf, f, s = r.value
            if not isinstance(f, Ten) or not isinstance(s, Ten):
                rep.und('leaf-domain', leaf, c, 'not analysable')
                continue
            if sup and same_shape(s, [z.N, z.C, z.D]):
                domain(rep, 'leaf-support', leaf, f'{c},{what}', s.at([n, cc, d]), sup[0], sup[1], what=f'{what} outside the support of the leaf')
            if what != 'sample' or f.dim != 5:
                continue
            F = f.at([n, cc, g, opq('oo', z.I), opq('rr', z.R)])
            lp = [a for a in tm.all_atoms(F) if a.kind == 'fn' and a.args[0] == 'logp']
            if not lp:
                rep.und('leaf-domain', leaf, c, f'density not recognised: {F!r}'[:200])
            for a in lp:
                fam = repr(a.args[1][0])
                if fam == 'NORMAL':
                    _, m, sg, x = a.args[1]
                    domain(rep, 'leaf-domain', leaf, c, sg, 0, None, True, 'standard deviation must be positive')
                    if leaf == 'RatNormal':
                        k = dict(min_sigma=0.1, max_sigma=1.0)
                        k.update(z.kw)
                        domain(rep, 'leaf-domain', leaf, c, sg, k['min_sigma'], k['max_sigma'], what='standard deviation outside [min_sigma, max_sigma]')
                        if k.get('min_mean') is not None:
                            domain(rep, 'leaf-domain', leaf, c, m, k['min_mean'], k['max_mean'], what='mean outside [min_mean, max_mean]')
                elif fam in ('BERNOULLI', 'BINOMIAL'):
                    p = a.args[1][-2]
                    domain(rep, 'leaf-domain', leaf, c, p, 0, 1, what='success probability outside [0, 1]')
                    if fam == 'BINOMIAL':
                        rep.equal('leaf-domain', leaf, c, a.args[1][1], lift(z.kw['total_count']), r.facts, 'number of trials')
                elif fam == 'CATEGORICAL':
                    rep.ok('leaf-domain', leaf, c)
                elif fam == 'MVN':
                    for i in range(z.card):
                        for j in range(z.card):
                            e = tm.rebuild(a.args[1][2], lambda y, i=i, j=j: None if y.kind != 'el' or y.args[0] != 'mvn_fp2' else
                                           (ONE if (y.args[1][0].cint, y.args[1][1].cint) == (i, j) else ZERO))
                            if j > i:
                                rep.equal('leaf-domain', leaf, c, e, ZERO, r.facts, f'entry {i},{j} above the diagonal of the Cholesky factor')
                            elif i == j:
                                domain(rep, 'leaf-domain', leaf, c, e, 0, None, True, 'diagonal of the Cholesky factor must be positive')


def _ratnormal_args(rep, a, b):
    """every accepted combination of mean bounds is respected; anything else is rejected by the constructor"""
    z = Lz('RatNormal', kw=dict(min_mean=a, max_mean=b))
    c = f'min_mean={a},max_mean={b}'

    def run(it):
        try:
            lf = new_leaf(it, z)
        except PyRaise as e:
            return None
        x = mk([z.N, z.C, z.D], lambda v: el('x', *v), store=Storage('input:x'))
        base('x')
        return it.call(lf, [x], dict(marginalized_scopes=None))
    for r in rep.paths('mean-bounds', 'RatNormal', c, explore(LOADER, run)):
        f = r.value
        if f is None:
            if (a is None and b is None) or (a is not None and b is not None and a < b):
                rep.bad('mean-bounds', 'RatNormal', c, 'valid mean bounds are rejected')
            else:
                rep.ok('mean-bounds', 'RatNormal', c, 'rejected')
            continue
        if not isinstance(f, Ten):
            rep.und('mean-bounds', 'RatNormal', c, 'not analysable')
            continue
        n, cc, d = pos3(z)
        F = f.at([n, cc, d, opq('oo', z.I), opq('rr', z.R)])
        lp = [y for y in tm.all_atoms(F) if y.kind == 'fn' and y.args[0] == 'logp']
        if len(lp) == 1 and repr(lp[0].args[1][0]) == 'NORMAL':
            domain(rep, 'mean-bounds', 'RatNormal', c, lp[0].args[1][1], a, b, what='mean outside the accepted bounds')
        else:
            rep.und('mean-bounds', 'RatNormal', c, 'density not recognised')
