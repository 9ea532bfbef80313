"""rules on the assembled circuit (both structures, all layer types): forward law vs. sampling routes"""
from ..scen import *
from ..equal import compare
from ..duality import choice_atoms

LOADER = Loader()
EIN = P + 'einet'


def new_einet(it, leaf='Normal', **kw):
    Cfg = it.repo_attr(EIN, 'EinetConfig')
    E = it.repo_attr(EIN, 'Einet')
    L = it.repo_attr(P + 'layers.distributions.' + LEAFS[leaf], leaf)
    d = dict(num_features=8, num_channels=1, num_sums=3, num_leaves=3, num_repetitions=1, num_classes=1, depth=2,
             dropout=0.0, leaf_type=L, layer_type='linsum', structure='top-down')
    d.update({k: py(v) for k, v in kw.items()})
    return it.call(E, [it.call(Cfg, [], d)], {})


class Mz:
    """one model context"""

    def __init__(self, layer='linsum', structure='top-down', depth=1, D=None, R=1, K=1, C=1, S=None, I=None, label=''):
        self.layer, self.structure, self.depth = layer, structure, depth
        self.D, self.R, self.K, self.C = lift(D), lift(R), lift(K), lift(C)
        self.S = sym('S') if S is None else lift(S)
        self.I = sym('I') if I is None else lift(I)
        self.N = sym('N')

    def kw(self):
        return dict(layer_type=self.layer, structure=self.structure, depth=self.depth, num_features=self.D, num_repetitions=self.R,
                    num_classes=self.K, num_channels=self.C, num_sums=self.S, num_leaves=self.I)

    def __str__(self):
        s = f'{self.structure}/{self.layer},depth={self.depth},features={self.D},repetitions={self.R},classes={self.K},channels={self.C}'
        if self.S.cint:
            s += f',sums={self.S}'
        if self.I.cint:
            s += f',leaves={self.I}'
        return s


q = sym('q', 2)


def contexts(tier, structures=('top-down', 'bottom-up'), K=1):
    out = []
    for s in structures:
        for layer in (('linsum', 'linsum2', 'einsum') if s == 'top-down' else ('linsum',)):
            for depth in (0, 1, 2, 3):
                if (depth == 0 and layer != 'linsum'):
                    continue
                F = 2 ** depth
                if s == 'top-down':
                    ds = [F * q] + ([F, F * q + 1] if depth else [])  # F: one variable per leaf group
                else:
                    ds = [F * q + j for j in range(F)]
                for D in ds:
                    for R in (1, 2):
                        if tier == 'quick' and R == 2 and depth >= 2 and D is not ds[0] and (layer != 'linsum' or D != F):
                            continue
                        if depth == 3 and (R == 2 and (layer != 'linsum' or s == 'bottom-up' or D != F)
                                           or R == 1 and tier == 'quick' and D is not ds[3 if s == 'bottom-up' else 0]):
                            continue
                        out.append(Mz(layer, s, depth, D, R, K))
    return out


def logp_atom(a):
    """logp(family, mean, ...) -> mean term or None"""
    if a.kind == 'fn' and a.args[0] == 'logp':
        return a.args[1][1]
    return None


def probe_leaves(t, w):
    """replace each leaf log density (mean parameter m) by w(m element indices, m)"""
    def f(a):
        m = logp_atom(a)
        if m is None:
            return None
        e = m.single()
        if e is None or e.kind != 'el':
            raise Unk(f'leaf mean {m}')
        return w(e.args[1], m) if w.__code__.co_argcount == 2 else w(e.args[1], m, a)
    return tm.rebuild(t, f)


def run_model(m, leaf='Normal', fwd=True, sample=None, x=None, training=False, mkw=None, pre=None):
    """build the model, one forward pass, one sample() call"""
    def run(it):
        net = new_einet(it, leaf, **dict(m.kw(), **(mkw or {})))
        it.training = training
        y = s = None
        if pre:
            pre(it, net)
        if fwd:
            base('x')
            xx = x(it) if x else mk([m.N, m.C, m.D], lambda v: el('x', *v), store=Storage('input:x'))
            y = it.call(net, [xx], {})
        if sample is not None:
            s = it.call(it.getattr(net, 'sample'), [], sample(it) if callable(sample) else dict(sample))
        return net, y, s
    return explore(LOADER, run, training=training)


def sample_shape(m):
    return [m.N, m.C, m.D]


def same_shape(t, want):
    return isinstance(t, Ten) and t.dim == len(want) and all(a is lift(b) for a, b in zip(t.shape, want))


def features(m, tier):
    """probed sets of input features"""
    d = opq('dd', m.D)
    return [('any', [d])]


def routes(rep, tier, rule, m, diff, mpe, klass=None, ev=False, temp=False):
    """klass: None (single class) | 'int' | 'list' | 'prior'"""
    c = f'{m},{"differentiable" if diff else "indices"}{",class=" + klass if klass else ""}{",mpe" if mpe else ""}{",evidence" if ev else ""}{",temperature" if temp else ""}'
    T_ = sym('T', 0, integer=False, pos=True)

    def opts(it):
        kw = dict(mpe_at_leaves=True, is_mpe=mpe, is_differentiable=diff)
        if temp:
            kw['temperature_sums'] = T_
        if ev:
            base('e', maynan=ev == 'nan')
            kw['evidence'] = mk([m.N, m.C, m.D], lambda v: el('e', *v), store=Storage('input:evidence'))
            kw['return_leaf_params'] = True
            return kw
        if klass == 'list':
            kw['class_index'] = [2, 0]
        else:
            kw['num_samples'] = py(m.N)
        if klass == 'int':
            kw['class_index'] = py(opq('kls', m.K))
        return kw
    rs = run_model(m, sample=opts, x=(lambda it: opts(it)['evidence']) if ev else None)
    for r in rep.paths(rule, 'Einet.sample', c, rs):
        net, y, s = r.value
        want = sample_shape(m) if klass != 'list' else [2, m.C, m.D]
        if ev:
            want = want + [2]
        if not rep.cond(same_shape(s, want), 'sample-shape', 'Einet.sample', c,
                        f'samples have shape {getattr(s, "shape", s)}, required {want}'):
            continue
        ch = opq('cc', m.C)
        for n in ([opq('nn', m.N)] if klass != 'list' else [ZERO, ONE]):
            for lab, ds in features(m, tier):
                cc = f'{c},feature={lab}' + (f',sample={n}' if klass == 'list' else '')
                try:
                    kl = {None: ZERO, 'int': opq('kls', m.K), 'prior': None}[klass] if klass != 'list' else (lift(2) if n.cint == 0 else ZERO)
                    J, ref = law_pair(s, y, [n, ch], ds, kl, m, T_ if temp else None, ev)
                except Unk as e:
                    rep.und(rule, 'Einet.sample', cc, f'not recognised: {e}')
                    continue
                rep.equal(rule, 'Einet.sample', cc, J, ref, r.facts,
                          'E[leaf weight reached by the sampled route] vs. the forward value with that weight as leaf likelihood')


def mean_bases(t):
    out = set()

    def f(a):
        m = logp_atom(a)
        if m is not None:
            for x in m.atoms():
                if x.kind == 'el':
                    out.add(x.args[0])
        return False
    tm.contains_atom(t, f)
    return out


def exp_means(t, mb):
    """exp of every selected leaf mean (evidence likelihoods and draws are left alone)"""
    def f(a):
        if a.kind == 'el' and a.args[0] in mb:
            return tm.exp(lift(a))
        if a.kind == 'draw' or logp_atom(a) is not None:
            return lift(a)
        return None
    return tm.rebuild(t, f)


def law_pair(s, y, pos, ds, klass, m, temp=None, ev=False):
    """(expected weight of the sampled leaves, forward value with the same weights as leaf likelihoods)"""
    n, ch = pos

    def forward_ref(kk):
        Y = y.at([opq('nn', m.N), kk])

        def w(idx, mean):
            hit = ZERO
            for d in ds:
                hit = hit + eq0(idx[2] - d)
            return hit * eq0(idx[1] - ch) * mean

        def we(idx, mean, a):
            return w(idx, mean) + lift(a)
        ref = probe_leaves(Y, we if ev else w)
        if temp is not None:
            ref = tempered(ref, temp, mb)
        den = None
        if ev and klass is not None:
            a, b = dict(ref.ms), dict(tempered(Y, temp, mb).ms if temp is not None else Y.ms)
            com = [k for k in a if b.get(k) == a[k]]
            ref = tm.T({k: v for k, v in a.items() if k not in com})
            den = tm.exp(tm.T({k: v for k, v in b.items() if k not in com}))
        ref = tm.exp(ref)
        for d in ds:
            ref = tm.expand(ref, d.single())
        if den is not None:
            for d in ds:
                den = tm.expand(den, d.single())
            ref = tm.div(ref, den)
        return ref
    mb = set()
    ex = ONE
    Y = y.at([opq('nn', m.N), ZERO if klass is None else klass])
    mb = mean_bases(Y)
    for d in ds:
        v = s.at([n, ch, d] + ([ZERO] if ev else []))
        ex = ex * exp_means(v, mb)
    J = joint(ex)
    if klass is None:
        kn, kv = tm.newvar(m.K)
        ref = tm.red('sum', [(kn, m.K)], forward_ref(kv))
        den = tm.red('sum', [(kn, m.K)], tm.exp(y.at([n, kv]))) if ev else m.K
        ref = tm.div(ref, den)
    else:
        ref = forward_ref(klass)
    return tm.expand(J), ref


def routing(rep, tier):
    jobs = [(tier, 'routing-law', m, diff, False) for m in contexts(tier) for diff in (False, True)]
    jobs += [(tier, 'routing-law', m, diff, False, None, False, True) for m in few(tier) for diff in (False, True)]
    jobs += [(tier, 'class-routing-law', m, diff, False, k) for m in few(tier, K=3) for diff in (False, True) for k in ('int', 'list', 'prior')]
    rep.parallel(routes, jobs)


def few(tier, K=1, C=1):
    """one representative of each structure, layer type and repetition branch"""
    out = []
    for s, layer in (('top-down', 'linsum'), ('top-down', 'linsum2'), ('top-down', 'einsum'), ('bottom-up', 'linsum')):
        for R in (1, 2):
            out.append(Mz(layer, s, 1, 2 * q, R, K, C))
            if s == 'top-down' and layer == 'linsum':
                out.append(Mz(layer, s, 1, 2, R, K, C))  # one variable per leaf group
    return out


def post(rep, tier):
    jobs = [(tier, 'posterior-routing-law', m, diff, False, None, True) for m in few(tier) for diff in (False, True)]
    jobs += [(tier, 'class-posterior-routing-law', m, diff, False, 'prior', True) for m in few(tier, K=2) for diff in (False, True) if tier == 'thorough' or m.R.cint == 1]
    rep.parallel(routes, jobs)


# ------------------------------------------------------------------ P01/P02 on assembled models
def pull(t, ref):
    """log sum_r exp(p_r + W_r) -> W + log sum_r exp(p_r) when every W_r is proven equal to W = ref"""
    G = sym('G%', 0, integer=False, pos=True)
    g = G.single()
    w_ = ref.single()

    def hasw(m):
        return any(tm.contains_atom(lift(a), lambda z: z is w_) for a, p in m)

    def f(a):
        if a.kind == 'exp':
            e = a.args[0]
            w = tm.T({m: c for m, c in e.ms if hasw(m)})
            if w.ms and compare(w, ref)[0] == 'eq':
                return G * tm.exp(e - w)
        if a.kind == 'fn' and a.args[0] == 'log':
            e = tm.rebuild(a.args[1][0], f)
            if e.ms and all(any(b is g and p == 1 for b, p in m) for m, c in e.ms):
                return ref + tm.log(tm.T({tuple((b, p) for b, p in m if b is not g): c for m, c in e.ms}))
        return None
    r = tm.rebuild(t, f)
    return t if tm.contains_atom(r, lambda z: z is g) else r


def _mass(rep, tier, m, leaf='Normal'):
    """all leaf densities replaced by one (log 0) -> log 0; all leaves of a variable equal -> plain sum over variables"""
    c = str(m)
    for r in rep.paths('model-mass', 'Einet.forward', c, run_model(m)):
        net, y, s = r.value
        if not rep.cond(same_shape(y, [m.N, m.K]), 'output-shape', 'Einet.forward', c, f'output has shape {getattr(y, "shape", y)}, required {[m.N, m.K]}'):
            continue
        n, k = opq('nn', m.N), opq('kk', m.K)
        try:
            Y = y.at([n, k])
            if not tm.contains_atom(Y, lambda z: logp_atom(z) is not None) and tm.contains_atom(Y, lambda z: z.kind == 'el' and z.args[0] == 'x'):
                raise Unk('no leaf density in the result')
            one = probe_leaves(Y, lambda i, mean: ZERO)
            cc, dd, W = opq('cc', m.C), opq('dd', m.D), sym('W', 0, integer=False)
            uni = probe_leaves(Y, lambda i, mean: eq0(i[1] - cc) * eq0(i[2] - dd) * W)
        except Unk as e:
            rep.und('model-mass', 'Einet.forward', c, f'not recognised: {e}')
            continue
        rep.equal('model-mass', 'Einet.forward', c, tm.expand(one), ZERO, r.facts, 'every leaf integrates to one, the root must too')
        rep.equal('each-variable-once', 'Einet.forward', c, pull(tm.expand(uni), W), W, r.facts,
                  'root value when every leaf of one variable has log density W and all others zero')


def mass(rep, tier):
    cs = contexts(tier) + contexts(tier, K=3)
    if tier == 'thorough':
        cs += contexts(tier, K=2) + [Mz(m.layer, m.structure, m.depth, m.D, m.R, m.K, 3) for m in contexts(tier)]
    else:
        cs += few(tier, C=3)
    rep.parallel(_mass, [(tier, m) for m in cs])


# ------------------------------------------------------------------ P05/P06 on assembled models
def _mpe(rep, tier, m, diff, ev, klass=None):
    routes(rep, tier, 'mpe-routing', m, diff, True, klass, ev)
    c = f'{m},{"differentiable" if diff else "indices"},mpe{",evidence" if ev else ""}'
    if klass is not None:
        return

    def opts(it):
        kw = dict(mpe_at_leaves=True, is_mpe=True, is_differentiable=diff)
        if ev:
            base('e')
            kw['evidence'] = mk([m.N, m.C, m.D], lambda v: el('e', *v), store=Storage('input:evidence'))
            kw['return_leaf_params'] = True
        else:
            kw['num_samples'] = py(m.N)
        return kw
    for r in rep.paths('mpe-deterministic', 'Einet.sample', c, run_model(m, sample=opts)):
        s = r.value[2]
        if isinstance(s, Ten):
            v = s.at([opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)] + ([ZERO] if ev else []))
            dr = [a for a in tm.all_atoms(v) if a.kind == 'draw']
            rep.cond(not dr, 'mpe-deterministic', 'Einet.sample', c, f'most probable explanation depends on random draws: {dr[:1]}')


def model_mpe(rep, tier):
    jobs = [(tier, m, diff, ev) for m in few(tier) for diff in (False, True) for ev in (False, True)]
    jobs += [(tier, m, diff, False, 'int') for m in few(tier, K=3) for diff in (False, True)]
    if tier == 'thorough':
        jobs += [(tier, m, diff, False) for m in contexts(tier) for diff in (False, True)]
    rep.parallel(_mpe, jobs)


def _agree(rep, tier, m, ev):
    """index-based and differentiable most probable explanations are the same value"""
    c = f'{m}{",evidence" if ev else ""}'

    def run(it):
        net = new_einet(it, 'Normal', **m.kw())
        out = []
        for diff in (False, True):
            kw = dict(mpe_at_leaves=True, is_mpe=True, is_differentiable=diff)
            if ev:
                base('e')
                kw['evidence'] = mk([m.N, m.C, m.D], lambda v: el('e', *v), store=Storage('input:evidence'))
                kw['return_leaf_params'] = True
            else:
                kw['num_samples'] = py(m.N)
            out.append(it.call(it.getattr(net, 'sample'), [], kw))
        return out
    for r in rep.paths('same-explanation', 'Einet.sample', c, explore(LOADER, run)):
        a, b = r.value
        if not (isinstance(a, Ten) and isinstance(b, Ten)):
            rep.und('same-explanation', 'Einet.sample', c, f'{a!r} {b!r}'[:200])
            continue
        if not rep.cond(same_shape(a, b.shape), 'same-shape', 'Einet.sample', c, f'shapes {a.shape} and {b.shape}'):
            continue
        pos = [opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)] + ([ZERO] if ev else [])
        cases = [(c, a.at(pos), b.at(pos))]
        done = []
        while cases and len(done) + len(cases) < 40:
            cc, x, y = cases.pop()
            ch = [z for z in sorted(choice_atoms(x) | choice_atoms(y), key=lambda z: (z.hgt, z.key)) if z.kind == 'red'
                  and not any(v[0] in '#%' for v in z.fv) and len(z.args[1]) == 1 and (z.args[1][0].cint or 99) <= 4]
            if not ch:
                done.append((cc, x, y))
                continue
            for v in range(ch[0].args[1][0].cint):
                cases.append((f'{cc},choice={v}', tm.subst_atom(x, ch[0], lift(v)), tm.subst_atom(y, ch[0], lift(v))))
        for cc, x, y in done + cases:
            rep.equal('same-explanation', 'Einet.sample', cc, x, y, r.facts, 'explanation found with indices vs. differentiably')


def model_agree(rep, tier):
    rep.parallel(_agree, [(tier, m, ev) for m in few(tier) for ev in (False, True)])
