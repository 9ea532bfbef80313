"""rules on inference and sampling entry points: purity, evidence, clean-up on every exit, seeds, gradients"""
from ..scen import *
from ..equal import compare
from .model import new_einet, Mz, few, q, LOADER, EIN, same_shape

LEAFKW = {'Normal': {}, 'RatNormal': {}, 'Bernoulli': {}, 'Binomial': dict(total_count=5), 'Categorical': dict(num_bins=7),
          'MultivariateNormal': dict(cardinality=2)}


def grid(tier, leaves=('Normal',), K=(1,)):
    """(model, leaf) pairs"""
    out = []
    for k in K:
        for m in few(tier, K=k):
            out.append((m, 'Normal'))
    for s, R in (('top-down', 1), ('top-down', 2), ('bottom-up', 1)):
        out.append((Mz('linsum', s, 1, 4 * q, R, C=2), 'Normal'))
    for lf in leaves:
        if lf == 'Normal':
            continue
        for s, R in (('top-down', 1), ('top-down', 2), ('bottom-up', 1)):
            if s == 'bottom-up' and lf == 'MultivariateNormal':
                continue
            out.append((Mz('linsum', s, 1, 4 * q, R), lf))
    if 'Binomial' in leaves:
        out.append((Mz('linsum', 'top-down', 1, lift(4), 2), 'MultiDistributionLayer'))
        out.append((Mz('linsum', 'bottom-up', 1, lift(4), 1), 'MultiDistributionLayer'))
    return out


MULTI = [((2, 0), 'Normal', {}), ((3, 1), 'Binomial', dict(total_count=5))]


def multi_kw(it, spec):
    """leaf_kwargs['scopes_to_dist'] for (scopes, class name, kwargs) triples"""
    return [([int(i) for i in sc], it.repo_attr(P + 'layers.distributions.' + LEAFS[nm], nm), dict(kw)) for sc, nm, kw in spec]


def build(it, m, leaf, **kw):
    k = m.kw()
    if LEAFKW.get(leaf):
        k['leaf_kwargs'] = dict(LEAFKW[leaf])
    if leaf == 'MultiDistributionLayer':
        k['leaf_kwargs'] = dict(scopes_to_dist=multi_kw(it, MULTI))
    k.update(kw)
    net = new_einet(it, leaf, **k)
    it.training = False
    return net


def data(m, name='x', dims=3, maynan=False):
    base(name, maynan=maynan)
    if dims == 2:
        return mk([m.N, m.D], lambda v: el(name, v[0], ZERO, v[1]), store=Storage('input:' + name))
    return mk([m.N, m.C, m.D], lambda v: el(name, *v), store=Storage('input:' + name))


def some_scopes(m):
    return [1] if m.D.cint == 2 else [0, 2]


def modules(o, seen=None):
    seen = {} if seen is None else seen
    if isinstance(o, Obj) and o.id not in seen:
        seen[o.id] = o
        for c in o.mods.values():
            modules(c, seen)
    return seen


def tensors_of(net):
    """parameters and buffers: name -> (tensor, value)"""
    out = {}
    for o in modules(net).values():
        for n, t in list(o.params.items()) + list(o.bufs.items()):
            if isinstance(t, Ten):
                out[(o.cls.name, o.id, n)] = (t, t.body, t.requires_grad)
    return out


def changed_tensors(before, net):
    after = tensors_of(net)
    bad = []
    for k, (t, b, rg) in before.items():
        if k not in after or after[k][0] is not t or after[k][0].stale or after[k][0].body is not b:
            bad.append(f'{k[0]}.{k[2]}')
        elif after[k][2] != rg:
            bad.append(f'{k[0]}.{k[2]}.requires_grad')
    return bad


def input_writes(it, i0):
    return sorted({f'{e["tag"]} in {e["where"]}' for e in it.effects[i0:]
                   if e['kind'] in ('mutate', 'setdata') and str(e.get('tag') or '').startswith('input:')})


ROUND = [10 ** 6]


def fixed_draws(it, f):
    """run f with draw identities numbered from a fixed base (so that two runs of the same code agree)"""
    old = it.ndraw
    it.ndraw = 10 ** 6
    try:
        return f()
    finally:
        it.ndraw = max(old, it.ndraw) if it.ndraw < 10 ** 6 else old + 1000


# ------------------------------------------------------------------ P07
def pure_inference(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        for mode in ('plain', 'nan', 'scopes'):
            if leaf == 'MultivariateNormal' and mode != 'plain':
                continue
            jobs.append((tier, m, leaf, mode))
    rep.parallel(_pure, jobs)


def _pure(rep, tier, m, leaf, mode):
    c = f'{m},leaf={leaf},input={mode}'

    def run(it):
        net = build(it, m, leaf)
        x = data(m, maynan=mode == 'nan')
        b0 = x.body
        T0 = tensors_of(net)
        i0, r0 = len(it.effects), len(it.rng)
        g0 = it.nograd
        sc = [0] if mode == 'scopes' else None
        y1 = it.call(net, [x], dict(marginalized_scopes=sc))
        w = input_writes(it, i0)
        drawn = sorted({f'{e[0]} in {e[3]}' for e in it.rng[r0:] if e[1] == 'draw'})
        y2 = it.call(net, [x], dict(marginalized_scopes=[0] if sc else None))
        return dict(x=x, b0=b0, ch=changed_tensors(T0, net), w=w, drawn=drawn, y1=y1, y2=y2, ng=it.nograd == g0)
    for r in rep.paths('inference', 'Einet.forward', c, explore(LOADER, run)):
        v = r.value
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        rep.cond(not v['w'] and not v['x'].stale and v['x'].body is v['b0'], 'input-untouched', 'Einet.forward', c,
                 f'inference writes into the caller\'s tensor: {v["w"]}')
        rep.cond(not v['drawn'], 'deterministic', 'Einet.forward', c, f'evaluation-mode inference draws random numbers: {v["drawn"]}')
        rep.cond(not v['ch'], 'parameters-untouched', 'Einet.forward', c, f'inference modifies {v["ch"]}')
        rep.cond(v['ng'], 'grad-mode', 'Einet.forward', c, 'gradient mode is left changed')
        if not (isinstance(v['y1'], Ten) and isinstance(v['y2'], Ten)):
            rep.und('repeatable', 'Einet.forward', cc, repr(v['y1'])[:100])
            continue
        if rep.cond(same_shape(v['y1'], [m.N, m.K]), 'output-shape', 'Einet.forward', c, f'output shape {v["y1"].shape}'):
            n, k = opq('nn', m.N), opq('kk', m.K)
            rep.equal('repeatable', 'Einet.forward', cc, v['y2'].at([n, k]), v['y1'].at([n, k]), r.facts,
                      'second evaluation of the same input vs. the first')


# ------------------------------------------------------------------ P09
def evidence(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        for mode in ('nan', 'scopes'):
            if leaf == 'MultivariateNormal' and mode == 'nan':
                continue
            for diff in (False, True):
                for mpe in (False, True):
                    jobs.append((tier, m, leaf, mode, diff, mpe, 3))
    for m in few(tier):
        for mode in ('nan', 'scopes'):
            jobs.append((tier, m, 'Normal', mode, False, False, 2))
    rep.parallel(_evidence, jobs)


def _evidence(rep, tier, m, leaf, mode, diff, mpe, dims):
    c = f'{m},leaf={leaf},missing={mode},{"differentiable" if diff else "indices"}{",mpe" if mpe else ""},{dims}-d evidence'
    SC = opq('scope', m.D)

    def run(it):
        net = build(it, m, leaf)
        e = data(m, 'e', dims, maynan=mode == 'nan')
        b0 = e.body
        T0 = tensors_of(net)
        i0 = len(it.effects)
        kw = dict(evidence=e, is_differentiable=diff)
        if mode == 'scopes':
            kw['marginalized_scopes'] = some_scopes(m)
        if mpe and diff:
            kw.pop('is_differentiable')
            s = it.call(it.getattr(net, 'mpe'), [], dict(kw, is_differentiable=True))
        elif mpe:
            s = it.call(it.getattr(net, 'mpe'), [], kw)
        else:
            s = it.call(it.getattr(net, 'sample'), [], kw)
        return dict(e=e, b0=b0, s=s, w=input_writes(it, i0), ch=changed_tensors(T0, net), same=s is e)
    E = 'Einet.mpe' if mpe else 'Einet.sample'
    for r in rep.paths('evidence', E, c, explore(LOADER, run)):
        v = r.value
        e, s = v['e'], v['s']
        cc = c + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
        rep.cond(not v['w'] and not e.stale and e.body is v['b0'], 'evidence-untouched', E, c, f"the caller's evidence is overwritten: {v['w']}")
        rep.cond(not v['ch'], 'parameters-untouched', E, c, f'sampling modifies {v["ch"]}')
        if not isinstance(s, Ten):
            rep.und('evidence-kept', E, cc, repr(s)[:100])
            continue
        if not rep.cond(same_shape(s, e.shape), 'result-shape', E, c, f'result shape {s.shape}, evidence shape {e.shape}'):
            continue
        rep.cond(s.store is not e.store, 'evidence-untouched', E, c, 'the result shares memory with the evidence')
        n, ch, d = opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)
        pos = [n, ch, d] if dims == 3 else [n, d]
        try:
            got = s.at(pos)
            own = el('e', n, ch, d)
            if mode == 'nan':
                kept = tm.assume(got, tm.isnan(own), False)
                filled = tm.assume(got, tm.isnan(own), True)
                rep.equal('evidence-kept', E, cc, kept, own, r.facts, 'result at an observed entry vs. the evidence')
            else:
                kept = got
                for z in some_scopes(m):
                    kept = tm.assume(kept, eq0(d - z), False)
                rep.equal('evidence-kept', E, cc, kept, own, r.facts, 'result at an entry outside the marginalised scopes vs. the evidence')
                last = lift(some_scopes(m)[-1])
                filled = s.at(pos[:-1] + [last])
                own = el('e', n, ch, last)
            dep = []

            def direct(a):
                if a.kind in ('draw',) or (a.kind == 'fn' and a.args[0] == 'logp'):
                    return True
                return False
            vals = leaf_values(filled)
            rep.cond(not any(x is own for x in vals), 'missing-filled', E, cc, f'a missing entry can keep its old value: {filled!r}'[:400])
        except Unk as ex:
            rep.und('evidence-kept', E, cc, str(ex))


def leaf_values(t):
    """possible outcomes of nested selections"""
    a = t.single()
    if a is not None and a.kind == 'sel':
        return leaf_values(a.args[1]) + leaf_values(a.args[2])
    return [t]


# ------------------------------------------------------------------ P10
def cleanup(rep, tier):
    jobs = []
    for m, leaf in grid(tier, (), K=(1, 3)):
        if tier == 'quick' and m.K.cint == 3 and (m.R.cint == 2 or m.layer != 'linsum'):
            continue
        for diff in (False, True):
            jobs.append((tier, m, leaf, diff))
    jobs.sort(key=lambda j: (j[1].R.cint, j[1].K.cint), reverse=True)
    rep.parallel(_cleanup, jobs)


def _probe(it, net, m):
    """what later calls observe: an unconditional sample, a forward pass, another sample"""
    def smp():
        return fixed_draws(it, lambda: it.call(it.getattr(net, 'sample'), [], dict(num_samples=py(m.N), mpe_at_leaves=True)))
    s = smp()
    y = it.call(net, [data(m, 'later')], {})
    return s, y, smp()


def _cleanup(rep, tier, m, leaf, diff):
    seed = sym('SEED', 0)
    base_c = f'{m},leaf={leaf},{"differentiable" if diff else "indices"}'

    def attempt(fault=None, ev=True, seeded=True):
        def run(it):
            net = build(it, m, leaf)
            p0 = _probe(it, net, m)
            rng0, ng0 = it.rngstate, it.nograd
            r0 = len(it.rng)
            v0 = set(it.visited)
            it.visited = set()
            kw = dict(is_differentiable=diff)
            if seeded:
                kw['seed'] = seed
            if ev:
                kw['evidence'] = data(m, 'e', maynan=True)
            else:
                kw['num_samples'] = py(m.N)
            err = None
            if fault:
                def boom(it_, f, a, k):
                    raise PyRaise('InjectedFault', fault, fault)
                it.hooks[fault] = boom
            try:
                it.call(it.getattr(net, 'sample'), [], kw)
            except PyRaise as e:
                if e.etype != 'InjectedFault':
                    raise
                err = e
            it.hooks.pop(fault, None)
            seen = sorted(it.visited)
            it.visited |= v0
            drawn = any(e[1] == 'draw' for e in it.rng[r0:])
            rng1, ng1 = it.rngstate, it.nograd
            if fault and err is None:
                return None
            p1 = _probe(it, net, m)
            return dict(p0=p0, p1=p1, rng=(rng0, rng1), ng=(ng0, ng1), seen=seen, seeded=seeded)
        return explore(LOADER, run)
    seen = set()
    for ev, seeded in ((True, True), (True, False), (False, True)):
        c = f'{base_c}{",evidence" if ev else ""}{",seed" if seeded else ""},normal exit'
        for r in rep.paths('clean-exit', 'Einet.sample', c, attempt(None, ev, seeded)):
            if ev and seeded:
                seen |= set(r.value['seen'])
            _restored(rep, c, r, m)
    own = [s for s in seen if s.startswith('simple_einet/') and not s.endswith('__init__')]
    skip = ('sampling_context', 'provide_evidence', 'Einet.sample', 'Einet.mpe', '_enable_input_cache', '_disable_input_cache', '__device')
    for f in sorted(own):
        if f.endswith(skip) or f.split(':')[-1] in ('Einet.sample',):
            continue
        c = f'{base_c},evidence,seed,failure inside {f.split(":")[-1]}'
        for r in rep.paths('clean-exit', 'Einet.sample', c, attempt(f)):
            if r.value is not None:
                _restored(rep, c, r, m)


def _restored(rep, c, r, m):
    v = r.value
    if v['seeded']:
        rep.cond(v['rng'][0] == v['rng'][1], 'rng-restored', 'Einet.sample', c,
                 f'random state before: {v["rng"][0]}, after: {v["rng"][1]}')
    rep.cond(v['ng'][0] == v['ng'][1], 'grad-mode-restored', 'Einet.sample', c, 'gradient mode is left changed')
    (s0, y0, z0), (s1, y1, z1) = v['p0'], v['p1']
    if not all(isinstance(t, Ten) for t in (s0, y0, z0, s1, y1, z1)):
        rep.und('later-calls', 'Einet.sample', c, 'probe not analysable')
        return
    n, ch, d = opq('nn', m.N), opq('cc', m.C), opq('dd', m.D)
    rep.equal('later-sample', 'Einet.sample', c, s1.at([n, ch, d]), s0.at([n, ch, d]), r.facts,
              'an unconditional sample drawn afterwards vs. the same sample drawn before')
    rep.equal('later-sample', 'Einet.sample', c, z1.at([n, ch, d]), z0.at([n, ch, d]), r.facts,
              'an unconditional sample drawn after a later forward pass vs. the same before')
    rep.equal('later-forward', 'Einet.sample', c, y1.at([n, opq('kk', m.K)]), y0.at([n, opq('kk', m.K)]), r.facts,
              'a forward pass afterwards vs. before')


# ------------------------------------------------------------------ P11
def seeds(rep, tier):
    jobs = []
    for m, leaf in grid(tier, LEAFKW, K=(1, 3)):
        for diff in (False, True):
            for ev in ((False, True) if leaf != 'MultivariateNormal' else (False,)):
                jobs.append((tier, m, leaf, diff, ev))
    rep.parallel(_seed, jobs)


def _seed(rep, tier, m, leaf, diff, ev):
    seed = sym('SEED', 0)
    c = f'{m},leaf={leaf},{"differentiable" if diff else "indices"}{",evidence" if ev else ""}'

    def run(it):
        net = build(it, m, leaf)
        out = []
        for sd in (seed, None):
            r0, s0 = len(it.rng), it.rngstate
            kw = dict(is_differentiable=diff)
            if sd is not None:
                kw['seed'] = sd
            if ev:
                kw['evidence'] = data(m, 'e', maynan=True)
            else:
                kw['num_samples'] = py(m.N)
            it.call(it.getattr(net, 'sample'), [], kw)
            out.append((it.rng[r0:], s0, it.rngstate))
        return out
    for r in rep.paths('seed', 'Einet.sample', c, explore(LOADER, run)):
        (evs, s0, s1), (evs2, _, _) = r.value
        k = [i for i, e in enumerate(evs) if e[1] == 'seed' and e[0] == 'torch' and lift_eq(e[2], seed)]
        d = [i for i, e in enumerate(evs) if e[1] == 'draw']
        rep.cond(bool(k) and all(i > k[0] for i in d), 'seed-before-draws', 'Einet.sample', c,
                 f'with a seed given, events are {[(e[0], e[1]) for e in evs][:8]}')
        other = sorted({f'{evs[i][0]} in {evs[i][3]}' for i in d if evs[i][0] != 'torch'})
        rep.cond(not other, 'seeded-generator', 'Einet.sample', c, f'random numbers from a generator the seed does not control: {other}')
        later = [e for i, e in enumerate(evs) if k and i > k[0] and e[1] == 'seed' and i < (d[-1] if d else 0)]
        rep.cond(not later, 'seed-before-draws', 'Einet.sample', c, f'the generator is reseeded while sampling: {later[:2]}')
        rep.cond(s0 == s1, 'rng-restored', 'Einet.sample', c, f'random state before: {s0}, after: {s1}')
        re2 = [e for e in evs2 if e[1] in ('seed', 'set')]
        rep.cond(not re2, 'no-seed-no-reseed', 'Einet.sample', c, f'without a seed the random state is overwritten: {re2[:2]}')


def lift_eq(a, b):
    try:
        return lift(a) is lift(b)
    except Exception:
        return a == b
