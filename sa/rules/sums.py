"""rules on the sum layers (einsum / linsum / linsum2 / sum / mixing) with symbolic sizes"""
from ..scen import *

LOADER = Loader()


def ctxs(kind, tier, odd=True):
    """size contexts"""
    if kind == 'MixingLayer':
        base_ = [dict(par='any', R=1)]
    elif kind == 'SumLayer':
        base_ = [dict(par='any'), dict(par='any', R=1)]
    elif kind == 'EinsumLayer':
        base_ = [dict(par='even'), dict(par='even', R=1)]
    else:
        base_ = [dict(par='even'), dict(par='odd'), dict(par='even', R=1)]
    out = [Sz(**b) for b in base_]
    extra = [dict(Ci=1), dict(Co=1), dict(N=1)]
    if tier == 'thorough':
        extra += [dict(Ci=1, Co=1), dict(N=1, Co=1), dict(Ci=2), dict(Ci=3, Co=2), dict(N=1, Ci=1, Co=1)]
    for e in extra:
        for b in base_[:1] if tier == 'quick' else base_:
            out.append(Sz(**dict(b, **e)))
    return out


def in_any(z, kind):
    return 'any' if kind in ('SumLayer', 'MixingLayer') else z.par


def run_forward(kind, z, f, training=False, dropout=0.0):
    def run(it):
        it.training = training
        lay = new_sum(it, kind, z, dropout)
        it.training = training
        x = sum_input(kind, z, f)
        y = it.call(lay, [x], {})
        return lay, x, y
    return explore(LOADER, run, training=training)


def kidx(z, kind):
    """parent positions to be examined: (label, k, children)"""
    if kind == 'MixingLayer':
        return [('root', ZERO, None)]
    if kind == 'SumLayer':
        k = opq('kk', z.h)
        return [('any', k, [k])]
    k = opq('kk', z.h)
    out = [('pair', k, [2 * k, 2 * k + 1])]
    if z.par == 'odd':
        out.append(('padded', z.h, [2 * z.h]))
    return out


def out_at(kind, z, F, n, k, o, r):
    return F.at([n, ZERO, o]) if kind == 'MixingLayer' else F.at([n, k, o, r])


# ------------------------------------------------------------------ P01
def unit_mass(rep, tier):
    for kind in SUMS:
        for z in ctxs(kind, tier):
            rs = run_forward(kind, z, lambda *v: ZERO)
            for r in rep.paths('unit-mass', f'{kind}.forward', str(z), rs):
                lay, x, y = r.value
                if not isinstance(y, Ten):
                    rep.und('unit-mass', f'{kind}.forward', str(z), repr(y))
                    continue
                want = [z.N, ONE, z.Co] if kind == 'MixingLayer' else [z.N, z.Dout, z.Co, z.R]
                rep.cond(len(y.shape) == len(want) and all(a is lift(b) for a, b in zip(y.shape, want)), 'output-shape',
                         f'{kind}.forward', str(z), f'output shape {y.shape}, required {want}')
                rep.equal('unit-mass', f'{kind}.forward', str(z), y.body, ZERO, r.facts,
                          'all children integrate to one, the node must too')
    mass_models(rep, tier)


def mass_models(rep, tier):
    pass


# ------------------------------------------------------------------ P02
def decomposable(rep, tier):
    for kind in SUMS:
        if kind == 'MixingLayer':
            continue
        for z in ctxs(kind, tier):
            # probe: a unit contribution at feature d0 must reach exactly one output feature exactly once
            q = opq('q', z.h)
            probes = [('even', 2 * q), ('odd', 2 * q + 1)] if kind != 'SumLayer' else [('any', q)]
            if z.par == 'odd':
                probes.append(('last', 2 * z.h))
            for lab, d0 in probes:
                rs = run_forward(kind, z, lambda n, d, c, r, d0=d0: eq0(d - d0))
                for r in rep.paths('scope-once', f'{kind}.forward', str(z), rs):
                    y = r.value[2]
                    kn, kv = tm.newvar(y.shape[1])
                    n, o, rr = opq('nn', z.N), opq('oo', z.Co), opq('rr', z.R)
                    tot = tm.red('sum', [(kn, y.shape[1])], y.at([n, kv, o, rr]))
                    rep.equal('scope-once', f'{kind}.forward', f'{z},feature={lab}', tot, ONE, r.facts,
                              'total contribution of one input feature over all output features')


# ------------------------------------------------------------------ sampling
def run_sample(kind, z, diff, mpe, ev, temp, probe=True):
    """forward on a channel probe, and a sample() call from parent indices s/rho"""
    def run(it):
        lay = new_sum(it, kind, z)
        it.training = False
        base('e')
        base('g', rng=z.Ci, integer=True)
        io, ir, S, RH = parent_indices(z, kind, diff)
        E = sum_input(kind, z, name='e')

        def gx(*v):
            c = v[3] if kind == 'MixingLayer' else v[2]
            d = ZERO if kind == 'MixingLayer' else v[1]
            g = el('g', d) if z.Ci.cint != 1 else ZERO
            return sel(eq0(g - c), ZERO, -INF) + (el('e', *v) if ev else ZERO)
        F = it.call(lay, [sum_input(kind, z, gx, 'probe')], {})
        F0 = None
        if ev:
            it.call(it.getattr(lay, '_enable_input_cache'), [], {})
            F0 = it.call(lay, [E], {})
        T_ = sym('T', 0, integer=False, pos=True) if temp else 1.0
        ctx = new_ctx(it, num_samples=py(z.N), indices_out=io, indices_repetition=ir, is_mpe=mpe, temperature_sums=T_,
                      num_repetitions=py(z.R), is_differentiable=diff, hard=True)
        ctx2 = it.call(it.getattr(lay, 'sample'), [ctx], {})
        if not isinstance(ctx2, Obj):
            ctx2 = ctx
        return lay, F, F0, it.getattr(ctx2, 'indices_out'), S, RH
    return explore(LOADER, run)


def indicator(out, diff, pos, g, C):
    """[child index at pos == g]"""
    return out.at(pos + [g]) if diff else eq0(out.at(pos) - g)


def laws(kind, z, val, diff, ev, temp, T_):
    """-> list of (label, joint probability of children choices g, reference log law)"""
    lay, F, F0, out, S, RH = val
    n = opq('nn', z.N)
    res = []
    for lab, k, ch in kidx(z, kind):
        o, r = S(n, k), RH(n)
        FF = out_at(kind, z, F, n, k, o, r)
        if F0 is not None:
            FF = FF - out_at(kind, z, F0, n, k, o, r)
        refs = [tempered(FF, T_)] if temp else [FF]
        ex = ONE
        for d in (ch if ch is not None else [ZERO]):
            g = el('g', d) if z.Ci.cint != 1 else ZERO
            ex = ex * indicator(out, diff, [n, d], g, z.Ci)
        J = joint(ex)
        res.append((lab, J, refs, FF))
    return res


def want_shape(kind, z, diff):
    s = [z.N, ONE if kind == 'MixingLayer' else z.D]
    return s + [z.Ci] if diff else s


def _dual(rep, tier, ev, mpe, rule):
    T_ = sym('T', 0, integer=False, pos=True)
    for kind in SUMS:
        for z in ctxs(kind, tier):
            for diff in (False, True):
                for temp in (False, True):
                    c = f'{z},{"differentiable" if diff else "indices"}{",temperature" if temp else ""}{",evidence" if ev else ""}'
                    rs = run_sample(kind, z, diff, mpe, ev, temp)
                    for r in rep.paths(rule, f'{kind}.sample', c, rs):
                        out = r.value[3]
                        if not isinstance(out, Ten):
                            rep.und(rule, f'{kind}.sample', c, repr(out))
                            continue
                        ws = want_shape(kind, z, diff)
                        if not rep.cond(len(ws) == out.dim and all(a is lift(b) for a, b in zip(out.shape, ws)), 'index-shape',
                                        f'{kind}.sample', c, f'indices have shape {out.shape}, required {ws}'):
                            continue
                        if mpe:
                            nd = [e for e in r.it.rng if e[1] == 'draw' and e[3] != '<module>' and 'sample' in e[3].lower() + ' ' and not e[3].endswith('__init__')]
                            nd = _draws_in(out)
                            if not rep.cond(not nd, 'mpe-no-randomness', f'{kind}.sample', c, f'most probable index depends on random draws {nd}'):
                                continue
                        try:
                            L = laws(kind, z, r.value, diff, ev, temp, T_)
                        except Unk as e:
                            rep.und(rule, f'{kind}.sample', c, f'law not recognised: {e}')
                            continue
                        for lab, J, refs, plain in L:
                            cc = f'{c},parent={lab}'
                            if mpe and temp and not ev:
                                from ..equal import compare
                                a = compare(tm.log(J), refs[0], r.facts)[0]
                                b = compare(tm.log(J), plain, r.facts)[0]
                                if 'eq' in (a, b):
                                    rep.ok(rule, f'{kind}.sample', cc)
                                    continue
                                if 'unproven' in (a, b):
                                    rep.und(rule, f'{kind}.sample', cc, 'mpe law')
                                    continue
                            rep.equal(rule, f'{kind}.sample', cc, tm.log(J), refs[0], r.facts,
                                      'log-probability that sampling routes to children g, versus the forward value with children fixed to g')


def _draws_in(t):
    s = set()

    def p(a):
        if a.kind == 'draw':
            s.add(repr(lift(a))[:120])
        return False
    tm.contains_atom(t.body, p)
    return sorted(s)


def duality_free(rep, tier):
    _dual(rep, tier, False, False, 'sampling-law')


def duality_evidence(rep, tier):
    _dual(rep, tier, True, False, 'posterior-sampling-law')


def mpe(rep, tier):
    _dual(rep, tier, False, True, 'mpe-argmax')
    _dual(rep, tier, True, True, 'mpe-argmax')


def diff_agree(rep, tier):
    for kind in SUMS:
        for z in ctxs(kind, tier):
            for mpe_ in (False, True):
                for ev in (False, True):
                    c = f'{z}{",mpe" if mpe_ else ""}{",evidence" if ev else ""}'
                    a = rep.paths('diff-agree', f'{kind}.sample', c, run_sample(kind, z, False, mpe_, ev, True))
                    b = rep.paths('diff-agree', f'{kind}.sample', c, run_sample(kind, z, True, mpe_, ev, True))
                    if len(a) != 1 or len(b) != 1:
                        rep.und('diff-agree', f'{kind}.sample', c, f'{len(a)}/{len(b)} paths')
                        continue
                    oa, ob = a[0].value[3], b[0].value[3]
                    n = opq('nn', z.N)
                    for lab, k, ch in kidx(z, kind):
                        for d in (ch or [ZERO]):
                            g = el('g', d) if z.Ci.cint != 1 else ZERO
                            try:
                                x = joint(indicator(oa, False, [n, d], g, z.Ci))
                                y = joint(indicator(ob, True, [n, d], g, z.Ci))
                            except Unk as e:
                                rep.und('diff-agree', f'{kind}.sample', c, str(e))
                                continue
                            rep.equal('diff-agree', f'{kind}.sample', f'{c},child={d}', y, x, (),
                                      'probability of child index g: differentiable vs index sampling')
