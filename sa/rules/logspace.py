"""log-space typestate: no value of the magnitude of a likelihood is ever formed outside the log domain"""
import itertools
from ..scen import *
from .. import torchmodel as tmod
from ..equal import compare
from .model import LOADER, Mz, few, contexts, logp_atom
from .infer import build, data, some_scopes
from .families import conv_contexts, new_conv, _img, CONV_SCOPES

LOST = 'unscaled'


def _data_el(a):
    return a.kind == 'el' and a.args[0] in ('x', 'e')


def shifted(t, each=True):
    """t with every leaf log density of variable d in row n replaced by w + u(n, d), and by w alone; None if t does not
    depend on the data (each=False: by one u(n) for all variables)"""
    found = []

    def sub(on):
        def f(a):
            if a.kind == 'draw':
                # an earlier choice: whatever its law, any of its outcomes
                n = f'chosen{a.args[0]}'
                if a.args[1] == 'cat':
                    base(n, rng=tmod.prod(a.args[3]), integer=True)
                else:
                    base(n)
                return el(n, *a.args[2])
            m = logp_atom(a)
            if m is None:
                return None
            e = m.single()
            xs = [b for v in a.args[1] if isinstance(v, T) for b in tm.all_atoms(v) if _data_el(b)]
            if e is None or e.kind != 'el' or len(xs) != 1:
                raise Unk('leaf log density')
            found.append(a)
            n = xs[0].args[1][0]
            return el('w', n, *e.args[1]) + (el('u', n, e.args[1][2] if each else ZERO) if on else ZERO)
        return tm.rebuild(t, f)
    base('w')
    base('u')
    a, b = sub(True), sub(False)
    if tm.contains_atom(b, _data_el):
        return 'raw data'
    return (a, b) if found else None


def factored(t):
    """log sum_i exp(c + e_i) -> c + log sum_i exp(e_i) for the common summands c"""
    def f(a):
        if a.kind == 'fn' and a.args[0] == 'log':
            e = tm.rebuild(a.args[1][0], f)
            ex = []
            for m, c in e.ms:
                xs = [b for b, p in m if b.kind == 'exp']
                if len(xs) != 1 or any(b is xs[0] and p != 1 for b, p in m):
                    return tm.log(e)
                ex.append(xs[0].args[0])
            if len(ex) < 2:
                return tm.log(e)
            common = set(ex[0].ms).intersection(*[set(z.ms) for z in ex[1:]])
            if not common:
                return tm.log(e)
            C = tm.T({m: c for m, c in common})
            rest = sum((tm.T({tuple((b, p) for b, p in m if b.kind != 'exp'): c}) * tm.exp(z - C) for (m, c), z in zip(e.ms, ex)), ZERO)
            return C + tm.log(rest)
        return None
    return tm.rebuild(t, f)


class Watch:
    """watches exponentials while one entry point is analysed"""

    each = True

    def __init__(self, it):
        self.it, self.lost, self.open, self.seen, self.depth = it, [], [], 0, 0

    def exponential(self, name, f):
        def g(it, a, k):
            if getattr(it, 'logwatch', None) is not self or self.depth or not (a and isinstance(a[0], Ten)):
                return f(it, a, k)
            self.depth += 1
            try:
                r = f(it, a, k)
            finally:
                self.depth -= 1
            return self.judge(name, a[0], r)
        return g

    def judge(self, name, x, r):
        if not isinstance(r, Ten):
            return r
        try:
            t = x.at([opq(f'z{i}', s) for i, s in enumerate(x.shape)])
            s = shifted(t, self.each)
        except Unk as e:
            self.open.append(f'{name} at {self.it.loc()}: {e}')
            return r
        if s is None:
            return r
        self.seen += 1
        if s != 'raw data':
            v, why = compare(s[0], s[1])
            if v == 'unproven':
                v, why = self.cases(s[0], s[1], x.shape)
            if v == 'eq':
                return r
            if v != 'diff':
                self.open.append(f'{name} at {self.it.loc()}: {why}')
                return r
        n = f'{LOST}{len(self.lost)}'
        base(n)
        self.lost.append(f'{name} at {self.it.loc()}')
        return mk(r.shape, lambda v: el(n, *v), r.dtype, r.grad)

    def cases(self, a, b, shape):
        """short axes written out, one index at a time"""
        idx = [[lift(k) for k in range(s.cint)] if s.cint is not None and s.cint <= 3 else [opq(f'z{i}', s)] for i, s in enumerate(shape)]
        one = [opq(f'z{i}', s).single() for i, s in enumerate(shape)]
        out = ('eq', None)
        for v in itertools.product(*idx):
            m = {id(o): w for o, w in zip(one, v) if o is not None}
            at = lambda t: factored(tm.expand(tm.rebuild(t, lambda z: m.get(id(z)))))
            r = compare(at(a), at(b))
            if r[0] == 'diff':
                return r
            if r[0] != 'eq':
                out = r
        return out


def _watch(it):
    w = Watch(it)
    it.logwatch = w
    return w


def _install():
    if getattr(tmod, '_logspace', False):
        return
    tmod._logspace = True
    for n in ('exp', 'exp2', 'expm1', 'sigmoid', 'exp_'):
        if n in tmod.OPS:
            def mkw(n, f):
                def g(it, a, k):
                    w = getattr(it, 'logwatch', None)
                    return f(it, a, k) if w is None else w.exponential(n, f)(it, a, k)
                return g
            tmod.OPS[n] = mkw(n, tmod.OPS[n])
    b0 = tmod.binop

    def binop(it, op, x, y):
        w = getattr(it, 'logwatch', None)
        r = b0(it, op, x, y)
        if w is not None and op == 'Pow' and isinstance(y, Ten) and not w.depth and isinstance(r, Ten):
            return w.judge('power', y, r)
        return r
    tmod.binop = binop


_install()
MODES = ('forward', 'scopes', 'posterior', 'completion', 'diff-completion', 'mpe', 'class-completion')
CMODES = ('forward', 'completion', 'scoped', 'mpe')


def magnitudes(rep, tier):
    jobs = [(m, mode) for K in (1, 3) for m in few(tier, K=K) for mode in MODES
            if not (K == 1 and mode in ('posterior', 'class-completion')) and not (K == 3 and mode == 'scopes')]
    jobs += [(m, 'forward') for m in contexts(tier)[:None if tier == 'thorough' else 16]]
    rep.parallel(_magnitude, jobs)
    rep.parallel(_conv, [(m, mode) for m in conv_contexts(tier)[:None if tier == 'thorough' else 4] for mode in CMODES])


def _check(rep, E, c, ps, full=False):
    for r in rep.paths('log-space', E, c, ps):
        y, w = r.value
        if full and w.lost:
            rep.bad('log-space', E, c, f'a value proportional to a likelihood leaves the log domain while a child is selected: {sorted(set(w.lost))[:3]}')
            continue
        ts = [t for t in (y if isinstance(y, (list, tuple)) else [y]) if isinstance(t, Ten)]
        if not ts:
            rep.und('log-space', E, c, repr(y)[:80])
            continue
        hit = set()
        for t in ts:
            tm.contains_atom(t.at([opq(f'o{i}', s) for i, s in enumerate(t.shape)]),
                             lambda a: a.kind == 'el' and a.args[0].startswith(LOST) and bool(hit.add(w.lost[int(a.args[0][len(LOST):])])))
        if hit:
            rep.bad('log-space', E, c, f'a value proportional to a likelihood leaves the log domain and decides the result, so it is 0 or inf for '
                                       f'inputs of small or large density: {sorted(hit)[:3]}')
        elif w.open:
            rep.und('log-space', E, c, '; '.join(w.open[:2]))
        else:
            rep.ok('log-space', E, c)


def _magnitude(rep, m, mode):
    full = mode == 'diff-completion' and m.structure == 'bottom-up' and (m.R.cint == 2 or m.K.cint != 1)
    c = f'{m},{mode}{",all observed" if full else ""}'
    E = {'forward': 'Einet.forward', 'scopes': 'Einet.forward', 'posterior': 'Einet.posterior', 'mpe': 'Einet.mpe'}.get(mode, 'Einet.sample')

    def run(it):
        net = build(it, m, 'Normal')
        w = _watch(it)
        w.each = not full
        x = data(m, maynan=False)
        sc = None if full else some_scopes(m)
        call = lambda fn, **kw: it.call(it.getattr(net, fn), [], kw)
        if mode in ('forward', 'scopes'):
            y = it.call(net, [x], dict(marginalized_scopes=sc) if mode == 'scopes' else {})
        elif mode == 'posterior':
            y = call('posterior', x=x)
        elif mode == 'mpe':
            y = call('mpe', evidence=x, marginalized_scopes=sc)
        elif mode == 'class-completion':
            y = call('sample', evidence=x, marginalized_scopes=sc, mpe_at_leaves=True)
        else:
            y = call('sample', evidence=x, marginalized_scopes=sc, is_differentiable=mode == 'diff-completion', mpe_at_leaves=True)
        return y, w
    _check(rep, E, c, explore(LOADER, run), full)


def _conv(rep, m, mode):
    c = f'{m},{mode}'
    E = 'ConvPc.forward' if mode == 'forward' else 'ConvPc.sample'

    def run(it):
        net = new_conv(it, m)
        w = _watch(it)
        x = _img(m)
        if mode == 'forward':
            y = it.call(net, [x], {})
        else:
            y = it.call(it.getattr(net, 'sample'), [], dict(evidence=x, marginalized_scopes=list(CONV_SCOPES), is_mpe=mode == 'mpe', mpe_at_leaves=True))
        return y, w
    _check(rep, E, c, explore(LOADER, run))
