"""Transfer functions of the abstract interpreter for the torch / numpy / python API used by /repo."""
import ast
import collections.abc
import operator
from .values import *
from . import terms as tm
from . import equal
from .interp import NpArr, NpInt, norm, MISSING, Env, Frame

ALIAS = {
    'torch.functional': 'torch', 'torch.nn.functional': 'torch.nn.functional', 'numpy.random': 'numpy.random',
}


def canon(n):
    return n


def import_from(it, mod, name):
    p = f'{mod}.{name}' if mod else name
    p = {'torch.Tensor': 'torch.Tensor', 'torch.nn.Parameter': 'torch.nn.Parameter'}.get(p, p)
    if p.startswith('typing.') or p in ('abc.abstractmethod',):
        return Ext(p)
    if p in ('operator.xor', '_operator.xor'):
        return Builtin('xor', lambda it, a, k: bool(it.truth(a[0])) != bool(it.truth(a[1])))
    return Ext(p)


# ================================================================ helpers
class ArgErr(Exception):
    pass


def bind(it, name, args, kwargs, *spec):
    """spec: 'a' required or ('a', default)"""
    names = [s if isinstance(s, str) else s[0] for s in spec]
    out = {}
    kwargs = dict(kwargs)
    for drop in ('device', 'memory_format', 'out', 'non_blocking', 'layout', 'pin_memory', 'generator_'):
        kwargs.pop(drop, None)
    for a, b in (('axis', 'dim'), ('keepdims', 'keepdim'), ('self', 'input'), ('x', 'input')):
        if a in kwargs and a not in names and b in names:
            kwargs[b] = kwargs.pop(a)
    if len(args) > len(names):
        raise Unk(f'{name}: too many positional args')
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kwargs.items():
        if k not in names:
            raise Unk(f'{name}: unexpected keyword {k}')
        out[k] = v
    for s in spec:
        n = s if isinstance(s, str) else s[0]
        if n not in out:
            if isinstance(s, str):
                raise Unk(f'{name}: missing {n}')
            out[n] = s[1]
    return [out[n] for n in names]


def scal(v):
    """python / T scalar -> T"""
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, int, float)):
        return lift(v if not isinstance(v, NpInt) else int(v))
    if isinstance(v, Ten) and all(n is None for n, s in v.axes):
        return v.body
    if isinstance(v, Unknown):
        raise Unk(v.why)
    raise Unk(f'not a scalar: {v!r}')


def size(v):
    return scal(v)


def generic_differs(a, b):
    """sizes are different for some admissible configuration (independent size symbols)"""
    d = a - b
    if not d.ms:
        return False
    return not tm.contains_atom(d, lambda x: x.kind not in ('sym',)) and \
        all(tm.SYMS.get(x.args[0], {}).get('lo') is not None for x in d.atoms())


def shape_err(it, msg):
    it.raise_('RuntimeError', msg)


def same_size(it, a, b, what):
    if a is b:
        return True
    if generic_differs(a, b):
        shape_err(it, f'{what}: size {a!r} vs {b!r}')
    # facts may equate
    raise Unk(f'{what}: cannot relate sizes {a!r} and {b!r}')


def canon_dim(it, d, n):
    d = norm(scal(d))
    if not isinstance(d, int):
        raise Unk('symbolic dim')
    if not -n <= d < n:
        it.raise_('IndexError', f'Dimension out of range (expected to be in range of [{-n}, {n - 1}], but got {d})')
    return d % n


def is_ten(x):
    return isinstance(x, (Ten, Masked))


def bcast_sizes(it, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        cur = ONE
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                continue
            if cur is ONE:
                cur = x
            elif cur is not x:
                same_size(it, cur, x, 'The size of tensors must match at non-singleton dimension')
        out.append(cur)
    return out


DT_ORDER = ['bool', 'long', 'float']


def elementwise(it, f, vals, dtype=None, grad=True):
    if any(isinstance(v, Unknown) for v in vals):
        raise Unk(next(v.why for v in vals if isinstance(v, Unknown)))
    if any(isinstance(v, Masked) for v in vals):
        m = next(v for v in vals if isinstance(v, Masked))
        vs = []
        for v in vals:
            if isinstance(v, Masked):
                if not (v.mask is m.mask or teq(v.mask, m.mask)):
                    raise Unk('mix of different masks')
                vs.append(v.ten)
            elif isinstance(v, Ten) and v.dim:
                raise Unk('masked with dense')
            else:
                vs.append(v)
        return Masked(elementwise(it, f, vs, dtype, grad), m.mask)
    tens = [v for v in vals if isinstance(v, Ten)]
    if not tens:
        return norm(lift(f(*[scal(v) for v in vals])))
    sizes = bcast_sizes(it, [t.shape for t in tens])

    def body(vs):
        args = []
        for v in vals:
            if isinstance(v, Ten):
                k = len(sizes) - v.dim
                args.append(v.at([vs[k + i] if v.shape[i] is not ONE else ZERO for i in range(v.dim)]))
            else:
                args.append(scal(v))
        return lift(f(*args))
    if dtype is None:
        ds = [t.dtype for t in tens] + [('bool' if isinstance(v, bool) else 'long' if isinstance(v, int) or (isinstance(v, T) and tm.is_int(v)) else 'float')
                                        for v in vals if not isinstance(v, Ten)]
        dtype = max(ds, key=lambda d: DT_ORDER.index(d) if d in DT_ORDER else 2)
    g = grad and it.nograd == 0 and dtype == 'float' and any(t.grad for t in tens)
    r = mk(sizes, body, dtype, g, np=any(t.np for t in tens))
    return cut(it, r) if it.track and it.nograd else r


def _cut(a):
    if a.kind == 'el' and a.args[0].startswith('param'):
        n = a.args[0] if a.args[0].endswith('~') else a.args[0] + '~'
        base(n)
        return el(n, *[tm.rebuild(lift(i), _cut) for i in a.args[1]])
    return None


def cut(it, t):
    """gradient tracking: parameter entries in a value no gradient flows through are renamed p~"""
    if it.track and isinstance(t, Ten) and t.dtype == 'float':
        t.body = tm.rebuild(t.body, lambda a: _cut(a))
    return t


def as_ten(it, v, dtype=None):
    if isinstance(v, Ten):
        return v
    if isinstance(v, (int, float, bool, T)):
        t = Ten([], lift(v) if not isinstance(v, NpInt) else lift(int(v)))
        t.dtype = dtype or ('bool' if isinstance(v, bool) else 'long' if isinstance(v, int) or (isinstance(v, T) and tm.is_int(v)) else 'float')
        return t
    if isinstance(v, (list, tuple)):
        return stack_list(it, [as_ten(it, x) for x in v])
    if isinstance(v, SymList):
        return symlist_ten(it, v)
    if isinstance(v, SymSet):
        base(f'{v.name}.el', integer=True)
        return mk([v.size], lambda vs: el(f'{v.name}.el', vs[0]), 'long')
    if isinstance(v, Unknown):
        raise Unk(v.why)
    raise Unk(f'as tensor: {v!r}')


def pick(vs, elems, v):
    """element of a concrete list at index term v"""
    k = v.cint
    if k is not None:
        return elems[k]
    out = elems[-1]
    for i in range(len(elems) - 2, -1, -1):
        out = tm.sel(tm.eq0(v - i), elems[i], out)
    return out


def stack_list(it, ts, dim=0):
    if not ts:
        return Ten([(None, ZERO)], ZERO)
    n = ts[0].dim
    for t in ts[1:]:
        if t.dim != n:
            shape_err(it, 'stack expects each tensor to be equal size')
        for a, b in zip(t.shape, ts[0].shape):
            same_size(it, a, b, 'stack expects each tensor to be equal size')
    dim = dim % (n + 1)
    sizes = list(ts[0].shape)
    sizes.insert(dim, lift(len(ts)))

    def f(vs):
        v = vs[dim]
        rest = vs[:dim] + vs[dim + 1:]
        return pick(None, [t.at(rest) for t in ts], v)
    dt = max((t.dtype for t in ts), key=lambda d: DT_ORDER.index(d) if d in DT_ORDER else 2)
    return mk(sizes, f, dt, any(t.grad for t in ts) and it.nograd == 0, np=any(t.np for t in ts))


def symlist_ten(it, sl):
    total = ONE
    for n, s in sl.axes:
        total = total * s
    elem = as_ten(it, sl.elem)
    sizes = [total] + elem.shape

    def f(vs):
        env = {}
        lin = vs[0]
        stride = total
        first = True
        for n, s in sl.axes:
            stride = tm.div(stride, s)
            q = tm.fdiv(lin, stride)
            if n is not None:
                env[n] = q
            lin = lin - q * stride
        return subst(elem.at(vs[1:]), env)
    return mk(sizes, f, elem.dtype)


def shape_tuple(t):
    return tuple(norm(s) for s in t.shape)


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def flat_sizes(it, a):
    """varargs shape -> list of T"""
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    out = []
    for x in a:
        if isinstance(x, (MaskedShape,)):
            raise Unk('masked shape')
        out.append(size(x))
    return out


# ================================================================ view / reshape
def do_view(it, t, a, what='view'):
    new = flat_sizes(it, a)
    total = prod(t.shape)
    neg = [i for i, s in enumerate(new) if s.cint == -1]
    if len(neg) > 1:
        shape_err(it, 'only one dimension can be inferred')
    if neg:
        rest = prod([s for i, s in enumerate(new) if i != neg[0]])
        q, r = tm.divmod_poly(total, rest) if total is not rest else (ONE, ZERO)
        if r.ms or not q.ms:
            if len(rest.ms) >= 1:
                q2 = div_exact(total, rest)
                if q2 is None:
                    if generic_clean(total) and generic_clean(rest):
                        shape_err(it, f"shape '{new!r}' is invalid for input of size {total!r}")
                    raise Unk(f'{what}: cannot infer -1 of {total!r} / {rest!r}')
                q = q2
        new[neg[0]] = q
    nt = prod(new)
    if nt is not total:
        if generic_differs(nt, total):
            shape_err(it, f"shape '{new!r}' is invalid for input of size {total!r}")
        raise Unk(f'{what}: {total!r} -> {nt!r}')
    return reshape_to(it, t, new, keep_store=True)


def generic_clean(t):
    return not tm.contains_atom(t, lambda x: x.kind != 'sym')


def div_exact(a, b):
    if len(b.ms) == 1:
        q = a * tm.tpow(b, -1)
        if all(p > 0 for m, c in q.ms for x, p in m) and all(c.denominator == 1 for m, c in q.ms):
            return q
        return None
    q, r = tm.divmod_poly(a, b)
    return q if not r.ms else None


def reshape_to(it, t, new, keep_store=False):
    old = t.shape

    def f(vs):
        # match groups of axes with equal products (skipping size-1 axes)
        oi = [i for i, s in enumerate(old) if s is not ONE]
        ni = [i for i, s in enumerate(new) if s is not ONE]
        idx = [ZERO] * len(old)
        a = b = 0
        while a < len(oi) or b < len(ni):
            ga, gb = [], []
            pa = pb = ONE
            matched = False
            # grow minimal groups
            if a < len(oi) and b < len(ni):
                ga, gb = [oi[a]], [ni[b]]
                pa, pb = old[oi[a]], new[ni[b]]
                ia, ib = a + 1, b + 1
                for _ in range(24):
                    if pa is pb:
                        matched = True
                        break
                    # grow the one that divides the other
                    if div_exact(pb, pa) is not None and ia < len(oi):
                        ga.append(oi[ia])
                        pa = pa * old[oi[ia]]
                        ia += 1
                    elif div_exact(pa, pb) is not None and ib < len(ni):
                        gb.append(ni[ib])
                        pb = pb * new[ni[ib]]
                        ib += 1
                    else:
                        break
            if not matched:
                ga, gb = oi[a:], ni[b:]
                ia, ib = len(oi), len(ni)
            if len(ga) == 1 and len(gb) == 1:
                idx[ga[0]] = vs[gb[0]]
            else:
                lin = ZERO
                stride = ONE
                for j in reversed(gb):
                    lin = lin + vs[j] * stride
                    stride = stride * new[j]
                stride = ONE
                for k, j in enumerate(reversed(ga)):
                    q = tm.fdiv(lin, stride)
                    if k < len(ga) - 1:
                        q = q - old[j] * tm.fdiv(q, old[j])
                    idx[j] = q
                    stride = stride * old[j]
            a, b = ia, ib
        return t.at(idx)
    return mk(new, f, t.dtype, t.grad, t.store if keep_store else None, np=t.np)


def permute(t, order):
    axes = [t.axes[i] for i in order]
    r = Ten(axes, t.body, t.dtype, t.grad, t.store, np=t.np)
    return r


# ================================================================ reductions
def reduce(it, op, t, dim, keepdim=False, dtype=None):
    if isinstance(t, Masked):
        raise Unk('reduction of masked selection')
    if dim is None:
        dims = list(range(t.dim))
    elif isinstance(dim, (list, tuple)):
        dims = [canon_dim(it, d, t.dim) for d in dim]
    else:
        if t.dim == 0:
            dims = []
        else:
            dims = [canon_dim(it, dim, t.dim)]
    body = t.body
    vs = [(t.axes[d][0], t.axes[d][1]) for d in dims if t.axes[d][0] is not None]
    if op in ('argmax', 'argmin') and dim is None and len(t.axes) > 1:
        raise Unk('argmax over all')
    if op in ('argmax', 'argmin') and t.dim == 1 and t.shape[0].cint is not None and t.shape[0].cint <= 64 and vs:
        c = [t.at([lift(i)]).const for i in range(t.shape[0].cint)]
        if None not in c:
            return Ten([(None, ONE)] if keepdim else [], lift(c.index(max(c) if op == 'argmax' else min(c))), 'long')
    nb = tm.red(op, vs, body) if vs else (ZERO if op in ('argmax', 'argmin') else body)
    axes = []
    for i, a in enumerate(t.axes):
        if i in dims:
            if keepdim:
                axes.append((None, ONE))
        else:
            axes.append(a)
    dt = dtype or t.dtype
    if op in ('argmax', 'argmin'):
        dt = 'long'
    if op == 'sum' and t.dtype == 'bool':
        dt = 'long'
    return Ten(axes, nb, dt, t.grad and dt == 'float' and it.nograd == 0, np=t.np)


def mean(it, t, dim, keepdim=False):
    s = reduce(it, 'sum', t, dim, keepdim)
    if dim is None:
        n = prod(t.shape)
    else:
        ds = dim if isinstance(dim, (list, tuple)) else [dim]
        n = prod([t.shape[canon_dim(it, d, t.dim)] for d in ds])
    r = elementwise(it, lambda a: tm.div(a, n), [s], 'float')
    return r


def log_softmax(it, t, dim):
    l = reduce(it, 'lse', t, dim, True)
    return elementwise(it, lambda a, b: a - b, [t, l], 'float')


def softmax(it, t, dim):
    l = reduce(it, 'lse', t, dim, True)
    return elementwise(it, lambda a, b: tm.exp(a - b), [t, l], 'float')


# ================================================================ indexing
def expand_ellipsis(it, t, k):
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    used = 0
    for x in k:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Ten) and x.dtype == 'bool':
            used += x.dim
        else:
            used += 1
    nd = t.dim
    if used > nd:
        it.raise_('IndexError', f'too many indices for tensor of dimension {nd}')
    out = []
    seen = False
    for x in k:
        if x is Ellipsis:
            out += [Slice(None, None, None)] * (nd - used)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [Slice(None, None, None)] * (nd - used)
    return out


def slice_bounds(it, s, n):
    """(start, step, length)"""
    step = 1 if s.c is None else norm(scal(s.c))
    if not isinstance(step, int) or step == 0:
        raise Unk('symbolic step')
    if step < 0:
        if s.a is None and s.b is None and step == -1:
            return n - 1, -1, n
        raise Unk('negative step')

    def clampb(x, default):
        if x is None:
            return default
        x = scal(x)
        if x.cint is not None and x.cint < 0 or (not tm.nonneg(x) and tm.nonneg(-x - 1)):
            x = x + n
            if not tm.nonneg(x):
                if tm.nonneg(-x):
                    return ZERO
                x = tm.fn('tmax', x, ZERO)
            return x
        if not tm.nonneg(x):
            raise Unk(f'slice bound of unknown sign {x!r}')
        if tm.nonneg(n - x):
            return x
        if tm.nonneg(x - n):
            return n
        return tm.fn('tmin', x, n)
    a = clampb(s.a, ZERO)
    b = clampb(s.b, n)
    d = b - a
    if not tm.nonneg(d):
        if tm.nonneg(-d):
            d = ZERO
        elif d.const is None and not tm.contains_atom(d, lambda x: x.kind == 'fn'):
            pass
    ln = d if step == 1 else tm.cdiv(d, lift(step))
    return a, step, ln


def full_mask(it, k, t):
    """mask over the leading dimensions of t, as a mask over all of them"""
    for a, b in zip(k.shape, t.shape):
        same_size(it, a, b, 'mask shape')
    for _ in range(t.dim - k.dim):
        k = unsqueeze(it, k, -1)
    return expand_to(it, k, t.shape)


def getitem(it, t, k):
    if isinstance(t, SymList):
        t = symlist_ten(it, t)
    if isinstance(t, Masked):
        if isinstance(k, Slice) and k.a is None and k.b is None and k.c is None:
            return t
        raise Unk('index of masked selection')
    if isinstance(k, Unknown):
        raise Unk(k.why)
    if isinstance(k, list) and not (k and any(isinstance(x, (Slice,)) or x is None for x in k)):
        k = as_ten(it, k)
    if isinstance(k, Ten) and k.dtype == 'bool' and k.dim == 1 and t.dim >= 1:
        kk = known_mask(it, k)
        if kk is not None:
            same_size(it, k.shape[0], t.shape[0], 'mask shape')
            k = cast(it, as_ten(it, kk), 'long') if kk else Slice(0, 0, None)
    if isinstance(k, Ten) and k.dtype == 'bool':
        if k.dim == t.dim:
            for a, b in zip(k.shape, t.shape):
                same_size(it, a, b, 'mask shape')
            return Masked(t, k)
        if 0 < k.dim < t.dim:
            return Masked(t, full_mask(it, k, t))
    items = expand_ellipsis(it, t, k)
    items = [as_ten(it, x) if isinstance(x, (list, SymSet)) else x for x in items]
    adv = [i for i, x in enumerate(items) if isinstance(x, Ten) and not (x.dim == 0 and x.dtype != 'bool' and False)]
    if any(isinstance(x, Ten) and x.dtype == 'bool' for x in items):
        raise Unk('bool mask mixed')
    if any(isinstance(x, Unknown) for x in items):
        raise Unk('unknown index')
    if adv:
        bsz = bcast_sizes(it, [items[i].shape for i in adv])
        contiguous = all(b - a == 1 or all(items[j] is None for j in range(a + 1, b)) for a, b in zip(adv, adv[1:]))
        # torch: integers are selects and do not break contiguity only if between; handle by removing them
        if not contiguous:
            between = [items[j] for a, b in zip(adv, adv[1:]) for j in range(a + 1, b)]
            contiguous = all(isinstance(x, (int, T)) for x in between)
    sizes = []
    build = []     # per source axis: function(vs)->T
    ax = 0
    pos_adv = None
    plan = []
    for i, x in enumerate(items):
        if x is None:
            plan.append(('new', None))
            sizes.append(ONE)
            continue
        n = t.shape[ax]
        if isinstance(x, Slice):
            a, st, ln = slice_bounds(it, x, n)
            plan.append(('slice', (ax, len(sizes), a, st)))
            sizes.append(ln)
        elif isinstance(x, Ten):
            if adv and (pos_adv is None):
                if contiguous:
                    pos_adv = len(sizes)
                    sizes += bsz
                else:
                    pos_adv = 0
            plan.append(('adv', (ax, x)))
        elif isinstance(x, (int, T, float)):
            x = scal(x)
            c = x.cint
            if c is not None and c < 0 or tm.nonneg(-x - 1):
                x = x + n
            if tm.nonneg(x - n) or tm.nonneg(-x - 1):
                it.raise_('IndexError', f'index {x!r} is out of bounds for dimension with size {n!r}')
            plan.append(('int', (ax, x)))
        else:
            raise Unk(f'index item {x!r}')
        ax += 1
    if adv and not contiguous:
        sizes = list(bsz) + sizes
        off = len(bsz)
    else:
        off = 0

    def f(vs):
        idx = [ZERO] * t.dim
        for kind, p in plan:
            if kind == 'slice':
                ax, o, a, st = p
                idx[ax] = a + vs[o + off] * st
            elif kind == 'int':
                idx[p[0]] = p[1]
            elif kind == 'adv':
                ax, x = p
                av = vs[pos_adv:pos_adv + len(bsz)]
                k = len(bsz) - x.dim
                e = x.at([av[k + j] if x.shape[j] is not ONE else ZERO for j in range(x.dim)])
                idx[ax] = _wrap(it, e, t.shape[ax])
        return t.at(idx)
    # slices that follow the adv block in non-contiguous mode were recorded with positions before offset
    return mk(sizes, f, t.dtype, t.grad and it.nograd == 0, t.store if not adv else None, np=t.np)


def _wrap(it, e, n):
    """constant-negative advanced index"""
    c = e.cint
    if c is not None and c < 0:
        return e + n
    if not tm.nonneg(e) and tm.nonneg(-e - 1):
        return e + n
    return e


def invert_index(e, n, s, a):
    """solve e(n) == a for variable n of size s -> (expr, cond) or None"""
    x = e.single()
    va = Atom('var', n)
    if x is not None and x.kind == 'el' and tm.BASES.get(x.args[0], {}).get('inv'):
        inv = tm.BASES[x.args[0]]['inv']
        return invert_index(x.args[1][-1], n, s, tm.el(inv, *x.args[1][:-1], a))
    sp = tm._split_lin(e, va)
    if sp is not None and sp[0].const in (1, -1) and n not in sp[1].fv:
        r = (a - sp[1]).scale(sp[0].const)
        return r, tm.ge0(r) * tm.ge0(s - 1 - r)
    return None


def mutate(it, t, newbody, where=None):
    it.effects.append(dict(kind='mutate', tag=t.store.tag, store=t.store, where=it.loc()))
    if t.isparam and t.requires_grad and it.nograd == 0:
        it.raise_('RuntimeError', 'a leaf Variable that requires grad is being used in an in-place operation.')
    old = t._body
    t._body = newbody
    named = {(n, s) for n, s in t.axes if n}
    for v in t.store.views:
        if v is not t:
            if not v.stale and v._body is old and {(n, s) for n, s in v.axes if n} == named:
                v._body = newbody  # the same elements, seen through squeeze / unsqueeze / permute
            elif v.dim == t.dim and all(a is b for a, b in zip(v.shape, t.shape)) and not v.stale and \
                    subst(old, dict(zip([n for n, s in t.axes if n], [x for x, (n, s) in zip(v.vars(), t.axes) if n]))) is v._body:
                v._body = subst(newbody, dict(zip([n for n, s in t.axes if n], [x for x, (n, s) in zip(v.vars(), t.axes) if n])))
            else:
                v.stale = True


def spoil(it, *ts):
    """an in-place operation without a model: the contents are unknown afterwards"""
    for t in ts:
        if isinstance(t, Ten):
            it.effects.append(dict(kind='mutate', tag=t.store.tag, store=t.store, where=it.loc()))
            t.stale = True
            for v in t.store.views:
                v.stale = True


def inplace_name(n):
    return n.endswith('_') and not n.startswith('_') and not n.endswith('__')


def setitem(it, t, k, v):
    if isinstance(k, list):
        k = as_ten(it, k)
    if isinstance(v, Unknown):
        raise Unk(v.why)
    if isinstance(k, Unknown):
        raise Unk(k.why)
    if isinstance(k, Ten) and k.dtype == 'bool':
        if 0 < k.dim < t.dim:
            k = full_mask(it, k, t)
        for a, b in zip(k.shape, t.shape):
            same_size(it, a, b, 'mask shape')
        m = k.at(t.vars())
        if isinstance(v, Masked):
            if not (v.mask is k or teq(v.mask, k)):
                raise Unk('store under a different mask')
            val = v.ten.at(t.vars())
            g = v.ten.grad
        else:
            vv = as_ten(it, v)
            if vv.dim and not all(s is ONE for s in vv.shape):
                raise Unk('dense store under mask')
            val = vv.at([ZERO] * vv.dim)
            g = vv.grad
        mutate(it, t, tm.sel(m, val, t.body))
        t.grad = (t.grad or g) and it.nograd == 0
        return
    items = expand_ellipsis(it, t, k)
    items = [as_ten(it, x) if isinstance(x, (list, SymSet)) else x for x in items]
    if any(x is None for x in items):
        raise Unk('newaxis store')
    tv = t.vars()
    cond = ONE
    targ = []      # terms giving the position within the value tensor, in result axis order
    sizes = []
    advs = [x for x in items if isinstance(x, Ten)]
    anyv = []      # existential vars for non-invertible index tensors
    advpos = None
    bsz = bcast_sizes(it, [x.shape for x in advs]) if advs else []
    replace = {}
    for ax, x in enumerate(items):
        n = t.shape[ax]
        a = tv[ax]
        if isinstance(x, Slice):
            st, step, ln = slice_bounds(it, x, n)
            if step == 1:
                p = a - st
            else:
                p = tm.fdiv(a - st, lift(step))
                cond = cond * tm.eq0(a - st - p * step)
            cond = cond * tm.ge0(a - st)
            if ln is not n:
                cond = cond * tm.ge0(ln - 1 - p)
            targ.append(p)
            sizes.append(ln)
        elif isinstance(x, Ten):
            if x.dtype == 'bool':
                raise Unk('mixed bool store')
            if advpos is None:
                advpos = len(targ)
            if len(advs) > 1:
                # several index tensors: support each depending on one var or const
                pass
            e = _wrap(it, x.body, n)
            free = [(nn, s) for nn, s in x.axes if nn is not None]
            if not free:
                cond = cond * tm.eq0(a - e)
                if x.dim and advpos == len(targ) and len(advs) == 1:
                    for _ in range(x.dim):
                        targ.append(ZERO)
                        sizes.append(ONE)
                continue
            if len(advs) > 1:
                raise Unk('store through several index tensors')
            if len(free) == 1:
                nn, s = free[0]
                r = invert_index(e, nn, s, a)
                if r is not None:
                    cond = cond * r[1]
                    for (n2, s2) in x.axes:
                        targ.append(r[0] if n2 is not None else ZERO)
                        sizes.append(s2)
                    continue
            # existential
            cond = cond * tm.red('any', free, tm.eq0(a - e))
            es = e.single()
            for (n2, s2) in x.axes:
                if n2 is None:
                    targ.append(ZERO)
                else:
                    targ.append(('ex', n2, e, a))
                sizes.append(s2)
        else:
            x = scal(x)
            if x.cint is not None and x.cint < 0:
                x = x + n
            if tm.nonneg(x - n):
                it.raise_('IndexError', 'index out of bounds')
            cond = cond * tm.eq0(a - x)
    if isinstance(v, Masked):
        raise Unk('masked value in indexed store')
    vv = as_ten(it, v)
    k0 = len(sizes) - vv.dim
    if k0 < 0:
        if all(s is ONE for s in vv.shape[:-k0]):
            vv = reshape_to(it, vv, vv.shape[-k0:])
            k0 = 0
        else:
            shape_err(it, f'shape mismatch: value tensor of shape {vv.shape} cannot be broadcast to indexing result of shape {sizes}')
    idx = []
    for j in range(vv.dim):
        if vv.shape[j] is ONE:
            idx.append(ZERO)
            continue
        if vv.shape[j] is not sizes[k0 + j]:
            same_size(it, vv.shape[j], sizes[k0 + j], 'shape mismatch in indexed store')
        idx.append(targ[k0 + j])
    ex = [i for i in idx if isinstance(i, tuple)]
    if ex:
        # value read through the same index list: el(list,u) -> target position
        nn, e, a = ex[0][1], ex[0][2], ex[0][3]
        env = {}
        vb = vv.at([lift(Atom('var', nn)) if isinstance(i, tuple) else i for i in idx])
        sz = {n2: s2 for x in advs for n2, s2 in x.axes if n2 is not None}.get(nn)
        if sz is not None and sz.cint is not None and sz.cint <= 16:
            val = ZERO                  # short constant index list: the last matching position is stored
            for u in range(sz.cint):
                val = tm.sel(tm.eq0(a - subst(e, {nn: lift(u)})), subst(vb, {nn: lift(u)}), val)
            mutate(it, t, tm.sel(cond, val, t.body))
            t.grad = (t.grad or vv.grad) and it.nograd == 0
            return
        es = e.single()
        if es is None:
            raise Unk('indexed store of a varying value through a non-invertible index')
        vb = tm.rebuild(vb, lambda z: a if z is es else None)
        if nn in vb.fv:
            raise Unk('indexed store of a varying value through a non-invertible index')
        val = vb
    else:
        val = vv.at(idx)
    if t.dtype == 'long' and vv.dtype == 'float' and val.const is None:
        pass
    mutate(it, t, tm.sel(cond, val, t.body))
    t.grad = (t.grad or vv.grad) and it.nograd == 0


def inplace(it, t, newv):
    """t op= value (same storage)"""
    if isinstance(newv, Unknown):
        t.stale = True
        return t
    if newv.dim != t.dim:
        shape_err(it, 'output with shape cannot be broadcast in-place')
    for a, b in zip(newv.shape, t.shape):
        same_size(it, a, b, 'in-place broadcast')
    g = newv.grad
    mutate(it, t, newv.at(t.vars()))
    t.grad = g
    return t


def unsqueeze(it, t, d):
    n = t.dim + 1
    d = canon_dim(it, d, n)
    axes = list(t.axes)
    axes.insert(d, (None, ONE))
    return Ten(axes, t.body, t.dtype, t.grad, t.store, np=t.np)


def squeeze(it, t, d=None):
    if d is None:
        axes = [a for a in t.axes if a[1] is not ONE]
    else:
        ds = d if isinstance(d, (list, tuple)) else [d]
        ds = [canon_dim(it, x, t.dim) for x in ds]
        axes = [a for i, a in enumerate(t.axes) if not (i in ds and a[1] is ONE)]
    return Ten(axes, t.body, t.dtype, t.grad, t.store, np=t.np)


def expand_to(it, t, sizes):
    n = len(sizes)
    k = n - t.dim
    if k < 0:
        shape_err(it, 'expand: fewer sizes than dims')
    out = []
    for i, s in enumerate(sizes):
        s = lift(s)
        if i < k:
            if s.cint == -1:
                shape_err(it, 'expand(-1) in a leading, non-existing dimension')
            out.append(s)
        else:
            o = t.shape[i - k]
            if s.cint == -1:
                out.append(o)
            elif o is ONE:
                out.append(s)
            else:
                if o is not s:
                    same_size(it, o, s, 'expand')
                out.append(o)

    def f(vs):
        return t.at([vs[k + i] if t.shape[i] is not ONE else ZERO for i in range(t.dim)])
    return mk(out, f, t.dtype, t.grad, t.store, np=t.np)


def gather(it, t, dim, index):
    if isinstance(index, Unknown):
        raise Unk(index.why)
    dim = canon_dim(it, dim, t.dim)
    if index.dim != t.dim:
        shape_err(it, f'Index tensor must have the same number of dimensions as input tensor ({index.dim} vs {t.dim})')
    for i in range(t.dim):
        if i != dim and index.shape[i] is not t.shape[i]:
            d = t.shape[i] - index.shape[i]
            if not tm.nonneg(d):
                if generic_differs(t.shape[i], index.shape[i]):
                    shape_err(it, f'gather: size of index exceeds input at dimension {i}: {index.shape[i]!r} vs {t.shape[i]!r}')
                raise Unk('gather sizes')
    if index.dtype != 'long':
        shape_err(it, 'gather(): Expected dtype int64 for index')

    def f(vs):
        e = index.at(vs)
        idx = list(vs)
        idx[dim] = e
        return t.at(idx)
    return mk(index.shape, f, t.dtype, t.grad and it.nograd == 0)


def scatter(it, t, dim, index, src, inplace_=True, reduce_=None):
    dim = canon_dim(it, dim, t.dim)
    if index.dim != t.dim:
        shape_err(it, 'Index tensor must have the same number of dimensions as self tensor')
    tv = t.vars()
    a = tv[dim]
    n, s = index.axes[dim]
    cond = ONE
    for i in range(t.dim):
        if i != dim and index.shape[i] is not t.shape[i]:
            if index.shape[i] is ONE:
                cond = cond * tm.eq0(tv[i])
            else:
                same_size(it, index.shape[i], t.shape[i], 'scatter')
    if n is None:
        idx = list(tv)
        idx[dim] = ZERO
        idx = [ZERO if index.shape[i] is ONE else x for i, x in enumerate(idx)]
        e = index.at(idx)
        cond = cond * tm.eq0(a - e)
        pos = ZERO
    else:
        nn, u = newvar(s)
        idx = [ZERO if index.shape[i] is ONE else x for i, x in enumerate(tv)]
        idx[dim] = u
        e = index.at(idx)
        r = invert_index(e, nn, s, a)
        if r is None:
            cond = cond * tm.red('any', [(nn, s)], tm.eq0(a - e))
            pos = None
        else:
            pos, c2 = r
            cond = cond * c2
    if isinstance(src, Ten) and src.dim:
        if pos is None:
            raise Unk('scatter of varying values through a non-invertible index')
        ix = list(tv)
        ix[dim] = pos
        ix = [ZERO if src.shape[i] is ONE else x for i, x in enumerate(ix)]
        val = src.at(ix)
    else:
        val = scal(src)
    if reduce_ == 'add':
        val = t.body + val
    body = tm.sel(cond, val, t.body)
    if inplace_:
        mutate(it, t, body)
        return t
    return Ten(t.axes, body, t.dtype, t.grad)


def cat(it, ts, dim):
    ts = [x for x in ts]
    if any(isinstance(x, Unknown) for x in ts):
        raise Unk('cat of unknown')
    if any(isinstance(x, Masked) for x in ts):
        raise Unk('cat of masked')
    ts = [x for x in ts if not (x.dim == 1 and x.shape[0] is ZERO)] or ts
    n = ts[0].dim
    if n == 0:
        shape_err(it, 'zero-dimensional tensor cannot be concatenated')
    dim = canon_dim(it, dim, n)
    for t in ts[1:]:
        if t.dim != n:
            shape_err(it, 'Tensors must have same number of dimensions')
        for i in range(n):
            if i != dim:
                same_size(it, t.shape[i], ts[0].shape[i], 'Sizes of tensors must match except in cat dimension')
    total = ZERO
    offs = []
    for t in ts:
        offs.append(total)
        total = total + t.shape[dim]
    sizes = list(ts[0].shape)
    sizes[dim] = total

    def f(vs):
        v = vs[dim]
        out = None
        for t, o in reversed(list(zip(ts, offs))):
            ix = list(vs)
            ix[dim] = v - o if t.shape[dim] is not ONE else ZERO
            ix = [ZERO if t.shape[i] is ONE else x for i, x in enumerate(ix)]
            b = t.at(ix)
            out = b if out is None else tm.sel(tm.lt(v, o + t.shape[dim]), b, out)
        return out
    dt = max((t.dtype for t in ts), key=lambda d: DT_ORDER.index(d) if d in DT_ORDER else 2)
    return mk(sizes, f, dt, any(t.grad for t in ts) and it.nograd == 0, np=any(t.np for t in ts))


def repeat(it, t, reps):
    k = len(reps) - t.dim
    if k < 0:
        shape_err(it, 'Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
    sizes = [r * (t.shape[i - k] if i >= k else ONE) for i, r in enumerate(reps)]

    def f(vs):
        idx = []
        for i in range(t.dim):
            s = t.shape[i]
            v = vs[i + k]
            idx.append(ZERO if s is ONE else (v if reps[i + k] is ONE else tm.mod(v, s)))
        return t.at(idx)
    return mk(sizes, f, t.dtype, t.grad)


def repeat_interleave(it, t, r, dim):
    if isinstance(r, Ten):
        raise Unk('tensor repeats')
    r = size(r)
    if dim is None:
        t = reshape_to(it, t, [prod(t.shape)])
        dim = 0
    dim = canon_dim(it, dim, t.dim)
    sizes = list(t.shape)
    sizes[dim] = sizes[dim] * r

    def f(vs):
        ix = list(vs)
        ix[dim] = tm.fdiv(vs[dim], r) if t.shape[dim] is not ONE else ZERO
        ix = [ZERO if t.shape[i] is ONE else x for i, x in enumerate(ix)]
        return t.at(ix)
    return mk(sizes, f, t.dtype, t.grad)


def einsum(it, spec, ops):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unk('einsum ellipsis')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        letters = lhs.replace(',', '')
        rhs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(',')
    if len(ins) != len(ops):
        shape_err(it, 'einsum(): number of operands does not match the equation')
    sz = {}
    for s, o in zip(ins, ops):
        if len(s) != o.dim:
            shape_err(it, f'einsum(): the number of subscripts in the equation ({len(s)}) does not match the number of dimensions ({o.dim})')
        for c, n in zip(s, o.shape):
            if c in sz and sz[c] is not n and sz[c] is not ONE and n is not ONE:
                same_size(it, sz[c], n, f'einsum(): operands do not broadcast, subscript {c}')
            if c not in sz or sz[c] is ONE:
                sz[c] = n
    for c in rhs:
        if c not in sz:
            shape_err(it, 'einsum(): output subscript does not appear in the equation')

    def f(vs):
        env = dict(zip(rhs, vs))
        red = []
        for c in sz:
            if c not in env:
                if sz[c] is ONE:
                    env[c] = ZERO
                else:
                    n, v = newvar(sz[c])
                    env[c] = v
                    red.append((n, sz[c]))
        b = ONE
        for s, o in zip(ins, ops):
            b = b * o.at([env[c] if n is not ONE else ZERO for c, n in zip(s, o.shape)])
        return tm.red('sum', red, b) if red else b
    return mk([sz[c] for c in rhs], f, 'long' if all(o.dtype == 'long' for o in ops) else 'float', any(o.grad for o in ops) and it.nograd == 0)


def new_draw(it, sizes, kind, f=None, dtype='float'):
    d = it.draw_id()
    return mk(sizes, lambda vs: tm.draw(d, kind, vs, [], f(vs) if f else []), dtype)


def rand_perm(it, n, kind='torch'):
    d = it.draw_id(kind)
    p, q = f'perm{d}', f'iperm{d}'
    tm.set_base(p, dict(range=lift(n), perm=True, bool=False, int=True, inv=q))
    tm.set_base(q, dict(range=lift(n), perm=True, bool=False, int=True, inv=p))
    return mk([lift(n)], lambda vs: el(p, vs[0]) if lift(n) is not ONE else ZERO, 'long')


def argsort(it, t, dim=-1):
    if t.dim == 1:
        b = t.body.single()
        n, s = t.axes[0]
        if n is None:
            return Ten(t.axes, ZERO, 'long')
        if b is not None and b.kind == 'el' and tm.BASES.get(b.args[0], {}).get('perm') and b.args[1][-1].single() is Atom('var', n):
            inv = tm.BASES[b.args[0]]['inv']
            return mk([s], lambda vs: el(inv, *b.args[1][:-1], vs[0]), 'long')
        if s.cint is not None and s.cint <= 64:
            v = [t.at([lift(i)]).const for i in range(s.cint)]
            if None not in v and len(set(v)) == len(v):
                p = sorted(range(len(v)), key=lambda i: v[i])
                return mk([s], lambda vs: table(p, vs[0]), 'long')
    raise Unk('argsort')


def table(p, i):
    return tm.table(p, i)


# ================================================================ op table  (self/tensor first)
OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def T1(name, f, dtype='float'):
    OPS[name] = lambda it, a, k: elementwise(it, f, [num(it, a[0])], dtype)


def num(it, v):
    if isinstance(v, (list, tuple)):
        return as_ten(it, v)
    return v


T1('exp', tm.exp)
T1('log', tm.log)
T1('log1p', lambda a: tm.log(a + 1))
T1('expm1', lambda a: tm.exp(a) - 1)
T1('log2', lambda a: tm.div(tm.log(a), tm.log(lift(2))))
T1('sqrt', lambda a: tm.tpow(a, tm.Fraction(1, 2)))
T1('rsqrt', lambda a: tm.tpow(a, tm.Fraction(-1, 2)))
T1('reciprocal', lambda a: tm.tpow(a, -1))
T1('square', lambda a: a * a)
T1('neg', lambda a: -a)
T1('sigmoid', lambda a: tm.fn('sigmoid', a))
T1('tanh', lambda a: tm.fn('tanh', a))
T1('softplus', lambda a: tm.fn('softplus', a))
T1('relu', lambda a: tm.fn('relu', a))
T1('silu', lambda a: tm.fn('silu', a))
T1('logsigmoid', lambda a: tm.log(tm.fn('sigmoid', a)))
T1('erf', lambda a: tm.fn('erf', a))
T1('sin', lambda a: tm.fn('sin', a))
T1('cos', lambda a: tm.fn('cos', a))
T1('logit', lambda a: tm.fn('logit', a))
for _n in ('floor', 'ceil', 'round'):
    T1(_n, lambda a, n=_n: tm.fn(n, a), None)
T1('trunc', lambda a: tm.fn('trunc', a), None)
T1('abs', lambda a: tm.fn('abs', a), None)
T1('isnan', tm.isnan, 'bool')
T1('isinf', lambda a: tm.fn('isinf', a), 'bool')
def _isfinite(a):
    n = tm.isneginf(a)
    return ONE - tm.tor(tm.isnan(a), n) if n is not None else ONE - tm.tor(tm.isnan(a), tm.fn('isinf', a))


T1('isfinite', _isfinite, 'bool')
T1('logical_not', lambda a: ONE - tobool(a), 'bool')
T1('sign', lambda a: tm.fn('sign', a), None)
T1('lgamma', lambda a: tm.fn('lgamma', a))
T1('cosh', lambda a: (tm.exp(a) + tm.exp(-a)).scale(Fraction(1, 2)))
T1('sinh', lambda a: (tm.exp(a) - tm.exp(-a)).scale(Fraction(1, 2)))
T1('expit', lambda a: tm.fn('sigmoid', a))
OPS['negative'] = OPS['neg']
OPS['absolute'] = OPS['abs']


def tobool(a):
    if all(x.bool for x in a.atoms()):
        return a
    return ONE - tm.eq0(a)


def _two(name, f, dtype=None):
    def h(it, a, k):
        x, y = bind(it, name, a, {q: v for q, v in k.items() if q not in ('alpha',)}, 'input', 'other')
        return elementwise(it, f, [num(it, x), num(it, y)], dtype)
    OPS[name] = h


def _alpha(sign):
    def h(it, a, k):
        x, y, al = bind(it, 'add', a, k, 'input', 'other', ('alpha', 1))
        c = scal(al) * sign
        return elementwise(it, lambda p, q: p + c * q, [num(it, x), num(it, y)])
    return h


OPS['add'] = _alpha(1)
OPS['sub'] = OPS['subtract'] = _alpha(-1)
_two('mul', lambda a, b: a * b)
_two('multiply', lambda a, b: a * b)
_two('true_divide', tm.div, 'float')
_two('floor_divide', tm.fdiv)
_two('remainder', tm.mod)
_two('fmod', lambda a, b: tm.mod(a, b) if tm.nonneg(a) and tm.nonneg(b) else tm.fn('fmod', a, b))
_two('maximum', lambda a, b: tm.fn('tmax', a, b))
_two('minimum', lambda a, b: tm.fn('tmin', a, b))
def _teq(a, b):
    if a is -tm.INF:
        a, b = b, a
    r = tm.isneginf(a) if b is -tm.INF else None
    return tm.eq0(a - b) if r is None else r


_two('eq', _teq, 'bool')
_two('ne', lambda a, b: ONE - _teq(a, b), 'bool')
_two('lt', lambda a, b: tm.lt(a, b), 'bool')
_two('le', lambda a, b: tm.ge0(b - a), 'bool')
_two('gt', lambda a, b: tm.lt(b, a), 'bool')
_two('ge', lambda a, b: tm.ge0(a - b), 'bool')
_two('logical_and', lambda a, b: tobool(a) * tobool(b), 'bool')
_two('logical_or', lambda a, b: tm.tor(tobool(a), tobool(b)), 'bool')
_two('logical_xor', lambda a, b: tobool(a) + tobool(b) - tobool(a) * tobool(b) * 2, 'bool')
_two('logaddexp', lambda a, b: tm.log(tm.exp(a) + tm.exp(b)))


for _n, _m in (('greater', 'gt'), ('greater_equal', 'ge'), ('less', 'lt'), ('less_equal', 'le'), ('not_equal', 'ne')):
    OPS[_n] = OPS[_m]


def _isinf_signed(neg):
    def h(it, a, k):
        return OPS['eq'](it, [a[0], as_ten(it, float('-inf') if neg else float('inf'))], {})
    return h


OPS['isneginf'] = _isinf_signed(True)
OPS['isposinf'] = _isinf_signed(False)


def _addc(kind):
    def h(it, a, k):
        x, y, z, v = bind(it, kind, a, k, 'input', 'tensor1', 'tensor2', ('value', 1))
        c = scal(v)
        return elementwise(it, (lambda p, q, r: p + c * (q * r)) if kind == 'addcmul' else (lambda p, q, r: p + c * tm.div(q, r)), [x, y, z])
    return h


OPS['addcmul'] = _addc('addcmul')
OPS['addcdiv'] = _addc('addcdiv')


@op('lerp')
def _(it, a, k):
    x, y, w = bind(it, 'lerp', a, k, 'input', 'end', 'weight')
    return elementwise(it, lambda p, q, r: p + r * (q - p), [x, y, w])


@op('addmm', 'baddbmm', 'addmv')
def _(it, a, k):
    x, y, z, be, al = bind(it, 'addmm', a, k, 'input', 'mat1', 'mat2', ('beta', 1), ('alpha', 1))
    b, c = scal(be), scal(al)
    return elementwise(it, lambda p, q: b * p + c * q, [x, OPS['matmul'](it, [y, z], {})])


@op('mv', 'dot', 'vdot')
def _(it, a, k):
    return OPS['matmul'](it, list(a[:2]), {})


@op('outer', 'ger')
def _(it, a, k):
    x, y = bind(it, 'outer', a, k, 'input', 'vec2')
    return elementwise(it, lambda p, q: p * q, [unsqueeze(it, x, 1), y])


@op('clamp_min')
def _(it, a, k):
    x, v = bind(it, 'clamp_min', a, k, 'input', 'min')
    return OPS['clamp'](it, [x, v], {})


@op('clamp_max')
def _(it, a, k):
    x, v = bind(it, 'clamp_max', a, k, 'input', 'max')
    return OPS['clamp'](it, [x], {'max': v})


@op('nansum')
def _(it, a, k):
    z = elementwise(it, lambda p: tm.sel(tm.isnan(p), ZERO, p), [a[0]], a[0].dtype)
    return OPS['sum'](it, [z] + list(a[1:]), k)


@op('hypot')
def _(it, a, k):
    x, y = a
    return elementwise(it, lambda p, q: tm.tpow(p * p + q * q, Fraction(1, 2)), [x, y], 'float')


@op('aminmax')
def _(it, a, k):
    x = a[0]
    d, kd = k.get('dim'), k.get('keepdim', False)
    return Parts(('min', 'max'), tuple(reduce(it, o, x, d, kd) for o in ('min', 'max')))


@op('trace')
def _(it, a, k):
    return reduce(it, 'sum', _diagonal(it, a[0]), 0)


def _diagonal(it, x):
    n, m = x.shape[-2], x.shape[-1]
    if n is not m:
        raise Unk('diagonal of a rectangle')
    return mk(list(x.shape[:-1]), lambda vs: x.at(list(vs) + [vs[-1]]), x.dtype, x.grad)


@op('diagonal')
def _(it, a, k):
    x, off, d1, d2 = bind(it, 'diagonal', a, k, 'input', ('offset', 0), ('dim1', 0), ('dim2', 1))
    if off != 0 or (canon_dim(it, d1, x.dim), canon_dim(it, d2, x.dim)) != (x.dim - 2, x.dim - 1):
        raise Unk('diagonal options')
    return _diagonal(it, x)


@op('diag')
def _(it, a, k):
    if len(a) > 1 or k:
        raise Unk('diag options')
    return _diagonal(it, a[0]) if a[0].dim == 2 else OPS['diag_embed'](it, [a[0]], {})


@op('swapaxes_', 't_')
def _(it, a, k):
    raise Unk('in-place transposition')


@op('pow')
def _(it, a, k):
    return binop(it, 'Pow', a[0], a[1] if len(a) > 1 else k.get('exponent'))


@op('div', 'divide')
def _(it, a, k):
    x, y, rm = bind(it, 'div', a, k, 'input', 'other', ('rounding_mode', None))
    if rm is None:
        return binop(it, 'Div', x, y)
    if rm == 'floor':
        return binop(it, 'FloorDiv', x, y)
    return elementwise(it, lambda p, q: tm.fn('trunc', tm.div(p, q)), [x, y])


@op('sum')
def _(it, a, k):
    k = dict(k)
    k.pop('dtype', None)
    x, d, kd = bind(it, 'sum', a, k, 'input', ('dim', None), ('keepdim', False))
    if isinstance(x, (list, tuple)):
        r = 0
        for v in x:
            r = binop(it, 'Add', r, v)
        return r
    return reduce(it, 'sum', as_ten(it, x), d, kd)


for _n, _o in (('logsumexp', 'lse'), ('any', 'any'), ('all', 'all'), ('prod', 'prod')):
    def _h(it, a, k, n=_n, o=_o):
        x, d, kd = bind(it, n, a, k, 'input', ('dim', None), ('keepdim', False))
        x = as_ten(it, x)
        if o in ('any', 'all'):
            x = elementwise(it, tobool, [x], 'bool')
        return reduce(it, o, x, d, kd, 'bool' if o in ('any', 'all') else None)
    OPS[_n] = _h


@op('mean')
def _(it, a, k):
    x, d, kd = bind(it, 'mean', a, k, 'input', ('dim', None), ('keepdim', False))
    return mean(it, as_ten(it, x), d, kd)


def _var(root):
    def h(it, a, k):
        k = dict(k)
        np = as_ten(it, a[0]).np
        un = k.pop('unbiased', None)
        corr = k.pop('correction', None)
        kd = k.pop('keepdim', False)
        d = a[1] if len(a) > 1 else k.pop('dim', k.pop('axis', None))
        if np and 'ddof' in k:
            corr = k.pop('ddof')
        if len(a) > 2 or k or isinstance(d, bool):
            raise Unk('variance options')
        c = corr if corr is not None else (0 if un is False or np and un is None else 1)
        x = as_ten(it, a[0])
        dd = list(range(x.dim)) if d is None else [canon_dim(it, q, x.dim) for q in (d if isinstance(d, (list, tuple)) else [d])]
        m = mean(it, x, dd, True)
        sq = elementwise(it, lambda p, q: (p - q) * (p - q), [x, m])
        n = prod([x.shape[q] for q in dd])
        r = reduce(it, 'sum', sq, dd, kd)
        return elementwise(it, lambda p: tm.tpow(tm.div(p, n - scal(c)), Fraction(1, 2) if root else 1), [r], 'float')
    return h


OPS['var'], OPS['std'] = _var(False), _var(True)


@op('count_nonzero')
def _(it, a, k):
    x, d = bind(it, 'count_nonzero', a, k, 'input', ('dim', None))
    return reduce(it, 'sum', elementwise(it, lambda p: ONE - _teq(p, ZERO), [x], 'bool'), d, False)


@op('atleast_1d')
def _(it, a, k):
    if len(a) != 1:
        raise Unk('atleast_1d of several')
    x = as_ten(it, a[0])
    return unsqueeze(it, x, 0) if x.dim == 0 else x


@op('isin')
def _(it, a, k):
    x, t = bind(it, 'isin', a, {q: v for q, v in k.items() if q not in ('assume_unique', 'invert')}, 'elements', 'test_elements')
    t = as_ten(it, t)
    if t.dim != 1 or t.shape[0].cint is None or t.shape[0].cint > 16 or k.get('invert'):
        raise Unk('isin')

    def f(p):
        r = ZERO
        for i in range(t.shape[0].cint):
            r = tm.tor(r, tm.eq0(p - t.at([lift(i)])))
        return r
    return elementwise(it, f, [x], 'bool')


@op('norm')
def _(it, a, k):
    x, p, d, kd = bind(it, 'norm', a, k, 'input', ('p', 2), ('dim', None), ('keepdim', False))
    if p not in (2, 2.0, 'fro', None):
        raise Unk('norm')
    r = reduce(it, 'sum', elementwise(it, lambda q: q * q, [x]), d, kd)
    return elementwise(it, lambda q: tm.tpow(q, Fraction(1, 2)), [r], 'float')


def _maxmin(o):
    def h(it, a, k):
        k = dict(k)
        x = as_ten(it, a[0])
        if len(a) > 1 and isinstance(a[1], Ten) or isinstance(k.get('other'), Ten):
            y = a[1] if len(a) > 1 else k['other']
            return elementwise(it, lambda p, q: tm.fn('t' + o, p, q), [x, y])
        x, d, kd = bind(it, o, [x] + list(a[1:]), k, 'input', ('dim', None), ('keepdim', False))
        if d is None:
            return reduce(it, o, x, None, kd)
        v = reduce(it, o, x, d, kd)
        i = reduce(it, 'arg' + o, x, d, kd)
        if x.np:
            return v
        return Parts(('values', 'indices'), (v, i))
    return h


OPS['max'] = _maxmin('max')
OPS['min'] = _maxmin('min')


@op('amax', 'amin')
def _(it, a, k):
    raise Unk('amax')


OPS['amax'] = lambda it, a, k: (lambda x, d, kd: reduce(it, 'max', x, d, kd))(*bind(it, 'amax', a, k, 'input', ('dim', None), ('keepdim', False)))
OPS['amin'] = lambda it, a, k: (lambda x, d, kd: reduce(it, 'min', x, d, kd))(*bind(it, 'amin', a, k, 'input', ('dim', None), ('keepdim', False)))
for _o in ('argmax', 'argmin'):
    OPS[_o] = lambda it, a, k, o=_o: (lambda x, d, kd: reduce(it, o, as_ten(it, x), d, kd))(*bind(it, o, a, k, 'input', ('dim', None), ('keepdim', False)))


@op('softmax')
def _(it, a, k):
    k = {q: v for q, v in k.items() if q not in ('dtype', '_stacklevel')}
    x, d = bind(it, 'softmax', a, k, 'input', 'dim')
    return softmax(it, x, d)


@op('log_softmax')
def _(it, a, k):
    k = {q: v for q, v in k.items() if q not in ('dtype', '_stacklevel')}
    x, d = bind(it, 'log_softmax', a, k, 'input', 'dim')
    return log_softmax(it, x, d)


@op('unsqueeze')
def _(it, a, k):
    x, d = bind(it, 'unsqueeze', a, k, 'input', 'dim')
    return unsqueeze(it, as_ten(it, x), d)


@op('unsqueeze_')
def _(it, a, k):
    x, d = a[0], (a[1] if len(a) > 1 else k['dim'])
    r = unsqueeze(it, x, d)
    x.axes = r.axes
    return x


@op('squeeze')
def _(it, a, k):
    x, d = bind(it, 'squeeze', a, k, 'input', ('dim', None))
    return squeeze(it, x, d)


@op('squeeze_')
def _(it, a, k):
    x, d = bind(it, 'squeeze_', a, k, 'input', ('dim', None))
    x.axes = squeeze(it, x, d).axes
    return x


@op('view')
def _(it, a, k):
    if len(a) == 2 and isinstance(a[1], Ext):
        return a[0]
    if isinstance(a[0], Masked):
        raise Unk('view of masked')
    return do_view(it, a[0], a[1:])


@op('reshape')
def _(it, a, k):
    if 'shape' in k:
        a = [a[0], k['shape']]
    r = do_view(it, as_ten(it, a[0]), a[1:])
    return r


@op('view_as', 'reshape_as')
def _(it, a, k):
    return do_view(it, a[0], [tuple(a[1].shape)])


@op('flatten')
def _(it, a, k):
    x, s, e = bind(it, 'flatten', a, k, 'input', ('start_dim', 0), ('end_dim', -1))
    s, e = canon_dim(it, s, x.dim), canon_dim(it, e, x.dim)
    return reshape_to(it, x, x.shape[:s] + [prod(x.shape[s:e + 1])] + x.shape[e + 1:], True)


OPS['ravel'] = OPS['flatten']


@op('unflatten')
def _(it, a, k):
    x, d, sz = bind(it, 'unflatten', a, k, 'input', 'dim', 'sizes')
    d = canon_dim(it, d, x.dim)
    return do_view(it, x, [tuple(x.shape[:d]) + tuple(sz) + tuple(x.shape[d + 1:])])


@op('permute')
def _(it, a, k):
    if 'dims' in k:
        a = [a[0], k['dims']]
    o = a[1] if len(a) == 2 and isinstance(a[1], (list, tuple)) else a[1:]
    o = [canon_dim(it, d, a[0].dim) for d in o]
    if sorted(o) != list(range(a[0].dim)):
        shape_err(it, 'permute: number of dimensions mismatch / repeated dim')
    return permute(a[0], o)


@op('transpose', 'swapaxes', 'swapdims')
def _(it, a, k):
    x, p, q = bind(it, 'transpose', a, k, 'input', 'dim0', 'dim1')
    p, q = canon_dim(it, p, x.dim), canon_dim(it, q, x.dim)
    o = list(range(x.dim))
    o[p], o[q] = o[q], o[p]
    return permute(x, o)


@op('t')
def _(it, a, k):
    return permute(a[0], list(reversed(range(a[0].dim))))


@op('movedim', 'moveaxis')
def _(it, a, k):
    x, s, d = bind(it, 'movedim', a, k, 'input', 'source', 'destination')
    s = list(s) if isinstance(s, (tuple, list)) else [s]
    d = list(d) if isinstance(d, (tuple, list)) else [d]
    s = [canon_dim(it, i, x.dim) for i in s]
    d = [canon_dim(it, i, x.dim) for i in d]
    order = [None] * x.dim
    for i, j in zip(s, d):
        order[j] = i
    rest = [i for i in range(x.dim) if i not in s]
    order = [o if o is not None else rest.pop(0) for o in order]
    return permute(x, order)


@op('expand')
def _(it, a, k):
    if 'size' in k:
        a = [a[0], k['size']]
    return expand_to(it, a[0], flat_sizes(it, a[1:]))


@op('expand_as')
def _(it, a, k):
    return expand_to(it, a[0], a[1].shape)


@op('broadcast_to')
def _(it, a, k):
    return expand_to(it, a[0], flat_sizes(it, a[1:]))


@op('repeat')
def _(it, a, k):
    if a[0].np:
        return repeat_interleave(it, a[0], a[1], k.get('axis'))
    return repeat(it, a[0], flat_sizes(it, a[1:]))


@op('tile')
def _(it, a, k):
    r = flat_sizes(it, a[1:])
    r = [ONE] * (a[0].dim - len(r)) + r
    return repeat(it, a[0], r)


@op('repeat_interleave')
def _(it, a, k):
    x, r, d = bind(it, 'repeat_interleave', a, k, 'input', 'repeats', ('dim', None))
    return repeat_interleave(it, x, r, d)


@op('gather')
def _(it, a, k):
    x, d, i = bind(it, 'gather', a, k, 'input', 'dim', 'index')
    return gather(it, x, d, i)


@op('take_along_dim', 'take_along_axis')
def _(it, a, k):
    x, i, d = bind(it, 'take_along_dim', a, k, 'input', 'indices', 'dim')
    d = canon_dim(it, d, x.dim)
    sizes = bcast_sizes(it, [[s if j != d else ONE for j, s in enumerate(x.shape)],
                             [s if j != d else ONE for j, s in enumerate(i.shape)]])
    xs = expand_to(it, x, [s if j != d else x.shape[d] for j, s in enumerate(sizes)])
    is_ = expand_to(it, i, [s if j != d else i.shape[d] for j, s in enumerate(sizes)])
    return gather(it, xs, d, is_)


@op('index_select')
def _(it, a, k):
    x, d, i = bind(it, 'index_select', a, k, 'input', 'dim', 'index')
    d = canon_dim(it, d, x.dim)
    return getitem(it, x, tuple([Slice(None, None, None)] * d + [i]))


@op('select')
def _(it, a, k):
    x, d, i = bind(it, 'select', a, k, 'input', 'dim', 'index')
    d = canon_dim(it, d, x.dim)
    return getitem(it, x, tuple([Slice(None, None, None)] * d + [i]))


@op('narrow')
def _(it, a, k):
    x, d, s, l = bind(it, 'narrow', a, k, 'input', 'dim', 'start', 'length')
    d = canon_dim(it, d, x.dim)
    return getitem(it, x, tuple([Slice(None, None, None)] * d + [Slice(s, binop(it, 'Add', s, l), None)]))


@op('flip')
def _(it, a, k):
    x = a[0]
    ds = a[1] if isinstance(a[1], (list, tuple)) else a[1:]
    ds = [canon_dim(it, d, x.dim) for d in ds]
    return mk(x.shape, lambda vs: x.at([x.shape[i] - 1 - v if i in ds else v for i, v in enumerate(vs)]), x.dtype, x.grad)


@op('scatter_')
def _(it, a, k):
    k = dict(k)
    if 'value' in k:
        k['src'] = k.pop('value')
    x, d, i, s = bind(it, 'scatter_', a, k, 'input', 'dim', 'index', 'src')
    return scatter(it, x, d, i, s, True)


@op('scatter')
def _(it, a, k):
    k = dict(k)
    if 'value' in k:
        k['src'] = k.pop('value')
    x, d, i, s = bind(it, 'scatter', a, k, 'input', 'dim', 'index', 'src')
    return scatter(it, x, d, i, s, False)


@op('masked_fill')
def _(it, a, k):
    x, m, v = bind(it, 'masked_fill', a, k, 'input', 'mask', 'value')
    return elementwise(it, lambda mm, vv, xx: tm.sel(mm, vv, xx), [m, v, x], x.dtype)


@op('masked_fill_')
def _(it, a, k):
    x, m, v = bind(it, 'masked_fill_', a, k, 'input', 'mask', 'value')
    r = elementwise(it, lambda mm, vv, xx: tm.sel(mm, vv, xx), [m, v, x], x.dtype)
    return inplace(it, x, r)


@op('where')
def _(it, a, k):
    c, x, y = bind(it, 'where', a, k, 'condition', 'input', 'other')
    dts = [t.dtype for t in (x, y) if isinstance(t, Ten)]
    if not dts and all(isinstance(v, (bool, int)) for v in (x, y)):
        dts = ['bool' if isinstance(x, bool) and isinstance(y, bool) else 'long']
    elif dts == ['long'] and any(isinstance(v, float) for v in (x, y)) or len(dts) == 2 and 'float' in dts:
        dts = ['float']
    return elementwise(it, lambda cc, p, q: tm.sel(cc, p, q), [c, x, y], dts[0] if dts else 'float')


@op('nan_to_num')
def _(it, a, k):
    x, n, pi, ni = bind(it, 'nan_to_num', a, k, 'input', ('nan', 0.0), ('posinf', None), ('neginf', None))
    if pi is not None or ni is not None:
        raise Unk('nan_to_num of infinities')
    return elementwise(it, lambda p: tm.sel(tm.isnan(p), scal(n), p), [x], x.dtype)


@op('clamp', 'clip')
def _(it, a, k):
    k = {('min' if q in ('a_min',) else 'max' if q == 'a_max' else q): v for q, v in k.items()}
    x, lo, hi = bind(it, 'clamp', a, k, 'input', ('min', None), ('max', None))
    r = x
    if lo is not None:
        r = elementwise(it, lambda p, q: tm.fn('tmax', p, q), [r, lo])
    if hi is not None:
        r = elementwise(it, lambda p, q: tm.fn('tmin', p, q), [r, hi])
    return r


@op('clamp_', 'clip_')
def _(it, a, k):
    return inplace(it, a[0], OPS['clamp'](it, a, k))


def _inpl(name):
    def h(it, a, k):
        return inplace(it, a[0], expand_to(it, OPS[name](it, a, k), a[0].shape))
    OPS[name + '_'] = h


for _n in ('add', 'sub', 'mul', 'div', 'exp', 'log', 'neg', 'sigmoid', 'floor', 'round', 'sqrt', 'abs', 'pow', 'nan_to_num'):
    _inpl(_n)


@op('fill_')
def _(it, a, k):
    x = a[0]
    mutate(it, x, scal(a[1]))
    return x


OPS['zero_'] = lambda it, a, k: OPS['fill_'](it, [a[0], 0], {})


@op('copy_')
def _(it, a, k):
    return inplace(it, a[0], expand_to(it, a[1], a[0].shape))


@op('normal_', 'uniform_', 'random_', 'bernoulli_')
def _(it, a, k):
    x = a[0]
    d = it.draw_id()
    mutate(it, x, tm.draw(d, 'randn', x.vars(), [], []))
    return x


@op('exponential_')
def _(it, a, k):
    x = a[0]
    d = it.draw_id()
    mutate(it, x, tm.draw(d, 'expo', x.vars(), [], []))
    return x


@op('clone', 'contiguous', 'copy')
def _(it, a, k):
    x = a[0]
    if isinstance(x, Masked):
        return x
    r = Ten(x.axes, x.body, x.dtype, x.grad and it.nograd == 0, np=x.np)
    return r


@op('detach')
def _(it, a, k):
    x = a[0]
    return cut(it, Ten(x.axes, x.body, x.dtype, False, x.store))


@op('detach_')
def _(it, a, k):
    a[0].grad = False
    return a[0]


@op('requires_grad_')
def _(it, a, k):
    v = a[1] if len(a) > 1 else k.get('requires_grad', True)
    a[0].grad = bool(v)
    a[0].requires_grad = bool(v)
    return a[0]


DTYPES = {'float32': 'float', 'float64': 'float', 'float16': 'float', 'float': 'float', 'double': 'float', 'half': 'float',
          'bfloat16': 'float', 'long': 'long', 'int': 'long', 'int64': 'long', 'int32': 'long', 'int16': 'long', 'short': 'long',
          'uint8': 'long', 'int8': 'long', 'bool': 'bool', 'bool_': 'bool'}


def cast(it, x, dt):
    if isinstance(x, Masked):
        return Masked(cast(it, x.ten, dt), x.mask)
    if isinstance(x, Unknown):
        raise Unk(x.why)
    if dt == x.dtype:
        return x
    f = lambda b: b
    if dt == 'bool':
        f = tobool
    elif dt == 'long' and x.dtype == 'float':
        def f(b):
            if tm.is_int(b):
                return b
            return tm.fn('trunc', b) if not tm.nonneg(b) else tm.fn('floor', b)
    r = Ten(x.axes, f(x.body), dt, x.grad and dt == 'float', np=x.np)
    return r


for _n, _d in (('float', 'float'), ('double', 'float'), ('half', 'float'), ('long', 'long'), ('int', 'long'), ('bool', 'bool')):
    OPS[_n] = lambda it, a, k, d=_d: cast(it, a[0], d)


@op('to', 'type', 'astype', 'type_as')
def _(it, a, k):
    x = a[0]
    for v in list(a[1:]) + list(k.values()):
        if isinstance(v, Ext):
            dt = DTYPES.get(v.path.split('.')[-1])
            if dt:
                x = cast(it, x, dt)
        elif isinstance(v, str) and v in DTYPES:
            x = cast(it, x, DTYPES[v])
        elif isinstance(v, Ten):
            x = cast(it, x, v.dtype)
        elif isinstance(v, ExtVal) and v.path == 'dtype':
            x = cast(it, x, v.args[0])
    return x


for _n in ('cpu', 'cuda', 'pin_memory', 'share_memory_', 'numpy', 'retain_grad'):
    OPS[_n] = lambda it, a, k: a[0]


@op('size')
def _(it, a, k):
    d = a[1] if len(a) > 1 else k.get('dim')
    if isinstance(a[0], Masked):
        return MaskedShape(a[0].ten, a[0].mask)
    s = shape_tuple(a[0])
    if d is None:
        return s
    return s[canon_dim(it, d, len(s))]


OPS['dim'] = lambda it, a, k: a[0].dim
OPS['ndimension'] = OPS['dim']
OPS['numel'] = lambda it, a, k: norm(prod(a[0].shape))
OPS['nelement'] = OPS['numel']


@op('item')
def _(it, a, k):
    x = a[0]
    if any(n is not None for n, s in x.axes):
        it.raise_('RuntimeError', 'a Tensor with more than one element cannot be converted to Scalar')
    return norm(x.body)


@op('tolist')
def _(it, a, k):
    v = it.iterate(a[0])
    if v is None:
        raise Unk('tolist of symbolic tensor')
    return [OPS['item'](it, [x], {}) if x.dim == 0 else OPS['tolist'](it, [x], {}) for x in v]


@op('unbind')
def _(it, a, k):
    x, d = bind(it, 'unbind', a, k, 'input', ('dim', 0))
    d = canon_dim(it, d, x.dim)
    n = x.shape[d].cint
    if n is None:
        raise Unk('unbind symbolic')
    return tuple(getitem(it, x, tuple([Slice(None, None, None)] * d + [i])) for i in range(n))


@op('chunk')
def _(it, a, k):
    x, n, d = bind(it, 'chunk', a, k, 'input', 'chunks', ('dim', 0))
    d = canon_dim(it, d, x.dim)
    step = tm.cdiv(x.shape[d], size(n))
    return tuple(getitem(it, x, tuple([Slice(None, None, None)] * d + [Slice(step * i, step * (i + 1), None)])) for i in range(n))


@op('split')
def _(it, a, k):
    x, sz, d = bind(it, 'split', a, k, 'input', 'split_size', ('dim', 0))
    d = canon_dim(it, d, x.dim)
    if isinstance(sz, (list, tuple)):
        out, o = [], ZERO
        for s in sz:
            out.append(getitem(it, x, tuple([Slice(None, None, None)] * d + [Slice(o, o + size(s), None)])))
            o = o + size(s)
        return tuple(out)
    n = tm.cdiv(x.shape[d], size(sz)).cint
    if n is None:
        raise Unk('split')
    return tuple(getitem(it, x, tuple([Slice(None, None, None)] * d + [Slice(size(sz) * i, size(sz) * (i + 1), None)])) for i in range(n))


@op('cumsum')
def _(it, a, k):
    x, d = bind(it, 'cumsum', a, {q: v for q, v in k.items() if q != 'dtype'}, 'input', ('dim', 0))
    d = canon_dim(it, d, x.dim)
    n = x.shape[d].cint

    def f(vs):
        nn, u = newvar(x.shape[d])
        if nn not in tm.VARS:
            return x.at(vs)
        ix = list(vs)
        ix[d] = u
        if n is not None and n <= 16:
            return pick(None, [sum((x.at([lift(j) if i == d else v for i, v in enumerate(vs)]) for j in range(m + 1)), ZERO) for m in range(n)], vs[d])
        return tm.red('sum', [(nn, x.shape[d])], x.at(ix) * tm.ge0(vs[d] - u))
    return mk(x.shape, f, x.dtype, x.grad)


@op('roll')
def _(it, a, k):
    x, s, d = bind(it, 'roll', a, k, 'input', 'shifts', ('dims', None))
    if d is None:
        raise Unk('roll flat')
    if isinstance(d, (tuple, list)):
        ss = list(s) if isinstance(s, (tuple, list)) else [s]
        if len(ss) != len(d):
            raise Unk('roll: shifts and dimensions must align')
        for q, e in zip(ss, d):
            x = OPS['roll'](it, [x, q, e], {})
        return x
    d = canon_dim(it, d, x.dim)
    s = scal(s if not isinstance(s, (tuple, list)) else s[0])
    return mk(x.shape, lambda vs: x.at([tm.mod(v - s, x.shape[i]) if i == d else v for i, v in enumerate(vs)]), x.dtype, x.grad)


@op('argsort')
def _(it, a, k):
    if k.get('descending') or len(a) > 2:
        raise Unk('argsort descending')
    return argsort(it, as_ten(it, a[0] if a else k['input']))


@op('matmul', 'mm', 'bmm')
def _(it, a, k):
    x, y = a
    if x.dim == 2 and y.dim == 2:
        return einsum(it, 'ij,jk->ik', [x, y])
    if x.dim == 3 and y.dim == 3:
        return einsum(it, 'bij,bjk->bik', [x, y])
    if x.dim == 1 and y.dim == 1:
        return einsum(it, 'i,i->', [x, y])
    if x.dim == 2 and y.dim == 1:
        return einsum(it, 'ij,j->i', [x, y])
    if x.dim == 1 and y.dim == 2:
        return einsum(it, 'i,ij->j', [x, y])
    if x.dim > 2 and y.dim == 2:
        s = 'abcdefg'[:x.dim - 1]
        return einsum(it, s + 'y,yz->' + s + 'z', [x, y])
    raise Unk('matmul')


def _tri(low):
    def f(it, a, k):
        x, d = bind(it, 'tril', a, k, 'input', ('diagonal', 0))
        x = as_ten(it, x)
        d = size(d)
        keep = (lambda i, j: tm.ge0(i + d - j)) if low else (lambda i, j: tm.ge0(j - i - d))
        return mk(x.shape, lambda vs: keep(vs[-2], vs[-1]) * x.at(vs), x.dtype, x.grad)
    return f


OPS['tril'] = _tri(True)
OPS['triu'] = _tri(False)


@op('diag_embed')
def _(it, a, k):
    x = as_ten(it, a[0])
    if len(a) > 1 or k:
        raise Unk('diag_embed options')
    return mk(list(x.shape) + [x.shape[-1]], lambda vs: tm.eq0(vs[-1] - vs[-2]) * x.at(vs[:-1]), x.dtype, x.grad)


@op('equal', 'allclose')
def _(it, a, k):
    raise Unk('equal')


def known_mask(it, t):
    """positions of the true entries of a one-dimensional mask of known entries, or None"""
    n = t.shape[0].cint
    if n is None or n > 16:
        return None
    v = [it.apply_facts(t.at([lift(i)])).const for i in range(n)]
    return None if None in v else [i for i, x in enumerate(v) if x]


def known_ints(it, t):
    """the entries of a one-dimensional tensor of known integers"""
    v = OPS['tolist'](it, [t], {}) if isinstance(t, Ten) and t.dim == 1 else None
    if v is None or not all(isinstance(x, int) for x in v):
        raise Unk('values of an integer tensor')
    return [int(x) for x in v]


@op('bincount')
def _(it, a, k):
    x, w, m = bind(it, 'bincount', a, k, 'input', ('weights', None), ('minlength', 0))
    if w is not None:
        raise Unk('bincount with weights')
    v = known_ints(it, x)
    n = max([norm(scal(m))] + [i + 1 for i in v])
    t = as_ten(it, [v.count(i) for i in range(n)])
    return cast(it, t, 'long')


@op('logcumsumexp', 'sort', 'topk', 'unique', 'nonzero', 'histc', 'cumprod',
    'multinomial', 'var_mean', 'median', 'quantile', 'masked_select', 'take', 'unfold', 'mode')
def _(it, a, k):
    raise Unk('unmodelled tensor op')


@op('index_add_', 'index_fill_', 'index_put_')
def _(it, a, k):
    spoil(it, a[0])
    raise Unk('unmodelled in-place tensor op')


@op('multinomial')
def _(it, a, k):
    x, n, rep = bind(it, 'multinomial', a, k, 'input', 'num_samples', ('replacement', False))
    if x.dim == 1 and it.oracle is not None and rep is True:
        it.draw_id()
        return it.oracle(it, elementwise(it, tm.log, [x], 'float'), [size(n)])
    if x.dim == 2:
        d = it.draw_id()
        nn, v = newvar(x.shape[1])
        return mk([x.shape[0], size(n)], lambda vs: tm.draw(d, 'cat', vs, [(nn, x.shape[1])] if x.shape[1] is not ONE else [], [tm.log(x.at([vs[0], v]))]), 'long')
    raise Unk('multinomial')


@op('new_zeros', 'new_ones', 'new_empty', 'new_full')
def _(it, a, k):
    raise Unk('new_*')


OPS['new_zeros'] = lambda it, a, k: mk(kw_size(it, a[1:], k), lambda vs: ZERO, kw_dtype(k, a[0].dtype))
OPS['new_ones'] = lambda it, a, k: mk(kw_size(it, a[1:], k), lambda vs: ONE, kw_dtype(k, a[0].dtype))
OPS['new_empty'] = lambda it, a, k: uninit(it, kw_size(it, a[1:], k), kw_dtype(k, a[0].dtype))


def _new_full(it, a, k):
    r = CONS['full'](it, a[1:], k)
    return cast(it, r, a[0].dtype) if k.get('dtype') is None and r.dtype != a[0].dtype else r


OPS['new_full'] = _new_full


def uninit(it, sizes, dtype):
    n = fresh_name('uninit')
    tm.set_base(n, dict(range=None, perm=False, bool=False, int=dtype == 'long'))
    return mk(sizes, lambda vs: el(n, *vs), dtype)


# ---------------------------------------------------------------- constructors torch.*
CONS = {}


def cons(*names):
    def d(f):
        for n in names:
            CONS[n] = f
        return f
    return d


def kw_dtype(k, default):
    d = k.get('dtype')
    if isinstance(d, Ext):
        return DTYPES.get(d.path.split('.')[-1], default)
    if isinstance(d, ExtVal) and d.path == 'dtype':
        return d.args[0]
    return default


def kw_size(it, a, k):
    if 'size' in k:
        a = [k['size']] + list(a)
    if 'shape' in k:
        a = [k['shape']] + list(a)
    return flat_sizes(it, a)


def finish(it, t, k):
    if k.get('requires_grad') is True:
        t.grad = True
        t.requires_grad = True
    return t


@cons('zeros', 'ones', 'empty')
def _mkconst(it, a, k):
    raise NotImplementedError


CONS['zeros'] = lambda it, a, k: finish(it, mk(kw_size(it, a, k), lambda vs: ZERO, kw_dtype(k, 'float')), k)
CONS['ones'] = lambda it, a, k: finish(it, mk(kw_size(it, a, k), lambda vs: ONE, kw_dtype(k, 'float')), k)
CONS['empty'] = lambda it, a, k: finish(it, uninit(it, kw_size(it, a, k), kw_dtype(k, 'float')), k)


@cons('full')
def _(it, a, k):
    if 'size' in k:
        a = [k['size']] + list(a)
    v = k.get('fill_value', a[1] if len(a) > 1 else None)
    sv = scal(v)
    dt = kw_dtype(k, 'bool' if isinstance(v, bool) else 'long' if tm.is_int(sv) and not isinstance(v, float) else 'float')
    return finish(it, mk(flat_sizes(it, [a[0]]), lambda vs: sv, dt), k)


for _n, _v in (('zeros_like', ZERO), ('ones_like', ONE)):
    CONS[_n] = lambda it, a, k, v=_v: finish(it, mk(as_ten(it, a[0]).shape, lambda vs: v, kw_dtype(k, as_ten(it, a[0]).dtype)), k)
CONS['full_like'] = lambda it, a, k: mk(a[0].shape, lambda vs: scal(a[1] if len(a) > 1 else k['fill_value']), kw_dtype(k, a[0].dtype))
CONS['empty_like'] = lambda it, a, k: uninit(it, a[0].shape, kw_dtype(k, a[0].dtype))


@cons('arange')
def _(it, a, k):
    k = dict(k)
    dt = kw_dtype(k, None)
    k.pop('dtype', None)
    k.pop('requires_grad', None)
    if len(a) == 1 and 'end' not in k and 'stop' not in k:
        k['end'] = a[0]
        a = []
    if 'stop' in k:
        k['end'] = k.pop('stop')
    s, e, st = bind(it, 'arange', a, k, ('start', 0), ('end', None), ('step', 1))
    if dt is None and any(isinstance(v, float) for v in (s, e, st)):
        dt = 'float'
    s, e, st = scal(s), scal(e), scal(st)
    if st.cint is None:
        raise Unk('arange step')
    n = e - s if st.cint == 1 else tm.cdiv(e - s, st)
    if not tm.nonneg(n):
        if tm.nonneg(-n):
            n = ZERO
    return mk([n], lambda vs: s + vs[0] * st, dt or ('long' if tm.is_int(s) and tm.is_int(e) else 'float'))


@cons('linspace')
def _(it, a, k):
    s, e, n = bind(it, 'linspace', a, {q: v for q, v in k.items() if q != 'dtype'}, 'start', 'end', ('steps', None)) if 'num' not in k else (a[0], a[1], k['num'])
    s, e, n = scal(s), scal(e), scal(n)
    return mk([n], lambda vs: s + vs[0] * tm.div(e - s, n - 1), 'float')


@cons('eye')
def _(it, a, k):
    n = size(a[0])
    return mk([n, size(a[1]) if len(a) > 1 else n], lambda vs: tm.eq0(vs[0] - vs[1]), 'float')


@cons('tensor', 'as_tensor', 'from_numpy', 'array', 'asarray', 'FloatTensor', 'LongTensor')
def _(it, a, k):
    d = a[0] if a else k.get('data')
    if isinstance(d, Ten):
        r = Ten(d.axes, d.body, d.dtype, False)
    else:
        r = as_ten(it, d)
        r = Ten(r.axes, r.body, r.dtype, False)
    dt = kw_dtype(k, None)
    if dt:
        r = cast(it, r, dt)
    return finish(it, r, k)


def _as_tensor(it, a, k):
    d = a[0] if a else k.get('data')
    if isinstance(d, Ten):
        dt = kw_dtype(dict(k, **({'dtype': a[1]} if len(a) > 1 else {})), None)
        return d if not dt or dt == d.dtype else cast(it, d, dt)
    return CONS['tensor'](it, a, k)


CONS['as_tensor'] = _as_tensor


def rnd(kind, dtype='float', npk='torch'):
    def h(it, a, k):
        sizes = kw_size(it, a, k)
        d = it.draw_id(npk)
        t = mk(sizes, lambda vs: tm.draw(d, kind, vs, [], []), dtype)
        return finish(it, t, k)
    return h


CONS['rand'] = rnd('rand')
CONS['randn'] = rnd('randn')
CONS['rand_like'] = lambda it, a, k: rnd('rand')(it, [tuple(a[0].shape)], {})
CONS['randn_like'] = lambda it, a, k: rnd('randn')(it, [tuple(a[0].shape)], {})


@cons('randint')
def _(it, a, k):
    k = dict(k)
    sz = k.get('size', a[-1])
    d = it.draw_id()
    lo, hi = (k.get('low', 0), k.get('high')) if 'high' in k else ((a[0], a[1]) if len(a) == 3 or ('size' in k and len(a) == 2) else (0, a[0]))
    return mk(flat_sizes(it, [sz]), lambda vs: tm.draw(d, 'randint', vs, [], [scal(lo), scal(hi)]), 'long')


@cons('randperm')
def _(it, a, k):
    n = a[0] if a else k['n']
    return rand_perm(it, size(n))


@cons('normal')
def _(it, a, k):
    k = {q: v for q, v in k.items() if q not in ('generator',)}
    m, s = (a + [None, None])[:2]
    m = m if m is not None else k.get('mean', 0.0)
    s = s if s is not None else k.get('std', 1.0)
    if 'size' in k:
        sizes = flat_sizes(it, [k['size']])
    else:
        sizes = bcast_sizes(it, [x.shape for x in (m, s) if isinstance(x, Ten)])
    d = it.draw_id()
    z = mk(sizes, lambda vs: tm.draw(d, 'randn', vs, [], []))
    return binop(it, 'Add', m, binop(it, 'Mult', s, z))


@cons('bernoulli')
def _(it, a, k):
    x = a[0]
    d = it.draw_id()
    return mk(x.shape, lambda vs: tm.draw(d, 'bernoulli', vs, [], [x.at(vs)]), 'float')


def repeated_cat(it, sl, d):
    """cat of a list of symbolic length: block n of the result is element n"""
    if not isinstance(sl, SymList) or len(sl.axes) != 1 or not isinstance(sl.elem, Ten) or sl.elem.dim == 0:
        return None
    t = sl.elem
    n, s = sl.axes[0]
    d = canon_dim(it, d, t.dim)
    w = t.shape[d]
    if n in w.fv:
        return None

    def f(vs):
        ix = list(vs)
        q, ix[d] = tm.fdiv(vs[d], w), ZERO if w is ONE else tm.mod(vs[d], w)
        return tm.subst(t.at(ix), {n: q})
    return mk([x * s if i == d else x for i, x in enumerate(t.shape)], f, t.dtype, t.grad)


@cons('hstack', 'vstack', 'dstack', 'column_stack', 'row_stack')
def _(it, a, k):
    raise Unk('stack variant')


def _xstack(kind):
    def h(it, a, k):
        seq = it.iterate(a[0] if a else k.get('tensors', k.get('tup')))
        if seq is None or any(isinstance(x, Unknown) for x in seq):
            raise Unk(f'{kind} of unknown list')
        ts = [as_ten(it, x) for x in seq]
        if kind == 'hstack':
            ts = [unsqueeze(it, t, 0) if t.dim == 0 else t for t in ts]
            return cat(it, ts, 0 if ts[0].dim == 1 else 1)
        for _ in range(2):
            ts = [unsqueeze(it, t, 0) if t.dim < 2 else t for t in ts] if kind == 'vstack' else \
                [unsqueeze(it, t, t.dim) if t.dim < 2 else t for t in ts]
        return cat(it, ts, 0 if kind == 'vstack' else 1)
    return h


CONS['hstack'] = _xstack('hstack')
CONS['vstack'] = CONS['row_stack'] = _xstack('vstack')
CONS['column_stack'] = _xstack('column_stack')


@cons('cat', 'concat', 'concatenate')
def _(it, a, k):
    ts, d = bind(it, 'cat', a, k, 'tensors', ('dim', 0))
    seq = it.iterate(ts)
    if seq is None:
        r = repeated_cat(it, ts, d)
        if r is None:
            raise Unk('cat of unknown list')
        return r
    return cat(it, [x if isinstance(x, Unknown) else as_ten(it, x) if not isinstance(x, (Ten, Masked)) else x for x in seq], d)


@cons('stack')
def _(it, a, k):
    ts, d = bind(it, 'stack', a, k, 'tensors', ('dim', 0))
    if isinstance(ts, SymList):
        e = as_ten(it, ts.elem)
        if len(ts.axes) == 1:
            t = symlist_ten(it, ts)
            d = canon_dim(it, d, t.dim)
            o = list(range(1, t.dim))
            o.insert(d, 0)
            return permute(t, o)
        raise Unk('stack of symbolic list')
    seq = it.iterate(ts)
    if seq is None or any(isinstance(x, Unknown) for x in seq):
        raise Unk('stack of unknown')
    seq = [as_ten(it, x) for x in seq]
    return stack_list(it, seq, canon_dim(it, d, seq[0].dim + 1))


@cons('einsum')
def _(it, a, k):
    spec = a[0]
    ops = a[1] if len(a) == 2 and isinstance(a[1], (list, tuple)) else a[1:]
    if any(isinstance(o, Unknown) for o in ops):
        raise Unk('einsum operand')
    return einsum(it, spec, list(ops))


@cons('one_hot')
def _(it, a, k):
    x, n = bind(it, 'one_hot', a, k, 'input', ('num_classes', -1))
    n = scal(n)
    if n.cint == -1:
        # inferred = max+1: take the declared range of the index values
        hi = None
        b = x.body
        cand = index_range(b)
        if cand is None:
            raise Unk('one_hot without num_classes')
        n = cand
    return mk(x.shape + [n], lambda vs: tm.eq0(vs[-1] - x.at(vs[:-1])), 'long')


def index_range(b):
    """exclusive upper bound attained by an index term (for one_hot inference)"""
    a = b.single()
    if a is not None:
        if a.kind == 'var':
            return tm.VARS[a.args[0]]
        lo, hi = tm.atom_range(a)
        if hi is not None:
            return hi + 1
        if a.kind == 'fn' and a.args[0] == 'fdiv':
            r, m = a.args[1]
            ra = index_range(r)
            if ra is not None:
                return tm.fdiv(ra - 1, m) + 1
    if len(b.ms) == 2:
        # v - m*fdiv(v,m)
        for a in b.atoms():
            if a.kind == 'fn' and a.args[0] == 'fdiv':
                r, m = a.args[1]
                if b is r - m * lift(a):
                    return m
    if b.cint is not None:
        return b + 1
    return None


@cons('conv2d')
def _(it, a, k):
    x, w, b, st, pad, dil, grp = bind(it, 'conv2d', a, k, 'input', 'weight', ('bias', None), ('stride', 1), ('padding', 0), ('dilation', 1), ('groups', 1))
    two = lambda v: [norm(scal(q)) for q in (v if isinstance(v, (tuple, list)) else (v, v))]
    st, pad, dil = two(st), two(pad), two(dil)
    if pad != [0, 0] or x.dim != 4 or w.dim != 4:
        raise Unk('conv2d')
    N, C, H, W = x.shape
    Co, Cg, Kh, Kw = w.shape
    grp = size(grp)
    same_size(it, Cg * grp, C, 'conv2d channels')
    if Kh.cint is None or Kw.cint is None or H.cint is None or W.cint is None or not (Cg is ONE and Co is C or grp is ONE):
        raise Unk('conv2d sizes')
    oh, ow = (H.cint - dil[0] * (Kh.cint - 1) - 1) // st[0] + 1, (W.cint - dil[1] * (Kw.cint - 1) - 1) // st[1] + 1
    if oh < 1 or ow < 1:
        it.raise_('RuntimeError', 'Calculated padded input size per channel is smaller than the kernel size')

    def f(v):
        n, c, i, j = v
        t = ZERO if b is None else b.at([c])

        def tap(u, q, h, z):
            return x.at([n, u, i * lift(st[0]) + lift(h * dil[0]), j * lift(st[1]) + lift(z * dil[1])]) * w.at([c, q, lift(h), lift(z)])
        for h in range(Kh.cint):
            for z in range(Kw.cint):
                if Cg is ONE:
                    t = t + tap(c if grp is not ONE else ZERO, ZERO, h, z)
                else:
                    nn, q = newvar(Cg)
                    t = t + tm.red('sum', [(nn, Cg)], tap(q, q, h, z))
        return t
    return mk([N, Co, lift(oh), lift(ow)], f, 'float', (x.grad or w.grad) and it.nograd == 0)


@cons('gumbel_softmax')
def _(it, a, k):
    x, tau, hard, eps, dim = bind(it, 'gumbel_softmax', a, k, 'logits', ('tau', 1), ('hard', False), ('eps', 1e-10), ('dim', -1))
    dm = canon_dim(it, dim, x.dim)
    d = it.draw_id()
    n, s = x.axes[dm]
    if hard is True or it.truth(hard):
        if n is None:
            return mk(x.shape, lambda vs: ONE, 'float', x.grad and it.nograd == 0)

        def f(vs):
            nn, u = newvar(s)
            ix = list(vs)
            ix[dm] = u
            return tm.eq0(vs[dm] - tm.draw(d, 'cat', [v for i, v in enumerate(vs) if i != dm], [(nn, s)], [x.at(ix)]))
        return mk(x.shape, f, 'float', x.grad and it.nograd == 0)
    return mk(x.shape, lambda vs: tm.fn('gsoft', x.at(vs), scal(tau), tm.draw(d, 'rand', vs, [], [])), 'float', x.grad and it.nograd == 0)


@cons('pad')
def _(it, a, k):
    x, p, mode, val = bind(it, 'pad', a, k, 'input', 'pad', ('mode', 'constant'), ('value', 0))
    if mode != 'constant':
        raise Unk('pad mode')
    val = scal(0 if val is None else val)
    p = [scal(q) for q in p]
    sizes = list(x.shape)
    offs = [ZERO] * x.dim
    for i in range(len(p) // 2):
        d = x.dim - 1 - i
        offs[d] = p[2 * i]
        sizes[d] = sizes[d] + p[2 * i] + p[2 * i + 1]

    def f(vs):
        c = ONE
        ix = []
        for i, v in enumerate(vs):
            w = v - offs[i]
            c = c * tm.ge0(w) * tm.ge0(x.shape[i] - 1 - w)
            ix.append(w if x.shape[i] is not ONE else ZERO)
        return tm.sel(c, x.at(ix), val)
    return mk(sizes, f, x.dtype, x.grad)


@op('diff')
def _(it, a, k):
    x, n, d = bind(it, 'diff', a, k, 'input', ('n', 1), ('dim', -1))
    d = canon_dim(it, d, x.dim)
    for _ in range(norm(scal(n))):
        m, y = x.shape[d] - 1, x

        def f(vs, y=y):
            i = list(vs)
            i[d] = vs[d] + 1
            return y.at(i) - y.at(vs)
        x = mk([m if j == d else s for j, s in enumerate(y.shape)], f, y.dtype, y.grad)
    return x


@op('trapezoid', 'trapz')
def _(it, a, k):
    y, x, dx, d = bind(it, 'trapezoid', a, k, 'y', ('x', None), ('dx', None), ('dim', -1))
    d = canon_dim(it, d, y.dim)
    n = y.shape[d].cint
    if n is None or (x is not None and (x.dim != 1 or d != y.dim - 1)):
        raise Unk('trapezoid over an unknown number of points')

    def f(vs):
        at = lambda i: y.at(list(vs[:d]) + [lift(i)] + list(vs[d:]))
        w = lambda i: (x.at([lift(i + 1)]) - x.at([lift(i)])) if x is not None else lift(1 if dx is None else scal(dx))
        return sum(((at(i) + at(i + 1)) * w(i) * lift(Fraction(1, 2)) for i in range(n - 1)), ZERO)
    return mk([s for j, s in enumerate(y.shape) if j != d], f, 'float', y.grad)


@op('bucketize')
def _(it, a, k):
    x, b, r = bind(it, 'bucketize', a, {q: w for q, w in k.items() if q != 'out_int32'}, 'input', 'boundaries', ('right', False))
    return OPS['searchsorted'](it, [b, x], {'right': r})


@op('searchsorted')
def _(it, a, k):
    s, v, r = bind(it, 'searchsorted', a, {q: w for q, w in k.items() if q not in ('out_int32', 'side', 'sorter')}, 'sorted_sequence', 'input', ('right', False))
    if k.get('sorter') is not None:
        raise Unk('searchsorted arguments')
    if 'side' in k:
        r = k['side'] == 'right'
    v = as_ten(it, v)
    n = s.shape[-1].cint
    if n is None or n > 64 or not isinstance(r, bool) or (s.dim > 1 and s.dim != v.dim):
        raise Unk('searchsorted over an unknown number of points')
    if s.dim > 1:
        same_size(it, s.shape[0], v.shape[0], 'searchsorted')

    def f(vs):
        x, pre = v.at(vs), (list(vs[:-1]) if s.dim > 1 else [])
        e = [s.at(pre + [lift(i)]) for i in range(n)]
        # side left: number of boundaries below the value; side right: number of boundaries not above it
        return sum(((tm.ge0(x - b) if r else tm.gt0(x - b)) for b in e), ZERO)
    return mk(v.shape, f, 'long')


@cons('meshgrid', 'histogram', 'quantile', 'load', 'save', 'compile')
def _(it, a, k):
    raise Unk('unmodelled torch function')


# ================================================================ torch.distributions
class _D:
    pass


def dist_batch(it, d):
    """parameter tensors of a distribution"""
    return [as_ten(it, p) for p in d.params.values() if p is not None and not isinstance(p, bool)]


def dist_shapes(it, d):
    ps = {n: as_ten(it, p) for n, p in d.params.items() if p is not None}
    if d.kind in ('Categorical', 'OneHotCategorical'):
        t = next(iter(ps.values()))
        return t.shape[:-1]
    if d.kind == 'MultivariateNormal':
        return ps['loc'].shape
    return bcast_sizes(it, [t.shape for t in ps.values()])


def cat_logits(it, d):
    if d.params.get('logits') is not None:
        return d.params['logits']
    return elementwise(it, tm.log, [d.params['probs']], 'float')


def at_b(t, vs):
    k = len(vs) - t.dim
    return t.at([vs[k + i] if t.shape[i] is not ONE else ZERO for i in range(t.dim)])


def dist_sample(it, d, args, kwargs, r=False):
    ss = kwargs.get('sample_shape', args[0] if args else ())
    masked = None
    if isinstance(ss, MaskedShape):
        masked = ss
        ss = tuple(ss.ten.shape)
    if isinstance(ss, (int, T)):
        ss = (ss,)
    batch = dist_shapes(it, d)
    sizes = [size(x) for x in ss] + list(batch)
    did = it.draw_id()
    if d.kind == 'Categorical' and it.oracle is not None:
        return it.oracle(it, as_ten(it, cat_logits(it, d)), sizes)
    if d.kind in ('Categorical', 'OneHotCategorical'):
        lg = as_ten(it, cat_logits(it, d))
        n, s = lg.axes[-1]

        def f(vs):
            bv = vs[len(ss):]
            if n is None:
                return ZERO
            nn, u = newvar(s)
            return tm.draw(did, 'cat', vs, [(nn, s)], [lg.at([x if lg.shape[i] is not ONE else ZERO for i, x in enumerate(bv)] + [u])])
        t = mk(sizes, f, 'long')
        if d.kind == 'OneHotCategorical':
            t = mk(sizes + [s], lambda vs: tm.eq0(vs[-1] - t.at(vs[:-1])), 'float')
    elif d.kind == 'Bernoulli':
        p = bern_probs(it, d)
        t = mk(sizes, lambda vs: tm.draw(did, 'bernoulli', vs, [], [at_b(p, vs[len(ss):] if p.dim <= len(vs) - len(ss) else vs)]), 'float')
    elif d.kind == 'Normal':
        m, s = as_ten(it, d.params['loc']), as_ten(it, d.params['scale'])
        t = mk(sizes, lambda vs: at_b(m, vs[len(ss):]) + at_b(s, vs[len(ss):]) * tm.draw(did, 'randn', vs, [], []), 'float')
        t.grad = r and (m.grad or s.grad) and it.nograd == 0
    elif d.kind == 'Binomial':
        tc, p = as_ten(it, d.params['total_count']), bern_probs(it, d)
        t = mk(sizes, lambda vs: tm.draw(did, 'binomial', vs, [], [at_b(tc, vs[len(ss):]), at_b(p, vs[len(ss):])]), 'float')
    else:
        laws = dist_batch(it, d)
        if d.kind == 'Uniform':
            lo, hi = as_ten(it, d.params['low']), as_ten(it, d.params['high'])
            t = mk(sizes, lambda vs: at_b(lo, vs[len(ss):]) + (at_b(hi, vs[len(ss):]) - at_b(lo, vs[len(ss):])) * tm.draw(did, 'rand', vs, [], []), 'float')
        elif d.kind == 'MultivariateNormal':
            loc, L = mvn_params(it, d)

            def f(vs):
                jn, jv = newvar(loc.shape[-1])
                j = ZERO if loc.shape[-1] is ONE else jv
                body = L.at(vs[len(ss):] + [j]) * tm.draw(did, 'randn', vs[:-1] + [j], [], [])
                return loc.at(vs[len(ss):]) + (body if loc.shape[-1] is ONE else tm.red('sum', [(jn, loc.shape[-1])], body))
            t = mk(sizes, f, 'float')
            t.grad = r and (loc.grad or L.grad) and it.nograd == 0
        else:
            raise Unk(f'sample of {d.kind}')
    if masked is not None:
        return Masked(t, masked.mask)
    return t


def bern_probs(it, d):
    if d.params.get('probs') is not None:
        return as_ten(it, d.params['probs'])
    return elementwise(it, lambda a: tm.fn('sigmoid', a), [as_ten(it, d.params['logits'])], 'float')


def known_density(it, obj, x, r):
    """a log density written out by hand in a distribution class of the repository: the named density of a standard family
    with two of the object's tensors as parameters, where the two have the same values"""
    if not isinstance(obj, Obj) or not isinstance(x, Ten) or isinstance(r, Masked) or r.dtype != 'float':
        return r
    try:
        if equal.has_logp(r.body) or not any(a.kind == 'el' for a in tm.all_atoms(r.body)):
            return r
    except Unk:
        return r
    vals = [v for v in obj.attrs.values() if isinstance(v, (Ten, float, int, T)) and not isinstance(v, bool) and (not isinstance(v, Ten) or v.dtype != 'bool')]
    if not 2 <= len(vals) <= 8:
        return r
    half = lift(Fraction(1, 2))
    scales = [lambda q: q, lambda q: tm.tpow(q, half.const), tm.exp, lambda q: tm.exp(q.scale(half.const))]
    fam = [('NORMAL', f) for f in scales] + [('BINOMIAL', f) for f in (lambda q: q, lambda q: tm.fn('sigmoid', q))]
    ix = []
    for i, s in enumerate(r.shape):
        n = f'pt{i}'
        tm.set_base(n, dict(range=s, perm=False, bool=False, int=True))
        ix.append(ZERO if s is ONE else el(n))
    tries = 0
    for name, f in fam:
        for a in vals:
            for b in vals:
                if a is b or not isinstance(a, Ten) and not isinstance(b, Ten):
                    continue
                tries += 1
                if tries > 120:
                    return r
                try:
                    c = elementwise(it, lambda m, s, v: tm.fn('logp', tm.sym(name, None, False), m, f(s), v), [as_ten(it, a), as_ten(it, b), x], 'float')
                    if len(c.shape) != len(r.shape) or any(p is not q for p, q in zip(c.shape, r.shape)):
                        continue
                    if equal.agree(c.at(ix), r.at(ix), 10):
                        return Ten(c.axes, c.body, 'float', r.grad)
                except (Unk, PyRaise):
                    continue
    return r


def dist_log_prob(it, d, x):
    x = as_ten(it, x)
    K = {'Normal': ('loc', 'scale'), 'Bernoulli': None, 'Binomial': None, 'Categorical': None}
    if d.kind == 'Normal':
        ps = [as_ten(it, d.params['loc']), as_ten(it, d.params['scale'])]
        return elementwise(it, lambda m, s, v: tm.fn('logp', tm.sym('NORMAL', None, False), m, s, v), ps + [x], 'float')
    if d.kind == 'Bernoulli':
        return elementwise(it, lambda p, v: tm.fn('logp', tm.sym('BERNOULLI', None, False), p, v), [bern_probs(it, d), x], 'float')
    if d.kind == 'Binomial':
        return elementwise(it, lambda n, p, v: tm.fn('logp', tm.sym('BINOMIAL', None, False), n, p, v), [as_ten(it, d.params['total_count']), bern_probs(it, d), x], 'float')
    if d.kind == 'Categorical':
        lg = log_softmax(it, as_ten(it, cat_logits(it, d)), -1)
        sizes = bcast_sizes(it, [x.shape, lg.shape[:-1]])

        def f(vs):
            return tm.fn('logp', tm.sym('CATEGORICAL', None, False), tm_gather(lg, vs, x), at_b(x, vs))
        return mk(sizes, f, 'float', lg.grad and it.nograd == 0)
    if d.kind == 'MultivariateNormal':
        loc, L = mvn_params(it, d)
        sizes = bcast_sizes(it, [x.shape, loc.shape])
        n = sizes[-1]
        base('mvn_fp'), base('mvn_fp2')

        def vec(f, *k):
            vs = [newvar(n) for _ in k]
            iv = [ZERO if n is ONE else v for _, v in vs]
            b = f(iv)
            return b if n is ONE else tm.red('sum', [(nm, n) for nm, _ in vs], b)

        def f(vs):
            a_ = vec(lambda i: el('mvn_fp', i[0]) * at_b(x, vs + i), 0)
            b_ = vec(lambda i: el('mvn_fp', i[0]) * at_b(loc, vs + i), 0)
            c_ = vec(lambda i: el('mvn_fp2', i[0], i[1]) * at_b(L, vs + i), 0, 1)
            return tm.fn('logp', tm.sym('MVN', None, False), b_, c_, a_)
        return mk(sizes[:-1], f, 'float', (x.grad or loc.grad or L.grad) and it.nograd == 0)
    raise Unk(f'log_prob of {d.kind}')


def mvn_params(it, d):
    if d.params.get('scale_tril') is None:
        raise Unk('MultivariateNormal without scale_tril')
    return as_ten(it, d.params['loc']), as_ten(it, d.params['scale_tril'])


def tm_gather(lg, vs, x):
    bv = vs[len(vs) - (lg.dim - 1):]
    return lg.at([v if lg.shape[i] is not ONE else ZERO for i, v in enumerate(bv)] + [at_b(x, vs)])


def dist_attr(it, d, name):
    if name == 'sample':
        return Builtin('sample', lambda it, a, k: _ng(it, dist_sample(it, d, a, k)))
    if name == 'rsample':
        return Builtin('rsample', lambda it, a, k: dist_sample(it, d, a, k, True))
    if name == 'log_prob':
        return Builtin('log_prob', lambda it, a, k: dist_log_prob(it, d, a[0] if a else k['value']))
    if name in d.params and d.params[name] is not None:
        return as_ten(it, d.params[name])
    if d.kind == 'Normal':
        if name in ('mean', 'mode'):
            return as_ten(it, d.params['loc'])
        if name == 'stddev':
            return as_ten(it, d.params['scale'])
        if name == 'variance':
            return elementwise(it, lambda a: a * a, [as_ten(it, d.params['scale'])])
    if d.kind in ('Bernoulli', 'Binomial') and name == 'probs':
        return bern_probs(it, d)
    if d.kind in ('Bernoulli',) and name == 'mean':
        return bern_probs(it, d)
    if d.kind in ('Bernoulli', 'Binomial') and name == 'logits':
        return elementwise(it, lambda a: tm.fn('logit', a), [bern_probs(it, d)], 'float')
    if d.kind == 'Categorical':
        if name == 'probs':
            return softmax(it, as_ten(it, cat_logits(it, d)), -1)
        if name == 'logits':
            return log_softmax(it, as_ten(it, cat_logits(it, d)), -1)
    if name == 'batch_shape':
        return tuple(norm(s) for s in dist_shapes(it, d))
    if name == 'get_params':
        it.raise_('AttributeError', f"'{d.kind}' object has no attribute 'get_params'")
    if name in ('expand', 'enumerate_support', 'cdf', 'icdf', 'entropy', 'mean', 'variance', 'mode', 'event_shape', 'support', 'arg_constraints', 'stddev', 'has_rsample', 'logits', 'probs', 'param_shape', 'num_events', 'scale', 'loc'):
        raise Unk(f'{d.kind}.{name}')
    it.raise_('AttributeError', f"'{d.kind}' object has no attribute '{name}'")


def _ng(it, t):
    if isinstance(t, Ten):
        t.grad = False
    return cut(it, t)


DISTS = {'Normal': ('loc', 'scale'), 'Bernoulli': ('probs', 'logits'), 'Categorical': ('probs', 'logits'),
         'Binomial': ('total_count', 'probs', 'logits'), 'MultivariateNormal': ('loc', 'covariance_matrix', 'precision_matrix', 'scale_tril'),
         'OneHotCategorical': ('probs', 'logits'), 'Uniform': ('low', 'high'), 'Gamma': ('concentration', 'rate'),
         'Gumbel': ('loc', 'scale'), 'Beta': ('concentration1', 'concentration0')}


def mk_dist(it, kind, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if k != 'validate_args'}
    names = DISTS[kind]
    if len(args) > len(names):
        it.raise_('TypeError', f'{kind}() takes {len(names)} positional arguments')
    p = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names:
            it.raise_('TypeError', f"{kind}.__init__() got an unexpected keyword argument '{k}'")
        p[k] = v
    for v in p.values():
        if isinstance(v, Unknown):
            raise Unk(v.why)
    if kind in ('Bernoulli', 'Categorical'):
        if (p.get('probs') is None) == (p.get('logits') is None):
            it.raise_('ValueError', 'Either `probs` or `logits` must be specified, but not both.')
    if kind == 'Binomial' and 'total_count' not in p:
        p['total_count'] = 1
    return DistVal(kind, **p)


# ================================================================ nn.Module
MODLIST = {}


def builtin_module(it, cname):
    c = MODLIST.get(cname)
    if c is None:
        c = Cls(cname, Mod('torch.nn', 'torch/nn', ast.parse('')), None)
        c.mro = [c, Ext('torch.nn.Module')]
        MODLIST[cname] = c
    o = Obj(c)
    o.is_module = True
    return o


def module_iter(it, o):
    if o.cls.name in ('ModuleList', 'Sequential', 'ParameterList'):
        return list(o.mods.values())
    if o.cls.name == 'ModuleDict':
        return list(o.mods.keys())
    return None


def nll_loss(it, lp, y, reduction='mean', dim=1):
    if lp.dim != 2 or not isinstance(y, Ten) or y.dim != 1:
        raise Unk('nll_loss of this shape')
    same_size(it, lp.shape[0], y.shape[0], 'rows of the loss')
    if y.dtype != 'long':
        shape_err(it, 'expected scalar type Long for the labels')
    t = mk([lp.shape[0]], lambda v: -lp.at([v[0], y.at(v)]), lp.dtype, lp.grad)
    return t if reduction == 'none' else OPS[{'mean': 'mean', 'sum': 'sum'}[reduction]](it, [t], {})


def _nll(it, a, k):
    x, y, r = bind(it, 'nll_loss', a, k, 'input', 'target', ('reduction', 'mean'))
    return nll_loss(it, x, y, r)


def _xent(it, a, k):
    x, y, r = bind(it, 'cross_entropy', a, k, 'input', 'target', ('reduction', 'mean'))
    return nll_loss(it, log_softmax(it, x, 1), y, r)


OPS['nll_loss'], OPS['cross_entropy'] = _nll, _xent


def module_forward(it, o, args, kwargs):
    if o.cls.name in ('NLLLoss', 'CrossEntropyLoss') and not o.attrs['args'] and set(o.attrs['kwargs']) <= {'reduction'}:
        return (_nll if o.cls.name == 'NLLLoss' else _xent)(it, list(args), dict(kwargs, **o.attrs['kwargs']))
    if o.cls.name == 'Sequential':
        x = args[0]
        for m in o.mods.values():
            x = it.call(m, [x], {})
        return x
    if o.cls.name in ACT and isinstance(args[0], Ten):
        return OPS[ACT[o.cls.name]](it, args, kwargs)
    if o.cls.name == 'LogSoftmax':
        return log_softmax(it, args[0], o.attrs['args'][0] if o.attrs['args'] else o.attrs['kwargs'].get('dim'))
    if o.cls.name == 'Softmax':
        return softmax(it, args[0], o.attrs['args'][0] if o.attrs['args'] else o.attrs['kwargs'].get('dim'))
    if o.cls.name == 'Identity':
        return args[0]
    if o.cls.module.name == 'torch.nn':
        raise Unk(f'nn.{o.cls.name} forward')
    it.raise_('NotImplementedError', f'Module [{o.cls.name}] is missing the required "forward" function')


ACT = {'SiLU': 'silu', 'ReLU': 'relu', 'Sigmoid': 'sigmoid', 'Tanh': 'tanh'}


def walk_modules(o, seen=None):
    if seen is None:
        seen = []
    if any(x is o for x in seen):
        return seen
    seen.append(o)
    for m in o.mods.values():
        if m is not None:
            walk_modules(m, seen)
    return seen


def all_params(o):
    out = []
    for m in walk_modules(o):
        for p in m.params.values():
            if p is not None and not any(p is q for q in out):
                out.append(p)
    return out


def base_attr(it, o, path, name):
    """attribute of obj provided by an external base class"""
    if path != 'torch.nn.Module':
        if path in ('torch.nn.ModuleList',):
            return MISSING
        return MISSING
    if name == 'training':
        return o.attrs.get('training', it.training)
    B = lambda f: Builtin(name, f)
    if name == 'register_buffer':
        def rb(it, a, k):
            n, t, per = bind(it, name, a, k, 'name', 'tensor', ('persistent', True))
            if not o.is_module:
                it.raise_('AttributeError', 'cannot assign buffer before Module.__init__() call')
            if isinstance(t, Ten):
                t2 = Ten(t.axes, t.body, t.dtype, False, Storage(f'buffer:{o.cls.name}.{n}'), t.np)
                t2.isbuf = True
                t = t2
            o.attrs[n] = t
            o.bufs[n] = t if per is not False else None
            if per is False:
                o.bufs.pop(n)
        return B(rb)
    if name == 'register_parameter':
        return B(lambda it, a, k: it.setattr(o, a[0] if a else k['name'], a[1] if len(a) > 1 else k.get('param'), raw=True))
    if name in ('add_module', 'register_module'):
        return B(lambda it, a, k: it.setattr(o, a[0], a[1], raw=True))
    if name == 'modules':
        return B(lambda it, a, k: walk_modules(o))
    if name == 'named_modules':
        return B(lambda it, a, k: [(str(i), m) for i, m in enumerate(walk_modules(o))])
    if name == 'children':
        return B(lambda it, a, k: list(o.mods.values()))
    if name == 'named_children':
        return B(lambda it, a, k: list(o.mods.items()))
    if name == 'parameters':
        return B(lambda it, a, k: all_params(o))
    if name == 'named_parameters':
        return B(lambda it, a, k: [(n, p) for m in walk_modules(o) for n, p in m.params.items()])
    if name == 'buffers':
        return B(lambda it, a, k: [b for m in walk_modules(o) for b in m.bufs.values()])
    if name in ('train', 'eval'):
        def tr(it, a, k):
            v = (a[0] if a else k.get('mode', True)) if name == 'train' else False
            for m in walk_modules(o):
                m.attrs['training'] = v
            it.effects.append(dict(kind='train', obj=o, value=v, where=it.loc()))
            return o
        return B(tr)
    if name in ('to', 'cuda', 'cpu', 'float', 'double', 'half', 'requires_grad_', 'share_memory', 'type'):
        if name == 'requires_grad_':
            it.effects.append(dict(kind='requires_grad', obj=o, where=it.loc()))
        return B(lambda it, a, k: o)
    if name == 'apply':
        def ap(it, a, k):
            for m in reversed(walk_modules(o)):
                it.call(a[0], [m], {})
            return o
        return B(ap)
    if name in ('zero_grad', 'extra_repr', 'register_forward_hook', 'register_forward_pre_hook', '__repr__'):
        return B(lambda it, a, k: None)
    if name in ('state_dict', 'load_state_dict', '_modules', '_parameters', '_buffers', 'named_buffers', 'get_parameter', 'get_submodule', 'get_buffer'):
        if name == '_modules':
            return o.mods
        if name == '_parameters':
            return o.params
        if name == '_buffers':
            return o.bufs
        if name == 'named_buffers':
            return B(lambda it, a, k: [(n, b) for m in walk_modules(o) for n, b in m.bufs.items()])
        return B(lambda it, a, k: ExtVal(f'module.{name}', (o,) + tuple(a), k))
    if name in ('__call__',):
        return B(lambda it, a, k: it.call(it.getattr(o, 'forward'), a, k))
    if name == 'append' and o.cls.name == 'ModuleList':
        def app(it, a, k):
            o.mods[str(len(o.mods))] = a[0]
            return o
        return B(app)
    if name in ('extend',) and o.cls.name == 'ModuleList':
        def ext(it, a, k):
            for v in it.iterate(a[0]):
                o.mods[str(len(o.mods))] = v
            return o
        return B(ext)
    if name == 'insert' and o.cls.name == 'ModuleList':
        def ins(it, a, k):
            l = list(o.mods.values())
            l.insert(a[0], a[1])
            o.mods.clear()
            o.mods.update({str(i): v for i, v in enumerate(l)})
        return B(ins)
    if name in ('items', 'values', 'keys') and o.cls.name == 'ModuleDict':
        return B(lambda it, a, k: list(getattr(o.mods, name)()))
    return MISSING


def super_attr(it, o, path, name):
    B = lambda f: Builtin(name, f)
    if path == 'torch.nn.Module':
        if name == '__init__':
            def init(it, a, k):
                if isinstance(o, Obj):
                    o.is_module = True
            return B(init)
        if name == '__setattr__':
            return B(lambda it, a, k: it.setattr(o, a[0], a[1], raw=True))
        r = base_attr(it, o, path, name)
        return r
    if path in ('abc.ABC', 'builtins.object', 'object', 'typing.Generic') or path.startswith('typing.'):
        if name == '__init__':
            return B(lambda it, a, k: None) if path in ('builtins.object', 'object') else MISSING
        if name == '__setattr__':
            return B(lambda it, a, k: it.setattr(o, a[0], a[1], raw=True))
        if name == '__repr__':
            return B(lambda it, a, k: ExtVal('repr', (o,)))
        return MISSING
    if name == '__init__':
        def einit(it, a, k):
            if isinstance(o, Obj):
                o.attrs.setdefault('_ext_init', []).append((path, tuple(a), k))
                if path.startswith('torch.nn.') or 'LightningModule' in path:
                    o.is_module = True
            return None
        return B(einit)
    if name == '__setattr__':
        return B(lambda it, a, k: it.setattr(o, a[0], a[1], raw=True))
    return B(lambda it, a, k: ExtVal(f'{path}.{name}', (o,) + tuple(a), k))


def ext_base_call(it, path, name, a, k):
    if name == '__init__':
        r = super_attr(it, a[0], path, '__init__')
        return it.call(r, a[1:], k)
    if name == '__setattr__':
        return it.setattr(a[0], a[1], a[2], raw=True)
    return ExtVal(f'{path}.{name}', tuple(a), k)


def mk_param(it, a, k):
    t, rg = bind(it, 'Parameter', a, k, ('data', None), ('requires_grad', True))
    t = as_ten(it, t)
    if t.dtype != 'float' and rg:
        it.raise_('RuntimeError', 'Only Tensors of floating point dtype can require gradients')
    it.nparam += 1
    if rg:
        n = f'param{it.nparam}'
        base(n)
        p = mk(t.shape, lambda vs: el(n, *vs), t.dtype, True)
        p.pname = n
        p.init = t
    else:
        p = Ten(t.axes, t.body, t.dtype, False)
        p.init = t
        p.pname = None
    p.isparam = True
    p.requires_grad = bool(rg)
    p.store.tag = f'param:{it.nparam}'
    return p


# ================================================================ attribute access on values
def getattr_(it, o, name):
    if isinstance(o, Ten):
        return ten_attr(it, o, name)
    if isinstance(o, Masked):
        if name == 'shape':
            return MaskedShape(o.ten, o.mask)
        if name in OPS:
            return Builtin(name, lambda it, a, k: OPS[name](it, [o] + a, k))
        raise Unk(f'masked.{name}')
    if isinstance(o, DistVal):
        return dist_attr(it, o, name)
    if isinstance(o, Ext):
        return ext_attr(it, o, name)
    if isinstance(o, ExtVal):
        if name in o.attrs:
            return o.attrs[name]
        if o.path == 'dtype' and name == 'is_floating_point':
            return o.args[0] == 'float'
        if o.path.startswith('torch.device'):
            return ExtVal('device.' + name)
        return ExtVal('getattr', (o, name))
    if isinstance(o, list):
        return list_attr(it, o, name)
    if isinstance(o, dict):
        return dict_attr(it, o, name)
    if isinstance(o, str):
        def sm(it, a, k):
            if name == 'format' and all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
                return o.format(*a, **k)
            if all(isinstance(x, (str, int, tuple, list)) for x in a) and not k:
                try:
                    if name == 'join':
                        seq = it.iterate(a[0])
                        if seq is None or not all(isinstance(x, str) for x in seq):
                            return ExtVal('str.join', (o, a[0]))
                        return o.join(seq)
                    return getattr(o, name)(*a)
                except (ValueError, TypeError, IndexError) as e:
                    it.raise_(type(e).__name__, str(e))
            return ExtVal(f'str.{name}', (o,) + tuple(a), k)
        if hasattr(o, name):
            return Builtin(name, sm)
        it.raise_('AttributeError', f"'str' object has no attribute '{name}'")
    if isinstance(o, (int, float, T)) and not isinstance(o, bool):
        if name == 'item':
            return Builtin('item', lambda it, a, k: o)
        if name in ('astype', 'to', 'long', 'float', 'clone', 'detach', 'cpu', 'numpy'):
            return Builtin(name, lambda it, a, k: o)
        if name == 'is_integer':
            return Builtin(name, lambda it, a, k: tm.is_int(scal(o)) if isinstance(o, T) else float(o).is_integer())
        if name in ('bit_length',):
            return Builtin(name, lambda it, a, k: int(o).bit_length())
        if name == 'dtype' and isinstance(o, NpInt):
            return ExtVal('dtype', ('long',))
        if hasattr(0.0, name) or hasattr(0, name):
            raise Unk(f'number.{name}')
        it.raise_('AttributeError', f"'{'int' if isinstance(o, int) else 'float'}' object has no attribute '{name}'")
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return Builtin(name, lambda it, a, k: getattr(o, name)(*a))
        if name == 'numel':
            return Builtin(name, lambda it, a, k: norm(prod([scal(x) for x in o])))
        if hasattr((), name) or name in ('values', 'indices', 'min', 'max', 'sign', 'logabsdet'):
            raise Unk(f'tuple.{name}')
        it.raise_('AttributeError', f"'tuple' object has no attribute '{name}'")
    if isinstance(o, (set, frozenset)):
        def stm(it, a, k):
            try:
                return getattr(o, name)(*[it.iterate(x) if isinstance(x, (list, tuple, set, dict)) else x for x in a])
            except TypeError as e:
                it.raise_('TypeError', str(e))
        return Builtin(name, stm)
    if o is None:
        it.raise_('AttributeError', f"'NoneType' object has no attribute '{name}'")
    if isinstance(o, (SymSet,)):
        it.raise_('AttributeError', f"'list' object has no attribute '{name}'") if name not in ('append', 'index', 'copy', 'sort', 'count') else None
        raise Unk(f'SymSet.{name}')
    if isinstance(o, MaskedShape):
        raise Unk('masked shape attr')
    if isinstance(o, Builtin):
        if name == '__name__':
            return o.name
        r = getattr(o, 'attrs', {}).get(name, MISSING)
        if r is not MISSING:
            return r
        return ExtVal('getattr', (o, name))
    if isinstance(o, Bound):
        if name == '__self__':
            return o.self_
        return it.getattr(o.func, name)
    if isinstance(o, CtxVal):
        if name == '__enter__':
            return Builtin(name, lambda it, a, k: None)
        raise Unk(f'ctx.{name}')
    if isinstance(o, Func):
        if name in getattr(o, 'fattrs', {}):
            return o.fattrs[name]
        raise Unk(f'func.{name}')
    if isinstance(o, bool):
        it.raise_('AttributeError', f"'bool' object has no attribute '{name}'")
    raise Unk(f'attribute {name} of {o!r}')


KNOWN_TEN_ATTRS = {'grad_fn', 'is_cuda', 'grad', 'device', 'names', 'is_leaf', '__class__', 'backward', 'storage', 'data_ptr', 'stride', 'is_contiguous',
                   'register_hook', 'imag', 'real', 'new_tensor', 'apply_', 'map_', 'addmm', 'dot', 'index_copy_', 'scatter_add_', 'scatter_add',
                   'masked_scatter', 'masked_scatter_', 'diagonal', 'outer', 'lerp', 'cross', 'trace', 'inverse', 'det', 'logdet', 'cholesky',
                   'is_floating_point', 'element_size', 'nanmean', 'nansum', 'nbytes', 'itemsize', 'isclose', 'count_nonzero', 'cosh', 'sinh', 'mT', 'H', 'tobytes', 'aminmax'}


def modify(it, t, name, a, k):
    """t.<name>_(...): the value of the plain operation is written back, if there is a model of it"""
    import_torch_names()
    if name not in EXTRA_NAMES:
        it.raise_('AttributeError', f"'Tensor' object has no attribute '{name}'")
    base = name[:-1]
    if base in PURE:
        r = OPS[base](it, [t] + list(a), k)
        if isinstance(r, Ten) and r.store is not t.store:
            return inplace(it, t, expand_to(it, r, t.shape))
    spoil(it, t)
    raise Unk(f'Tensor.{name}')


PURE = {'relu', 'lerp', 'index_fill', 'addcmul', 'addcdiv', 'tril', 'triu', 'sin', 'cos', 'tanh', 'log1p', 'expm1', 'rsqrt', 'square', 'reciprocal',
        'clamp_min', 'clamp_max', 'fmod', 'remainder', 'ceil', 'trunc', 'sign', 'logical_not', 'logical_and', 'logical_or', 'eq', 'ne', 'lt', 'le', 'gt',
        'ge', 'true_divide', 'floor_divide', 'multiply', 'divide', 'subtract', 'negative', 'logit', 'lgamma', 'exp2', 'log2', 'softplus', 'cumsum'} & set(OPS)


def ten_attr(it, t, name):
    if name == 'shape':
        return shape_tuple(t)
    if name == 'ndim':
        return t.dim
    if name == 'size' and t.np:
        return norm(prod(t.shape))
    if name == 'dtype':
        return ExtVal('dtype', (t.dtype,))
    if name == 'device':
        return ExtVal('torch.device')
    if name == 'data':
        return cut(it, Ten(t.axes, t.body, t.dtype, False, t.store))
    if name == 'requires_grad':
        return t.grad
    if name == 'T':
        return permute(t, list(reversed(range(t.dim))))
    if name == 'mT' and t.dim >= 2:
        return permute(t, list(range(t.dim - 2)) + [t.dim - 1, t.dim - 2])
    if name == 'where':
        return Builtin(name, lambda it, a, k: OPS['where'](it, [a[0], t] + list(a[1:]), k))
    if name == 'is_floating_point':
        return Builtin(name, lambda it, a, k: t.dtype == 'float')
    if name in OPS:
        return Builtin(name, lambda it, a, k: OPS[name](it, [t] + a, k))
    if name == '__setitem__':
        return Builtin(name, lambda it, a, k: it.setitem(t, a[0], a[1]))
    if name == '__getitem__':
        return Builtin(name, lambda it, a, k: it.subscript(t, a[0]))
    if inplace_name(name):
        return Builtin(name, lambda it, a, k: modify(it, t, name, a, k))
    if name == 'grad':
        return ExtVal('grad', (t,))
    if name == '__class__':
        return Ext('torch.Tensor')
    if name in KNOWN_TEN_ATTRS:
        raise Unk(f'Tensor.{name}')
    import_torch_names()
    it.raise_('AttributeError', f"'Tensor' object has no attribute '{name}'") if name not in EXTRA_NAMES else None
    raise Unk(f'Tensor.{name}')


EXTRA_NAMES = set()


def import_torch_names():
    """names of torch.Tensor read from the installed stub file (source text only)"""
    if EXTRA_NAMES:
        return
    import glob
    import re
    for p in glob.glob('/opt/venv/lib/python3*/site-packages/torch/_C/__init__.pyi') + \
            glob.glob('/opt/venv/lib/python3*/site-packages/torch/_tensor.py'):
        try:
            for m in re.finditer(r'^    def (\w+)\(', open(p, errors='ignore').read(), re.M):
                EXTRA_NAMES.add(m.group(1))
        except OSError:
            pass
    EXTRA_NAMES.add('__none__')


def ten_setattr(it, t, name, v):
    if name == 'data':
        it.effects.append(dict(kind='setdata', tag=t.store.tag, ten=t, value=v, where=it.loc()))
        if isinstance(v, Ten):
            t.axes, t.body, t.dtype, t.store, t.stale = list(v.axes), v.body, v.dtype, v.store, False
            t.store.views.append(t)
        else:
            t.stale = True
        return
    if name == 'requires_grad':
        t.grad = bool(v)
        t.requires_grad = bool(v)
        return
    if name == 'grad':
        return
    if name == 'shape':
        raise Unk('set shape')


def known_sort(it, items, k):
    """sorted() of items whose order is known"""
    key = k.get('key')

    def plain(x):
        if isinstance(x, NpInt):
            return int(x)
        if isinstance(x, T):
            x = norm(x)
        if isinstance(x, Ten) and x.dim == 0:
            x = norm(x.body)
        if isinstance(x, (tuple, list)):
            return tuple(plain(y) for y in x)
        if not isinstance(x, (int, float, str, Fraction)):
            raise Unk('order of unknown values')
        return x
    ks = [plain(x if key is None else it.call(key, [x], {})) for x in items]
    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(it.truth(k.get('reverse', False))))
    return [items[i] for i in order]


def list_attr(it, o, name):
    def m(f):
        return Builtin(name, f)
    if name == 'append':
        return m(lambda it, a, k: o.append(a[0]))
    if name == 'extend':
        def ext(it, a, k):
            s = it.iterate(a[0])
            if s is None:
                raise Unk('extend unknown')
            o.extend(s)
        return m(ext)
    if name == 'insert':
        return m(lambda it, a, k: o.insert(a[0], a[1]))
    if name == 'pop':
        def pop(it, a, k):
            if not o:
                it.raise_('IndexError', 'pop from empty list')
            return o.pop(*a)
        return m(pop)
    if name in ('reverse', 'clear', 'copy'):
        return m(lambda it, a, k: getattr(o, name)())
    if name == 'index':
        def idx(it, a, k):
            for i, x in enumerate(o):
                if x is a[0] or it.eq(x, a[0]) is True:
                    return i
            it.raise_('ValueError', 'not in list')
        return m(idx)
    if name == 'remove':
        return m(lambda it, a, k: o.remove(a[0]))
    if name == 'sort':
        def srt(it, a, k):
            o[:] = known_sort(it, o, k)
        return m(srt)
    if name == 'count':
        return m(lambda it, a, k: sum(1 for x in o if x is a[0] or it.eq(x, a[0]) is True))
    it.raise_('AttributeError', f"'list' object has no attribute '{name}'")


class DictView(list):
    """keys or items of a dict"""


def dict_attr(it, o, name):
    def m(f):
        return Builtin(name, f)
    if name == 'items':
        return m(lambda it, a, k: DictView((x, y) for x, y in o.items()))
    if name == 'keys':
        return m(lambda it, a, k: DictView(o.keys()))
    if name == 'values':
        return m(lambda it, a, k: list(o.values()))
    if name == 'get':
        return m(lambda it, a, k: o.get(a[0], a[1] if len(a) > 1 else k.get('default')))
    if name == 'pop':
        def pop(it, a, k):
            if a[0] not in o and len(a) < 2:
                it.raise_('KeyError', repr(a[0]))
            return o.pop(a[0], a[1] if len(a) > 1 else None)
        return m(pop)
    if name == 'clear':
        return m(lambda it, a, k: o.clear())
    if name == 'copy':
        return m(lambda it, a, k: dict(o))
    if name == 'update':
        def up(it, a, k):
            if a:
                if not isinstance(a[0], dict):
                    raise Unk('dict.update')
                o.update(a[0])
            o.update(k)
        return m(up)
    if name == 'setdefault':
        return m(lambda it, a, k: o.setdefault(a[0], a[1] if len(a) > 1 else None))
    it.raise_('AttributeError', f"'dict' object has no attribute '{name}'")


def ext_attr(it, o, name):
    p = f'{o.path}.{name}'
    C = {'numpy.inf': INF, 'numpy.Inf': INF, 'numpy.NINF': -INF, 'numpy.nan': NAN, 'torch.nan': NAN, 'torch.inf': INF, 'math.inf': INF, 'math.nan': NAN,
         'numpy.newaxis': None, 'math.pi': 3.141592653589793, 'numpy.pi': 3.141592653589793, 'torch.pi': 3.141592653589793,
         'numpy.__name__': 'numpy', 'torch.__name__': 'torch', 'torch.__version__': '2.15.0', 'numpy.NaN': NAN, 'math.e': 2.718281828459045}
    if p in C:
        return C[p]
    if o.path == 'numpy' and name in ('int', 'float', 'bool', 'object', 'str', 'complex'):
        it.raise_('AttributeError', f"module 'numpy' has no attribute '{name}'")
    if name == '__name__':
        return o.path.split('.')[-1]
    if name == '__module__':
        if o.path.startswith('numpy.'):
            return 'numpy'
        if o.path.startswith('torch.'):
            return 'torch'
        return 'builtins'
    if name == '__version__':
        return ExtVal(p)
    return Ext(p)


# ================================================================ external calls
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext('fast_pytorch_kmeans.KMeans')
def _(it, a, k):
    """the external clustering: its outcome is chosen by the analysis (it.kmeans), its arguments are recorded"""
    cls = Cls('KMeans', None, None)
    o = Obj(cls)
    out = it.kmeans or {}
    nth = out['made'] = out.get('made', -1) + 1
    out.setdefault('args', []).append(dict(k))

    def fit(it, a, k):
        if 'fit' not in out:
            raise Unk('clustering')
        x = a[0]
        out.setdefault('fitted', []).append(x)
        o.attrs['centroids'] = mk([lift(out['K']), x.shape[1]], lambda v: el('centroid', *v))
        r = cast(it, as_ten(it, list(out['fit'])), 'long')
        same_size(it, r.shape[0], x.shape[0], 'rows to cluster')
        return r

    def sim(it, a, k):
        x, b = bind(it, 'max_sim', a, k, 'a', 'b')
        if 'sim' not in out:
            raise Unk('clustering')
        out.setdefault('compared', []).append((x, b))
        r = cast(it, as_ten(it, list(out['sims'][nth % len(out['sims'])] if out.get('sims') else out['sim'])), 'long')
        same_size(it, r.shape[0], x.shape[0], 'rows to assign')
        return (Unknown('similarity'), r)
    cls.attrs['fit_predict'] = cls.attrs['fit'] = Builtin('fit_predict', fit)
    cls.attrs['max_sim'] = Builtin('max_sim', sim)

    def pred(it, a, k):
        if 'centroids' not in o.attrs:
            it.raise_('RuntimeError', 'predict of a clustering that was never fitted')
        return sim(it, [a[0], o.attrs['centroids']], {})[1]
    cls.attrs['predict'] = Builtin('predict', pred)
    return o


@ext('torch.distributions.utils.probs_to_logits')
def _(it, a, k):
    p, b = bind(it, 'probs_to_logits', a, k, 'probs', ('is_binary', False))
    return elementwise(it, (lambda x: tm.fn('logit', x)) if b else tm.log, [as_ten(it, p)], 'float')


@ext('torch.distributions.utils.logits_to_probs')
def _(it, a, k):
    p, b = bind(it, 'logits_to_probs', a, k, 'logits', ('is_binary', False))
    return elementwise(it, lambda x: tm.fn('sigmoid', x), [as_ten(it, p)], 'float') if b else softmax(it, as_ten(it, p), -1)


def call_ext(it, path, args, kwargs):
    h = EXT.get(path)
    if h is not None:
        return h(it, args, kwargs)
    if kwargs.get('out') is not None and path.startswith(('torch.', 'numpy.')):
        o = kwargs['out']
        spoil(it, *(o if isinstance(o, (tuple, list)) else [o]))
        raise Unk(f'{path}(out=)')
    if inplace_name(path.split('.')[-1]) and path.startswith('torch.') and args and isinstance(args[0], Ten) and path.split('.')[-1] not in OPS:
        return modify(it, args[0], path.split('.')[-1], args[1:], kwargs) if path.count('.') == 1 else (spoil(it, args[0]), ExtVal(path, tuple(args), kwargs))[1]
    if path.startswith(('builtins.str.', 'builtins.list.', 'builtins.dict.', 'builtins.set.', 'builtins.tuple.')) and path.count('.') == 2 and args:
        return it.call(it.getattr(args[0], path.split('.')[-1]), args[1:], kwargs)
    last = path.split('.')[-1]
    if path.startswith(('numpy.random.', 'random.')) and last not in ('get_state', 'getstate', 'set_state', 'setstate'):
        it.draw_id('numpy' if path.startswith('numpy') else 'python')
        return ExtVal(path, tuple(args), kwargs)
    if path.startswith(('torch.distributions.', 'distributions.')) and last in DISTS:
        return mk_dist(it, last, args, kwargs)
    if path.startswith('torch.nn.functional.') or path.startswith('torch.special.') or path.startswith('torch.Tensor.') or \
            (path.startswith('torch.') and path.count('.') == 1):
        if last in CONS:
            return CONS[last](it, args, kwargs)
        if last in OPS:
            a, k = args, dict(kwargs)
            if not a and last not in ('trapezoid', 'trapz', 'searchsorted', 'bucketize'):
                for q in ('input', 'self', 'x', 'tensor', 'condition'):
                    if q in k:
                        a = [k.pop(q)]
                        break
            if a and isinstance(a[0], Unknown):
                raise Unk(a[0].why)
            return OPS[last](it, a, k)
        if last in DTYPES or path in ('torch.device',):
            return ExtVal(path, tuple(args), kwargs)
        return ExtVal(path, tuple(args), kwargs)
    if path.startswith('numpy.') and path.count('.') == 1:
        if any(isinstance(a, (Ten, T)) for a in args) or last in ('zeros', 'ones', 'arange', 'full', 'empty', 'array', 'asarray', 'zeros_like', 'ones_like', 'linspace', 'concatenate', 'eye', 'cumsum', 'sum', 'stack'):
            r = None
            if last in CONS and not (last == 'array' and not np_ok(args)):
                r = CONS[last](it, args, kwargs)
            elif last in OPS:
                r = OPS[last](it, args, {k: v for k, v in kwargs.items() if k != 'dtype'})
            if isinstance(r, Ten):
                r.np = True
            if r is not None:
                return r
        if all(isinstance(a, (int, float, list, tuple)) for a in args) and not kwargs and args:
            r = np_const(it, last, args)
            if r is not MISSING:
                return r
        return ExtVal(path, tuple(args), kwargs)
    if path.startswith('math.'):
        if any(isinstance(a, T) for a in args):
            if last in OPS:
                return OPS[last](it, args, kwargs)
            raise Unk(path)
        import math
        if all(isinstance(a, (int, float)) for a in args) and hasattr(math, last):
            try:
                return getattr(math, last)(*args)
            except ValueError as e:
                it.raise_('ValueError', str(e))
    if path.startswith('builtins.'):
        b = builtin(it, last)
        if b is not MISSING and not isinstance(b, Ext):
            return it.call(b, args, kwargs)
    return ExtVal(path, tuple(args), kwargs)


def np_ok(args):
    return True


def np_const(it, name, args):
    import math
    a = args[0]
    if len(args) > 1 and name in ('round', 'log', 'ceil', 'floor', 'sqrt', 'exp', 'abs', 'log2'):
        return MISSING
    if name == 'log2' and isinstance(a, int) and a > 0 and a & (a - 1) == 0:
        return float(a.bit_length() - 1)
    F = {'ceil': lambda x: float(math.ceil(x)), 'floor': lambda x: float(math.floor(x)), 'log': lambda x: math.log(x) if x > 0 else -math.inf,
         'sqrt': math.sqrt, 'log2': math.log2, 'exp': math.exp, 'abs': abs, 'round': round}
    if name in ('log', 'sqrt', 'log2', 'exp') and isinstance(a, (int, float)):
        # keep symbolic for exactness
        return OPS[name](it, [a], {})
    if name in F and isinstance(a, (int, float)):
        return F[name](a)
    if name in ('prod', 'product') and isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = binop(it, 'Mult', r, x)
        return r
    if name in ('max', 'min') and isinstance(a, (list, tuple)) and all(isinstance(x, (int, float)) for x in a):
        return max(a) if name == 'max' else min(a)
    return MISSING


@ext('numpy.arange')
def _(it, a, k):
    k = dict(k)
    if len(a) == 1 and 'stop' not in k:
        st, en, sp = 0, a[0], 1
    else:
        st, en, sp = bind(it, 'arange', a, {q: v for q, v in k.items() if q != 'dtype'}, ('start', 0), ('stop', None), ('step', 1))
    if all(isinstance(x, int) for x in (st, en, sp)):
        return NpArr(NpInt(i) for i in range(st, en, sp))
    r = CONS['arange'](it, [st, en, sp], {})
    r.np = True
    return r


@ext('numpy.prod')
def _(it, a, k):
    if isinstance(a[0], Ten):
        return OPS['prod'](it, a, k)
    seq = it.iterate(a[0])
    if seq is None:
        return ExtVal('numpy.prod', tuple(a), k)
    r = 1
    for x in seq:
        r = binop(it, 'Mult', r, x)
    return r


@ext('numpy.random.shuffle')
def _(it, a, k):
    x = a[0]
    d = it.draw_id('numpy')
    if isinstance(x, list):
        return None
    n = x.shape[0].cint
    if n is None or x.dim != 1:
        raise Unk('shuffle')
    vals = [x.at([lift(i)]) for i in range(n)]
    tot = ZERO
    for v in vals:
        tot = tot + v
    if all(v is vals[0] for v in vals):
        return None
    lo = None
    new = []
    acc = ZERO
    for i in range(n - 1):
        s = tm.sym(f'shuf{d}_{i}', 0, True)
        new.append(s)
        acc = acc + s
    new.append(tot - acc)
    for s in new:
        pass
    it.effects.append(dict(kind='shuffle', vals=vals, new=new))
    mutate(it, x, pick(None, new, x.vars()[0]))
    return None


EXT['numpy.random.permutation'] = lambda it, a, k: rand_perm(it, size(a[0]), 'numpy') if not isinstance(a[0], Ten) else (_ for _ in ()).throw(Unk('permutation of array'))
for _n, _kd in (('numpy.random.rand', 'rand'), ('numpy.random.randn', 'randn'), ('numpy.random.random', 'rand'), ('numpy.random.random_sample', 'rand'), ('numpy.random.sample', 'rand'),
                ('numpy.random.standard_normal', 'randn')):
    EXT[_n] = rnd(_kd, 'float', 'numpy')


@ext('numpy.random.seed')
def _(it, a, k):
    it.rng.append(('numpy', 'seed', a[0] if a else None, it.loc()))


@ext('numpy.random.choice', 'numpy.random.randint', 'numpy.random.uniform', 'numpy.random.normal', 'numpy.random.binomial', 'numpy.random.RandomState', 'numpy.random.default_rng')
def _(it, a, k):
    it.draw_id('numpy')
    return ExtVal('numpy.random', tuple(a), k)


for _n in ('random', 'randint', 'choice', 'shuffle', 'uniform', 'gauss', 'sample', 'randrange', 'normalvariate', 'choices', 'getrandbits'):
    EXT['random.' + _n] = lambda it, a, k, n=_n: (it.draw_id('python'), ExtVal('random.' + n, tuple(a), k))[1]


@ext('random.seed')
def _(it, a, k):
    it.rng.append(('python', 'seed', a[0] if a else None, it.loc()))


@ext('torch.get_rng_state', 'torch.random.get_rng_state')
def _(it, a, k):
    return ExtVal('rngstate', (it.rngstate,))


@ext('torch.set_rng_state', 'torch.random.set_rng_state')
def _(it, a, k):
    v = a[0] if a else k.get('new_state')
    it.rngstate = v.args[0] if isinstance(v, ExtVal) and v.path == 'rngstate' else f'set({v!r})'
    it.rng.append(('torch', 'set', it.rngstate, it.loc()))


@ext('torch.manual_seed', 'torch.random.manual_seed')
def _(it, a, k):
    v = a[0] if a else k.get('seed')
    it.rngstate = f'seed({v!r})'
    it.rng.append(('torch', 'seed', v, it.loc()))
    return ExtVal('torch.Generator')


@ext('torch.seed')
def _(it, a, k):
    it.rngstate = 'seed(nondet)'
    it.rng.append(('torch', 'seed', 'nondet', it.loc()))
    return ExtVal('seed')


@ext('torch.initial_seed')
def _(it, a, k):
    return ExtVal('initial_seed')


@ext('torch.cuda.is_available')
def _(it, a, k):
    return False


@ext('torch.cuda.manual_seed', 'torch.cuda.manual_seed_all')
def _(it, a, k):
    return None


@ext('torch.random.fork_rng')
def _(it, a, k):
    return CtxVal('forkrng')


@ext('torch.no_grad', 'torch.inference_mode')
def _(it, a, k):
    return CtxVal('nograd')


@ext('torch.set_grad_enabled')
def _(it, a, k):
    return CtxVal('nograd' if not it.truth(a[0]) else 'null')


@ext('torch.enable_grad')
def _(it, a, k):
    return CtxVal('gradon')


@ext('contextlib.nullcontext')
def _(it, a, k):
    v = a[0] if a else k.get('enter_result')
    return CtxVal('value', v) if v is not None else CtxVal('null')


@ext('torch.is_grad_enabled')
def _(it, a, k):
    return it.nograd == 0


EXT['torch.nn.Parameter'] = mk_param
EXT['torch.nn.parameter.Parameter'] = mk_param


def _modlist(cname):
    def h(it, a, k):
        o = builtin_module(it, cname)
        if cname == 'ModuleDict':
            if a:
                for kk, v in (a[0].items() if isinstance(a[0], dict) else a[0]):
                    o.mods[kk] = v
            return o
        seq = []
        if cname == 'ModuleList':
            if a:
                seq = it.iterate(a[0])
                if seq is None:
                    raise Unk('ModuleList of unknown')
        else:
            seq = a
        for i, m in enumerate(seq):
            o.mods[str(i)] = m
        return o
    return h


for _n in ('ModuleList', 'Sequential', 'ModuleDict'):
    EXT[f'torch.nn.{_n}'] = _modlist(_n)
for _n in ('Linear', 'SiLU', 'ReLU', 'Conv2d', 'LayerNorm', 'BatchNorm1d', 'NLLLoss', 'CrossEntropyLoss', 'Dropout', 'Embedding', 'Softmax', 'LogSoftmax', 'Sigmoid', 'Tanh', 'Identity', 'MSELoss', 'BCELoss', 'Flatten'):
    def _mh(it, a, k, n=_n):
        o = builtin_module(it, n)
        o.attrs['args'] = tuple(a)
        o.attrs['kwargs'] = k
        return o
    EXT[f'torch.nn.{_n}'] = _mh


@ext('logging.getLogger')
def _(it, a, k):
    return ExtVal('logger')


@ext('dataclasses.field')
def _(it, a, k):
    return ExtVal('dataclasses.field', tuple(a), k)


@ext('collections.OrderedDict')
def _(it, a, k):
    if len(a) > 1 or a and not isinstance(a[0], (dict, list, tuple)):
        raise Unk('OrderedDict')
    return dict(dict(a[0]) if a else {}, **k)


@ext('collections.defaultdict')
def _(it, a, k):
    d = DefaultDict(*a[1:], **k)
    d.factory = a[0] if a else None
    return d


@ext('tqdm.tqdm', 'tqdm.auto.tqdm')
def _(it, a, k):
    return a[0]


@ext('operator.xor')
def _(it, a, k):
    return binop(it, 'BitXor', a[0], a[1])


@ext('math.prod')
def _(it, a, k):
    return EXT['numpy.prod'](it, a, k)


def call_extval(it, f, args, kwargs):
    if f.path == 'getattr' and isinstance(f.args[0], ExtVal) and f.args[0].path == 'logger':
        return None
    return ExtVal('call', (f,) + tuple(args), kwargs)


# ================================================================ operators
PYOP = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
        'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
        'LShift': operator.lshift, 'RShift': operator.rshift}


def nparr(it, v):
    t = as_ten(it, list(v)) if len(v) else mk([ZERO], lambda vs: ZERO, 'long')
    t.np = True
    return t


def binop(it, op, a, b):
    if isinstance(a, NpArr):
        a = nparr(it, a)
    if isinstance(b, NpArr):
        b = nparr(it, b)
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return Unknown(a.why if isinstance(a, Unknown) else b.why)
    if isinstance(a, EnumMember):
        a = a.value
    if isinstance(b, EnumMember):
        b = b.value
    num_ = (int, float, bool)
    if isinstance(a, num_) and isinstance(b, num_):
        if op == 'Div' and b == 0 or op in ('FloorDiv', 'Mod') and b == 0:
            it.raise_('ZeroDivisionError', 'division by zero')
        try:
            if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, bool) and isinstance(b, bool):
                return PYOP[op](a, b)
            if op == 'Div' and isinstance(a, (int,)) and isinstance(b, int):
                q = Fraction(a, b)
                r = a / b
                return r if Fraction(r) == q else FFloat(r, q)
            r = PYOP[op](a, b)
        except (OverflowError, ValueError, TypeError) as e:
            it.raise_(type(e).__name__, str(e))
        if isinstance(r, int) and not isinstance(r, bool) and (isinstance(a, NpInt) or isinstance(b, NpInt)):
            return NpInt(r)
        return r
    if isinstance(a, str) and op == 'Mod':
        if all(isinstance(x, (str, int, float)) for x in (b if isinstance(b, tuple) else (b,))):
            try:
                return a % b
            except (TypeError, ValueError) as e:
                it.raise_(type(e).__name__, str(e))
        return ExtVal('str.format', (a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == 'Add':
        if isinstance(a, list) != isinstance(b, list):
            it.raise_('TypeError', 'can only concatenate list/tuple')
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, int) and op == 'Mult':
        return a * b
    if isinstance(a, list) and isinstance(b, T) and op == 'Mult' and len(a) == 1:
        n, v = newvar(b)
        return SymList([(n, b)], a[0])
    if isinstance(b, (list, tuple)) and isinstance(a, int) and op == 'Mult':
        return b * a
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        return a + b
    if isinstance(a, dict) and isinstance(b, dict) and op == 'BitOr':
        return {**a, **b}
    if isinstance(a, (DictView, set, frozenset)) and isinstance(b, (DictView, set, frozenset)) and op in ('BitAnd', 'BitOr', 'BitXor', 'Sub'):
        return PYOP[op](set(a) if isinstance(a, list) else a, set(b) if isinstance(b, list) else b)
    if op == 'BitOr' and all(x is None or isinstance(x, (Cls, tuple)) or isinstance(x, Ext) for x in (a, b)) and (isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext))):
        flat = lambda x: x if isinstance(x, tuple) else (Ext('builtins.NoneType') if x is None else x,)
        return flat(a) + flat(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        D = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, Obj) and op in D:
                f = it.find_attr(x.cls, f'__{pre}{D[op]}__')
                if f is not MISSING:
                    return it.call(Bound(f, x), [y], {})
        it.raise_('TypeError', f'unsupported operand type(s) for {op}')
    if isinstance(a, ExtVal) or isinstance(b, ExtVal) or isinstance(a, Ext) or isinstance(b, Ext):
        return ExtVal('op.' + op, (a, b))
    if a is None or b is None:
        it.raise_('TypeError', f"unsupported operand type(s) for {op}: NoneType")
    if isinstance(a, (list, tuple)) and isinstance(b, Ten):
        a = as_ten(it, a)
    if isinstance(b, (list, tuple)) and isinstance(a, Ten):
        b = as_ten(it, b)
    if isinstance(a, (str, dict, set)) or isinstance(b, (str, dict, set)):
        it.raise_('TypeError', f'unsupported operand type(s) for {op}')
    tens = [x for x in (a, b) if is_ten(x)]
    if op == 'Add':
        f, dt = (lambda x, y: x + y), None
    elif op == 'Sub':
        f, dt = (lambda x, y: x - y), None
    elif op == 'Mult':
        f, dt = (lambda x, y: x * y), None
    elif op == 'Div':
        f, dt = tm.div, 'float'
    elif op == 'FloorDiv':
        f, dt = tm.fdiv, None
    elif op == 'Mod':
        f, dt = tm.mod, None
    elif op == 'Pow':
        def f(x, y):
            c = y.const
            if c is not None:
                return tm.tpow(x, c)
            if x.const is not None and x.const > 0:
                return tm.fn('pow', x, y)
            return tm.fn('pow', x, y)
        dt = None
    elif op in ('BitAnd', 'BitOr', 'BitXor'):
        g = {'BitAnd': lambda x, y: x * y, 'BitOr': tm.tor, 'BitXor': lambda x, y: x + y - x * y * 2}[op]
        if tens:
            if not all(x.dtype == 'bool' for x in tens if isinstance(x, Ten)):
                raise Unk('bitwise on ints')
            return elementwise(it, g, [a, b], 'bool')
        ta, tb = scal(a), scal(b)
        if all(x.bool for x in ta.atoms() + tb.atoms()):
            return norm(g(ta, tb))
        raise Unk('bitwise on symbolic ints')
    elif op == 'MatMult':
        return OPS['matmul'](it, [a, b], {})
    else:
        raise Unk(f'operator {op}')
    return elementwise(it, f, [a, b], dt)


class FFloat(float):
    """float with exact rational value"""

    def __new__(cls, v, q):
        o = float.__new__(cls, v)
        o.q = q
        return o


_lift0 = tm.lift


def lift(x):
    if isinstance(x, FFloat):
        return _lift0(x.q)
    if isinstance(x, NpInt):
        return _lift0(int(x))
    return _lift0(x)


tm.lift = lift


def is_concrete(x):
    return isinstance(x, (int, float, str, bool, type(None)))


def compare(it, op, a, b):
    if op not in ('Is', 'IsNot', 'In', 'NotIn'):
        a, b = (nparr(it, v) if isinstance(v, NpArr) else v for v in (a, b))
    if op in ('Is', 'IsNot'):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if (a is None or b is None):
                return Unknown('is None of unknown')
            return Unknown('is')
        if isinstance(a, ExtVal) and b is None and a.attrs.get('__maybe_none__'):
            return Unknown('maybe none')
        same = a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path) or \
            (isinstance(a, (bool, int, str)) and type(a) == type(b) and a == b)
        return same if op == 'Is' else not same
    if op in ('In', 'NotIn'):
        r = contains(it, a, b)
        if isinstance(r, (Unknown, T)):
            return r if op == 'In' else (ONE - r if isinstance(r, T) else r)
        return r if op == 'In' else not r
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return Unknown('compare')
    if isint_enum(a):
        a = a.value
    if isint_enum(b):
        b = b.value
    if isinstance(a, DictView) or isinstance(b, DictView):
        if all(isinstance(x, (DictView, set, frozenset)) for x in (a, b)):
            a, b = set(a), set(b)
        elif op in ('Eq', 'NotEq') and (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return op == 'NotEq'
    if isinstance(a, EnumMember) and isinstance(b, EnumMember):
        if op == 'Eq':
            return a is b
        if op == 'NotEq':
            return a is not b
    if isinstance(a, EnumMember) or isinstance(b, EnumMember):
        e, o = (a, b) if isinstance(a, EnumMember) else (b, a)
        isstr = any(isinstance(c, Ext) and c.path.endswith('str') for c in e.cls.mro)
        if isinstance(o, (ExtVal,)):
            return Unknown('enum compare')
        r = isstr and e.value == o
        return r if op == 'Eq' else not r if op == 'NotEq' else Unknown('enum order')
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ('Eq', 'NotEq'):
        if len(a) != len(b):
            return op == 'NotEq'
        if type(a) != type(b) and not (isinstance(a, tuple) and isinstance(b, tuple)):
            return op == 'NotEq'
        acc = ONE
        for x, y in zip(a, b):
            r = compare(it, 'Eq', x, y)
            if isinstance(r, T):
                if generic_differs(scal(x), scal(y)):
                    rr = it.apply_facts(r)
                    if rr.const is None:
                        return op == 'NotEq'
                    r = rr
                acc = acc * r
            elif isinstance(r, Unknown):
                return r
            elif not it.truth(r):
                return op == 'NotEq'
        acc = norm(acc)
        if isinstance(acc, int):
            return bool(acc) if op == 'Eq' else not acc
        return acc if op == 'Eq' else ONE - acc
    if is_ten(a) or is_ten(b):
        if a is None or b is None or isinstance(a, (str, Cls)) or isinstance(b, (str, Cls)):
            return {'Eq': False, 'NotEq': True}.get(op, Unknown('cmp'))
        F = {'Eq': _teq, 'NotEq': lambda x, y: ONE - _teq(x, y), 'Lt': tm.lt, 'Gt': lambda x, y: tm.lt(y, x),
             'LtE': lambda x, y: tm.ge0(y - x), 'GtE': lambda x, y: tm.ge0(x - y)}
        if isinstance(a, (list, tuple)):
            a = as_ten(it, a)
        if isinstance(b, (list, tuple)):
            b = as_ten(it, b)
        return elementwise(it, F[op], [a, b], 'bool')
    if isinstance(a, T) or isinstance(b, T):
        if not all(isinstance(x, (T, int, float)) for x in (a, b)):
            if op in ('Eq', 'NotEq'):
                return op == 'NotEq' if not isinstance(a, ExtVal) and not isinstance(b, ExtVal) else Unknown('cmp')
            if a is None or b is None:
                it.raise_('TypeError', f"'{op}' not supported with NoneType")
            return Unknown('cmp')
        x, y = scal(a), scal(b)
        r = {'Eq': lambda: _teq(x, y), 'NotEq': lambda: ONE - _teq(x, y), 'Lt': lambda: tm.lt(x, y), 'Gt': lambda: tm.lt(y, x),
             'LtE': lambda: tm.ge0(y - x), 'GtE': lambda: tm.ge0(x - y)}[op]()
        r = it.apply_facts(r)
        return bool(r.const) if r.const is not None else r
    if isinstance(a, ExtVal) or isinstance(b, ExtVal):
        if isinstance(a, ExtVal) and isinstance(b, ExtVal) and a.path == b.path == 'dtype':
            return (a.args == b.args) == (op == 'Eq')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtVal) and x.path == 'dtype' and isinstance(y, Ext):
                return (DTYPES.get(y.path.split('.')[-1]) == x.args[0]) == (op == 'Eq')
        if a is b and op in ('Eq', 'NotEq'):
            return op == 'Eq'
        if op in ('Eq', 'NotEq') and (a is None or b is None):
            return op == 'NotEq'
        return Unknown(f'compare {a!r} {op} {b!r}')
    if op in ('Eq', 'NotEq'):
        for x, y in ((a, b), (b, a)):
            f = it.find_attr(x.cls, '__eq__') if isinstance(x, Obj) else MISSING
            if f is not MISSING:
                r = it.call(it.bind(f, x), [y], {})
                if isinstance(r, (T, Unknown, Ten, ExtVal)):
                    return r if op == 'Eq' else ONE - r if isinstance(r, T) else Unknown('compare')
                r = it.truth(r)
                return r if op == 'Eq' else not r
        if isinstance(a, Obj) and isinstance(b, Obj) and a is not b and a.cls is b.cls and a.cls.dataclass is not None and getattr(a.cls, 'dceq', True):
            fs = [f[0] for f in it.stdlib.dc_fields(a.cls)]
            return compare(it, op, tuple(it.getattr(a, n) for n in fs), tuple(it.getattr(b, n) for n in fs))
        if isinstance(a, (Obj, Cls, Func, Bound)) or isinstance(b, (Obj, Cls, Func, Bound)):
            r = a is b
        else:
            try:
                r = bool(a == b)
            except Exception:
                r = False
        return r if op == 'Eq' else not r
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op])):
            f = it.find_attr(x.cls, {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[o]) if isinstance(x, Obj) else MISSING
            if f is not MISSING:
                return it.call(it.bind(f, x), [y], {})
        raise Unk('order of objects')
    if a is None or b is None:
        it.raise_('TypeError', f"'{op}' not supported between instances of {type(a).__name__} and {type(b).__name__}")
    try:
        return {'Lt': operator.lt, 'Gt': operator.gt, 'LtE': operator.le, 'GtE': operator.ge}[op](a, b)
    except TypeError as e:
        it.raise_('TypeError', str(e))


def contains(it, a, b):
    if isinstance(b, Unknown):
        return Unknown('in')
    if isinstance(b, dict):
        if isinstance(a, (T, Ten, Unknown, ExtVal)):
            if any(x is a for x in b):
                return True
            return Unknown('in dict') if b and not isinstance(a, (T,)) else (Unknown('in dict') if b else False)
        if isinstance(a, EnumMember):
            return a in b or a.value in b
        return a in b
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    if isinstance(b, Cls) and b.enum:
        return any(m is a or m.value == a for m in b.members)
    seq = it.iterate(b)
    if seq is None:
        if isinstance(b, SymSet):
            return tm.fn('inset', tm.sym(b.name, None), scal(a))
        return Unknown('in')
    unk_ = False
    for x in seq:
        r = compare(it, 'Eq', a, x)
        if r is True:
            return True
        if isinstance(r, (Unknown, T)):
            unk_ = True
    return Unknown('in') if unk_ else False


# ================================================================ python builtins
def pytype(it, v):
    if isinstance(v, bool):
        return Ext('builtins.bool')
    if isinstance(v, NpInt):
        return Ext('numpy.int64')
    if isinstance(v, int):
        return Ext('builtins.int')
    if isinstance(v, float):
        return Ext('builtins.float')
    if isinstance(v, T):
        return Ext('builtins.int') if tm.is_int(v) else Ext('builtins.float')
    if isinstance(v, str):
        return Ext('builtins.str')
    if isinstance(v, (list, SymList, SymSet)):
        return Ext('builtins.list')
    if isinstance(v, NT):
        return v.ntcls
    if isinstance(v, tuple):
        return Ext('builtins.tuple')
    if isinstance(v, dict):
        return Ext('builtins.dict')
    if v is None:
        return Ext('builtins.NoneType')
    if isinstance(v, Ten):
        return Ext('numpy.ndarray') if v.np else Ext('torch.Tensor')
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, DistVal):
        return Ext(f'torch.distributions.{v.kind}')
    if isinstance(v, Cls):
        return Ext('builtins.type')
    if isinstance(v, (Func, Builtin, Bound)):
        return Ext('builtins.function')
    if isinstance(v, (set,)):
        return Ext('builtins.set')
    return None


SUB = {('builtins.bool', 'builtins.int'), ('numpy.int64', 'numpy.integer'), ('numpy.int64', 'numpy.number'), ('torch.Tensor', 'torch.Tensor'), ('torch.nn.Parameter', 'torch.Tensor')}


def isint_enum(v):
    return isinstance(v, EnumMember) and any(isinstance(x, Ext) and x.path in ('enum.IntEnum', 'enum.IntFlag', 'builtins.int') for x in v.cls.mro)


def is_inst(it, v, c):
    if isinstance(c, tuple):
        rs = [is_inst(it, v, x) for x in c]
        if True in rs:
            return True
        return Unknown('isinstance') if any(isinstance(r, Unknown) for r in rs) else False
    if isinstance(v, Unknown):
        return Unknown('isinstance')
    if isinstance(v, ExtVal):
        if isinstance(c, Cls):
            return False if v.attrs.get('__ext__', True) and False else Unknown('isinstance of external')
        return Unknown(f'isinstance({v!r}, {c!r})')
    t = pytype(it, v)
    if isinstance(c, Unknown):
        return Unknown('isinstance')
    if isinstance(c, Cls):
        return isinstance(t, Cls) and c in t.mro
    if isinstance(c, Ext):
        if c.path == 'builtins.object':
            return True
        if c.path.startswith(('typing.', 'collections.abc.')) and (v is None or isinstance(v, (int, float, str, list, tuple, dict, set, frozenset))):
            a = getattr(collections.abc, c.path.split('.')[-1], None)
            if a is None:
                return Unknown('isinstance')
            return isinstance(v, a) if not isinstance(v, PyIter) else issubclass(type(iter(())), a)
        if isinstance(v, EnumMember) and c.path == 'builtins.int' and isint_enum(v):
            return True
        if isinstance(t, Cls):
            last = c.path.split('.')[-1]
            return any(isinstance(x, Ext) and (x.path == c.path or x.path.split('.')[-1] == last) for x in t.mro)
        if isinstance(t, Ext):
            if t.path == c.path:
                return True
            if t.path.split('.')[-1] == c.path.split('.')[-1] and t.path.startswith('torch.distributions'):
                return True
            if isinstance(v, Ten) and c.path == 'torch.nn.Parameter':
                return v.isparam
            if (t.path, c.path) in SUB:
                return True
            if isinstance(v, DistVal) and c.path.endswith('.Distribution'):
                return True
            if isinstance(v, Cls) and c.path == 'builtins.type':
                return True
            if isinstance(v, (Func, Bound, Builtin)) and c.path.split('.')[-1] == 'Callable':
                return True
            if c.path.split('.')[-1] in ('Sequence', 'Iterable', 'Sized') and isinstance(v, (list, tuple)):
                return True
            if c.path.split('.')[-1] in ('Number', 'Real') and isinstance(v, (int, float, T)):
                return True
            if c.path.split('.')[-1] in ('Integral',) and (isinstance(v, int) or isinstance(v, T) and tm.is_int(v)):
                return True
        return False
    if isinstance(c, Builtin):
        return Unknown('isinstance builtin')
    return Unknown('isinstance')


def _range(it, a, k):
    if any(isinstance(x, Unknown) for x in a):
        raise Unk('range of unknown')
    v = [norm(scal(x)) if not isinstance(x, (ExtVal,)) else x for x in a]
    if any(isinstance(x, ExtVal) for x in v):
        return ExtVal('range', tuple(a))
    if any(isinstance(x, float) for x in v):
        it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in v):
        try:
            return range(*[int(x) for x in v])
        except (ValueError, TypeError) as e:
            it.raise_(type(e).__name__, str(e))
    lo, hi = (ZERO, scal(v[0])) if len(v) == 1 else (scal(v[0]), scal(v[1]))
    if len(v) == 3 and scal(v[2]).cint != 1:
        raise Unk('symbolic range with step')
    b = Builtin('symrange', None)
    b.lo, b.hi = lo, hi
    return b


def _len(it, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, str, set, range)):
        return len(v)
    if isinstance(v, Ten):
        if v.dim == 0:
            it.raise_('TypeError', 'len() of a 0-d tensor')
        return norm(v.shape[0])
    if isinstance(v, SymSet):
        return v.size
    if isinstance(v, SymList):
        return norm(prod([s for n, s in v.axes]))
    if isinstance(v, Obj):
        s = module_iter(it, v)
        if s is not None:
            return len(s)
        f = it.find_attr(v.cls, '__len__')
        if f is not MISSING:
            return it.call(Bound(f, v), [], {})
    if isinstance(v, Cls) and v.enum:
        return len(v.members)
    if isinstance(v, ExtVal):
        return ExtVal('len', (v,))
    if isinstance(v, Builtin) and v.name == 'symrange':
        return norm(v.hi - v.lo)
    if v is None or isinstance(v, (int, float, T)):
        it.raise_('TypeError', f'object of type {type(v).__name__} has no len()')
    raise Unk(f'len of {v!r}')


def _int(it, a, k):
    v = a[0] if a else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            it.raise_(type(e).__name__, str(e))
    if isinstance(v, str):
        try:
            return int(v, *[x for x in a[1:]])
        except ValueError as e:
            it.raise_('ValueError', str(e))
    if isinstance(v, ExtVal):
        return ExtVal('int', (v,))
    if v is None:
        it.raise_('TypeError', 'int() argument must be a string or a number, not NoneType')
    t = scal(v)
    if tm.is_int(t):
        return norm(t)
    if tm.nonneg(t):
        return norm(tm.fn('floor', t))
    return norm(tm.fn('trunc', t))


def _float(it, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, (int, float)):
        return float(v) if not isinstance(v, FFloat) else v
    if isinstance(v, str):
        try:
            return norm(lift(float(v))) if v.lower() not in ('inf', '-inf', 'nan') else lift(float(v))
        except ValueError as e:
            it.raise_('ValueError', str(e))
    if isinstance(v, ExtVal):
        return ExtVal('float', (v,))
    if v is None:
        it.raise_('TypeError', 'float() argument must be a string or a real number, not NoneType')
    return scal(v)


def _hasattr(it, a, k):
    if isinstance(a[0], Unknown):
        return Unknown('hasattr')
    if isinstance(a[0], ExtVal) and a[1] not in a[0].attrs and not a[0].path.startswith(('torch.', 'numpy.')):
        return Unknown('hasattr')
    r = it.getattr(a[0], a[1], default=_NOATTR)
    return r is not _NOATTR


_NOATTR = object()


def _minmax(o):
    def h(it, a, k):
        seq = it.iterate(a[0]) if len(a) == 1 else a
        if seq is None:
            if len(a) == 1 and isinstance(a[0], Ten):
                return OPS[o](it, a, {})
            raise Unk(o)
        if not seq:
            if 'default' in k:
                return k['default']
            it.raise_('ValueError', f'{o}() arg is an empty sequence')
        if all(isinstance(x, (int, float, str)) for x in seq) and 'key' not in k:
            return (max if o == 'max' else min)(seq)
        if any(isinstance(x, (ExtVal, Unknown)) for x in seq) or 'key' in k:
            return ExtVal(o, tuple(seq))
        r = scal(seq[0])
        for x in seq[1:]:
            r = tm.fn('t' + o, r, scal(x))
        return norm(r)
    return h


def _zip(it, a, k):
    if len({id(x) for x in a if isinstance(x, PyIter)}) < sum(isinstance(x, PyIter) for x in a):
        src = {}
        for x in a:
            if id(x) not in src:
                s = it.iterate(x)
                if s is None:
                    raise Unk('zip of unknown')
                src[id(x)] = iter(s)
        return PyIter(zip(*[src[id(x)] for x in a]))
    seqs = [x.gen if isinstance(x, Endless) else it.iterate(x) for x in a]
    if any(s is None for s in seqs) or a and all(isinstance(x, Endless) for x in a):
        raise Unk('zip of unknown')
    if it.truth(k.get('strict', False)) and len({len(s) for x, s in zip(a, seqs) if not isinstance(x, Endless)}) > 1:
        it.raise_('ValueError', 'zip() arguments have different lengths')
    n = min((len(s) for x, s in zip(a, seqs) if not isinstance(x, Endless)), default=0)
    return PyIter(zip(*[[next(s) for _ in range(n)] if isinstance(x, Endless) else s for x, s in zip(a, seqs)]))


def _list(it, a, k):
    if not a:
        return []
    s = it.iterate(a[0])
    if s is None:
        if isinstance(a[0], (SymList, SymSet)):
            return a[0]
        if isinstance(a[0], Builtin) and a[0].name == 'symrange':
            n, v = newvar(a[0].hi - a[0].lo)
            return SymList([(n, a[0].hi - a[0].lo)], norm(v + a[0].lo))
        return ExtVal('list', tuple(a))
    return s


BUILT = {}


def builtin(it, n):
    if n in BUILT:
        return BUILT[n]
    if n in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'type', 'object', 'bytes', 'complex', 'frozenset'):
        return Ext('builtins.' + n)
    if n == '__file__':
        return 'file'
    if n == 'NotImplemented':
        return ExtVal('NotImplemented')
    import builtins as b
    if hasattr(b, n):
        v = getattr(b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            return Ext('builtins.' + n)
        return Ext('builtins.' + n)
    return MISSING


def _type(it, a, k):
    if len(a) != 1:
        raise Unk('type()')
    t = pytype(it, a[0])
    if t is None:
        if isinstance(a[0], Unknown):
            raise Unk('type of unknown')
        return ExtVal('type', (a[0],))
    return t


def _sum(it, a, k):
    v = a[0]
    if isinstance(v, Ten) and v.dim:
        seq = it.iterate(v)
        if seq is None:
            return reduce(it, 'sum', v, 0)
    elif isinstance(v, SymList):
        t = as_ten(it, v.elem)
        b = tm.red('sum', [(n, s) for n, s in v.axes if n], t.body)
        return norm(b) if t.dim == 0 else Ten(t.axes, b, t.dtype, t.grad)
    else:
        seq = it.iterate(v)
    if seq is None:
        return ExtVal('sum', tuple(a))
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in seq:
        r = binop(it, 'Add', r, x)
    return r


def _issub(it, a, k):
    c, b = a
    if isinstance(b, tuple):
        return any(_issub(it, [c, x], {}) is True for x in b)
    if isinstance(c, Cls):
        return any(x is b or x == b for x in c.mro) if isinstance(b, (Cls, Ext)) else Unknown('issubclass')
    if isinstance(c, Ext) and isinstance(b, (Ext, Cls)):
        if isinstance(b, Ext) and (c.path == b.path or (c.path, b.path) in SUB or b.path == 'builtins.object'):
            return True
        if isinstance(b, Cls) or c.path.startswith('builtins.') and b.path.startswith('builtins.'):
            return False
    return Unknown('issubclass')


def _sorted(it, a, k):
    s = it.iterate(a[0])
    if s is None:
        return ExtVal('sorted', tuple(a), k)
    try:
        return known_sort(it, s, k)
    except Unk:
        return ExtVal('sorted', tuple(a), k)


def _reversed(it, a, k):
    s = it.iterate(a[0])
    if s is None:
        raise Unk('reversed of unknown')
    return PyIter(reversed(s))


def _enumerate(it, a, k):
    s = it.iterate(a[0])
    if s is None:
        raise Unk('enumerate of unknown')
    st = a[1] if len(a) > 1 else k.get('start', 0)
    return PyIter((i + st, x) for i, x in enumerate(s))


def _map(it, a, k):
    seqs = [it.iterate(x) for x in a[1:]]
    if any(s is None for s in seqs):
        raise Unk('map of unknown')
    return PyIter([it.call(a[0], list(xs), {}) for xs in zip(*seqs)])


def _anyall(o):
    def h(it, a, k):
        s = it.iterate(a[0])
        if s is None:
            raise Unk(o)
        rs = [it.truth(x) for x in s]
        return any(rs) if o == 'any' else all(rs)
    return h


def _abs(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    return OPS['abs'](it, a, k)


def _round(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return round(v, *a[1:])
    if isinstance(v, (ExtVal, Unknown)):
        return ExtVal('round', tuple(a))
    return OPS['round'](it, a[:1], {})


class PyIter(list):
    """a python iterator over known elements: reading it consumes it"""


def _iter(it, a, k):
    s = it.iterate(a[0]) if len(a) == 1 else None
    if s is None:
        return a[0]
    return PyIter(s)


def _tee(it, a, k):
    s, n = it.iterate(a[0]), (a[1] if len(a) > 1 else k.get('n', 2))
    if s is None:
        raise Unk('tee of unknown')
    return tuple(PyIter(s) for _ in range(n))


EXT['itertools.tee'] = _tee
EXT['itertools.pairwise'] = lambda it, a, k: (lambda s: PyIter(zip(s, s[1:])))(it.iterate(a[0]))


def _next(it, a, k):
    if isinstance(a[0], Endless):
        return next(a[0].gen)
    if isinstance(a[0], PyIter):
        if a[0]:
            return a[0].pop(0)
        if len(a) > 1:
            return a[1]
        raise PyRaise('StopIteration', '')
    s = it.iterate(a[0])
    if s:
        return s[0]
    return ExtVal('next', tuple(a))


def _dict(it, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            s = it.iterate(a[0])
            if s is None:
                return ExtVal('dict', tuple(a), k)
            for x in s:
                p = it.iterate(x)
                d[p[0]] = p[1]
    d.update(k)
    return d


def _getattr_b(it, a, k):
    if not isinstance(a[1], str):
        return ExtVal('getattr', tuple(a))
    if len(a) > 2:
        return it.getattr(a[0], a[1], default=a[2])
    return it.getattr(a[0], a[1])


def _str(it, a, k):
    if a and isinstance(a[0], (str, int, float, bool)):
        return str(a[0])
    return ExtVal('str', tuple(a))


for _n, _f in dict(range=_range, len=_len, hasattr=_hasattr, zip=_zip, sum=_sum, issubclass=_issub,
                   sorted=_sorted, reversed=_reversed, enumerate=_enumerate, map=_map, abs=_abs, round=_round, next=_next, iter=_iter,
                   getattr=_getattr_b, min=_minmax('min'), max=_minmax('max'), any=_anyall('any'), all=_anyall('all'),
                   isinstance=lambda it, a, k: is_inst(it, a[0], a[1]),
                   setattr=lambda it, a, k: it.setattr(a[0], a[1], a[2]),
                   print=lambda it, a, k: None, repr=lambda it, a, k: ExtVal('repr', tuple(a)),
                   callable=lambda it, a, k: isinstance(a[0], (Func, Bound, Builtin, Cls)),
                   id=lambda it, a, k: id(a[0]),
                   vars=lambda it, a, k: a[0].attrs if isinstance(a[0], Obj) else ExtVal('vars', tuple(a)),
                   pow=lambda it, a, k: binop(it, 'Pow', a[0], a[1]),
                   divmod=lambda it, a, k: (binop(it, 'FloorDiv', a[0], a[1]), binop(it, 'Mod', a[0], a[1])),
                   filter=lambda it, a, k: [x for x in it.iterate(a[1]) if it.truth(it.call(a[0], [x], {}))],
                   ).items():
    BUILT[_n] = Builtin(_n, _f)

EXT.update({'builtins.int': _int, 'builtins.float': _float, 'builtins.list': _list, 'builtins.dict': _dict, 'builtins.type': _type, 'builtins.str': _str,
            'builtins.bool': lambda it, a, k: it.truth(a[0]) if a else False,
            'builtins.tuple': lambda it, a, k: tuple(_list(it, a, k)) if a and isinstance(_list(it, a, k), list) else (),
            'builtins.set': lambda it, a, k: set(it.iterate(a[0]) or ()) if a else set(),
            'builtins.object': lambda it, a, k: ExtVal('object')})
