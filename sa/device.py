"""device domain: every tensor storage carries the device it lives on ('cpu', 'M' = the model's device, None = does not matter).
Active only while a rule sets it.dev = State(); library calls of the program are judged after they were modelled."""
from . import torchmodel as tmod
from .values import *

ANY_INDEX = {'getitem'}
FREE = {'copy_', 'tolist', 'item', 'size', 'dim', 'numel', 'shape', 'data_ptr', 'backward', 'register_hook', 'type', 'astype', 'nelement', 'ndimension',
        'is_tensor', 'is_floating_point', 'set_state', 'load_state_dict', 'manual_seed', 'set_rng_state', 'save', 'Parameter'}
CREATE = {'zeros', 'ones', 'empty', 'full', 'rand', 'randn', 'randint', 'randperm', 'arange', 'range', 'linspace', 'logspace', 'eye', 'Tensor', 'FloatTensor',
          'LongTensor', 'BoolTensor', 'tril_indices', 'triu_indices', 'normal_new', 'scalar_tensor'}
NEWLIKE = {'new_zeros', 'new_ones', 'new_empty', 'new_full', 'new_tensor'}


class State:
    def __init__(self, it):
        self.depth = 0
        self.events = []
        self.checked = 0

    def bad(self, it, op, why):
        w = it.loc()
        if (op, why, w) not in self.events:
            self.events.append((op, why, w))


def collect(v, out, d=0):
    if d > 4:
        return out
    if isinstance(v, Ten):
        out.append(v)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            collect(x, out, d + 1)
    elif isinstance(v, dict):
        for x in v.values():
            collect(x, out, d + 1)
    elif isinstance(v, (Masked, MaskedShape)):
        out += [v.ten, v.mask]
    elif isinstance(v, Slice):
        for x in (v.a, v.b, v.c):
            collect(x, out, d + 1)
    elif isinstance(v, DistVal):
        for x in v.params.values():
            collect(x, out, d + 1)
    return out


def join(ts):
    """device of the result of an elementwise operation, or a conflict"""
    m = [t for t in ts if t.store.dev == 'M']
    c = [t for t in ts if t.store.dev == 'cpu' and not t.np]
    if m and any(t.dim > 0 for t in c):
        return 'M', True
    return ('M' if m else 'cpu' if c else None), False


def dev_of(v):
    """device named by a program value"""
    if isinstance(v, ExtVal) and v.path.startswith('torch.device'):
        if 'dev' in v.attrs:
            return v.attrs['dev']
        a = v.args[0] if v.args else None
        return dev_of(a)
    if isinstance(v, str):
        return 'cpu' if v == 'cpu' else 'M' if v.startswith(('cuda', 'mps')) else None
    if isinstance(v, int) and not isinstance(v, bool):
        return 'M'
    if isinstance(v, Ten):
        return v.store.dev
    return None


def put(r, dev, inputs, force=False):
    ids = {id(t.store) for t in inputs}
    for t in collect(r, []):
        if id(t.store) in ids and not force:
            continue
        if t.store.dev is None and not t.np:
            t.store.dev = dev


def moved(r, dev):
    if not isinstance(r, Ten) or r.store.dev == dev or dev is None:
        return r
    n = Ten(r.axes, r._body, r.dtype, r.grad)
    n.store.dev = dev
    return n


def after(it, D, name, a, k, r):
    D.checked += 1
    ts = collect(a, collect(k, []))
    if name in ('to', 'type_as'):
        cand = [dev_of(x) for x in list(a[1:]) + list(k.values())]
        cand = [x for x in cand if x is not None]
        return moved(r, cand[0]) if cand else r
    if name == 'cpu':
        return moved(r, 'cpu')
    if name == 'cuda':
        return moved(r, 'M')
    if name == 'numpy':
        if isinstance(a[0], Ten) and a[0].store.dev == 'M':
            D.bad(it, name, 'conversion of a tensor on the model\'s device to numpy')
        return r
    if name in NEWLIKE or name.endswith('_like'):
        put(r, dev_of(k['device']) if k.get('device') is not None else (ts[0].store.dev if ts else None), ts)
        return r
    if name in ('tensor', 'as_tensor', 'asarray', 'from_numpy', 'array'):
        if k.get('device') is not None:
            dv = dev_of(k['device'])
            return moved(r, dv) if isinstance(r, Ten) and any(r.store is t.store for t in ts) else (put(r, dv, ts), r)[1]
        put(r, ts[0].store.dev if a and isinstance(a[0], Ten) else 'cpu', ts)
        return r
    if name in CREATE or name in ('normal', 'bernoulli') and not ts:
        put(r, dev_of(k['device']) if k.get('device') is not None else 'cpu', [])
        return r
    if name == 'getitem':
        t, key = a
        kt = collect(key, [])
        if isinstance(t, Ten) and t.store.dev == 'cpu' and any(x.store.dev == 'M' for x in kt):
            D.bad(it, 'indexing', 'a tensor on the cpu is indexed with a tensor on the model\'s device')
        if isinstance(t, Ten):
            put(r, t.store.dev, ts)
        return r
    if name == 'setitem':
        t, key, v = a
        kt = collect(key, [])
        if isinstance(t, Ten):
            dv = t.store.dev
            if dv == 'cpu' and any(x.store.dev == 'M' for x in kt):
                D.bad(it, 'indexed assignment', 'a tensor on the cpu is indexed with a tensor on the model\'s device')
            if kt and isinstance(v, Ten) and v.dim > 0 and {dv, v.store.dev} == {'cpu', 'M'}:
                D.bad(it, 'indexed assignment', f'value on {v.store.dev}, target on {dv}')
        return r
    if name in FREE:
        put(r, ts[0].store.dev if ts else None, ts)
        return r
    dv, bad = join([t for t in ts if not t.np])
    if bad:
        D.bad(it, name, 'operands on different devices')
    put(r, dv, ts)
    return r


def wrap(name, f):
    def g(it, *a):
        D = getattr(it, 'dev', None)
        if D is None or D.depth:
            return f(it, *a)
        D.depth += 1
        try:
            r = f(it, *a)
        finally:
            D.depth -= 1
        aa, kk = (a[0], a[1]) if len(a) == 2 and isinstance(a[0], list) and isinstance(a[1], dict) else (list(a), {})
        return after(it, D, name, aa, kk, r)
    g.__name__ = name
    return g


def install():
    if getattr(tmod, '_dev', False):
        return
    tmod._dev = True
    for tab in (tmod.OPS, tmod.CONS):
        for n in list(tab):
            tab[n] = wrap(n, tab[n])
    for n in ('getitem', 'setitem'):
        setattr(tmod, n, wrap(n, getattr(tmod, n)))
    for n in ('binop', 'compare'):
        def mkf(f, n):
            def g(it, op, x, y):
                D = getattr(it, 'dev', None)
                if D is None or D.depth:
                    return f(it, op, x, y)
                D.depth += 1
                try:
                    r = f(it, op, x, y)
                finally:
                    D.depth -= 1
                return after(it, D, n + ' ' + str(op), [x, y], {}, r)
            return g
        setattr(tmod, n, mkf(getattr(tmod, n), n))
    el0 = tmod.elementwise

    def elementwise(it, f, vals, *a, **k):
        D = getattr(it, 'dev', None)
        if D is None or D.depth:
            return el0(it, f, vals, *a, **k)
        D.depth += 1
        try:
            r = el0(it, f, vals, *a, **k)
        finally:
            D.depth -= 1
        return after(it, D, 'elementwise', list(vals), {}, r)
    tmod.elementwise = elementwise
    c0 = tmod.call_ext

    def call_ext(it, path, args, kwargs):
        D = getattr(it, 'dev', None)
        if D is None or D.depth or not path.startswith(('torch.', 'numpy.')):
            return c0(it, path, args, kwargs)
        D.depth += 1
        try:
            r = c0(it, path, args, kwargs)
        finally:
            D.depth -= 1
        if path.startswith('numpy.'):
            for t in collect(list(args), []):
                if t.store.dev == 'M':
                    D.bad(it, path, 'a tensor on the model\'s device is passed to numpy')
            return r
        if path.startswith('torch.device'):
            return r
        return after(it, D, path.split('.')[-1], list(args), dict(kwargs), r)
    tmod.call_ext = call_ext
    for n in ('dist_sample', 'dist_log_prob'):
        def mkd(f):
            def g(it, d, *a, **k):
                D = getattr(it, 'dev', None)
                if D is None or D.depth:
                    return f(it, d, *a, **k)
                D.depth += 1
                try:
                    r = f(it, d, *a, **k)
                finally:
                    D.depth -= 1
                ps = collect(d, [])
                dv, bad = join(ps + collect(list(a), []))
                if bad:
                    D.bad(it, 'distribution', 'parameters or value on different devices')
                put(r, 'cpu' if not ps else join(ps)[0], [])
                return r
            return g
        setattr(tmod, n, mkd(getattr(tmod, n)))
    ta = tmod.ten_attr

    def ten_attr(it, t, name):
        r = ta(it, t, name)
        D = getattr(it, 'dev', None)
        if D is not None and name == 'device' and isinstance(r, ExtVal):
            r.attrs['dev'] = t.store.dev
        return r
    tmod.ten_attr = ten_attr
    ts = tmod.ten_setattr

    def ten_setattr(it, t, name, v):
        r = ts(it, t, name, v)
        if getattr(it, 'dev', None) is not None and name == 'data' and isinstance(v, Ten):
            t.store.dev = v.store.dev
        return r
    tmod.ten_setattr = ten_setattr


def move(net, seen=None):
    """module.to(device): parameters and buffers of the module tree; nothing else"""
    seen = set() if seen is None else seen
    if id(net) in seen:
        return
    seen.add(id(net))
    for t in list(net.params.values()) + list(net.bufs.values()):
        if isinstance(t, Ten):
            t.store.dev = 'M'
    for m in net.mods.values():
        if isinstance(m, Obj):
            move(m, seen)
