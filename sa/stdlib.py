"""library models for the python standard library idioms a rewrite of the code may use"""
import bisect as _bisect
import builtins as _b
import copy as _copy
import functools as _functools
import itertools as _itertools
import operator as _op
from . import torchmodel as tmod
from .interp import MISSING
from .torchmodel import BUILT, EXT, PyIter, binop, compare
from .values import *
from .terms import T


def seq(it, v, why='iteration of unknown'):
    s = it.iterate(v)
    if s is None:
        raise Unk(why)
    return s


def plainkey(v):
    if isinstance(v, T) and v.const is not None:
        return v.const
    if isinstance(v, (int, float, str, bool, tuple)) or v is None or isinstance(v, EnumMember):
        return v
    raise Unk('key of unknown value')


def ext(*names):
    def reg(f):
        for n in names:
            EXT[n] = f
        return f
    return reg


def fn(name, f):
    return Builtin(name, lambda it, a, k: f(it, a, k))


# ---------------------------------------------------------------- collections
@ext('builtins.dict.fromkeys')
def _(it, a, k):
    return {plainkey(x): (a[1] if len(a) > 1 else None) for x in seq(it, a[0])}


class CounterDict(DefaultDict):
    pass


@ext('collections.Counter')
def _(it, a, k):
    d = CounterDict()
    d.factory = Builtin('int', lambda it, a, k: 0)
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in seq(it, a[0]):
                x = plainkey(x)
                dict.__setitem__(d, x, dict.get(d, x, 0) + 1)
    d.update(k)
    return d


_dict_attr = tmod.dict_attr


def dict_attr(it, o, name):
    if isinstance(o, CounterDict):
        if name == 'most_common':
            def mc(it, a, k):
                s = sorted(o.items(), key=lambda p: -p[1])
                return s[:a[0]] if a and a[0] is not None else s
            return Builtin(name, mc)
        if name == 'total':
            return Builtin(name, lambda it, a, k: sum(o.values()))
        if name == 'elements':
            return Builtin(name, lambda it, a, k: [x for x, n in o.items() for _ in range(n)])
        if name == 'update':
            def up(it, a, k):
                for x in (a[0].items() if isinstance(a[0], dict) else [(plainkey(y), 1) for y in seq(it, a[0])]):
                    dict.__setitem__(o, x[0], dict.get(o, x[0], 0) + x[1])
            return Builtin(name, up)
    if name == 'update':
        def up(it, a, k):
            if a:
                src = a[0] if isinstance(a[0], dict) else dict(tuple(seq(it, p)) for p in seq(it, a[0]))
                o.update(src)
            o.update(k)
        return Builtin(name, up)
    if name == 'popitem':
        return Builtin(name, lambda it, a, k: o.popitem())
    if name == 'move_to_end':
        def mv(it, a, k):
            v = o.pop(a[0])
            o[a[0]] = v
        return Builtin(name, mv)
    if name == 'copy' and isinstance(o, DefaultDict):
        return Builtin(name, lambda it, a, k: _copy.copy(o))
    if name == '__getitem__':
        return Builtin(name, lambda it, a, k: it.subscript(o, a[0]))
    if name == '__contains__':
        return Builtin(name, lambda it, a, k: compare(it, 'In', a[0], o))
    if name == '__len__':
        return Builtin(name, lambda it, a, k: len(o))
    return _dict_attr(it, o, name)


tmod.dict_attr = dict_attr


class DequeList(list):
    maxlen = None


@ext('collections.deque')
def _(it, a, k):
    d = DequeList(seq(it, a[0]) if a else [])
    d.maxlen = a[1] if len(a) > 1 else k.get('maxlen')
    if d.maxlen is not None:
        raise Unk('bounded deque')
    return d


_list_attr = tmod.list_attr


def list_attr(it, o, name):
    if isinstance(o, DequeList):
        if name == 'appendleft':
            return Builtin(name, lambda it, a, k: o.insert(0, a[0]))
        if name == 'popleft':
            def pl(it, a, k):
                if not o:
                    it.raise_('IndexError', 'pop from an empty deque')
                return o.pop(0)
            return Builtin(name, pl)
        if name == 'rotate':
            def rot(it, a, k):
                n = (a[0] if a else 1) % max(len(o), 1)
                o[:] = o[-n:] + o[:-n] if n else list(o)
            return Builtin(name, rot)
        if name == 'extendleft':
            return Builtin(name, lambda it, a, k: o.__setitem__(slice(0, 0), list(reversed(seq(it, a[0])))))
    if name == '__getitem__':
        return Builtin(name, lambda it, a, k: it.subscript(o, a[0]))
    if name == '__len__':
        return Builtin(name, lambda it, a, k: len(o))
    if name == '__contains__':
        return Builtin(name, lambda it, a, k: compare(it, 'In', a[0], o))
    if name == '__setitem__':
        raise Unk('list.__setitem__')
    if name.startswith('__'):
        raise Unk(f'list.{name}')
    return _list_attr(it, o, name)


tmod.list_attr = list_attr


# ---------------------------------------------------------------- itertools
@ext('itertools.chain')
def _(it, a, k):
    return PyIter(x for s in a for x in seq(it, s))


@ext('itertools.chain.from_iterable')
def _(it, a, k):
    return PyIter(x for s in seq(it, a[0]) for x in seq(it, s))


@ext('itertools.accumulate')
def _(it, a, k):
    f = a[1] if len(a) > 1 else k.get('func')
    out = []
    s = seq(it, a[0])
    if k.get('initial') is not None:
        s = [k['initial']] + s
    for x in s:
        out.append(x if not out else (binop(it, 'Add', out[-1], x) if f is None else it.call(f, [out[-1], x], {})))
    return PyIter(out)


@ext('itertools.groupby')
def _(it, a, k):
    f = a[1] if len(a) > 1 else k.get('key')
    out = []
    for x in seq(it, a[0]):
        q = plainkey(x if f is None else it.call(f, [x], {}))
        if out and out[-1][0] == q:
            out[-1][1].append(x)
        else:
            out.append((q, PyIter([x])))
    return PyIter(out)


@ext('itertools.starmap')
def _(it, a, k):
    return PyIter([it.call(a[0], seq(it, x), {}) for x in seq(it, a[1])])


@ext('itertools.zip_longest')
def _(it, a, k):
    return PyIter(_itertools.zip_longest(*[seq(it, x) for x in a], fillvalue=k.get('fillvalue')))


@ext('itertools.product')
def _(it, a, k):
    ss = [seq(it, x) for x in a]
    r = k.get('repeat', 1)
    if not isinstance(r, int) or (n := _functools.reduce(_op.mul, [len(s) for s in ss], 1) ** r) > 4096:
        raise Unk('large product')
    return PyIter(_itertools.product(*ss, repeat=r))


@ext('itertools.permutations')
def _(it, a, k):
    return PyIter(_itertools.permutations(seq(it, a[0]), *a[1:]))


@ext('itertools.combinations')
def _(it, a, k):
    return PyIter(_itertools.combinations(seq(it, a[0]), k.get('r', a[1] if len(a) > 1 else None)))


def endless(g):
    e = Endless()
    e.gen = g
    return e


@ext('itertools.count')
def _(it, a, k):
    s = a[0] if a else k.get('start', 0)
    d = a[1] if len(a) > 1 else k.get('step', 1)
    return endless(_itertools.count(s, d)) if isinstance(s, (int, float)) and isinstance(d, (int, float)) else ExtVal('itertools.count', tuple(a), k)


@ext('itertools.repeat')
def _(it, a, k):
    n = a[1] if len(a) > 1 else k.get('times')
    if n is None:
        return endless(_itertools.repeat(a[0]))
    if not isinstance(n, int):
        raise Unk('repeat')
    return PyIter([a[0]] * n)


@ext('itertools.cycle')
def _(it, a, k):
    return endless(_itertools.cycle(seq(it, a[0])))


@ext('itertools.islice')
def _(it, a, k):
    if any(x is not None and not isinstance(x, int) for x in a[1:]):
        raise Unk('islice')
    if isinstance(a[0], Endless):
        if len(a) == 2 and a[1] is None or len(a) > 2 and a[2] is None:
            raise Unk('endless islice')
        return PyIter(_itertools.islice(a[0].gen, *a[1:]))
    if isinstance(a[0], PyIter):
        n = a[1] if len(a) == 2 else None
        if n is not None:
            out = a[0][:n]
            del a[0][:n]
            return PyIter(out)
    return PyIter(_itertools.islice(seq(it, a[0]), *a[1:]))


@ext('itertools.takewhile')
def _(it, a, k):
    out = []
    for x in seq(it, a[1]):
        if not it.truth(it.call(a[0], [x], {})):
            break
        out.append(x)
    return PyIter(out)


@ext('itertools.dropwhile')
def _(it, a, k):
    s = seq(it, a[1])
    while s and it.truth(it.call(a[0], [s[0]], {})):
        s.pop(0)
    return PyIter(s)


@ext('itertools.filterfalse')
def _(it, a, k):
    return PyIter(x for x in seq(it, a[1]) if not it.truth(x if a[0] is None else it.call(a[0], [x], {})))


@ext('itertools.compress')
def _(it, a, k):
    return PyIter(x for x, s in zip(seq(it, a[0]), seq(it, a[1])) if it.truth(s))


# ---------------------------------------------------------------- functools / operator
@ext('functools.partial')
def _(it, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Builtin('partial', lambda it, b, q: it.call(f, pre + list(b), dict(kw, **q)))


@ext('functools.reduce')
def _(it, a, k):
    s = seq(it, a[1])
    if len(a) > 2:
        s = [a[2]] + s
    if not s:
        it.raise_('TypeError', 'reduce() of empty iterable with no initial value')
    r = s[0]
    for x in s[1:]:
        r = it.call(a[0], [r, x], {})
    return r


for _n, _o in dict(add='Add', sub='Sub', mul='Mult', truediv='Div', floordiv='FloorDiv', mod='Mod', pow='Pow', and_='BitAnd', or_='BitOr', matmul='MatMult',
                   lshift='LShift', rshift='RShift', iadd='Add', imul='Mult').items():
    EXT[f'operator.{_n}'] = lambda it, a, k, _o=_o: binop(it, _o, a[0], a[1])
for _n, _o in dict(eq='Eq', ne='NotEq', lt='Lt', le='LtE', gt='Gt', ge='GtE', is_='Is', is_not='IsNot').items():
    EXT[f'operator.{_n}'] = lambda it, a, k, _o=_o: compare(it, _o, a[0], a[1])
EXT['operator.contains'] = lambda it, a, k: compare(it, 'In', a[1], a[0])
EXT['operator.getitem'] = lambda it, a, k: it.subscript(a[0], a[1])
EXT['operator.neg'] = lambda it, a, k: binop(it, 'Mult', a[0], -1)
EXT['operator.not_'] = lambda it, a, k: not it.truth(a[0])
EXT['operator.truth'] = lambda it, a, k: it.truth(a[0])


@ext('operator.itemgetter')
def _(it, a, k):
    idx = list(a)
    return Builtin('itemgetter', lambda it, b, q: it.subscript(b[0], idx[0]) if len(idx) == 1 else tuple(it.subscript(b[0], i) for i in idx))


def _attrs(it, o, n):
    for p in n.split('.'):
        o = it.getattr(o, p)
    return o


@ext('operator.attrgetter')
def _(it, a, k):
    ns = list(a)
    return Builtin('attrgetter', lambda it, b, q: _attrs(it, b[0], ns[0]) if len(ns) == 1 else tuple(_attrs(it, b[0], n) for n in ns))


@ext('operator.methodcaller')
def _(it, a, k):
    n, pre, kw = a[0], list(a[1:]), dict(k)
    return Builtin('methodcaller', lambda it, b, q: it.call(it.getattr(b[0], n), pre, kw))


@ext('typing.cast')
def _(it, a, k):
    return a[1]


for _n in ('bisect_left', 'bisect_right', 'bisect'):
    def _bis(it, a, k, _n=_n):
        s = seq(it, a[0])
        if k or len(a) > 2 or not all(isinstance(x, (int, float)) for x in s + [a[1]]):
            raise Unk('bisect')
        return getattr(_bisect, _n)(s, a[1])
    EXT[f'bisect.{_n}'] = _bis


# ---------------------------------------------------------------- copies
def plain_copy(it, v, deep, memo):
    if isinstance(v, (int, float, str, bool, type(None), T, EnumMember, Func, Bound, Builtin, Cls, Ext)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if type(v) in (list, tuple, dict, set) or isinstance(v, (DefaultDict, DequeList)):
        if not deep:
            return _copy.copy(v)
        if isinstance(v, dict):
            r = type(v)()
            if isinstance(v, DefaultDict):
                r.factory = v.factory
            memo[id(v)] = r
            for x, y in v.items():
                dict.__setitem__(r, x, plain_copy(it, y, deep, memo))
            return r
        if isinstance(v, list):
            r = type(v)()
            memo[id(v)] = r
            r.extend(plain_copy(it, x, deep, memo) for x in v)
            return r
        return type(v)(plain_copy(it, x, deep, memo) for x in v)
    if isinstance(v, Ten) and deep and not v.isparam:
        return tmod.OPS['clone'](it, [v], {})
    if isinstance(v, Obj) and not v.is_module and v.cls.dataclass is not None:
        o = Obj(v.cls)
        memo[id(v)] = o
        for n, x in v.attrs.items():
            o.attrs[n] = plain_copy(it, x, deep, memo) if deep else x
        return o
    raise Unk('copy')


if 'copy.copy' not in EXT:
    EXT['copy.copy'] = lambda it, a, k: plain_copy(it, a[0], False, {})
if 'copy.deepcopy' not in EXT:
    EXT['copy.deepcopy'] = lambda it, a, k: plain_copy(it, a[0], True, {})


# ---------------------------------------------------------------- dataclasses, named tuples
def dc_fields(cls):
    out = []
    for c in reversed(cls.mro):
        if isinstance(c, Cls) and c.dataclass:
            for f in c.dataclass:
                out = [x for x in out if x[0] != f[0]] + [f]
    return out


@ext('dataclasses.replace')
def _(it, a, k):
    o = a[0]
    if isinstance(o, NT):
        return NT(o.ntcls, [k.get(n, v) for n, v in zip(nt_fields(o.ntcls), o)])
    if not isinstance(o, Obj) or o.cls.dataclass is None:
        raise Unk('dataclasses.replace')
    kw = {f[0]: it.getattr(o, f[0]) for f in dc_fields(o.cls)}
    kw.update(k)
    return it.instantiate(o.cls, [], kw)


@ext('dataclasses.asdict')
def _(it, a, k):
    o = a[0]
    if not isinstance(o, Obj) or o.cls.dataclass is None:
        raise Unk('dataclasses.asdict')

    def conv(v):
        if isinstance(v, Obj) and v.cls.dataclass is not None:
            return {f[0]: conv(it.getattr(v, f[0])) for f in dc_fields(v.cls)}
        if isinstance(v, (list, tuple)):
            return type(v)(conv(x) for x in v)
        if isinstance(v, dict):
            return {x: conv(y) for x, y in v.items()}
        return plain_copy(it, v, True, {})
    return conv(o)


@ext('dataclasses.astuple')
def _(it, a, k):
    return tuple(it.getattr(a[0], f[0]) for f in dc_fields(a[0].cls))


@ext('dataclasses.is_dataclass')
def _(it, a, k):
    c = a[0].cls if isinstance(a[0], Obj) else a[0]
    return isinstance(c, Cls) and c.dataclass is not None


@ext('collections.namedtuple')
def _(it, a, k):
    fields = a[1] if len(a) > 1 else k['field_names']
    fields = fields.replace(',', ' ').split() if isinstance(fields, str) else seq(it, fields)
    c = Cls(a[0] if a else k['typename'], None, None)
    c.mro = [c]
    ds = k.get('defaults')
    ds = list(ds) if ds is not None else []
    c.nt = [(n, MISSING if i < len(fields) - len(ds) else ds[i - len(fields) + len(ds)]) for i, n in enumerate(fields)]
    return c


def nt_fields(c):
    return [n for n, _ in c.nt]


def nt_make(it, cls, args, kwargs):
    names = nt_fields(cls)
    if len(args) > len(names):
        it.raise_('TypeError', f'{cls.name}() takes {len(names)} positional arguments')
    v = dict(zip(names, args))
    for n, x in kwargs.items():
        if n not in names or n in v:
            it.raise_('TypeError', f'{cls.name}() got an unexpected keyword argument {n!r}')
        v[n] = x
    for n, d in cls.nt:
        if n not in v:
            if d is MISSING:
                it.raise_('TypeError', f'{cls.name}() missing argument {n!r}')
            v[n] = d
    return NT(cls, [v[n] for n in names])


def nt_attr(it, o, name):
    names = nt_fields(o.ntcls)
    if name in names:
        return o[names.index(name)]
    if name == '_fields':
        return tuple(names)
    if name == '_replace':
        return Builtin(name, lambda it, a, k: NT(o.ntcls, [k.get(n, v) for n, v in zip(names, o)]))
    if name == '_asdict':
        return Builtin(name, lambda it, a, k: dict(zip(names, o)))
    if name == '__class__':
        return o.ntcls
    v = it.find_attr(o.ntcls, name)
    if v is not MISSING:
        return it.bind(v, o)
    return MISSING


# ---------------------------------------------------------------- contexts
@ext('contextlib.suppress')
def _(it, a, k):
    return CtxVal('suppress', tuple(a))


@ext('contextlib.ExitStack', 'contextlib.AsyncExitStack')
def _(it, a, k):
    raise Unk('ExitStack')


# ---------------------------------------------------------------- builtins
def _filter(it, a, k):
    return PyIter([x for x in seq(it, a[1]) if it.truth(x if a[0] is None else it.call(a[0], [x], {}))])


BUILT['filter'] = Builtin('filter', _filter)


def _slice(it, a, k):
    a = list(a)
    if len(a) == 1:
        a = [None] + a
    return Slice(*(a + [None] * (3 - len(a))))


EXT['builtins.slice'] = _slice
EXT['builtins.set'] = lambda it, a, k: set(map(plainkey, seq(it, a[0]))) if a else set()
EXT['builtins.frozenset'] = lambda it, a, k: frozenset(map(plainkey, seq(it, a[0]))) if a else frozenset()


def _tuple(it, a, k):
    if not a:
        return ()
    r = EXT['builtins.list'](it, a, k)
    if not isinstance(r, list):
        raise Unk('tuple of unknown')
    return tuple(r)


EXT['builtins.tuple'] = _tuple


def _hash(it, a, k):
    return hash(plainkey(a[0]))


BUILT['hash'] = Builtin('hash', _hash)


def _minmax(which):
    old = BUILT[which]

    def h(it, a, k):
        f = k.get('key')
        if f is None:
            return old.f(it, a, k)
        s = list(a) if len(a) > 1 else seq(it, a[0])
        if not s:
            if 'default' in k:
                return k['default']
            it.raise_('ValueError', f'{which}() arg is an empty sequence')
        ks = [plainkey(it.call(f, [x], {})) for x in s]
        return s[(max if which == 'max' else min)(range(len(s)), key=lambda i: (ks[i], -i if which == 'max' else i))]
    return Builtin(which, h)


for _w in ('min', 'max'):
    BUILT[_w] = _minmax(_w)


def plain(v):
    """a value whose python text is the same here and in a run"""
    if type(v) in (list, tuple, set, dict):
        return all(map(plain, v)) and (type(v) is not dict or all(map(plain, v.values()))) and (type(v) is not set or len(v) < 2)
    return v is None or type(v) in (int, float, str, bool)


EXC_STR = ('AssertionError', 'ValueError', 'TypeError', 'RuntimeError', 'NotImplementedError', 'IndexError', 'AttributeError', 'Exception')


def _str(it, a, k):
    if a:
        v = a[0]
        if isinstance(v, (str, int, float, bool)) or v is None:
            return str(v)
        if isinstance(v, T) and v.const is not None:
            return str(v.const)
        if isinstance(v, EnumMember):
            return enum_str(it, v)
        if plain(v):
            return str(v)
        if isinstance(v, Obj):
            for n in ('__str__', '__repr__'):
                f = it.find_attr(v.cls, n)
                if f is not MISSING:
                    return it.call(it.bind(f, v), [], {})
        if isinstance(v, ExtVal) and len(v.args) == 1 and isinstance(v.args[0], str) and v.path.split('.')[-1] in EXC_STR:
            return v.args[0]
        return ExtVal('str', tuple(a))
    return ''


EXT['builtins.str'] = _str


def _repr(it, a, k):
    v = a[0]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return repr(v)
    if isinstance(v, Obj):
        f = it.find_attr(v.cls, '__repr__')
        if f is not MISSING:
            return it.call(it.bind(f, v), [], {})
    return ExtVal('repr', tuple(a))


BUILT['repr'] = Builtin('repr', _repr)


@ext('functools.lru_cache', 'functools.cache', 'functools.total_ordering')
def _(it, a, k):
    if len(a) == 1 and isinstance(a[0], (Func, Bound, Builtin, Cls)):
        return a[0]
    return Builtin('lru_cache', lambda it, b, q: b[0])


def enum_str(it, v):
    f = it.find_attr(v.cls, '__str__')
    if f is not MISSING:
        return it.call(it.bind(f, v), [], {})
    if any(isinstance(c, Ext) and c.path == 'enum.StrEnum' for c in v.cls.mro) or tmod.isint_enum(v):
        return str(v.value)
    return f'{v.cls.name}.{v.name}'


NSCLS = Cls('SimpleNamespace', None, None)


@ext('types.SimpleNamespace')
def _(it, a, k):
    o = Obj(NSCLS)
    o.attrs.update(k)
    return o


@ext('math.fsum')
def _(it, a, k):
    r = 0.0
    for x in seq(it, a[0]):
        r = binop(it, 'Add', r, x)
    return r


@ext('itertools.batched')
def _(it, a, k):
    s = seq(it, a[0])
    return PyIter(tuple(s[i:i + a[1]]) for i in range(0, len(s), a[1]))


@ext('dataclasses.fields')
def _(it, a, k):
    c = a[0].cls if isinstance(a[0], Obj) else a[0]
    out = []
    for n, d, _ in dc_fields(c):
        o = Obj(NSCLS)
        o.attrs.update(name=n)
        out.append(o)
    return tuple(out)


for _n in ('bin', 'hex', 'chr', 'ord', 'oct', 'ascii'):
    BUILT[_n] = Builtin(_n, lambda it, a, k, _n=_n: getattr(_b, _n)(a[0]) if isinstance(a[0], (int, str)) else ExtVal('builtins.' + _n, tuple(a)))
