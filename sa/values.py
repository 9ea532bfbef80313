"""Abstract values other than scalars: tensors (generic element + named axes), objects, functions, externals."""
from .terms import *
from . import terms as tm


class Unk(Exception):
    """transfer function does not know -> value becomes Unknown"""


class Unknown:
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return f'Unknown({self.why})'


class PyRaise(Exception):
    """the analysed program definitely raises on this path"""

    def __init__(self, etype, msg='', where='', value=None):
        self.etype, self.msg, self.where, self.value = etype, msg, where, value
        super().__init__(f'{etype}: {msg} @ {where}')


class Storage:
    n = 0
    __slots__ = ('id', 'views', 'tag', 'frozen', 'dev')

    def __init__(self, tag=None):
        Storage.n += 1
        self.id = Storage.n
        self.views = []
        self.dev = None
        self.tag = tag           # 'param:..','input:..','cache:..','buffer:..'


class Ten:
    """tensor: axes [(var name|None, size)], body term over those vars"""

    def __init__(self, axes, body, dtype='float', grad=False, store=None, np=False):
        self.axes = list(axes)
        self._body = body
        self.dtype = dtype
        self.grad = grad
        self.store = store or Storage()
        self.store.views.append(self)
        self.isparam = False
        self.requires_grad = False
        self.isbuf = False
        self.np = np
        self.stale = False
        self.init = None
        self.onehot = False

    @property
    def body(self):
        if self.stale:
            raise Unk('read of a tensor whose storage was modified through another view')
        return self._body

    @body.setter
    def body(self, b):
        self._body = b

    @property
    def shape(self):
        return [s for n, s in self.axes]

    @property
    def dim(self):
        return len(self.axes)

    def vars(self):
        return [ZERO if n is None else lift(Atom('var', n)) for n, s in self.axes]

    def at(self, idx):
        assert len(idx) == len(self.axes)
        env = {n: lift(i) for (n, s), i in zip(self.axes, idx) if n is not None}
        return subst(self.body, env)

    def __repr__(self):
        return f'Ten[{",".join(f"{n}<{s}" for n, s in self.axes)}]({self._body!r})'


def mk(sizes, f, dtype='float', grad=False, store=None, np=False):
    """build tensor from sizes and element function f(list of index terms)->T"""
    axes, vs = [], []
    for s in sizes:
        s = lift(s)
        if s.cint == 1:
            axes.append((None, ONE))
            vs.append(ZERO)
        else:
            n, v = newvar(s)
            axes.append((n, s))
            vs.append(v)
    return Ten(axes, lift(f(vs)), dtype, grad, store, np)


def opaque(name, sizes, dtype='float', grad=False, tag=None, **kw):
    base(name, **kw)
    t = mk(sizes, lambda v: el(name, *v), dtype, grad, Storage(tag))
    return t


def teq(a, b):
    """equal as value numbers (axes renamed)"""
    if a.dim != b.dim or any(x is not y for x, y in zip(a.shape, b.shape)):
        return False
    return a.at(b.vars()) is b.body


class Masked:
    """x[boolmask] : flattened selection kept in unflattened form"""

    def __init__(self, ten, mask):
        self.ten, self.mask = ten, mask


class MaskedShape:
    def __init__(self, ten, mask):
        self.ten, self.mask = ten, mask


class SymSet:
    """python list/tensor of unknown feature indices"""

    def __init__(self, name, size):
        self.name, self.size = name, size


class SymList:
    """list of symbolic length: axes + generic element value"""

    def __init__(self, axes, elem):
        self.axes, self.elem = axes, elem


class Obj:
    n = 0

    def __init__(self, cls):
        Obj.n += 1
        self.id = Obj.n
        self.cls = cls
        self.attrs = {}
        self.mods = {}        # registered submodules
        self.params = {}
        self.bufs = {}
        self.is_module = False

    def __repr__(self):
        return f'<{self.cls.name}#{self.id}>'


class Func:
    def __init__(self, node, module, closure, cls=None, name=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None
        self.kwdefaults = None
        self.kind = 'func'   # func|property|static|classmethod|ctxmgr

    def __repr__(self):
        return f'<fn {self.module.name}.{self.cls.name + "." if self.cls else ""}{self.name}>'

    @property
    def qual(self):
        return f'{self.module.path}:{self.cls.name + "." if self.cls else ""}{self.name}'


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<builtin {self.name}>'


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.attrs = {}
        self.dataclass = None     # list of (name, default|MISSING)
        self.frozen = False
        self.enum = False
        self.members = []
        self.mro = [self]
        self.nt = None            # fields of a named tuple class

    def __repr__(self):
        return f'<class {self.name}>'


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class Ext:
    """external dotted name (torch.nn.functional, ...)"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'<ext {self.path}>'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ExtVal:
    """opaque value produced by an external call, with provenance"""

    def __init__(self, path, args=(), kwargs=None):
        self.path, self.args, self.kwargs = path, args, kwargs or {}
        self.attrs = {}

    def __repr__(self):
        return f'<{self.path}({", ".join(map(repr, self.args))}{", " if self.kwargs else ""}' + \
            ', '.join(f'{k}={v!r}' for k, v in self.kwargs.items()) + ')>'


class Mod:
    """repo module"""

    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.loaded = False


class DistVal:
    """torch.distributions object"""

    def __init__(self, kind, **params):
        self.kind, self.params = kind, params


class CtxVal:
    """builtin context manager value"""

    def __init__(self, kind, payload=None):
        self.kind, self.payload = kind, payload


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class DefaultDict(dict):
    factory = None


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class NT(tuple):
    """named tuple"""

    def __new__(cls, ntcls, values):
        o = tuple.__new__(cls, values)
        o.ntcls = ntcls
        return o


class Parts(tuple):
    """result of a torch function with named parts"""

    def __new__(cls, names, values):
        o = tuple.__new__(cls, values)
        o.names = names
        return o


class Endless(list):
    """an iterator without end"""
    gen = None
