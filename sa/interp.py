"""Abstract interpreter over the Python AST of /repo (nothing of /repo is imported or executed)."""
import ast
import builtins as _b
import os
from .values import *
from . import terms as tm

REPO = os.environ.get('VERIF_REPO', '/repo')


class NpArr(list):
    """one-dimensional numpy array of known integers"""


class NpInt(int):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PathLimit(Exception):
    """too many paths / steps -> analysis of this context is incomplete"""


class MissingAnchor(Exception):
    """a construct the rule is anchored on no longer exists"""


MISSING = object()


class Env:
    __slots__ = ('vars', 'parent', 'globals_')

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return MISSING


class Frame:
    def __init__(self, func, env, self_=None):
        self.func, self.env, self.self_ = func, env, self_
        self.node = None


class Loader:
    """parses /repo modules; resolves names; module bodies are abstractly evaluated on demand"""

    def __init__(self, root=REPO):
        self.root = root
        self.mods = {}
        self.stub = set()

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for c in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(c):
                return c
        return None

    def is_repo(self, name):
        if self.path_of(name):
            return True
        return os.path.isdir(os.path.join(self.root, *name.split('.'))) and name.split('.')[0] == 'simple_einet'

    def get(self, name):
        m = self.mods.get(name)
        if m is None:
            p = self.path_of(name)
            if p is None:
                if self.is_repo(name):
                    m = Mod(name, name, ast.parse(''))
                    self.mods[name] = m
                    return m
                raise MissingAnchor(f'module {name} not found')
            with open(p) as f:
                tree = ast.parse(f.read())
            m = Mod(name, os.path.relpath(p, self.root), tree)
            self.mods[name] = m
        return m


class Interp:
    MAXSTEP = 200000

    def __init__(self, loader, decisions=(), training=False):
        self.loader = loader
        self.decisions = list(decisions)
        self.taken = []            # (cond description, bool, forkable)
        self.facts = []            # (T cond, bool)
        self.frames = []
        self.training = training
        self.nograd = 0
        self.track = False
        self.effects = []          # list of dict(kind=..., ...)
        self.rng = []              # events: ('torch','draw'), ('torch','seed',v), ('torch','set',state)
        self.rngstate = 'S0'
        self.unknown = []          # reasons
        self.tainted = False
        self.ndraw = 0
        self.nparam = 0
        self.steps = 0
        self.calls = []            # (caller qual, callee qual)
        self.visited = set()
        self.trace = None
        self.hooks = {}            # qual -> handler(interp, func, args, kwargs) -> value or MISSING
        self.while_count = {}
        self.oracle = None         # concrete outcome of categorical draws, chosen by an analysis
        self.kmeans = None         # dict(fit=predictions, sim=assignment): outcome of the external clustering, chosen by an analysis
        from . import torchmodel, stdlib
        self.tmod = torchmodel
        self.stdlib = stdlib

    # ------------------------------------------------------------ utils
    def loc(self, node=None):
        fr = self.frames[-1] if self.frames else None
        q = fr.func.qual if fr and isinstance(fr.func, Func) else (fr.func.name if fr and fr.func else '<module>')
        return q

    def raise_(self, etype, msg='', value=None):
        raise PyRaise(etype, msg, self.loc(), value)

    def unk(self, why):
        self.unknown.append(f'{self.loc()}: {why}')
        return Unknown(why)

    def draw_id(self, kind='torch'):
        self.ndraw += 1
        self.rng.append((kind, 'draw', self.ndraw, self.loc()))
        if kind == 'torch':
            self.rngstate = f'adv({self.rngstate})'
        return self.ndraw

    def apply_facts(self, t):
        for c, v in self.facts:
            t = tm.assume(t, c, v)
        return t

    # ------------------------------------------------------------ decisions
    def decide(self, cond, desc='', prefer=None):
        """cond: T boolean or Unknown -> python bool (forks when undecided)"""
        if isinstance(cond, T):
            cond = self.apply_facts(cond)
            k = cond.const
            if k is not None:
                return k != 0
        if prefer is not None:
            val = prefer
            self.facts.append((cond, val)) if isinstance(cond, T) else None
            self.taken.append((repr(cond), val, False))
            return val
        i = len([1 for t in self.taken if t[2]])
        val = self.decisions[i] if i < len(self.decisions) else True
        self.taken.append((repr(cond) if isinstance(cond, T) else f'unknown {desc}', val, True))
        if isinstance(cond, T):
            self.facts.append((cond, val))
        else:
            self.tainted = True
        return val

    def truth(self, v):
        if isinstance(v, Unknown):
            return self.decide(v, v.why)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, float, str, list, tuple, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, T):
            if v.const is not None:
                return v.const != 0
            a = [x for x in v.atoms()]
            if all(x.bool for x in a) and a:
                return self.decide(v)
            if tm.is_int(v) and tm.nonneg(v - 1):
                return True
            return self.decide(ONE - tm.eq0(v))
        if isinstance(v, Ten):
            if all(n is None for n, s in v.axes):
                return self.truth(v.body)
            if all(s.const is not None for s in v.shape) or True:
                self.raise_('RuntimeError', 'Boolean value of Tensor with more than one value is ambiguous')
        if isinstance(v, SymSet):
            return True
        if isinstance(v, SymList):
            return True
        if isinstance(v, Obj):
            ln = self.find_attr(v.cls, '__len__')
            if ln is not MISSING:
                return self.truth(self.call(ln, [v], {}))
            return True
        if isinstance(v, ExtVal):
            return self.decide(Unknown(repr(v)), 'external value')
        return True

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.loader.get(name)
        if not m.loaded:
            m.loaded = True
            env = Env()
            m.env = env
            env.vars['__name__'] = name
            env.vars['__file__'] = m.path
            f = Func(ast.parse('def f():\n pass').body[0], m, None, name='<module>')
            it = Interp(self.loader) if self.frames else self
            it.frames.append(Frame(f, env))
            try:
                for st in m.tree.body:
                    try:
                        it.exec(st, env)
                    except PyRaise as e:
                        m.__dict__.setdefault('errors', []).append((getattr(st, 'lineno', 0), e))
                    except Ret:
                        pass
            finally:
                it.frames.pop()
            it.reset_after_module()
        return m

    def reset_after_module(self):
        pass

    def repo_attr(self, mod, name):
        m = self.module(mod)
        v = m.env.get(name)
        if v is MISSING:
            raise MissingAnchor(f'{mod}.{name} not found')
        return v

    # ------------------------------------------------------------ attribute lookup
    def find_attr(self, cls, name):
        for c in cls.mro:
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return MISSING

    def is_module_cls(self, cls):
        return any(isinstance(c, Ext) and c.path == 'torch.nn.Module' for c in cls.mro)

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if e.etype == 'AttributeError' and default is not MISSING:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if getattr(o.cls, 'odd', None) is None:
                o.cls.odd = self.find_attr(o.cls, '__getattribute__') is not MISSING
            if o.cls.odd:
                raise Unk('__getattribute__')
            if name in o.attrs and self.descriptor(o.cls, name, '__set__'):
                return self.bind(self.find_attr(o.cls, name), o)
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            v = self.find_attr(o.cls, name)
            if v is not MISSING:
                return self.bind(v, o)
            for c in o.cls.mro:
                if isinstance(c, Ext):
                    r = self.tmod.base_attr(self, o, c.path, name)
                    if r is not MISSING:
                        return r
            ga = self.find_attr(o.cls, '__getattr__')
            if ga is not MISSING:
                return self.call(ga, [o, name], {})
            if any(isinstance(c, Ext) and c.path not in ('abc.ABC', 'object', 'torch.nn.Module', 'typing.Generic', 'enum.Enum', 'str')
                   for c in o.cls.mro):
                raise Unk(f'attribute {name} of external base of {o.cls.name}')
            if name.startswith('__') and hasattr(object(), name):
                raise Unk(f'object.{name}')
            self.raise_('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, Cls):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__module__':
                return o.module.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return tuple(o.bases) or (Ext('builtins.object'),)
            if name in ('__dict__', '__doc__', '__annotations__', '__subclasses__', '__dataclass_fields__'):
                raise Unk(f'class {name}')
            if o.nt is not None and name == '_fields':
                return tuple(n for n, _ in o.nt)
            if o.nt is not None and name == '_make':
                return Builtin(name, lambda it, a, k: it.stdlib.nt_make(it, o, it.stdlib.seq(it, a[0]), {}))
            v = self.find_attr(o, name)
            if v is not MISSING:
                if isinstance(v, Func) and v.kind == 'classmethod':
                    return Bound(v, o)
                return v
            if o.enum and name == '__members__':
                return {m.name: m for m in o.members}
            for c in o.mro:
                if isinstance(c, Ext):
                    return Builtin(f'{c.path}.{name}', lambda it, a, k, c=c, name=name: it.tmod.ext_base_call(it, c.path, name, a, k))
            self.raise_('AttributeError', f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, Super):
            mro = o.self_.cls.mro if isinstance(o.self_, Obj) else o.self_.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls):
                    if name in c.attrs:
                        return self.bind(c.attrs[name], o.self_)
                elif isinstance(c, Ext):
                    r = self.tmod.super_attr(self, o.self_, c.path, name)
                    if r is not MISSING:
                        return r
            if name == '__new__' and isinstance(o.self_, Cls):
                return Builtin(name, lambda it, a, k: Obj(a[0]))
            if name == '__init_subclass__':
                return Builtin(name, lambda it, a, k: None)
            r = self.tmod.super_attr(self, o.self_, 'object', name)
            if r is not MISSING:
                return r
            if name.startswith('__'):
                raise Unk(f'super().{name}')
            self.raise_('AttributeError', f"'super' object has no attribute '{name}'")
        if isinstance(o, EnumMember):
            if name == 'value':
                return o.value
            if name == 'name':
                return o.name
            v = self.find_attr(o.cls, name)
            if v is not MISSING:
                return self.bind(v, o)
            if isinstance(o.value, str):
                return self._getattr(o.value, name)
            self.raise_('AttributeError', name)
        if isinstance(o, Mod):
            if not o.loaded:
                self.module(o.name)
            v = o.env.get(name)
            if v is not MISSING:
                return v
            if self.loader.is_repo(o.name + '.' + name):
                return self.module(o.name + '.' + name)
            self.raise_('AttributeError', f'module {o.name} has no attribute {name}')
        if isinstance(o, Unknown):
            return Unknown(f'{o.why}.{name}')
        if isinstance(o, Func):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
        if isinstance(o, NpArr):
            o = self.tmod.nparr(self, o)
        if isinstance(o, Parts) and name in o.names:
            return o[o.names.index(name)]
        if isinstance(o, NT):
            v = self.stdlib.nt_attr(self, o, name)
            if v is not MISSING:
                return v
        if isinstance(o, Slice) and name in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.c}[name]
        if isinstance(o, (self.tmod.PyIter, Endless)) and name == '__next__':
            return Builtin('next', lambda it, a, k: it.call(it.tmod.BUILT['next'], [o], {}))
        return self.tmod.getattr_(self, o, name)

    def bind(self, v, o):
        if isinstance(v, Func):
            if v.kind == 'property':
                r = self.call_func(v, [o], {})
                if getattr(v, 'cached', False) and isinstance(o, Obj):
                    o.attrs[v.cname or v.name] = r
                return r
            if v.kind == 'static':
                return v
            if v.kind == 'classmethod':
                return Bound(v, o.cls if isinstance(o, Obj) else o)
            return Bound(v, o)
        if isinstance(v, Builtin) and getattr(v, 'method', False):
            return Bound(v, o)
        if isinstance(v, Obj) and not v.is_module and isinstance(o, Obj):
            g = self.find_attr(v.cls, '__get__')
            if g is not MISSING:
                return self.call(self.bind(g, v), [o, o.cls], {})
        return v

    def descriptor(self, cls, name, slot):
        d = self.find_attr(cls, name)
        if isinstance(d, Obj) and not d.is_module and self.find_attr(d.cls, slot) is not MISSING:
            return d
        return None

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Obj):
            if not raw:
                sa = self.find_attr(o.cls, '__setattr__')
                if sa is not MISSING and isinstance(sa, Func):
                    return self.call(Bound(sa, o), [name, v], {})
                ds = self.descriptor(o.cls, name, '__set__')
                if ds is not None:
                    return self.call(self.getattr(ds, '__set__'), [o, v], {})
                pr = self.find_attr(o.cls, name)
                if isinstance(pr, Func) and pr.kind == 'property' and getattr(pr, 'setter', None):
                    return self.call_func(pr.setter, [o, v], {})
                if isinstance(pr, Func) and pr.kind == 'property' and not getattr(pr, 'cached', False):
                    if not (o.is_module and (isinstance(v, Obj) or (isinstance(v, Ten) and v.isparam))):
                        self.raise_('AttributeError', f"property '{name}' of '{o.cls.name}' object has no setter")
                if o.cls.frozen and self.frozen_ok is not o:
                    self.raise_('FrozenInstanceError', f"cannot assign to field '{name}'")
            if o.is_module or self.is_module_cls(o.cls):
                if isinstance(v, Obj) and (v.is_module or self.is_module_cls(v.cls)):
                    if not o.is_module:
                        self.raise_('AttributeError', 'cannot assign module before Module.__init__() call')
                    o.mods[name] = v
                    o.bufs.pop(name, None)
                elif isinstance(v, Ten) and v.isparam:
                    if not o.is_module:
                        self.raise_('AttributeError', 'cannot assign parameters before Module.__init__() call')
                    o.params[name] = v
                    v.store.tag = f'param:{o.cls.name}.{name}'
                elif name in o.params and v is not None:
                    if isinstance(v, Ten):
                        self.raise_('TypeError', f"cannot assign non-Parameter as parameter '{name}'")
                elif name in o.bufs and isinstance(v, Ten):
                    o.bufs[name] = v
                    self.effects.append(dict(kind='setbuf', obj=o, name=name, where=self.loc()))
            if len(self.frames) and isinstance(self.frames[-1].func, Func) and self.frames[-1].func.name != '__init__':
                self.effects.append(dict(kind='setattr', obj=o, name=name, where=self.loc(), value=v))
            o.attrs[name] = v
            return
        if isinstance(o, Ten):
            return self.tmod.ten_setattr(self, o, name, v)
        if isinstance(o, ExtVal):
            o.attrs[name] = v
            self.effects.append(dict(kind='extset', obj=o, name=name, value=v, where=self.loc()))
            return
        if isinstance(o, Cls):
            o.attrs[name] = v
            return
        if isinstance(o, (Unknown, Ext)):
            return
        if isinstance(o, Builtin) or isinstance(o, Func):
            return
        self.raise_('AttributeError', f'cannot set {name} on {o!r}')

    frozen_ok = None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise PathLimit('step limit')
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return self.lib(f.func.f, [f.self_] + list(args), kwargs)
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Builtin):
            return self.lib(f.f, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Ext):
            return self.lib(lambda it, a, k: self.tmod.call_ext(it, f.path, a, k), list(args), kwargs)
        if isinstance(f, Obj):
            c = self.find_attr(f.cls, '__call__')
            if c is not MISSING:
                return self.call(self.bind(c, f), args, kwargs)
            if f.is_module:
                fw = self.find_attr(f.cls, 'forward')
                if fw is MISSING:
                    return self.tmod.module_forward(self, f, list(args), kwargs)
                return self.call(self.bind(fw, f), args, kwargs)
            self.raise_('TypeError', f"'{f.cls.name}' object is not callable")
        if isinstance(f, ExtVal):
            return self.tmod.call_extval(self, f, list(args), kwargs)
        if isinstance(f, Unknown):
            return Unknown(f'call of {f.why}')
        if f is None or isinstance(f, (int, str, float, list, dict, T, Ten)):
            self.raise_('TypeError', f"'{type(f).__name__}' object is not callable")
        raise Unk(f'call of {f!r}')

    def lib(self, f, args, kwargs):
        """library model; arguments outside its domain make the result unknown (never an analysis crash)"""
        try:
            return f(self, args, kwargs)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ArithmeticError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            raise Unk(f'library model: {type(e).__name__} {e}') from e

    def instantiate(self, cls, args, kwargs):
        if cls.enum:
            v = args[0]
            for m in cls.members:
                if m is v or self.eq(m.value, v) is True:
                    return m
            if isinstance(v, (Unknown, ExtVal)):
                raise Unk('enum of unknown')
            self.raise_('ValueError', f'{v!r} is not a valid {cls.name}')
        nt = next((c for c in cls.mro if isinstance(c, Cls) and c.nt is not None), None)
        if nt is not None:
            if self.find_attr(cls, '__new__') is not MISSING:
                raise Unk('named tuple with __new__')
            r = self.stdlib.nt_make(self, nt, args, kwargs)
            r.ntcls = cls
            return r
        if any(isinstance(c, Cls) and getattr(c, 'meta', False) for c in cls.mro):
            raise Unk('metaclass')
        nw = self.find_attr(cls, '__new__')
        if nw is not MISSING:
            o = self.call(nw, [cls] + list(args), kwargs)
            if not isinstance(o, Obj) or cls not in o.cls.mro:
                return o
        else:
            o = Obj(cls)
        abstract = [n for n in self.abstract_names(cls)]
        if abstract:
            self.raise_('TypeError', f"Can't instantiate abstract class {cls.name} with abstract methods {abstract}")
        if any(isinstance(c, Ext) and c.path in ('builtins.Exception', 'Exception', 'builtins.ValueError') for c in cls.mro):
            o.attrs['args'] = tuple(args)
        init = self.find_attr(cls, '__init__')
        if cls.dataclass is not None and not (isinstance(init, Func) and init.cls is cls):
            self.dataclass_init(o, cls, args, kwargs)
        elif init is not MISSING:
            self.call(self.bind(init, o), args, kwargs)
        else:
            for c in cls.mro:
                if isinstance(c, Ext):
                    r = self.tmod.super_attr(self, o, c.path, '__init__')
                    if r is not MISSING:
                        self.call(r, args, kwargs)
                        break
            else:
                if args or kwargs:
                    self.raise_('TypeError', f'{cls.name}() takes no arguments')
        return o

    def abstract_names(self, cls):
        out = []
        if not any(isinstance(c, Ext) and c.path in ('abc.ABC',) for c in cls.mro):
            return out
        seen = set()
        for c in cls.mro:
            if isinstance(c, Cls):
                for n, v in c.attrs.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if isinstance(v, Func) and getattr(v, 'abstract', False):
                        out.append(n)
        return out

    def dataclass_init(self, o, cls, args, kwargs):
        fields = []
        for c in reversed(cls.mro):
            if isinstance(c, Cls) and c.dataclass:
                for f in c.dataclass:
                    fields = [x for x in fields if x[0] != f[0]] + [f]
        names = [f[0] for f in fields]
        if len(args) > len(names):
            self.raise_('TypeError', f'{cls.name}() takes {len(names)} positional arguments')
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names or k in vals:
                self.raise_('TypeError', f"{cls.name}.__init__() got an unexpected keyword argument '{k}'")
            vals[k] = v
        self.frozen_ok = o
        for n, d, fac in fields:
            if n in vals:
                v = vals[n]
            elif fac is not None:
                v = self.call(fac, [], {})
            elif d is MISSING:
                self.raise_('TypeError', f"{cls.name}.__init__() missing argument '{n}'")
            else:
                v = d
            sa = self.find_attr(cls, '__setattr__')
            if isinstance(sa, Func):
                self.call(Bound(sa, o), [n, v], {})
            else:
                o.attrs[n] = v
        self.frozen_ok = None
        pi = self.find_attr(cls, '__post_init__')
        if pi is not MISSING:
            self.call(Bound(pi, o), [], {})

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = f.defaults or []
        nd = len(defaults)
        if len(args) > len(pos) and not a.vararg:
            self.raise_('TypeError', f'{f.name}() takes {len(pos)} positional arguments but {len(args)} were given')
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwn:
                if k in env:
                    self.raise_('TypeError', f"{f.name}() got multiple values for argument '{k}'")
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            env[a.kwarg.arg] = extra
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = defaults[j]
                else:
                    self.raise_('TypeError', f"{f.name}() missing 1 required positional argument: '{n}'")
        for n, d in zip(kwn, f.kwdefaults or []):
            if n not in env:
                if d is MISSING:
                    self.raise_('TypeError', f"{f.name}() missing 1 required keyword-only argument: '{n}'")
                env[n] = d
        return env

    def call_func(self, f, args, kwargs):
        r = self.call_func_(f, args, kwargs)
        if f.cls is not None and isinstance(r, Ten) and f.name == 'log_prob' and len(args) > 1:
            return self.tmod.known_density(self, args[0], args[1], r)
        return r

    def call_func_(self, f, args, kwargs):
        if f.qual in self.hooks:
            r = self.hooks[f.qual](self, f, args, kwargs)
            if r is not MISSING:
                return r
        if f.kind == 'ctxmgr':
            return CtxVal('gen', (f, args, kwargs))
        if len(self.frames) > 60:
            raise PathLimit('recursion')
        env = Env(f.closure if f.closure is not None else f.module.env)
        if self.frames:
            self.calls.append((self.loc(), f.qual))
        self.visited.add(f.qual)
        fr = Frame(f, env)
        try:
            env.vars.update(self.bind_args(f, args, kwargs))
        except PyRaise as e:
            raise
        if args and f.cls is not None:
            fr.self_ = args[0]
        self.frames.append(fr)
        nb = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.kind == 'generator' or getattr(f, 'isgen', False):
                out = self.tmod.PyIter()
                stack = getattr(self, 'gen_stack', [])
                self.gen_stack = stack + [out]
                try:
                    self.block(f.node.body, env)
                except Ret as r:
                    out.returned = r.v
                except GenStop:
                    pass
                finally:
                    self.gen_stack = stack
                return out
            self.block(f.node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            del self.frames[nb - 1:]

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise PathLimit('step limit')
        if self.frames:
            self.frames[-1].node = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unk(f'statement {type(s).__name__}')
            return
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(self.eval(s.value, env), Unknown):
            self.tainted = True        # a call made for its effect, and the effect is not known

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        env.globals_ |= set(s.names)

    x_Nonlocal = x_Global

    def x_Return(self, s, env):
        raise Ret(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise Brk()

    def x_Continue(self, s, env):
        raise Cont()

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.index(t.slice, env)
                if isinstance(o, dict):
                    o.pop(k, None)
                elif isinstance(o, list) and isinstance(k, int):
                    del o[k]
                elif isinstance(o, list) and isinstance(k, Slice) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                    del o[slice(k.a, k.b, k.c)]
                elif isinstance(o, Obj) and self.find_attr(o.cls, '__delitem__') is not MISSING:
                    self.call(self.getattr(o, '__delitem__'), [k], {})
                else:
                    self.unk(f'del of item of {o!r}')
                    self.tainted = True
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    pr = self.find_attr(o.cls, t.attr)
                    if isinstance(pr, Func) and pr.kind == 'property' and not getattr(pr, 'cached', False):
                        if not hasattr(pr, 'deleter'):
                            self.raise_('AttributeError', f"property '{t.attr}' has no deleter")
                        self.call_func(pr.deleter, [o], {})
                    elif self.find_attr(o.cls, '__delattr__') is not MISSING:
                        self.call(self.getattr(o, '__delattr__'), [t.attr], {})
                    else:
                        gone = MISSING
                        for d in (o.attrs, o.mods, o.params, o.bufs):
                            if t.attr in d:
                                gone = d.pop(t.attr)
                        if gone is MISSING:
                            if any(isinstance(c, Ext) and c.path not in ('torch.nn.Module', 'abc.ABC', 'builtins.object') for c in o.cls.mro):
                                raise Unk('del of attribute')
                            self.raise_('AttributeError', t.attr)
                else:
                    self.unk('del of attribute')
                    self.tainted = True

    def x_Assert(self, s, env):
        v = self.eval(s.test, env)
        if isinstance(v, T):
            vv = self.apply_facts(v)
            if vv.const is None:
                # an assertion that is not decidable: both outcomes possible, continue assuming it holds
                self.effects.append(dict(kind='assume-assert', where=self.loc(), cond=vv))
                self.facts.append((vv, True))
                return
            v = vv.const != 0
        if isinstance(v, Unknown):
            return
        if not self.truth(v):
            m = self.eval(s.msg, env) if s.msg is not None else None
            self.raise_('AssertionError', ast.unparse(s.test), ExtVal('builtins.AssertionError', (m,)) if m is not None else None)

    def x_If(self, s, env):
        self.block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)

    def x_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            m = self.fits(v, c.pattern, env)
            if m is True or m is not False and self.truth(m):
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    return self.block(c.body, env)

    def fits(self, v, p, env):
        """pattern p against the value v: True, False, or a condition"""
        bind = lambda n: n is None or self.assign(ast.copy_location(ast.Name(id=n, ctx=ast.Store()), p), v, env)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                m = self.fits(v, p.pattern, env)
                if not (m is True or m is not False and self.truth(m)):
                    return False
            bind(p.name)
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                m = self.fits(v, q, env)
                if m is True or m is not False and self.truth(m):
                    return True
            return False
        if isinstance(p, ast.MatchSingleton):
            return self.tmod.compare(self, 'Is', v, p.value)
        if isinstance(p, ast.MatchValue):
            return self.tmod.compare(self, 'Eq', v, self.eval(p.value, env))
        if isinstance(p, ast.MatchClass):
            m = self.tmod.is_inst(self, v, self.eval(p.cls, env))
            if not (m is True or m is not False and self.truth(m)):
                return False
            if p.patterns:
                return self.unk('positional class pattern')
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                m = self.fits(self.getattr(v, n), q, env)
                if not (m is True or m is not False and self.truth(m)):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (T, str, int, float, dict)) or v is None:
                return False
            if not isinstance(v, (list, tuple)):
                return self.unk('sequence pattern')
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if len(v) != n and not star or len(v) < n - 1:
                return False
            if star:
                i = star[0]
                k = len(v) - (n - 1)
                if p.patterns[i].name is not None:
                    self.assign(ast.copy_location(ast.Name(id=p.patterns[i].name, ctx=ast.Store()), p), list(v[i:i + k]), env)
                pairs = list(zip(v[:i], p.patterns[:i])) + list(zip(v[i + k:], p.patterns[i + 1:]))
            else:
                pairs = list(zip(v, p.patterns))
            for x, q in pairs:
                m = self.fits(x, q, env)
                if not (m is True or m is not False and self.truth(m)):
                    return False
            return True
        if isinstance(p, ast.MatchMapping) and isinstance(v, dict):
            ks = [self.eval(k, env) for k in p.keys]
            for k, q in zip(ks, p.patterns):
                if k not in v:
                    return False
                m = self.fits(v[k], q, env)
                if not (m is True or m is not False and self.truth(m)):
                    return False
            if p.rest is not None:
                self.assign(ast.copy_location(ast.Name(id=p.rest, ctx=ast.Store()), p), {k: x for k, x in v.items() if k not in ks}, env)
            return True
        return self.unk(f'pattern {type(p).__name__}')

    def x_While(self, s, env):
        n = 0
        key = id(s)
        while True:
            c = self.eval(s.test, env)
            if n >= 2 or (n >= 1 and isinstance(c, (T, Ten, Unknown)) and not self._const(c)):
                # loop exit: the condition is false afterwards (havoc by one symbolic iteration)
                cc = c.body if isinstance(c, Ten) else c
                if isinstance(cc, T) and self.apply_facts(cc).const is None:
                    self.decide(cc, prefer=False)
                    break
                if isinstance(cc, Unknown):
                    break
            if n > 200:
                raise PathLimit('while')
            if not self.truth(c):
                break
            n += 1
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env)

    def _const(self, c):
        if isinstance(c, Ten):
            c = c.body
        if isinstance(c, T):
            return self.apply_facts(c).const is not None
        return False

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        seq = self.iterate(it)
        if seq is None:
            # unknown iteration: analyse one generic iteration, then continue (values assigned inside are unknown)
            self.tainted = True
            self.unk(f'loop over {it!r}')
            v = Unknown('loop element') if not hasattr(it, 'elem') else it.elem
            try:
                self.assign(s.target, v, env)
                self.block(s.body, env)
            except (Brk, Cont):
                pass
            return
        for v in seq:
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, env)

    def iterate(self, it):
        """python list of elements or None"""
        if isinstance(it, Endless):
            return None
        if isinstance(it, self.tmod.PyIter):
            out = list(it)
            del it[:]
            return out
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, range):
            return list(it) if len(it) < 512 else None
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, (set, frozenset)):
            return sorted(it, key=repr)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Ten):
            k = it.shape[0].cint if it.dim else None
            if k is not None and k <= 64:
                return [self.tmod.getitem(self, it, i) for i in range(k)]
            return None
        if isinstance(it, Obj):
            seq = self.tmod.module_iter(self, it)
            if seq is not None:
                return seq
            f = self.find_attr(it.cls, '__iter__')
            if f is not MISSING:
                return self.iterate(self.call(self.bind(f, it), [], {}))
            f = self.find_attr(it.cls, '__getitem__')
            if f is not MISSING:
                out = []
                try:
                    while len(out) < 256:
                        out.append(self.call(self.bind(f, it), [len(out)], {}))
                except PyRaise as e:
                    if e.etype != 'IndexError':
                        raise
                    return out
            return None
        if isinstance(it, Cls) and it.enum:
            return list(it.members)
        if isinstance(it, Builtin) and it.name == 'symrange':
            return None
        return None

    def x_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)

        def run():
            self.with_items(items[1:], body, env)
        if isinstance(cm, CtxVal) and cm.kind == 'nograd':
            self.nograd += 1
            try:
                run()
            finally:
                self.nograd -= 1
            return
        if isinstance(cm, CtxVal) and cm.kind == 'gradon':
            old, self.nograd = self.nograd, 0
            try:
                run()
            finally:
                self.nograd = old
            return
        if isinstance(cm, CtxVal) and cm.kind == 'suppress':
            try:
                run()
            except PyRaise as e:
                if not self.matches_types(cm.payload, e):
                    raise
            return
        if isinstance(cm, CtxVal) and cm.kind == 'value':
            if it.optional_vars:
                self.assign(it.optional_vars, cm.payload, env)
            run()
            return
        if isinstance(cm, CtxVal) and cm.kind == 'forkrng':
            st = self.rngstate
            try:
                run()
            finally:
                self.rngstate = st
                self.rng.append(('torch', 'set', st, self.loc()))
            return
        if isinstance(cm, CtxVal) and cm.kind == 'gen':
            f, args, kwargs = cm.payload
            self.run_ctx_gen(f, args, kwargs, lambda v: (self.assign(it.optional_vars, v, env) if it.optional_vars else None, run()))
            return
        if isinstance(cm, Obj):
            en = self.find_attr(cm.cls, '__enter__')
            ex = self.find_attr(cm.cls, '__exit__')
            if en is not MISSING and ex is not MISSING:
                v = self.call(Bound(en, cm), [], {})
                if it.optional_vars:
                    self.assign(it.optional_vars, v, env)
                try:
                    run()
                except PyRaise as e:
                    r = self.call(Bound(ex, cm), [Ext('builtins.' + e.etype), e.value, None], {})
                    if r is True:
                        return
                    raise
                except (Ret, Brk, Cont):
                    self.call(Bound(ex, cm), [None, None, None], {})
                    raise
                self.call(Bound(ex, cm), [None, None, None], {})
                return
        if it.optional_vars:
            self.assign(it.optional_vars, cm if isinstance(cm, (ExtVal, Unknown)) else Unknown('with'), env)
        try:
            run()
        except PyRaise:
            if isinstance(cm, Unknown):
                self.tainted = True      # an unknown context manager may swallow it
            raise

    def run_ctx_gen(self, f, args, kwargs, body):
        """interpret a @contextmanager generator with the with-body as the yield continuation"""
        env = Env(f.closure if f.closure is not None else f.module.env)
        self.visited.add(f.qual)
        self.calls.append((self.loc(), f.qual))
        env.vars.update(self.bind_args(f, args, kwargs))
        pending = []

        def on_yield(v):
            # with-body executes at the yield point
            depth = len(self.frames)
            fr = self.frames.pop()
            try:
                body(v)
            except (Ret, Brk, Cont) as e:
                pending.append(e)      # generator resumes normally, then control transfer continues
            finally:
                self.frames.append(fr)
        self.frames.append(Frame(f, env))
        nb = len(self.frames)
        old = getattr(self, 'yield_cb', None)
        stack = getattr(self, 'yield_stack', [])
        self.yield_stack = stack + [on_yield]
        try:
            try:
                self.block(f.node.body, env)
            except Ret:
                pass
        finally:
            self.yield_stack = stack
            del self.frames[nb - 1:]
        if pending:
            raise pending[0]

    def x_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if self.matches(h, e, env):
                        if h.name:
                            env.vars[h.name] = e.value if e.value is not None else ExtVal(e.etype, (e.msg,))
                        self.cur_exc = e
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def matches(self, h, e, env):
        if h.type is None:
            return True
        t = self.eval(h.type, env)
        return self.matches_types(t if isinstance(t, tuple) else (t,), e)

    def matches_types(self, ts, e):
        for x in ts:
            n = x.path.split('.')[-1] if isinstance(x, Ext) else getattr(x, 'name', None)
            if n in (e.etype, 'BaseException'):
                return True
            if n == 'Exception' and e.etype not in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
                return True
            if isinstance(e.value, Obj) and isinstance(x, (Cls, Ext)) and x in e.value.cls.mro:
                return True
            cls = getattr(_b, e.etype, None)
            cx = getattr(_b, n, None) if n else None
            if isinstance(cls, type) and isinstance(cx, type) and issubclass(cls, cx):
                return True
        return False

    def x_Raise(self, s, env):
        if s.exc is None:
            raise getattr(self, 'cur_exc', PyRaise('RuntimeError', 'reraise', self.loc()))
        v = self.eval(s.exc, env)
        if isinstance(v, Ext):
            self.raise_(v.path.split('.')[-1], '')
        if isinstance(v, Cls):
            v = self.instantiate(v, [], {})
        if isinstance(v, Obj):
            raise PyRaise(v.cls.name, repr(v.attrs.get('args', '')), self.loc(), v)
        if isinstance(v, ExtVal):
            raise PyRaise(v.path.split('.')[-1], ', '.join(map(str, v.args)), self.loc(), v)
        self.raise_('Exception', repr(v))

    def x_FunctionDef(self, s, env):
        fr = self.frames[-1]
        f = self.mkfunc(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, env)
        env.vars[s.name] = v

    x_AsyncFunctionDef = x_FunctionDef

    def mkfunc(self, node, env, cls=None):
        fr = self.frames[-1]
        f = Func(node, fr.func.module, env, cls=cls)
        f.defaults = [self.eval(d, env) for d in node.args.defaults]
        f.kwdefaults = [self.eval(d, env) if d is not None else MISSING for d in node.args.kw_defaults]
        if not isinstance(node, ast.Lambda):
            f.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for st in node.body for n in walk_own(st))
        return f

    def decorate(self, v, d, env):
        name = ast.unparse(d)
        base_ = name.split('(')[0].split('.')[-1]
        if isinstance(v, Func):
            if base_ in ('property',):
                v.kind = 'property'
                return v
            if base_ == 'cached_property':
                v.kind = 'property'
                v.cached = True
                v.cname = None
                return v
            if base_ == 'staticmethod':
                v.kind = 'static'
                return v
            if base_ == 'classmethod':
                v.kind = 'classmethod'
                return v
            if base_ == 'abstractmethod':
                v.abstract = True
                return v
            if base_ == 'contextmanager':
                v.kind = 'ctxmgr'
                return v
            if base_ in ('setter', 'deleter', 'getter') and isinstance(d, ast.Attribute):
                old = self.eval(d.value, env)
                if base_ == 'setter':
                    old.setter = v
                elif base_ == 'deleter':
                    old.deleter = v
                else:
                    raise Unk('property getter')
                return old
            if base_ in ('no_grad', 'inference_mode'):
                inner = v

                def ng(it, a, k):
                    it.nograd += 1
                    try:
                        return it.call_func(inner, a, k)
                    finally:
                        it.nograd -= 1
                b = Builtin(v.name, ng)
                b.method = True
                b.func = inner
                return b
            if base_ in ('main', 'hydra', 'compile', 'overload', 'lru_cache', 'cache', 'wraps', 'jit', 'script', 'rank_zero_only', 'override'):
                return v
        if isinstance(v, Cls) and base_ == 'dataclass':
            fields = []
            for st in v.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    n = st.target.id
                    if n in v.attrs:
                        dv = v.attrs[n]
                        if isinstance(dv, ExtVal) and dv.path == 'dataclasses.field':
                            fac = dv.kwargs.get('default_factory')
                            dd = dv.kwargs.get('default', MISSING)
                            if dd is MISSING:
                                v.attrs.pop(n)
                            else:
                                v.attrs[n] = dd
                            fields.append((n, dd, fac))
                        else:
                            if isinstance(dv, (list, dict, set)):
                                self.raise_('ValueError', f'mutable default {type(dv)} for field {n}')
                            fields.append((n, dv, None))
                    else:
                        fields.append((n, MISSING, None))
            v.dataclass = fields
            v.dceq = True
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == 'eq' and isinstance(k.value, ast.Constant):
                        v.dceq = bool(k.value.value)
                    if k.arg == 'frozen' and isinstance(k.value, ast.Constant):
                        v.frozen = bool(k.value.value)
            return v
        dv = self.eval(d, env)
        if isinstance(dv, (Func, Bound, Builtin)) or isinstance(dv, Cls) and isinstance(v, Func):
            return self.call(dv, [v], {})
        if isinstance(dv, Unknown) or isinstance(dv, (Ext, ExtVal)) and base_ in self.REWRITES:
            return Unknown(f'decorator {base_}')
        return v

    REWRITES = ('singledispatch', 'singledispatchmethod', 'register', 'asynccontextmanager', 'vectorize', 'vmap', 'checkpoint', 'retry', 'grad', 'cached')

    def x_ClassDef(self, s, env):
        fr = self.frames[-1]
        c = Cls(s.name, fr.func.module, s)
        bases = []
        for b in s.bases:
            v = self.eval(b, env)
            if isinstance(v, Ext) and v.path.endswith('.LightningModule'):
                v = Ext('torch.nn.Module')
            bases.append(v)
        c.bases = bases
        c.mro = self.c3(c, bases)
        c.enum = any(isinstance(b, Ext) and b.path in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum') or isinstance(b, Cls) and b.enum for b in bases)
        cenv = Env(env)
        for st in s.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.mkfunc(st, env, cls=c)
                v = f
                for d in reversed(st.decorator_list):
                    v = self.decorate(v, d, cenv)
                cenv.vars[st.name] = v
            else:
                self.exec(st, cenv)
        for n, v in cenv.vars.items():
            if c.enum and not isinstance(v, (Func, Builtin)) and not n.startswith('__'):
                if isinstance(v, ExtVal) and v.path == 'enum.auto':
                    ints = [m.value for m in c.members if isinstance(m.value, int)]
                    v = n.lower() if any(isinstance(b, Ext) and b.path == 'enum.StrEnum' for b in c.mro) else (max(ints) + 1 if ints else 1)
                    if '_generate_next_value_' in cenv.vars:
                        v = Unknown('enum.auto')
                m = EnumMember(c, n, v)
                c.members.append(m)
                v = m
            c.attrs[n] = v
        c.meta = any(k.arg == 'metaclass' and not isinstance(self.eval(k.value, env), Ext) for k in s.keywords)
        for n, v in list(c.attrs.items()):
            if isinstance(v, Obj) and not v.is_module and self.find_attr(v.cls, '__set_name__') is not MISSING:
                self.call(self.getattr(v, '__set_name__'), [c, n], {})
        for b in c.mro[1:]:
            if isinstance(b, Cls) and '__init_subclass__' in b.attrs:
                f = b.attrs['__init_subclass__']
                f = f.func if isinstance(f, Bound) else f
                self.call(f, [c], {k.arg: self.eval(k.value, env) for k in s.keywords if k.arg not in (None, 'metaclass')})
                break
        if any(isinstance(b, Ext) and b.path == 'typing.NamedTuple' for b in bases):
            c.nt = [(st.target.id, c.attrs.pop(st.target.id, MISSING)) for st in s.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, env)
        env.vars[s.name] = v

    def c3(self, c, bases):
        seqs = []
        for b in bases:
            if isinstance(b, Cls):
                seqs.append(list(b.mro))
            elif isinstance(b, Ext):
                seqs.append([b])
            else:
                seqs.append([Ext('unknown')])
        seqs.append([b if isinstance(b, (Cls, Ext)) else Ext('unknown') for b in bases])
        out = [c]
        while any(seqs):
            seqs = [q for q in seqs if q]
            for q in seqs:
                h = q[0]
                if not any(any(h is x or h == x for x in r[1:]) for r in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in q if not (x is h or x == h)] for q in seqs]
        return out

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name if a.asname else a.name.split('.')[0]
            env.vars[a.asname or top] = self.import_(top if not a.asname else a.name)

    def x_ImportFrom(self, s, env):
        mod = s.module or ''
        if s.level:
            m = self.frames[-1].func.module
            base_ = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                base_ = base_[:-1]
            base_ = base_[:len(base_) - (s.level - 1)]
            mod = '.'.join(base_ + ([mod] if mod else []))
        if self.loader.is_repo(mod):
            m = self.module(mod)
            for a in s.names:
                if a.name == '*':
                    env.vars.update({k: v for k, v in m.env.vars.items() if not k.startswith('_')})
                    continue
                v = m.env.get(a.name)
                if v is MISSING:
                    if self.loader.is_repo(mod + '.' + a.name):
                        v = self.module(mod + '.' + a.name)
                    else:
                        self.raise_('ImportError', f"cannot import name '{a.name}' from '{mod}'")
                env.vars[a.asname or a.name] = v
        else:
            for a in s.names:
                env.vars[a.asname or a.name] = self.tmod.import_from(self, mod, a.name)

    def import_(self, name):
        if self.loader.is_repo(name):
            return self.module(name)
        return Ext(self.tmod.canon(name))

    # assignments
    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            env_set(env, t.id, self.augop(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.index(t.slice, env)
            old = self.subscript(o, k)
            self.setitem(o, k, self.binop(op, old, self.eval(s.value, env)))

    def augop(self, op, old, v):
        if isinstance(old, list) and op == 'Add':
            seq = self.iterate(v)
            if seq is None:
                raise Unk('list += unknown')
            old.extend(seq)
            return old
        if isinstance(old, Ten) and not old.np:
            return self.tmod.inplace(self, old, self.binop(op, old, v))
        return self.binop(op, old, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env_set(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Unknown):
                for e in t.elts:
                    self.assign(e, Unknown(v.why), env)
                return
            if isinstance(v, ExtVal):
                for i, e in enumerate(t.elts):
                    self.assign(e, ExtVal('getitem', (v, i)), env)
                return
            seq = self.iterate(v)
            if seq is None:
                for e in t.elts:
                    self.assign(e, self.unk(f'unpack of {v!r}'), env)
                return
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(seq) < n:
                    self.raise_('ValueError', 'not enough values to unpack')
                k = len(seq) - n
                for e, x in zip(t.elts[:i], seq[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, seq[i:i + k], env)
                for e, x in zip(t.elts[i + 1:], seq[i + k:]):
                    self.assign(e, x, env)
                return
            if len(seq) != len(t.elts):
                self.raise_('ValueError', f'unpack {len(seq)} values into {len(t.elts)} targets')
            for e, x in zip(t.elts, seq):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def setitem(self, o, k, v):
        if isinstance(o, NpArr) and not isinstance(k, int):
            raise Unk('assignment to a numpy array')
        if isinstance(o, dict):
            o[self.hashable(k)] = v
            self.effects.append(dict(kind='dictset', obj=o, key=k, value=v, where=self.loc()))
            return
        if isinstance(o, list):
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    self.raise_('IndexError', 'list assignment index out of range')
                o[k] = v
                return
            if isinstance(k, Slice) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                src = self.iterate(v)
                if src is not None:
                    o[slice(k.a, k.b, k.c)] = src
                    return
        if isinstance(o, (Unknown,)):
            return
        if isinstance(o, ExtVal):
            self.effects.append(dict(kind='extsetitem', obj=o, key=k, value=v, where=self.loc()))
            return
        if isinstance(o, Ten):
            try:
                return self.tmod.setitem(self, o, k, v)
            except Unk as e:
                self.unk(str(e))
                o.body = None
                o.stale = True
                return
        if isinstance(o, Obj):
            f = self.find_attr(o.cls, '__setitem__')
            if f is not MISSING:
                return self.call(Bound(f, o), [k, v], {})
            if o.is_module and isinstance(k, int) and str(k) in o.mods:
                o.mods[str(k)] = v
                return
        self.unk(f'setitem on {o!r}')

    def hashable(self, k):
        if isinstance(k, list):
            self.raise_('TypeError', "unhashable type: 'list'")
        return k

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk(f'expression {type(e).__name__}')
        try:
            return m(e, env)
        except Unk as u:
            return self.unk(f'{u} in `{ast.unparse(e)[:80]}`')

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, n, env):
        v = env.get(n)
        if v is MISSING:
            fr = self.frames[-1]
            v = fr.func.module.env.get(n) if isinstance(fr.func, Func) else MISSING
        if v is MISSING:
            v = self.tmod.builtin(self, n)
        if v is MISSING:
            self.raise_('NameError', f"name '{n}' is not defined")
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env_set(env, e.target.id, v)
        return v

    def e_JoinedStr(self, e, env):
        out = ''
        ok = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                out += p.value
            else:
                v = self.eval(p.value, env)
                spec = self.e_JoinedStr(p.format_spec, env) if p.format_spec is not None else ''
                if (isinstance(v, (str, int, float, bool)) or not spec and self.stdlib.plain(v)) and isinstance(spec, str) and p.conversion in (-1, 115, 114):
                    try:
                        out += format(repr(v) if p.conversion == 114 else str(v) if p.conversion == 115 else v, spec)
                    except ValueError as e:
                        self.raise_('ValueError', str(e))
                elif isinstance(v, EnumMember) and p.format_spec is None and isinstance(self.stdlib.enum_str(self, v), str):
                    out += self.stdlib.enum_str(self, v)
                else:
                    ok = False
                    out += f'{{{v!r:.80}}}'
        if ok:
            return out
        return ExtVal('fstring', (out,))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.eval(x.value, env))
                if v is None:
                    raise Unk('star of unknown')
                out.extend(v)
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, env)
                if isinstance(x, dict):
                    d.update(x)
                else:
                    raise Unk('** of unknown')
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (T, Unknown)) else False
            if not isand and t:
                return v if not isinstance(v, (Unknown,)) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            if isinstance(v, T) and v.const is None and all(a.bool for a in v.atoms()):
                return ONE - v
            return not self.truth(v)
        if isinstance(v, Unknown):
            return v
        if op == 'USub':
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, T):
                return norm(-v)
            if isinstance(v, Obj) and self.find_attr(v.cls, '__neg__') is not MISSING:
                return self.call(self.getattr(v, '__neg__'), [], {})
            return self.tmod.elementwise(self, lambda a: -a, [v])
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, (int,)) and not isinstance(v, bool):
                return ~v
            return self.tmod.elementwise(self, lambda a: ONE - a, [v], dtype='bool')

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        return self.tmod.binop(self, op, a, b)

    def eq(self, a, b):
        return self.tmod.compare(self, 'Eq', a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for o, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.tmod.compare(self, type(o).__name__, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, T) and isinstance(v, T):
                    res = res * v
                elif isinstance(v, T) and res is True:
                    res = v
                elif isinstance(res, T) and v is True:
                    pass
                elif isinstance(res, Unknown) or isinstance(v, Unknown):
                    res = Unknown('chain compare')
                else:
                    res = self.truth(res) and self.truth(v)
            left = right
            if res is False:
                return False
        return res

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = None
            for f in reversed(self.frames):
                if f.func and getattr(f.func, 'cls', None) is not None:
                    fr = f
                    break
            if fr is None:
                raise Unk('super outside class')
            if e.args:
                return Super(self.eval(e.args[0], env), self.eval(e.args[1], env))
            return Super(fr.func.cls, fr.self_)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iterate(self.eval(a.value, env))
                if v is None:
                    raise Unk('*args of unknown')
                args.extend(v)
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if kk in kw:
                            self.raise_('TypeError', f"got multiple values for keyword argument '{kk}'")
                        kw[kk] = vv
                else:
                    raise Unk('**kwargs of unknown')
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.cur_call = e
        return self.call(f, args, kw, e)

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.index(e.slice, env)
        return self.subscript(o, k)

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                out.append(self.index(x, env))
            return tuple(out)
        return self.eval(s, env)

    def subscript(self, o, k):
        if isinstance(o, Unknown):
            return Unknown(o.why)
        if isinstance(k, NpInt):
            k = int(k)
        if isinstance(k, NpArr):
            k = self.tmod.nparr(self, k)
        if isinstance(o, NpArr):
            if isinstance(k, Slice) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return NpArr(o[slice(k.a, k.b, k.c)])
            if not isinstance(k, int):
                o = self.tmod.nparr(self, o)
        if self.tmod.isint_enum(k) and not isinstance(o, (dict, Obj)):
            k = k.value
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, Slice):
                if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                    return o[slice(k.a, k.b, k.c)]
                raise Unk('symbolic slice of list')
            if isinstance(k, bool) or isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_('IndexError', 'index out of range')
            if isinstance(k, T):
                raise Unk('symbolic list index')
            if isinstance(k, Unknown):
                raise Unk(k.why)
            self.raise_('TypeError', f'list indices must be integers, not {k!r}')
        if isinstance(o, dict):
            if isinstance(k, (Unknown, ExtVal)):
                return ExtVal('getitem', (o, k))
            if isinstance(k, EnumMember) and isinstance(k.value, str) and k not in o and k.value in o:
                return o[k.value]
            if k in o:
                return o[k]
            if isinstance(o, DefaultDict) and o.factory is not None:
                o[k] = self.call(o.factory, [], {})
                return o[k]
            self.raise_('KeyError', repr(k))
        if isinstance(o, (Ten, SymList, Masked)):
            return self.tmod.getitem(self, o, k)
        if isinstance(o, Obj):
            f = self.find_attr(o.cls, '__getitem__')
            if f is not MISSING:
                return self.call(Bound(f, o), [k], {})
            seq = self.tmod.module_iter(self, o)
            if seq is not None:
                return self.subscript(seq, k)
            self.raise_('TypeError', f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, Cls):
            if o.enum:
                for m in o.members:
                    if m.name == k:
                        return m
                self.raise_('KeyError', repr(k))
            return o
        if isinstance(o, (Ext, ExtVal, CtxVal)):
            if isinstance(o, Ext) and (o.path.startswith('typing.') or o.path.startswith('builtins.')):
                return o
            return ExtVal('getitem', (o, k))
        if isinstance(o, EnumMember):
            return self.subscript(o.value, k)
        if o is None or isinstance(o, (int, float, bool)):
            self.raise_('TypeError', f"'{type(o).__name__}' object is not subscriptable")
        raise Unk(f'subscript of {o!r}')

    # comprehensions
    def comp(self, gens, env, emit):
        out = []

        def rec(i, env):
            if i == len(gens):
                out.append(emit(env))
                return
            g = gens[i]
            it = self.eval(g.iter, env)
            seq = self.iterate(it)
            if seq is None:
                raise SymIter(i, it)
            for v in seq:
                e2 = Env(env)
                self.assign(g.target, v, e2)
                if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                    rec(i + 1, e2)
        rec(0, env)
        return out

    def e_ListComp(self, e, env):
        try:
            return self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        except SymIter:
            return self.symcomp(e, env)

    def symcomp(self, e, env):
        axes = []
        en = Env(env)
        for g in e.generators:
            it = self.eval(g.iter, en)
            if g.ifs:
                raise Unk('filtered symbolic comprehension')
            if isinstance(it, Builtin) and it.name == 'symrange':
                lo, hi = it.lo, it.hi
                n, v = newvar(hi - lo)
                axes.append((n, hi - lo))
                self.assign(g.target, norm(v + lo), en)
            elif isinstance(it, range):
                n, v = newvar(lift(len(it)))
                axes.append((n if len(it) > 1 else None, lift(len(it))))
                self.assign(g.target, norm(v * it.step + it.start), en)
            elif isinstance(it, SymList):
                axes += it.axes
                self.assign(g.target, it.elem, en)
            else:
                raise Unk(f'comprehension over {it!r}')
        return SymList(axes, self.eval(e.elt, en))

    def e_GeneratorExp(self, e, env):
        r = self.e_ListComp(e, env)
        return self.tmod.PyIter(r) if type(r) is list else r

    def e_SetComp(self, e, env):
        return set(self.comp(e.generators, env, lambda en: self.eval(e.elt, en)))

    def e_DictComp(self, e, env):
        return dict(self.comp(e.generators, env, lambda en: (self.eval(e.key, en), self.eval(e.value, en))))

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        ys = getattr(self, 'yield_stack', [])
        fr = self.frames[-1]
        if isinstance(fr.func, Func) and fr.func.kind == 'ctxmgr' and ys:
            cb = ys[-1]
            cb(v)
            return None
        gs = getattr(self, 'gen_stack', [])
        if gs:
            gs[-1].append(v)
            self.gen_full(gs[-1])
            return None
        raise Unk('yield')

    gen_limit = None     # an analysis of an endless generator looks at this many of its first values

    def gen_full(self, out):
        if self.gen_limit is not None and len(out) >= self.gen_limit:
            raise GenStop()

    def e_YieldFrom(self, e, env):
        gs = getattr(self, 'gen_stack', [])
        if not gs:
            raise Unk('yield from')
        out = gs[-1]
        src = self.eval(e.value, env)
        vs = self.iterate(src)
        if vs is None:
            raise Unk('yield from unknown')
        for v in vs:
            out.append(v)
            self.gen_full(out)
        return getattr(src, 'returned', None)

    def e_Await(self, e, env):
        return self.eval(e.value, env)

    def e_FormattedValue(self, e, env):
        return ExtVal('fstring', (self.eval(e.value, env),))


class GenStop(Exception):
    pass


class SymIter(Exception):
    def __init__(self, i, it):
        self.i, self.it = i, it


def walk_own(node):
    """ast.walk not entering nested functions"""
    yield node
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(node):
        yield from walk_own(c)


def env_set(env, n, v):
    if n in env.globals_:
        e = env.parent
        while e is not None:
            if n in e.vars:
                e.vars[n] = v
                return
            e = e.parent
    env.vars[n] = v


def norm(t):
    """T -> python int when constant integer"""
    if isinstance(t, T):
        k = t.cint
        if k is not None:
            return k
        c = t.const
        if c is not None:
            return float(c)
    return t


# ---------------------------------------------------------------- path exploration
class PathResult:
    def __init__(self, it, value=None, exc=None):
        self.it, self.value, self.exc = it, value, exc

    @property
    def facts(self):
        return self.it.facts

    def conds(self):
        return [f'{c}={v}' for c, v, fk in self.it.taken if fk]


def explore(loader, run, maxpaths=64, training=False, setup=None, first=False):
    """run(interp)->value under every combination of undecided branches (bounded)"""
    results = []
    work = [()]
    while work:
        dec = work.pop()
        if len(results) >= maxpaths:
            raise PathLimit(f'more than {maxpaths} paths')
        it = Interp(loader, dec, training=training)
        if setup:
            setup(it)
        try:
            v = run(it)
            r = PathResult(it, v)
        except PyRaise as e:
            r = PathResult(it, exc=e)
        except Unk as e:
            it.unknown.append(str(e))
            it.tainted = True
            r = PathResult(it, Unknown(str(e)))
        results.append(r)
        if first:
            break
        forks = [t for t in it.taken if t[2]]
        for i in range(len(dec), len(forks)):
            work.append(tuple(t[1] for t in forks[:i]) + (not forks[i][1],))
    return results
