"""Equality of value-number terms: normal forms with case splits; a mismatch is only reported as a difference when
a valuation of the opaque symbols distinguishes the two derived terms (so weaknesses of the normaliser stay silent)."""
import itertools
import math
import random
from fractions import Fraction
from .terms import *
from . import terms as tm


class NoVal(Exception):
    pass


# ------------------------------------------------------------------ structural
def _conds(t):
    out = []
    for a in all_atoms(t):
        if a.bool and a.kind in ('eq0', 'ge0', 'gt0') and not any(v[0] in '#%' for v in a.fv):
            out.append(a)
    return sorted(set(out), key=lambda a: (len(a.fv), a.key))


def learn(t, a, val):
    """t under boolean atom a == val, using equations to substitute"""
    t = subst_atom(t, a, ONE if val else ZERO)
    if val and a.kind == 'eq0':
        p = a.args[0]
        for m, c in p.ms:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind in ('el', 'var', 'sym'):
                x = m[0][0]
                rest = p - T({m: c})
                if not contains_atom(rest, lambda z: z is x):
                    t = subst_atom(t, x, rest.scale(-1 / c))
                    break
    return t


_NEW = [0]


def _fresh_index(n):
    if n.cint == 1:
        return ZERO
    _NEW[0] += 1
    b = f'j%{_NEW[0]}'
    base(b, integer=True, rng=n)
    return el(b)


def _index_splits(a, b):
    """a closed index atom X with known range and ordered thresholds -> [(X, [replacement terms])]"""
    cand = {}
    mods = {}
    for t in (a, b):
        for z in all_atoms(t):
            if any(v[0] in '#%' for v in z.fv):
                continue
            if z.kind == 'ge0':
                for m, c in z.args[0].ms:
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'el' and _ranged(m[0][0]):
                        r = (z.args[0] - T({m: c})).scale(-1 / c)
                        if all(y.kind == 'sym' for y in r.atoms()):
                            cand.setdefault(m[0][0], set()).add(r if c > 0 else r + 1)
            elif z.kind == 'eq0':
                for m, c in z.args[0].ms:
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'el' and _ranged(m[0][0]):
                        r = (z.args[0] - T({m: c})).scale(-1 / c)
                        if all(y.kind == 'sym' for y in r.atoms()):
                            cand.setdefault(m[0][0], set()).update((r, r + 1))
            elif z.kind == 'fn' and z.args[0] in ('fdiv', 'mod'):
                x, m = z.args[1]
                if m.cint:
                    from math import gcd, lcm
                    for mm, c in x.ms:
                        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == 'el' and _ranged(mm[0][0]) and c.denominator == 1:
                            k = m.cint // gcd(m.cint, int(c))
                            if k > 1:
                                mods[mm[0][0]] = lcm(mods.get(mm[0][0], 1), k)
                    continue
                y = x.single()
                if y is not None and y.kind == 'el' and _ranged(y) and all(w.kind == 'sym' for w in m.atoms()):
                    if True:
                        n = BASES[y.args[0]]['range']
                        for k in range(9):
                            if nonneg(m * k - n):
                                break
                            cand.setdefault(y, set()).add(m * k)
                        else:
                            cand.pop(y, None)
    for X in sorted(mods, key=lambda z: z.key):
        n = BASES[X.args[0]]['range']
        m = lift(mods[X])
        if m.cint > 16:
            continue
        out = []
        for r in range(m.cint):
            # values r, r+m, ... < n
            out.append(m * _fresh_index(cdiv(n - r, m)) + r)
        return X, out
    for X in sorted(cand, key=lambda z: z.key):
        n = BASES[X.args[0]]['range']
        ts = [t for t in cand[X] if not nonneg(-t) and not nonneg(t - n)]
        import functools
        bad = []

        def cmp(u, v):
            if u is v:
                return 0
            if nonneg(u - v):
                return 1
            if nonneg(v - u):
                return -1
            bad.append(1)
            return 0
        ts.sort(key=functools.cmp_to_key(cmp))
        if bad or not ts:
            continue
        ts = [ZERO] + ts + [n]
        if not all(nonneg(v - u) for u, v in zip(ts, ts[1:])):
            continue
        return X, [u + _fresh_index(v - u) for u, v in zip(ts, ts[1:])]
    return None


def _place(t, X, r):
    """t with index atom X == r; if X is perm^-1[d] then d == perm[r]"""
    t = subst_atom(t, X, r)
    i = BASES.get(X.args[0], {})
    if i.get('perm') and i.get('inv'):
        d = X.args[1][-1].single()
        if d is not None and d.kind == 'el' and not any(v[0] in '#%' for v in d.fv):
            t = subst_atom(t, d, el(i['inv'], *X.args[1][:-1], r))
    return t


def _ranged(z):
    return BASES.get(z.args[0], {}).get('range') is not None


def same(a, b, depth=9):
    if a is b:
        return True
    if depth <= 0:
        return False
    sp = _index_splits(a, b)
    if sp is not None:
        X, reps = sp
        return all(same(_place(a, X, r), _place(b, X, r), depth - 1) for r in reps)
    if a.ms and b.ms:
        for f in (log, exp):
            try:
                if f(a) is f(b):
                    return True
            except Exception:
                pass
    cs = sorted(set(_conds(a) + _conds(b)), key=lambda z: (len(z.fv), z.key))
    for c in cs[:3]:
        ok = True
        for v in (True, False):
            x, y = learn(a, c, v), learn(b, c, v)
            if (x is a and y is b) or not same(x, y, depth - 1):
                ok = False
                break
        if ok:
            return True
        break
    return False


# ------------------------------------------------------------------ valuation
class Val:
    LIM = 200000

    def __init__(self, seed, big=False, sizes=None):
        self.seed = seed
        self.sizes = dict(sizes or {})
        self.memo = {}
        self.steps = 0
        self.big = big

    def rnd(self, *k):
        return random.Random(repr((self.seed,) + k))

    def sym(self, n):
        if n in self.sizes:
            return self.sizes[n]
        i = SYMS.get(n, {})
        r = self.rnd('sym', n)
        lo = i.get('lo')
        if i.get('int', True):
            v = (1 if lo is None else int(lo)) + r.choice([0, 1, 1, 2, 2, 3])
        else:
            v = (0.05 if lo is None or lo == 0 or lo == 1 else float(lo)) + r.random() * 2
            if lo is not None and i.get('hi') is not None:
                v = lo + (i['hi'] - lo) * r.random()
        self.sizes[n] = v
        return v

    def el(self, b, idx):
        i = BASES.get(b, {})
        r = self.rnd('el', b, idx)
        if i.get('inv') and not i.get('perm_src'):
            src = BASES.get(i['inv'], {})
        if i.get('table') is not None:
            k = int(idx[-1])
            if not 0 <= k < len(i['table']):
                raise NoVal('table index')
            return i['table'][k]
        if i.get('perm'):
            p = self.perm(b, idx[:-1], i)
            k = int(idx[-1])
            if not 0 <= k < len(p):
                raise NoVal('perm index')
            return p[k]
        if i.get('maynan') and self.rnd('nan', b, idx).random() < 0.3:
            return float('nan')
        if i.get('bool'):
            return r.randint(0, 1)
        if i.get('range') is not None:
            n = self.ev(i['range'], {})
            if n < 1:
                raise NoVal('empty range')
            return r.randrange(int(n))
        if i.get('int'):
            return r.randrange(5)
        v = r.gauss(0, 1)
        if i.get('nonneg') or i.get('pos'):
            v = abs(v) + 0.01
        if i.get('unit'):
            v = r.random()
        return v

    def perm(self, b, pre, i):
        n = int(self.ev(i['range'], {}))
        inv = i.get('inv')
        if inv and inv < b:
            src = self.perm(inv, pre, BASES[inv])
            out = [0] * n
            for x, y in enumerate(src):
                out[y] = x
            return out
        l = list(range(n))
        self.rnd('perm', b, pre).shuffle(l)
        return l

    def ev(self, t, env):
        tot = 0
        for m, c in t.ms:
            x = int(c) if c.denominator == 1 else float(c)
            dead = False
            for a, p in m:
                v = self.at(a, env)
                if p != 1:
                    if v == 0 and p < 0:
                        v = math.inf
                    else:
                        v = v ** (int(p) if p == int(p) else float(p))
                if isinstance(v, float) and math.isinf(v) and x == 0:
                    v = math.nan if not dead else 0
                x = x * v
            tot = tot + x
        return tot

    def at(self, a, env):
        self.steps += 1
        if self.steps > self.LIM:
            raise NoVal('too large')
        k = a.kind
        if k == 'var':
            if a.args[0] in env:
                return env[a.args[0]]
            s = VARS.get(a.args[0])
            if s is None:
                raise NoVal('unbound')
            n = int(self.ev(s, {}))
            if n < 1:
                raise NoVal('empty axis')
            return self.rnd('var', a.args[0]).randrange(n)
        if k == 'sym':
            if a.args[0] == 'inf':
                return math.inf
            return self.sym(a.args[0])
        if k in ('inf',):
            return math.inf
        if k == 'nan':
            return math.nan
        key = (a, tuple((v, env.get(v)) for v in sorted(a.fv)))
        if key in self.memo:
            return self.memo[key]
        r = self._at(a, env)
        self.memo[key] = r
        return r

    def _at(self, a, env):
        k = a.kind
        if k == 'el':
            return self.el(a.args[0], tuple(self.rd(self.ev(i, env)) for i in a.args[1]))
        if k == 'eq0':
            v = self.ev(a.args[0], env)
            return 1 if abs(v) < 1e-9 else 0
        if k == 'ge0':
            return 1 if self.ev(a.args[0], env) >= -1e-9 else 0
        if k == 'gt0':
            return 1 if self.ev(a.args[0], env) > 1e-9 else 0
        if k == 'sel':
            return self.ev(a.args[1] if self.ev(a.args[0], env) else a.args[2], env)
        if k == 'exp':
            v = self.ev(a.args[0], env)
            return math.inf if v > 700 else math.exp(v) if v == v else v
        if k == 'fn':
            return self.fn(a.args[0], [self.ev(x, env) for x in a.args[1]], a)
        if k == 'red':
            op, sizes, body = a.args
            h = a.hgt
            names = [f'#{h}.{i}' for i in range(len(sizes))]
            ns = [int(self.ev(s, env)) for s in sizes]
            tot = 1
            for n in ns:
                tot *= max(n, 0)
            if tot > 4000:
                raise NoVal('large reduction')
            vals = []

            def go(i, e):
                if i == len(ns):
                    vals.append(self.ev(body, e))
                    return
                for x in range(ns[i]):
                    e2 = dict(e)
                    e2[names[i]] = x
                    go(i + 1, e2)
            go(0, env)
            return self.fold(op, vals)
        if k == 'draw':
            did, kind, idx, sizes, laws = a.args
            h = a.hgt
            names = [f'#{h}.{i}' for i in range(len(sizes))]
            ns = [int(self.ev(s, env)) for s in sizes]
            vec = []
            if len(ns) == 1 and ns[0] <= 4000:
                for x in range(ns[0]):
                    e2 = dict(env)
                    e2[names[0]] = x
                    vec.append(tuple(self.rd(self.ev(l, e2)) for l in laws))
                if kind == 'cat' and vec:
                    m = max(v[0] for v in vec)
                    vec = [self.rd(v[0] - m) for v in vec]
            elif not ns:
                vec = [self.rd(self.ev(l, env)) for l in laws]
            else:
                raise NoVal('draw')
            r = self.rnd('draw', did, kind, tuple(self.rd(self.ev(i, env)) for i in idx), tuple(vec))
            if kind == 'cat':
                return r.randrange(max(ns[0], 1))
            if kind == 'bernoulli':
                return r.randint(0, 1)
            return r.random() if kind == 'rand' else r.gauss(0, 1)
        raise NoVal(f'atom {k}')

    @staticmethod
    def rd(v):
        if isinstance(v, float):
            if v != v or math.isinf(v):
                return repr(v)
            v = round(v, 7)
            return int(v) if v == int(v) else v
        return v

    def fold(self, op, vals):
        if not vals:
            return {'sum': 0, 'prod': 1, 'lse': -math.inf, 'any': 0, 'all': 1}.get(op, 0)
        if op == 'sum':
            return sum(vals)
        if op == 'prod':
            r = 1
            for v in vals:
                r *= v
            return r
        if op == 'lse':
            m = max(vals)
            if m == -math.inf:
                return m
            if any(v != v for v in vals):
                return math.nan
            return m + math.log(sum(math.exp(v - m) for v in vals))
        if op == 'max':
            return math.nan if any(v != v for v in vals) else max(vals)
        if op == 'min':
            return math.nan if any(v != v for v in vals) else min(vals)
        if op == 'argmax':
            if any(v != v for v in vals):
                raise NoVal('argmax nan')
            return vals.index(max(vals))
        if op == 'any':
            return int(any(vals))
        if op == 'all':
            return int(all(vals))
        raise NoVal(op)

    def fn(self, f, v, a):
        if any(isinstance(x, float) and x != x for x in v) and f not in ('isnan',):
            return math.nan
        try:
            if f == 'fdiv':
                return v[0] // v[1]
            if f == 'mod':
                return v[0] % v[1]
            if f == 'log':
                if v[0] < -1e-12:
                    return math.nan
                return -math.inf if v[0] <= 0 else math.log(v[0])
            if f == 'inv':
                return math.inf if v[0] == 0 else 1 / v[0]
            if f == 'sin':
                return math.sin(v[0])
            if f == 'cos':
                return math.cos(v[0])
            if f == 'isnan':
                return int(v[0] != v[0])
            if f == 'isinf':
                return int(math.isinf(v[0]))
            if f == 'sigmoid':
                return 1 / (1 + math.exp(-v[0]))
            if f == 'tmin':
                return min(v)
            if f == 'tmax':
                return max(v)
            if f == 'abs':
                return abs(v[0])
            if f == 'floor':
                return math.floor(v[0])
            if f == 'ceil':
                return math.ceil(v[0])
            if f == 'round':
                return round(v[0])
            if f == 'trunc':
                return math.trunc(v[0])
            if f == 'tanh':
                return math.tanh(v[0])
            if f == 'lgamma':
                return math.lgamma(v[0])
            if f == 'fmod':
                return math.fmod(v[0], v[1])
            if f == 'logit':
                return math.inf if v[0] == 1 else -math.inf if v[0] == 0 else math.log(v[0] / (1 - v[0])) if 0 < v[0] < 1 else math.nan
            if f == 'pow':
                return v[0] ** v[1]
            if f == 'relu':
                return max(v[0], 0)
            if f == 'erf':
                return math.erf(v[0])
            if f == 'softplus':
                return math.log1p(math.exp(v[0]))
            if f == 'silu':
                return v[0] / (1 + math.exp(-v[0]))
            if f == 'sign':
                return (v[0] > 0) - (v[0] < 0)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoVal(f)
        r = self.rnd('fn', f, tuple(self.rd(x) for x in v))
        return r.randint(0, 1) if f in ('inset', 'flag') else r.gauss(0, 1)


try:
    import mpmath
    MP = mpmath.mp.clone()
    MP.prec = 160
except ImportError:  # no scaled valuations
    MP = None


class ScaledVal(Val):
    """real-valued entries and log densities far from zero (arithmetic with unbounded exponents: nothing under- or overflows)"""

    def __init__(self, seed, scale, sizes=None):
        super().__init__(seed, sizes=sizes)
        self.scale = scale

    def el(self, b, idx):
        v = super().el(b, idx)
        i = BASES.get(b, {})
        if isinstance(v, float) and v == v and not i.get('unit'):
            return MP.mpf(v) * self.scale
        return v

    def ev(self, t, env):
        tot = 0
        for m, c in t.ms:
            x = int(c) if c.denominator == 1 else MP.mpf(c.numerator) / c.denominator
            for a, p in m:
                v = self.at(a, env)
                if p != 1:
                    if v == 0 and p < 0:
                        v = MP.inf
                    else:
                        v = v ** (int(p) if p == int(p) else MP.mpf(float(p)))
                if x == 0 and isinstance(v, (float, MP.mpf)) and (v == math.inf or v == -math.inf):
                    v = math.nan
                x = x * v
            tot = tot + x
        return tot

    def _at(self, a, env):
        if a.kind == 'exp':
            return MP.exp(self.ev(a.args[0], env))
        return super()._at(a, env)

    @staticmethod
    def rd(v):
        if isinstance(v, int):
            return v
        if v != v or v in (math.inf, -math.inf):
            return repr(float(v))
        if abs(v) > 1e12:
            return MP.nstr(MP.mpf(v), 9)
        v = round(float(v), 7)
        return int(v) if v == int(v) else v

    def fold(self, op, vals):
        if op == 'lse' and vals:
            m = max(vals)
            if m == -math.inf:
                return m
            if any(v != v for v in vals):
                return math.nan
            return m + MP.log(sum(MP.exp(v - m) for v in vals))
        return super().fold(op, vals)

    def fn(self, f, v, a):
        if any(x != x for x in v) and f not in ('isnan',):
            return math.nan
        if f == 'log':
            if v[0] < -1e-30:
                return math.nan
            return -math.inf if v[0] <= 0 else MP.log(v[0])
        if f == 'inv':
            return math.inf if v[0] == 0 else 1 / MP.mpf(v[0])
        if f == 'sigmoid':
            return 1 / (1 + MP.exp(-v[0]))
        if f == 'softplus':
            return MP.log1p(MP.exp(v[0]))
        if f == 'silu':
            return v[0] / (1 + MP.exp(-v[0]))
        if f in ('sin', 'cos', 'tanh', 'erf'):
            return getattr(MP, f)(v[0])
        if f in ('floor', 'ceil', 'round', 'trunc') and not isinstance(v[0], int):
            x = v[0]
            return int({'floor': MP.floor, 'ceil': MP.ceil, 'round': MP.nint}.get(f, MP.floor if x >= 0 else MP.ceil)(x))
        if f == 'logp':
            return -abs(MP.mpf(super().fn(f, v, a))) * self.scale
        return super().fn(f, v, a)


class ExactVal(Val):
    """log densities of the standard families by their formulas (instead of one arbitrary value per argument tuple)"""

    def fn(self, f, v, a):
        if f == 'logp' and not any(x != x for x in v):
            name = repr(a.args[1][0])
            try:
                if name == 'NORMAL':
                    m, s, x = v[1:]
                    return -((x - m) / s) ** 2 / 2 - math.log(s) - math.log(2 * math.pi) / 2
                if name == 'BERNOULLI':
                    p, x = v[1:]
                    return x * math.log(p) + (1 - x) * math.log(1 - p)
                if name == 'BINOMIAL':
                    n, p, x = v[1:]
                    return math.lgamma(n + 1) - math.lgamma(x + 1) - math.lgamma(n - x + 1) + x * math.log(p) + (n - x) * math.log(1 - p)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoVal(f)
            raise NoVal('density of ' + name)
        return super().fn(f, v, a)


def has_logp(t):
    return tm.contains_atom(t, lambda z: z.kind == 'fn' and z.args[0] == 'logp')


def agree(a, b, trials=12):
    """the terms have equal values at all of a number of random points (densities by their formulas)"""
    n = 0
    for s in range(trials * 4):
        v = ExactVal(s)
        try:
            x, y = v.ev(a, {}), v.ev(b, {})
        except (NoVal, ZeroDivisionError, OverflowError, TypeError, ValueError, RecursionError):
            continue
        if x != x and y != y:
            continue
        if not close(x, y):
            return False
        n += 1
        if n >= trials:
            return True
    return n >= trials // 2


def close(x, y):
    if x != x or y != y:
        return x != x and y != y
    if any(v in (math.inf, -math.inf) for v in (x, y)):
        return x == y
    return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


def use_facts(t, facts):
    """t simplified by path facts: atomic conditions, and conditions known to fail for every element"""
    for c, want in facts:
        a = lift(c).single()
        if a is None:
            continue
        if a.bool and not (a.kind == 'red' and a.args[0] == 'any'):
            t = tm.assume(t, lift(c), want)
        if a.kind == 'red' and a.args[0] == 'any' and not want:
            names, sizes, body = tm.open_red(a)
            small = [(n, z.cint) for n, z in zip(names, sizes) if z.cint is not None and z.cint <= 8]
            if math.prod(k for n, k in small) > 64:
                small = []
            size = dict(zip(names, sizes))
            for vals in itertools.product(*[range(k) for n, k in small]):
                p = subst(body, {n: lift(v) for (n, k), v in zip(small, vals)}).single()
                if p is not None and p.kind == 'fn' and p.args[0] == 'isnan':
                    e = p.args[1][0].single()
                    if e is not None and e.kind == 'el':
                        t = _never_nan(t, e, size)
    return t


def _never_nan(t, e, size):
    """isnan is false for every element matching e (its index variables range over size)"""
    def f(z):
        if z.kind != 'fn' or z.args[0] != 'isnan':
            return None
        y = z.args[1][0].single()
        if y is None or y.kind != 'el' or y.args[0] != e.args[0] or len(y.args[1]) != len(e.args[1]):
            return None
        for i, j in zip(e.args[1], y.args[1]):
            v = i.single()
            if v is not None and v.kind == 'var' and v.args[0] in size:
                if tm.inrange(j, size[v.args[0]]) is not ONE:
                    return None
            elif i is not j:
                return None
        return ZERO
    return tm.rebuild(t, f)


def _finite_split(a, b, facts, depth=2):
    """equality for each value of a closed index with a small constant range"""
    if not depth:
        return False
    cand = {}
    for t in (a, b):
        for z in all_atoms(t):
            if z.kind == 'el' and not z.args[1] and not z.fv:
                r = BASES.get(z.args[0], {}).get('range')
                if r is not None and r.cint is not None and r.cint <= 8:
                    cand[z.args[0]] = (z, r.cint)
    for nm in sorted(cand):
        z, k = cand[nm]
        for i in range(k):
            x, y = (use_facts(subst_atom(t, z, lift(i)), facts) for t in (a, b))
            if not same(x, y) and not _finite_split(x, y, facts, depth - 1):
                break
        else:
            return True
    return False


def _cleared(d):
    """a difference that vanishes once it is multiplied by the positive denominators occurring in it"""
    for _ in range(8):
        inv = [a for a in d.atoms() if a.kind == 'fn' and a.args[0] == 'inv' and tm.strictpos(a.args[1][0])]
        if not inv:
            return d is ZERO
        a = inv[0]
        top = max(q for m, c in d.ms for b, q in m if b is a)
        if top > 4 or len(d.ms) > 400:
            return False
        out = ZERO
        for m, c in d.ms:
            x, n = lift(c), top
            for b, q in m:
                if b is a:
                    n = top - q
                else:
                    x = x * tm.tpow(lift(b), q)
            out = out + x * tm.tpow(a.args[1][0], n)
        d = out
    return False


def compare(a, b, facts=(), trials=16):
    """-> ('eq',None) | ('diff', witness) | ('unproven', reason)"""
    a, b = lift(a), lift(b)
    if same(a, b):
        return 'eq', None
    if facts:
        a, b = use_facts(a, facts), use_facts(b, facts)
        if same(a, b):
            return 'eq', None
    if _finite_split(a, b, facts) or _cleared(a - b):
        return 'eq', None
    why = 'normal forms differ, no distinguishing valuation found'
    tried = 0
    exact = has_logp(a) != has_logp(b)
    for s in range(trials * 4):
        v = ExactVal(s) if exact else Val(s)
        try:
            if not all(bool(v.ev(c, {})) == want for c, want in facts):
                continue
            x, y = v.ev(a, {}), v.ev(b, {})
        except NoVal as e:
            why = f'not evaluable: {e}'
            continue
        except (ZeroDivisionError, OverflowError, TypeError, RecursionError) as e:
            why = f'not evaluable: {e!r}'
            continue
        tried += 1
        if not close(x, y):
            sz = ', '.join(f'{k}={x_}' for k, x_ in sorted(v.sizes.items()))
            return 'diff', f'{x:.6g} != {y:.6g} at sizes [{sz}]'
        if tried >= trials:
            break
    if tried and MP is not None and not exact:
        for scale, s in itertools.product((40, 1500, 10 ** 5), range(4)):
            v = ScaledVal(s, scale)
            try:
                if not all(bool(v.ev(c, {})) == want for c, want in facts):
                    continue
                x, y = v.ev(a, {}), v.ev(b, {})
            except (NoVal, ZeroDivisionError, OverflowError, TypeError, ValueError, RecursionError):
                continue
            if not close(x, y):
                sz = ', '.join(f'{k}={x_}' for k, x_ in sorted(v.sizes.items()))
                return 'diff', f'{MP.nstr(MP.mpf(x), 6)} != {MP.nstr(MP.mpf(y), 6)} at sizes [{sz}], entries of magnitude {scale}'
    return 'unproven', why
