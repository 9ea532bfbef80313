"""Value-number domain: interned normal-form terms for one (generic) tensor element.

Every scalar abstract value is a `T`: a polynomial {monomial: Fraction} over interned `Atom`s, kept in
normal form by the rewrite rules below (they are the abstract domain's algebra: exp/log/logsumexp laws, delta
elimination, index arithmetic over symbolic sizes).  Equal normal forms <=> same value number.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations, groupby, product

ZEROF, ONEF = Fraction(0), Fraction(1)


class Budget(Exception):
    """normalisation budget exhausted -> abstract value becomes unknown"""


# ---------------------------------------------------------------- tables
SYMS = {}      # name -> dict(lo=int|None, int=bool)
BASES = {}     # base name -> dict(range=T|None, perm=bool, inv=str, bool=bool, int=bool)
VARS = {}      # free index var name -> size T
_ctr = [0]
LIMIT = [None]


def reset_tables():
    """fresh tables for one analysis context (interned atoms stay valid)"""
    _MEMO.clear()
    _NN.clear()


def fresh_name(p='%'):
    _ctr[0] += 1
    if LIMIT[0] is not None and _ctr[0] > LIMIT[0]:
        raise Budget()
    return f'{p}{_ctr[0]}'


class Atom:
    __slots__ = ('kind', 'args', 'key', 'fv', 'hgt', 'bool')
    table = {}

    def __new__(cls, kind, *args):
        k = (kind,) + args
        a = cls.table.get(k)
        if a is not None:
            return a
        a = object.__new__(cls)
        a.kind, a.args = kind, args
        s = kind + '(' + ','.join(_k(x) for x in args) + ')'
        a.key = s if len(s) < 40 else kind + ':' + blake2b(s.encode(), digest_size=10).hexdigest()
        fv = set()
        h = 0
        for x in _subs(args):
            fv |= x.fv
            h = max(h, x.hgt)
        if kind == 'var':
            fv.add(args[0])
        if kind in ('red', 'draw'):
            # args: op/id.., sizes..., body uses bound names '#h.k'
            h += 1
            nb = len(args[-2])
            for i in range(nb):
                fv.discard(f'#{h}.{i}')
        a.fv = frozenset(fv)
        a.hgt = h
        a.bool = kind in ('eq0', 'ge0', 'gt0') or (kind == 'red' and args[0] in ('any', 'all')) or \
            (kind == 'fn' and args[0] in ('isnan', 'isinf', 'inset', 'flag')) or \
            (kind == 'el' and BASES.get(args[0], {}).get('bool', False)) or \
            (kind == 'draw' and args[1] == 'bernoulli')
        cls.table[k] = a
        return a

    def __reduce__(self):
        raise TypeError

    def __repr__(self):
        k, g = self.kind, self.args
        if k in ('sym', 'var'):
            return g[0]
        if k == 'el':
            return f'{g[0]}[{",".join(map(repr, g[1]))}]'
        if k == 'fn':
            return f'{g[0]}({", ".join(map(repr, g[1]))})'
        if k == 'exp':
            return f'exp({g[0]!r})'
        if k == 'red':
            return f'{g[0]}_{self.hgt}<{",".join(map(repr, g[1]))}>({g[2]!r})'
        if k == 'draw':
            return f'draw#{g[0]}.{g[1]}[{",".join(map(repr, g[2]))}]<{",".join(map(repr, g[3]))}>({", ".join(map(repr, g[4]))})'
        if k == 'sel':
            return f'({g[0]!r} ? {g[1]!r} : {g[2]!r})'
        return f'{k}({", ".join(map(repr, g))})'


def _k(x):
    if isinstance(x, (Atom, T)):
        return x.key
    if isinstance(x, tuple):
        return '<' + ','.join(_k(y) for y in x) + '>'
    return repr(x)


def _subs(args):
    for x in args:
        if isinstance(x, (Atom, T)):
            yield x
        elif isinstance(x, tuple):
            yield from _subs(x)


class T:
    __slots__ = ('ms', 'key', 'fv', 'hgt', '_hash')
    table = {}

    def __new__(cls, ms):
        # ms: dict mono->Fraction ; mono tuple of (Atom, power) sorted by key
        items = tuple(sorted(((m, c) for m, c in ms.items() if c != 0),
                             key=lambda mc: tuple((a.key, p) for a, p in mc[0])))
        t = cls.table.get(items)
        if t is not None:
            return t
        t = object.__new__(cls)
        t.ms = items
        s = '+'.join(f'{c}' + ''.join(f'*{a.key}^{p}' for a, p in m) for m, c in items)
        t.key = s if len(s) < 60 else 'P' + blake2b(s.encode(), digest_size=10).hexdigest()
        fv = set()
        h = 0
        for m, c in items:
            for a, p in m:
                fv |= a.fv
                h = max(h, a.hgt)
        t.fv = frozenset(fv)
        t.hgt = h
        t._hash = hash(items)
        cls.table[items] = t
        return t

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    # -- queries
    @property
    def const(self):
        """Fraction if constant else None"""
        if not self.ms:
            return ZEROF
        if len(self.ms) == 1 and self.ms[0][0] == ():
            return self.ms[0][1]
        return None

    @property
    def cint(self):
        c = self.const
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def single(self):
        """the (atom) if T is exactly one atom with coeff 1 power 1"""
        if len(self.ms) == 1:
            m, c = self.ms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = []
        for m, c in self.ms:
            for a, p in m:
                if a not in s:
                    s.append(a)
        return s

    def __add__(self, o):
        o = lift(o)
        if not self.ms:
            return o
        if not o.ms:
            return self
        d = dict(self.ms)
        for m, c in o.ms:
            d[m] = d.get(m, ZEROF) + c
        return _fixinf(d)

    __radd__ = __add__

    def __neg__(self):
        return T({m: -c for m, c in self.ms})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if self.const is not None:
            return o.scale(self.const)
        if o.const is not None:
            return self.scale(o.const)
        d = {}
        for m, c in self.ms:
            for n, e in o.ms:
                for mm, cc in mono_mul(m, n):
                    d[mm] = d.get(mm, ZEROF) + c * e * cc
        return _fixinf(d)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        return T({m: c * x for m, x in self.ms})

    def __repr__(self):
        if not self.ms:
            return '0'
        out = []
        for m, c in self.ms:
            f = '*'.join(repr(a) + (f'^{p}' if p != 1 else '') for a, p in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append(f'{c}*{f}')
        return ' + '.join(out).replace('+ -', '- ')


def _fixinf(d):
    """collapse x +- inf"""
    d = {m: c for m, c in d.items() if c != 0}
    infs = [(m, c) for m, c in d.items() if m and m[0][0] is INF_A and len(m) == 1]
    if any(m and any(a is NAN_A for a, p in m) for m in d):
        return NAN
    if infs:
        return T({((INF_A, 1),): Fraction(1 if infs[0][1] > 0 else -1)})
    return T(d)


_LIN = {}


def _linpart(a):
    """(argument without constant term, constant) of an eq0/ge0 atom"""
    r = _LIN.get(a)
    if r is None:
        p = a.args[0]
        c = dict(p.ms).get((), ZEROF)
        r = _LIN[a] = (p - T({(): c}) if c else p, c)
    return r


_PEQ = {}


def _perm_eq(a):
    """eq0(x - perm[k]) -> (perm, leading indices, k, x, sign)"""
    r = _PEQ.get(a)
    if r is None:
        r = False
        for m, c in a.args[0].ms:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'el' and BASES.get(m[0][0].args[0], {}).get('perm'):
                z = m[0][0]
                r = (z.args[0], z.args[1][:-1], z.args[1][-1], (a.args[0] - T({m: c})).scale(-1 / c), 1)
                break
        _PEQ[a] = r
    return r


def _conflicts(items):
    """x==a & x==b is false (a!=b); x>=a & x>=b keeps the stronger; x==a decides x>=b"""
    E = [a for a, p in items if a.kind in ('eq0', 'ge0')]
    if len(E) < 2:
        return items
    g = {}
    for a in E:
        l, c = _linpart(a)
        g.setdefault(l, []).append((a, c))
    drop = set()
    for l, xs in g.items():
        eqs = [(a, c) for a, c in xs if a.kind == 'eq0']
        ges = [(a, c) for a, c in xs if a.kind == 'ge0']
        if len({c for a, c in eqs}) > 1:
            return None
        if eqs:
            # l == -c0 ; ge0(l + c): c - c0 >= 0
            for a, c in ges:
                if c - eqs[0][1] >= 0:
                    drop.add(a)
                else:
                    return None
        elif len(ges) > 1:
            k = min(c for a, c in ges)
            for a, c in ges:
                if c != k:
                    drop.add(a)
    pe = [(a, e) for a in E if a.kind == 'eq0' for e in [_perm_eq(a)] if e]
    for i in range(len(pe)):
        for j in range(i):
            (b1, pre1, k1, x1, s1), (b2, pre2, k2, x2, s2) = pe[i][1], pe[j][1]
            if b1 == b2 and pre1 == pre2 and x1 is x2 and s1 == s2 and (k1 - k2).const not in (None, 0):
                return None
    ges = [a for a in E if a.kind == 'ge0' and a not in drop]
    if len(ges) > 1:
        for a in ges:
            for b in ges:
                if a is not b and a not in drop and b not in drop:
                    d = b.args[0] - a.args[0]
                    if all(z.kind == 'sym' for z in d.atoms()) and nonneg(d):
                        drop.add(b)
    if drop:
        items = [(a, p) for a, p in items if a not in drop]
    return items


def mono_mul(m, n):
    """product of two monomials -> list of (mono, coeff)"""
    d = {}
    exps = []
    for a, p in m + n:
        if a.kind == 'exp':
            exps.append(a.args[0].scale(Fraction(p)))
            continue
        d[a] = d.get(a, 0) + p
    res = None
    items = []
    for a, p in d.items():
        if p == 0:
            continue
        if a.bool and p > 1:
            p = 1
        items.append((a, p))
    if m and n:
        items = _conflicts(items)
        if items is None:
            return []
    if exps:
        s = ZERO
        for e in exps:
            s = s + e
        base = {tuple(sorted(items, key=lambda ap: ap[0].key)): ONEF}
        e = exp(s)
        out = {}
        for mm, c in e.ms:
            if not any(a.kind == 'exp' for a, p in mm) or not base:
                pass
            d2 = {}
            for a, p in tuple(items) + mm:
                d2[a] = d2.get(a, 0) + p
            k = tuple(sorted(((a, (1 if a.bool and p > 1 else p)) for a, p in d2.items() if p != 0),
                             key=lambda ap: ap[0].key))
            out[k] = out.get(k, ZEROF) + c
        return list(out.items())
    return [(tuple(sorted(items, key=lambda ap: ap[0].key)), ONEF)]


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Atom):
        return T({((x, 1),): ONEF})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return T({(): Fraction(x)})
    if isinstance(x, Fraction):
        return T({(): x})
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else -INF
        return T({(): Fraction(repr(x))})
    raise TypeError(f'cannot lift {x!r}')


ZERO = T({})
ONE = T({(): ONEF})
INF_A = Atom('sym', 'inf')
NAN_A = Atom('sym', 'nan')
INF = T({((INF_A, 1),): ONEF})
NAN = T({((NAN_A, 1),): ONEF})


def sym(name, lo=1, integer=True, **kw):
    info = dict(lo=lo, int=integer, **kw)
    if SYMS.get(name, info) != info:
        purge()
    SYMS[name] = info
    return lift(Atom('sym', name))


def var(name, size):
    size = lift(size)
    if size.cint == 1:
        return ZERO
    VARS[name] = size
    return lift(Atom('var', name))


def newvar(size):
    """fresh index variable; returns (name, term)"""
    n = fresh_name('v')
    return n, var(n, size)


def purge():
    """forget every memoised normal form and sign fact (an assumption about a symbol has changed)"""
    for c in (_LIN, _PEQ, _NN, _CONT, _MEMO, _RAW):
        c.clear()


def set_base(name, info):
    old = BASES.get(name)
    if old is not None and (set(old) != set(info) or any(old[k] is not info[k] and old[k] != info[k] for k in info)):
        purge()
    BASES[name] = info


def base(name, rng=None, perm=False, boolean=False, integer=False, **kw):
    set_base(name, dict(range=None if rng is None else lift(rng), perm=perm, bool=boolean,
                        int=integer or rng is not None, **kw))
    return name


def el(b, *idx):
    idx = tuple(lift(i) for i in idx)
    info = BASES.get(b, {})
    # permutation / inverse permutation cancellation on the last index
    inv = info.get('inv')
    if info.get('table') is not None and idx:
        k = idx[-1].const
        if k is not None and k.denominator == 1 and 0 <= k < len(info['table']):
            return lift(info['table'][int(k)])
    if inv and idx:
        a = idx[-1].single()
        if a is not None and a.kind == 'el' and a.args[0] == inv and a.args[1][:-1] == idx[:-1]:
            return a.args[1][-1]
    return lift(Atom('el', b, idx))


def table(p, i):
    """p[i] for a constant list (a permutation becomes an invertible index map)"""
    p = [int(x) for x in p]
    i = lift(i)
    if i.cint is not None and 0 <= i.cint < len(p):
        return lift(p[i.cint])
    if p == list(range(len(p))):
        return i
    if sorted(p) == list(range(len(p))):
        q = sorted(range(len(p)), key=lambda k: p[k])
        b, v = 'table' + '.'.join(map(str, p)), 'table' + '.'.join(map(str, q))
        n = lift(len(p))
        set_base(b, dict(range=n, perm=True, bool=False, int=True, inv=v, table=tuple(p)))
        set_base(v, dict(range=n, perm=True, bool=False, int=True, inv=b, table=tuple(q)))
        return el(b, i)
    out = ZERO
    for k, x in enumerate(p):
        out = out + eq0(i - k) * x
    return out


def is_int(t):
    for m, c in t.ms:
        if c.denominator != 1:
            return False
        for a, p in m:
            if p < 0 or int(p) != p:
                return False
            if not atom_int(a):
                return False
    return True


def atom_int(a):
    k = a.kind
    if k == 'var' or a.bool:
        return True
    if k == 'sym':
        return SYMS.get(a.args[0], {}).get('int', False)
    if k == 'el':
        return BASES.get(a.args[0], {}).get('int', False)
    if k == 'fn':
        if a.args[0] in ('tmin', 'tmax', 'mod'):
            return all(is_int(x) for x in a.args[1] if isinstance(x, T))
        return a.args[0] in ('fdiv', 'round', 'ceil', 'floor')
    if k == 'red':
        if a.args[0] in ('argmax', 'argmin'):
            return True
        return a.args[0] in ('sum', 'max', 'min') and is_int(a.args[2])
    if k == 'draw':
        return a.args[1] in ('cat', 'perm', 'randint', 'binomial')
    if k == 'sel':
        return is_int(a.args[1]) and is_int(a.args[2])
    return False


# ---------------------------------------------------------------- sign reasoning over integer index terms
_NN = {}


def nonneg(t, depth=0):
    """sound (incomplete) proof that integer/real term t >= 0 for all variable values in range"""
    c = t.const
    if c is not None:
        return c >= 0
    r = _NN.get(t)
    if r is None:
        r = _nonneg(t, depth)
        _NN[t] = r
    return r


def _split_lin(t, a):
    """t = A*a + B with a not in A,B at top level; None if not linear"""
    A, B = {}, {}
    for m, c in t.ms:
        ps = [p for x, p in m if x is a]
        if not ps:
            B[m] = c
        elif ps[0] == 1:
            mm = tuple(xp for xp in m if xp[0] is not a)
            A[mm] = c
        else:
            return None
    return T(A), T(B)


def atom_range(a):
    """(lo T|None, hi T|None) inclusive"""
    k = a.kind
    if a.bool:
        return ZERO, ONE
    if k == 'var':
        n = a.args[0]
        s = VARS.get(n)
        return ZERO, (s - 1 if s is not None else None)
    if k == 'el':
        r = BASES.get(a.args[0], {}).get('range')
        return (ZERO, r - 1) if r is not None else (None, None)
    if k == 'red':
        if a.args[0] in ('argmax', 'argmin') and len(a.args[1]) == 1:
            return ZERO, a.args[1][0] - 1
        return None, None
    if k == 'draw':
        if a.args[1] == 'cat':
            return ZERO, a.args[3][0] - 1
        if a.args[1] == 'rand':
            return ZERO, ONE
    if k == 'sym':
        info = SYMS.get(a.args[0], {})
        lo, hi = info.get('lo'), info.get('hi')
        return (lift(lo) if lo is not None else None), (lift(hi) if hi is not None else None)
    if k == 'exp':
        return ZERO, None
    return None, None


def _nonneg(t, depth):
    if depth > 12 or len(t.ms) > 40:
        return False
    atoms = t.atoms()
    if any(a is INF_A or a is NAN_A for a in atoms):
        return False
    # fdiv(r,m): write as (r - rho)/m  (multiply through by m, m>0)
    for a in atoms:
        if a.kind == 'fn' and a.args[0] == 'fdiv':
            s = _split_lin(t, a)
            if s is None:
                return False
            A, B = s
            r, m = a.args[1]
            if m.const is None and len(m.ms) != 1:
                return False
            if nonneg(A, depth + 1) and nonneg(r, depth + 1) and nonneg(B, depth + 1):
                return True
            if A.const == -1 and nonneg(m * B + m - 1 - r, depth + 1):
                return True
            if A.const == 1 and nonneg(r + m * B, depth + 1):
                return True
            n, rho = newvar(m)
            return nonneg(A * (r - rho) + B * m, depth + 1)
    for a in atoms:  # index-like atoms first
        if a.kind == 'sym':
            continue
        lo, hi = atom_range(a)
        s = _split_lin(t, a)
        if s is None or lo is None:
            return False
        A, B = s
        if nonneg(A, depth + 1):
            return nonneg(A * lo + B, depth + 1)
        if hi is not None and nonneg(-A, depth + 1):
            return nonneg(A * hi + B, depth + 1)
        return False
    # only symbols: shift to lower bounds
    sub = {}
    for a in atoms:
        lo = SYMS.get(a.args[0], {}).get('lo')
        if lo is None:
            return False
        sub[a] = lift(a) + lo
    out = ZERO
    for m, c in t.ms:
        x = lift(c)
        for a, p in m:
            if p < 0 or int(p) != p:
                return False
            for _ in range(int(p)):
                x = x * sub[a]
        out = out + x
    if all(c >= 0 for m, c in out.ms):
        return True
    # try upper bounds of syms that have one, linear
    for a in atoms:
        hi = SYMS.get(a.args[0], {}).get('hi')
        if hi is not None:
            s = _split_lin(t, a)
            if s is not None and nonneg(-s[0], depth + 1):
                return nonneg(s[0] * lift(hi) + s[1], depth + 1)
    return False


def pos(t):
    return nonneg(t - 1)


def le(a, b):
    return nonneg(lift(b) - lift(a))


# ---------------------------------------------------------------- index arithmetic
def _div_mono(m, d):
    """monomial m divided by monomial d (powers) or None"""
    dd = dict(m)
    for a, p in d:
        if dd.get(a, 0) < p:
            return None
        dd[a] -= p
    return tuple(sorted(((a, p) for a, p in dd.items() if p != 0), key=lambda ap: ap[0].key))


def divmod_poly(a, m):
    """a = m*q + r, moving every monomial divisible by (single-monomial) m into q"""
    if len(m.ms) != 1:
        if a is m:
            return ONE, ZERO
        # try a == k*m + r for polynomial m : greedy on leading monomial
        lead_m, lead_c = max(m.ms, key=lambda mc: (sum(p for _, p in mc[0]), [x.key for x, _ in mc[0]]))
        q, r = ZERO, a
        for _ in range(6):
            hit = None
            for mm, c in r.ms:
                dm = _div_mono(mm, lead_m)
                if dm is not None and (c / lead_c).denominator == 1 and lead_m != ():
                    hit = T({dm: c / lead_c})
                    break
            if hit is None:
                break
            q = q + hit
            r = r - hit * m
        return q, r
    dm, dc = m.ms[0]
    q, r = {}, {}
    for mm, c in a.ms:
        x = _div_mono(mm, dm)
        if x is not None and dc != 0:
            if dm == () or True:
                k = c / dc
                if k.denominator == 1:
                    q[x] = q.get(x, ZEROF) + k
                    continue
                if c.denominator == 1 and dc.denominator == 1:
                    k = Fraction(c.numerator // dc.numerator)
                    if k:
                        q[x] = q.get(x, ZEROF) + k
                        c = c - k * dc
        r[mm] = r.get(mm, ZEROF) + c
    return T(q), T(r)


def fdiv(a, m):
    a, m = lift(a), lift(m)
    if m.cint == 1:
        return a
    ca, cm = a.const, m.const
    if ca is not None and cm is not None and cm != 0:
        return lift(Fraction(ca // cm))
    if not is_int(a) or not is_int(m):
        return lift(Atom('fn', 'floor', (div(a, m),)))
    q, r = divmod_poly(a, m)
    for sh in (0, 1, -1):
        rr = r - m.scale(Fraction(sh)) if sh else r
        if nonneg(rr) and nonneg(m - 1 - rr):
            return q + sh
    x = r.single()
    if x is not None and x.kind == 'fn' and x.args[0] == 'fdiv':
        return q + fdiv(x.args[1][0], x.args[1][1] * m)
    return q + lift(Atom('fn', 'fdiv', (r, m)))


def mod(a, m):
    a, m = lift(a), lift(m)
    return a - m * fdiv(a, m)


def cdiv(a, m):
    return -fdiv(-lift(a), m)


def eq0(p):
    p = lift(p)
    c = p.const
    if c is not None:
        return ONE if c == 0 else ZERO
    if any(a is INF_A or a is NAN_A for a in p.atoms()):
        return lift(Atom('eq0', p))
    isint = is_int(p)
    if isint:
        if nonneg(p - 1) or nonneg(-p - 1):
            return ZERO
        from math import gcd
        g = 0
        c0 = 0
        for m, c in p.ms:
            if m == ():
                c0 = int(c)
            else:
                g = gcd(g, int(abs(c)))
        if g > 1:
            if c0 % g:
                return ZERO
            p = p.scale(Fraction(1, g))
        # mixed radix split
        for m in _radix_candidates(p):
            q, r = divmod_poly(p, m)
            if q.ms and r.ms and q.const is None and nonneg(r + m - 1) and nonneg(m - 1 - r):
                return eq0(q) * eq0(r)
            if q.ms and not r.ms and q.const is None:
                return eq0(q)
            if q.const is not None and q.ms and r.ms:
                pass
        # boolean: b - 1 , b
        a = p.single()
        if a is not None and a.bool:
            return ONE - lift(a)
        if len(p.ms) == 2 and p.ms[0][0] == ():
            (m0, c0), (m1, c1) = p.ms
            if len(m1) == 1 and m1[0][0].bool and m1[0][1] == 1:
                v = -c0 / c1
                if v == 1:
                    return lift(m1[0][0])
                if v != 0:
                    return ZERO
        # closed permutation element against an index: invert
        if len(p.ms) == 2 and p.ms[0][1] * p.ms[1][1] == -1:
            for (m, c), (m2, c2) in (p.ms, p.ms[::-1]):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'el' and not m[0][0].fv:
                    a = m[0][0]
                    i = BASES.get(a.args[0], {})
                    y = T({m2: ONEF})
                    if i.get('perm') and i.get('inv') and i.get('range') is not None and nonneg(y) and nonneg(lift(i['range']) - 1 - y):
                        ys = y.single()
                        if ys is None or ys.kind != 'el' or not BASES.get(ys.args[0], {}).get('perm') or ys.key > a.key:
                            p2 = a.args[1][-1] - el(i['inv'], *a.args[1][:-1], y)
                            if y.fv or max(repr(p2), repr(-p2)) < max(repr(p), repr(-p)):
                                return eq0(p2)
    # sign normalise
    if p.ms[-1][1] < 0:
        p = -p
    if not isint and (strictpos(p) or strictpos(-p)):
        return ZERO
    # selections distribute
    a = _first_sel(p)
    if a is not None:
        cnd, x, y = a.args
        px, py = replace_atom(p, a, x), replace_atom(p, a, y)
        ex, ey = eq0(px), eq0(py)
        if ex is ey:
            return ex
        return cnd * ex + (ONE - cnd) * ey
    return lift(Atom('eq0', p))


def _sureposatom(a):
    return a.kind == 'exp' or (a.kind == 'fn' and a.args[0] == 'inv' and strictpos(a.args[1][0]))


def strictpos(t):
    """surely positive: a sum of positive factors (exponentials, inverses of positive terms) with nonnegative coefficients, one of them positive"""
    if len(t.ms) > 40:
        return False
    groups = {}
    for m, c in t.ms:
        f = tuple((a, q) for a, q in m if _sureposatom(a))
        r = tuple((a, q) for a, q in m if not _sureposatom(a))
        if any(a.kind != 'sym' for a, q in r):
            return False
        g = groups.setdefault(f, {})
        g[r] = g.get(r, ZEROF) + c
    sure = False
    for g in groups.values():
        r = T(g)
        c = r.const
        if c is not None and c > 0:
            sure = True
        elif c is None and nonneg(r - _EPS):
            sure = True
        elif not nonneg(r):
            return False
    return sure


def isneginf(t):
    """1 where t is minus infinity (t: finite terms plus positive multiples of logarithms of nonnegative terms), None if not of that form"""
    if t is -INF:
        return ONE
    if t.const is not None:
        return ZERO
    out = ONE
    s = _first_sel(t)
    if s is not None:
        cnd, x, y = s.args
        x, y = isneginf(replace_atom(t, s, x)), isneginf(replace_atom(t, s, y))
        return None if x is None or y is None else cnd * x + (ONE - cnd) * y
    for m, c in t.ms:
        for a, q in m:
            if a is INF_A or a is NAN_A or a.kind not in ('fn', 'sym', 'el', 'var'):
                return None
            if a.kind == 'fn':
                if a.args[0] != 'log' or len(m) != 1 or q != 1 or c < 0:
                    return None
                out = out * (ONE - eq0(a.args[1][0]))
    return ONE - out


def _first_sel(p):
    for a in p.atoms():
        if a.kind == 'sel':
            return a
    return None


def _radix_candidates(p):
    out = []
    for m, c in p.ms:
        syms = tuple((a, q) for a, q in m if a.kind == 'sym')
        if syms:
            t = T({syms: ONEF})
            if t not in out:
                out.append(t)
            for a, q in syms:
                t = lift(a)
                if t not in out:
                    out.append(t)
        if abs(c) > 1 and c.denominator == 1 and m != ():
            t = lift(abs(c))
            if t not in out:
                out.append(t)
    return out


_EPS = T({(): Fraction(1, 10 ** 6)})


def ge0(p):
    p = lift(p)
    c = p.const
    if c is not None:
        return ONE if c >= 0 else ZERO
    if p is INF:
        return ONE
    if p is -INF:
        return ZERO
    if nonneg(p):
        return ONE
    if is_int(p):
        if nonneg(-p - 1):
            return ZERO
        from math import gcd
        g = 0
        c0 = 0
        for m, c in p.ms:
            if m == ():
                c0 = int(c)
            else:
                g = gcd(g, int(abs(c)))
        if g > 1:
            p = T({m: (Fraction(c0 // g) if m == () else c / g) for m, c in p.ms} if c0 else
                  {m: c / g for m, c in p.ms})
        for m in _radix_candidates(p):
            q, r = divmod_poly(p, m)
            if q.ms and q.const is None and r.ms and nonneg(r) and nonneg(m - 1 - r):
                return ge0(q)
        lead = _leadc(p)
        # single integer variable at the boundary of its range
        if lead < 0:
            return ONE - ge0_(-p - 1)
        return ge0_(p)
    if nonneg(-p - _EPS):
        return ZERO
    a = _first_sel(p)
    if a is not None:
        cnd, x, y = a.args
        return cnd * ge0(replace_atom(p, a, x)) + (ONE - cnd) * ge0(replace_atom(p, a, y))
    lead = _leadc(p)
    p = p.scale(1 / abs(lead))
    if lead < 0:
        return ONE - lift(Atom('gt0', -p))
    return lift(Atom('ge0', p))


def ge0_(p):
    a = p.single()
    return lift(Atom('ge0', p))


def _leadc(p):
    for m, c in reversed(p.ms):
        if m != ():
            return c
    return ONEF


def gt0(p):
    p = lift(p)
    if is_int(p):
        return ge0(p - 1)
    return ONE - ge0(-p)


def lt(a, b):
    return gt0(lift(b) - lift(a))


def tnot(c):
    return ONE - c


# ---------------------------------------------------------------- selection
def sel(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    k = c.const
    if k is not None:
        return a if k != 0 else b
    if a is b:
        return a
    if a is ONE and b is ZERO:
        return c
    if a is ZERO and b is ONE:
        return ONE - c
    # canonical polarity: condition with constant term 0
    c0 = dict(c.ms).get((), ZEROF)
    if c0 == 1:
        return sel(ONE - c, b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a.const is not None and b.const is not None and a is not NAN and b is not NAN:
        return c * (a - b) + b
    return lift(Atom('sel', c, a, b))


def assume(t, c, val):
    """simplify t under the assumption that boolean term c is val"""
    a = c.single()
    if a is None:
        if val:
            # product of booleans all true
            if len(c.ms) == 1 and c.ms[0][1] == 1:
                for x, p in c.ms[0][0]:
                    if x.bool:
                        t = subst_atom(t, x, ONE)
            else:
                d = ONE - c
                y = d.single()
                if y is not None:
                    t = subst_atom(t, y, ZERO)
        else:
            d = ONE - c
            y = d.single()
            if y is not None:
                t = subst_atom(t, y, ONE)
        return t
    t = subst_atom(t, a, ONE if val else ZERO)
    return t


def subst_atom(t, a, val):
    """replace atom a (everywhere, deep, outside binders capturing) by term val"""
    if not _contains(t, a):
        return t
    return rebuild(t, lambda x: val if x is a else None)


def replace_atom(t, a, val):
    """top-level replacement in polynomial"""
    out = ZERO
    for m, c in t.ms:
        x = lift(c)
        for b, p in m:
            x = x * (tpow(val, p) if b is a else tpow(lift(b), p))
        out = out + x
    return out


_CONT = {}


def _contains(t, a):
    k = (t, a)
    r = _CONT.get(k)
    if r is None:
        r = False
        for x in t.atoms():
            if x is a or any(_contains(y, a) for y in _subs(x.args) if isinstance(y, T)):
                r = True
                break
        if len(_CONT) > 200000:
            _CONT.clear()
        _CONT[k] = r
    return r


def contains_atom(t, pred, _seen=None):
    """any atom anywhere satisfying pred"""
    if _seen is None:
        _seen = set()
    if t in _seen:
        return False
    _seen.add(t)
    for x in t.atoms():
        if pred(x):
            return True
        for y in _subs(x.args):
            if isinstance(y, T) and contains_atom(y, pred, _seen):
                return True
    return False


def all_atoms(t, out=None, _seen=None):
    if out is None:
        out, _seen = [], set()
    if t in _seen:
        return out
    _seen.add(t)
    for x in t.atoms():
        if x not in out:
            out.append(x)
        for y in _subs(x.args):
            if isinstance(y, T):
                all_atoms(y, out, _seen)
    return out


# ---------------------------------------------------------------- rebuild / substitution
def rebuild_atom(a, f):
    """rebuild one atom with children transformed by f (f: Atom -> T|None)"""
    k, g = a.kind, a.args
    R = lambda t: rebuild(t, f)
    if k in ('sym', 'var'):
        return lift(a)
    if k == 'el':
        return el(g[0], *[R(i) for i in g[1]])
    if k == 'fn':
        return fn(g[0], *[R(x) for x in g[1]])
    if k == 'exp':
        return exp(R(g[0]))
    if k == 'eq0':
        return eq0(R(g[0]))
    if k == 'ge0':
        return ge0(R(g[0]))
    if k == 'gt0':
        return gt0(R(g[0]))
    if k == 'sel':
        return sel(R(g[0]), R(g[1]), R(g[2]))
    if k == 'red':
        names, sizes, body = open_red(a)
        return red(g[0], [(n, R(s)) for n, s in zip(names, sizes)], R(body))
    if k == 'draw':
        names, sizes, laws = open_draw(a)
        return draw(g[0], g[1], [R(i) for i in g[2]], [(n, R(s)) for n, s in zip(names, sizes)], [R(x) for x in laws])
    raise AssertionError(k)


def rebuild(t, f):
    """apply f (Atom -> T|None) to every atom, deep; one memo per f (f must be a fresh function object per substitution)"""
    memo = f.__dict__
    r = memo.get(t)
    if r is None:
        r = _rebuild(t, f)
        memo[t] = r
    return r


def _rebuild(t, f):
    out = ZERO
    changed = False
    parts = []
    for m, c in t.ms:
        x = None
        fs = []
        for a, p in m:
            r = f(a)
            if r is None:
                r = rebuild_atom(a, f)
            if r.single() is not a:
                changed = True
            fs.append((r, p))
        parts.append((c, fs))
    if not changed:
        return t
    for c, fs in parts:
        x = lift(c)
        for r, p in fs:
            x = x * tpow(r, p)
        out = out + x
    return out


_MEMO = {}


def subst(t, env):
    """env: {var name: T}"""
    env = {k: v for k, v in env.items() if k in t.fv}
    if not env:
        return t
    key = (t, tuple(sorted((k, v.key, id(v)) for k, v in env.items())))
    r = _MEMO.get(key)
    if r is None:
        def f(a):
            if a.kind == 'var' and a.args[0] in env:
                return env[a.args[0]]
            if not (a.fv & env.keys()):
                return lift(a)
            return None
        r = rebuild(t, f)
        if len(_MEMO) > 300000:
            _MEMO.clear()
        _MEMO[key] = r
    return r


def subst_base(t, mapping):
    """mapping: {base name: callable(idx tuple)->T}; replaces el atoms, deep"""
    def f(a):
        if a.kind == 'el' and a.args[0] in mapping:
            idx = tuple(rebuild(i, f) for i in a.args[1])
            return mapping[a.args[0]](*idx)
        return None
    return rebuild(t, f)


def subst_sym(t, mapping):
    """mapping {sym name: T}"""
    def f(a):
        if a.kind == 'sym' and a.args[0] in mapping:
            return mapping[a.args[0]]
        return None
    return rebuild(t, f)


def _rename_bound(body, frm, to):
    def f(a):
        if a.kind == 'var' and a.args[0] in frm:
            return lift(Atom('var', to[frm.index(a.args[0])]))
        if not (a.fv & set(frm)):
            return lift(a)
        return None
    return rebuild(body, f)


def open_red(a):
    sizes, body = a.args[1], a.args[2]
    frm = [f'#{a.hgt}.{i}' for i in range(len(sizes))]
    names = []
    for s in sizes:
        n = fresh_name('%')
        VARS[n] = s
        names.append(n)
    return names, list(sizes), _raw_rename(body, dict(zip(frm, names)))


def open_draw(a):
    sizes, laws = a.args[3], a.args[4]
    frm = [f'#{a.hgt}.{i}' for i in range(len(sizes))]
    names = []
    for s in sizes:
        n = fresh_name('%')
        VARS[n] = s
        names.append(n)
    mp = dict(zip(frm, names))
    return names, list(sizes), [_raw_rename(x, mp) for x in laws]


_RAW = {}


_RAW = {}


def _raw_rename(t, mp):
    """structure-preserving variable renaming (no re-simplification)"""
    if not (t.fv & mp.keys()):
        return t
    key = (t, tuple(sorted((k, v) for k, v in mp.items() if k in t.fv)))
    r = _RAW.get(key)
    if r is None:
        if len(_RAW) > 400000:
            _RAW.clear()
        r = _RAW[key] = _raw_rename_(t, mp)
    return r


def _raw_rename_(t, mp):
    d = {}
    for m, c in t.ms:
        nm = tuple(sorted(((_raw_atom(a, mp), p) for a, p in m), key=lambda ap: ap[0].key))
        d[nm] = d.get(nm, ZEROF) + c
    return T(d)


def _raw_arg(x, mp):
    if isinstance(x, T):
        return _raw_rename(x, mp)
    if isinstance(x, tuple):
        return tuple(_raw_arg(y, mp) for y in x)
    return x


def _raw_atom(a, mp):
    if not (a.fv & mp.keys()):
        return a
    if a.kind == 'var':
        return Atom('var', mp.get(a.args[0], a.args[0]))
    return Atom(a.kind, *[_raw_arg(x, mp) for x in a.args])


def _close(op, vs, body, mk):
    """choose canonical order for bound vars & build atom.  vs: [(name,size)]"""
    if isinstance(body, tuple):
        h = max([x.hgt for x in body] + [0])
    else:
        h = body.hgt
    for n, s in vs:
        h = max(h, s.hgt)
    # other subterms (draw idx) may raise height: mk handles through explicit height fix-up
    best = None
    perms = permutations(vs) if len(vs) <= 4 else [sorted(vs, key=lambda v: v[1].key)]
    for p in perms:
        a = mk(p, h)
        if best is None or a.key < best.key:
            best = a
    return best


def _mk_red(op, vs, body):
    h = max([body.hgt] + [s.hgt for n, s in vs])
    if len(vs) > 1:
        # order of the bound variables: independent of the names of the free ones
        nm = {n for n, s in vs}
        hide = {v: '$' for v in body.fv if v not in nm}
        sig = {}
        for n, s in vs:
            mp = dict(hide)
            for k in nm:
                mp[k] = '@' if k == n else '&'
            sig[n] = (s.key, _raw_rename(body, mp).key)
        order = sorted(vs, key=lambda v: sig[v[0]])
        groups = [list(g) for _, g in groupby(order, key=lambda v: sig[v[0]])]
        if all(len(g) == 1 for g in groups):
            ps = [order]
        else:
            masked = _raw_rename(body, hide)
            best = None
            for p in product(*[permutations(g) if len(g) <= 4 else [g] for g in groups]):
                p = [v for g in p for v in g]
                k = _raw_rename(masked, {n: f'#{h + 1}.{i}' for i, (n, s) in enumerate(p)}).key
                if best is None or k < best[0]:
                    best = (k, [p])
                elif k == best[0]:
                    best[1].append(p)
            ps = best[1]
    else:
        ps = [vs]
    r = None
    for p in ps:
        mp = {n: f'#{h + 1}.{i}' for i, (n, s) in enumerate(p)}
        a = Atom('red', op, tuple(s for n, s in p), _raw_rename(body, mp))
        if r is None or a.key < r.key:
            r = a
    return lift(r)


def draw(did, kind, idx, vs, laws):
    idx = tuple(lift(i) for i in idx)
    laws = tuple(lift(x) for x in laws)
    if kind == 'cat' and len(vs) == 1:
        # additive constants in the logits are irrelevant
        n, s = vs[0]
        if s.cint == 1:
            return ZERO
        keep = T({m: c for m, c in laws[0].ms if any(n in a.fv for a, p in m)})
        laws = (keep,)
    h = max([x.hgt for x in laws + idx] + [s.hgt for n, s in vs] + [0])
    mp = {n: f'#{h + 1}.{i}' for i, (n, s) in enumerate(vs)}
    return lift(Atom('draw', did, kind, idx, tuple(s for n, s in vs), tuple(_raw_rename(x, mp) for x in laws)))


# ---------------------------------------------------------------- functions
def tpow(t, p):
    p = Fraction(p)
    if p == 1:
        return t
    if p == 0:
        return ONE
    if p.denominator == 1 and p > 0:
        r = t
        for _ in range(int(p) - 1):
            r = r * t
        return r
    if not t.ms:
        return ZERO if p > 0 else INF
    if len(t.ms) == 1:
        m, c = t.ms[0]
        if c == 1 or p.denominator == 1:
            out = T({tuple((a, q * p) for a, q in m if a.kind != 'exp'): (c ** int(p) if p.denominator == 1 else ONEF)})
            for a, q in m:
                if a.kind == 'exp':
                    out = out * exp(a.args[0].scale(q * p))
            return out
        if c > 0:
            import math
            r = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p in (Fraction(1, 2), Fraction(-1, 2)) and r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                k = Fraction(r[0], r[1])
                return tpow(T({m: ONEF}), p).scale(k if p > 0 else 1 / k)
            if m:
                return tpow(T({m: ONEF}), p) * lift(Atom('fn', 'pow', (lift(c), lift(p))))
    if p.denominator == 1 and p < 0:
        if len(t.ms) == 2 and T({(): ONEF}).ms[0] in t.ms:
            e = t - ONE
            m, c = e.ms[0]
            if c == 1 and len(m) == 1 and m[0][0].kind == 'exp' and m[0][1] == 1:
                return tpow(fn('sigmoid', -m[0][0].args[0]), -p)
        return tpow(lift(Atom('fn', 'inv', (t,))), -p)
    return lift(Atom('fn', 'pow', (t, lift(p))))


def div(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return ONE
    if not b.ms:
        return INF if (a.const or 1) > 0 else -INF
    q, r = divmod_poly(a, b) if len(b.ms) > 1 else (None, a)
    if q is not None and not r.ms:
        return q
    return a * tpow(b, -1)


def exp(t):
    t = lift(t)
    if not t.ms:
        return ONE
    if t is INF:
        return INF
    if t is -INF:
        return ZERO
    if t is NAN:
        return NAN
    out = ONE
    rest = {}
    for m, c in t.ms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log':
            out = out * tpow(m[0][0].args[1][0], c)
        else:
            rest[m] = c
    if len(rest) > 1:
        for m, c in list(rest.items()):
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel' and \
                    (m[0][0].args[1] is -INF or m[0][0].args[2] is -INF):
                a = m[0][0]
                out = out * sel(a.args[0], exp(a.args[1]), exp(a.args[2]))
                del rest[m]
    if rest:
        r = T(rest)
        a = r.single()
        if a is not None and a.kind == 'sel':
            e = sel(a.args[0], exp(a.args[1]), exp(a.args[2]))
        else:
            e = T({((Atom('exp', r), 1),): ONEF})
        if out is ONE:
            return e
        # multiply without re-merging (out has no exp in general, but use generic mul)
        return out * e
    return out


def log(t):
    t = lift(t)
    if t is ONE:
        return ZERO
    if not t.ms:
        return -INF
    if t is INF or t is NAN:
        return t
    # numeric guard epsilons
    if len(t.ms) > 1 and t.ms[0][0] == () and 0 < t.ms[0][1] <= Fraction(1, 10**5):
        t = T({m: c for m, c in t.ms if m != ()})
    if len(t.ms) == 1:
        m, c = t.ms[0]
        out = ZERO
        if c != 1:
            if c < 0:
                pass
            else:
                out = out + _logconst(c)
        neg = c < 0
        if neg:
            return lift(Atom('fn', 'log', (t,)))
        for a, p in m:
            if a.kind == 'exp':
                out = out + a.args[0].scale(Fraction(p))
            elif a.kind == 'sel':
                out = out + sel(a.args[0], log(a.args[1]), log(a.args[2])).scale(Fraction(p))
            elif a.bool:
                out = out + sel(lift(a), ZERO, -INF)
            else:
                out = out + lift(Atom('fn', 'log', (lift(a),))).scale(Fraction(p))
        return out
    # 1 - b for boolean b
    if len(t.ms) == 2 and t.ms[0] == ((), ONEF) and t.ms[1][1] == -1 and all(a.bool for a, p in t.ms[1][0]):
        return sel(T({t.ms[1][0]: ONEF}), -INF, ZERO)
    return lift(Atom('fn', 'log', (t,)))


def _logconst(c):
    if c == 1:
        return ZERO
    if c.numerator != 1:
        a = lift(Atom('fn', 'log', (lift(Fraction(c.numerator)),)))
    else:
        a = ZERO
    if c.denominator != 1:
        a = a - lift(Atom('fn', 'log', (lift(Fraction(c.denominator)),)))
    return a


ODD = {'tanh', 'sin', 'erf', 'erfinv', 'round'}


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if name == 'log':
        return log(args[0])
    if name == 'fdiv':
        return fdiv(*args)
    if name == 'pow':
        if args[1].const is not None:
            return tpow(args[0], args[1].const)
    if name == 'inv':
        return tpow(args[0], -1)
    if name == 'isnan':
        return isnan(args[0])
    if name == 'sigmoid':
        s = args[0].single()
        if s is not None and s.kind == 'fn' and s.args[0] == 'logit':
            return s.args[1][0]
        return lift(Atom('fn', name, args))
    if name == 'logit':
        s = args[0].single()
        if s is not None and s.kind == 'fn' and s.args[0] == 'sigmoid':
            return s.args[1][0]
        return log(args[0]) - log(ONE - args[0])
    if name in ('floor', 'ceil', 'round'):
        a = args[0]
        if a.const is not None:
            import math
            v = {'floor': math.floor, 'ceil': math.ceil, 'round': round}[name](a.const)
            return lift(v)
        if is_int(a):
            return a
        if name == 'floor' and len(a.ms) == 1:
            # floor(p/q) as fdiv
            m, c = a.ms[0]
            num = T({tuple((x, p) for x, p in m if p > 0): Fraction(c.numerator)})
            den = T({tuple((x, -p) for x, p in m if p < 0): Fraction(c.denominator)})
            if is_int(num) and is_int(den):
                return fdiv(num, den)
        if name == 'ceil':
            t = fn('floor', -a)
            return -t if not any(x.kind == 'fn' and x.args[0] == 'floor' for x in t.atoms()) else lift(Atom('fn', 'ceil', args))
        if name == 'floor':
            lcm = 1
            for m, c in a.ms:
                lcm = lcm * c.denominator // _gcd(lcm, c.denominator)
            if lcm > 1 and is_int(a.scale(Fraction(lcm))):
                return fdiv(a.scale(Fraction(lcm)), lcm)
            # common symbolic denominators
            den = {}
            for m, c in a.ms:
                for x, p in m:
                    if p < 0:
                        den[x] = max(den.get(x, 0), -p)
            if den:
                d = T({tuple(sorted(den.items(), key=lambda ap: ap[0].key)): Fraction(lcm)})
                num = a * d
                if is_int(num) and is_int(d):
                    return fdiv(num, d)
    if name in ('tmin', 'tmax') and len(args) == 2:
        a, b = args
        if a is b:
            return a
        if nonneg(b - a):
            return a if name == 'tmin' else b
        if nonneg(a - b):
            return b if name == 'tmin' else a
        if (a is ZERO or b is ZERO) and (strictpos(a) or strictpos(b)):
            return (a if strictpos(a) else b) if name == 'tmax' else ZERO
        if b.key < a.key:
            args = (b, a)
    if name == 'abs':
        if nonneg(args[0]):
            return args[0]
        if args[0].const is not None:
            return lift(abs(args[0].const))
    return lift(Atom('fn', name, args))


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def isnan(t):
    if t is NAN:
        return ONE
    if t.const is not None:
        return ZERO
    a = t.single()
    if a is not None:
        if a.kind == 'sel':
            c = a.args[0]
            x, y = isnan(a.args[1]), isnan(a.args[2])
            return sel(c, x, y) if not (x.const is not None and y.const is not None) else c * (x - y) + y
        if a.kind == 'el':
            return lift(Atom('fn', 'isnan', (t,))) if BASES.get(a.args[0], {}).get('maynan') else ZERO
        if a.kind == 'fn' and a.args[0] == 'logp':
            # density of a proper leaf at a proper value
            pv = isnan(a.args[1][-1])
            return pv
        if a.kind in ('sym', 'var', 'draw'):
            return ZERO
        if a.kind == 'exp':
            return isnan(a.args[0])
        if a.kind == 'red':
            n, s, b = open_red(a)
            x = isnan(b)
            return ZERO if x is ZERO else red('any', list(zip(n, s)), x)
        if a.kind == 'fn':
            out = ZERO
            for y in a.args[1]:
                out = tor(out, isnan(y))
            return out
        return ZERO
    out = ZERO
    for x in t.atoms():
        out = tor(out, isnan(lift(x)))
    return out


def tor(a, b):
    if a is b:
        return a
    return a + b - a * b


# ---------------------------------------------------------------- reductions
UNROLL = {'sum': 8, 'any': 4, 'all': 4, 'lse': 1, 'max': 1, 'min': 1}


def _split_radix(vs, body):
    """flat axis of size A*B that is only read through divmod by B -> two axes"""
    out = []
    for n, s in vs:
        if n in body.fv:
            va = Atom('var', n)
            m = _find_fdiv(body, va)
            if m is not None and not (m.fv & {x for x, _ in vs}):
                q, r = divmod_poly(s, m)
                if not r.ms and q.ms and q.cint != 1:
                    na, a = newvar(q)
                    nb, b = newvar(m)
                    body = subst(body, {n: m * a + b})
                    out += [(na, q), (nb, m)]
                    continue
        out.append((n, s))
    return out, body


def _find_fdiv(t, va, seen=None):
    if seen is None:
        seen = set()
    if t in seen or va.args[0] not in t.fv:
        return None
    seen.add(t)
    for m, c in t.ms:
        for a, p in m:
            if a.kind == 'fn' and a.args[0] == 'fdiv' and a.args[1][0].single() is va:
                return a.args[1][1]
            for x in _subs(a.args):
                r = _find_fdiv(x, va, seen)
                if r is not None:
                    return r
    return None


def red(op, vs, body):
    """vs: [(name, size T)]; body over those free vars"""
    body = lift(body)
    vs = [(n, lift(s)) for n, s in vs]
    for n, s in vs:
        if n not in VARS:
            VARS[n] = s
    # size-1 axes
    env = {n: ZERO for n, s in vs if s.cint == 1}
    if env:
        body = subst(body, env)
        vs = [(n, s) for n, s in vs if n not in env]
    if not vs:
        return ZERO if op in ('argmax', 'argmin') else body
    if op in ('sum', 'lse', 'max', 'min', 'any', 'all'):
        vs, body = _split_radix(vs, body)
    if op == 'sum':
        return red_sum(vs, body)
    if op == 'lse':
        return red_lse(vs, body)
    if op in ('max', 'min'):
        return red_max(op, vs, body)
    if op in ('argmax', 'argmin'):
        return red_argmax(op, vs, body)
    if op in ('any', 'all'):
        dep = [(n, s) for n, s in vs if n in body.fv]
        if not dep:
            return body
        if body.const is not None:
            return body
        if op == 'all':
            return ONE - red('any', dep, ONE - body)
        # any over v of a disjunction/1-x
        if all(s.cint is not None and s.cint <= 4 for n, s in dep) and len(dep) == 1:
            n, s = dep[0]
            out = ZERO
            for i in range(s.cint):
                out = tor(out, subst(body, {n: lift(i)}))
            return out
        # delta: any_u(eq(u,e) & f)
        if len(body.ms) == 1 and isinstance(body.ms, (list, tuple)):
            mono, c = body.ms[0]
            for a, p in mono:
                if a.kind == 'eq0' and p == 1 and c == 1 and a.fv & {n for n, s in dep}:
                    r = _solve(a.args[0], dep)
                    if r is None:
                        continue
                    n, e, cond, extra = r
                    rest = ONE
                    for b, k in mono:
                        if b is not a:
                            rest = rest * _mono(((b, k),))
                    vs2 = [(x, y) for x, y in dep if x != n] + list(extra)
                    body2 = cond * subst(rest, {n: e})
                    return red('any', vs2, body2) if vs2 else body2
        return _mk_red('any', dep, body)
    if op == 'prod':
        dep = [(n, s) for n, s in vs if n in body.fv]
        if not dep and len(vs) == 1 and body.const in (0, 1):
            return body
    return _mk_red(op, vs, body)


def _dep(m, names):
    return any(a.fv & names for a, p in m)


def red_sum(vs, body):
    for n, s in vs:
        k = s.cint
        if k is not None and k <= UNROLL['sum']:
            out = ZERO
            rest = [(a, b) for a, b in vs if a != n]
            for i in range(k):
                x = subst(body, {n: lift(i)})
                out = out + (red_sum(rest, x) if rest else x)
            return out
    out = ZERO
    for m, c in body.ms:
        out = out + _sum_mono(list(vs), m).scale(c)
    return out


def _mono(m):
    return T({m: ONEF})


def _sum_mono(vs, m):
    names = {n for n, s in vs}
    outer = ONE
    inner = []
    for a, p in m:
        if a.fv & names:
            inner.append((a, p))
        else:
            outer = outer * _mono(((a, p),))
    # additive factors out of exp: exp(F + g) with g independent
    for i, (a, p) in enumerate(inner):
        if a.kind == 'exp':
            F = a.args[0]
            ind = T({mm: c for mm, c in F.ms if not _dep(mm, names)})
            if ind.ms:
                outer = outer * exp(ind)
                r = F - ind
                inner[i] = (Atom('exp', r), 1) if r.ms else None
    inner = [x for x in inner if x]
    # unused vars multiply by size
    used = set()
    for a, p in inner:
        used |= a.fv & names
    for n, s in vs:
        if n not in used:
            outer = outer * s
    vs = [(n, s) for n, s in vs if n in used]
    if not vs:
        return outer
    names = {n for n, s in vs}
    # selections whose condition is affine in a summed var -> ranges
    for i, (a, p) in enumerate(inner):
        if a.kind == 'sel' and p == 1 and (a.args[0].fv & names) and _rangecond(a.args[0], names):
            rest = _mono(tuple(x for j, x in enumerate(inner) if j != i))
            c, x, y = a.args
            return outer * (red_sum(vs, rest * c * x) + red_sum(vs, rest * (ONE - c) * y))
    # delta elimination
    deltas = []
    for i, (a, p) in enumerate(inner):
        if a.kind == 'eq0' and a.fv & names:
            r = _solve(a.args[0], vs)
            if r is not None:
                deltas.append((len(r[3]), len(r[2].ms) > 1 or r[2].const is None, i, a, r))
    for _x, _y, i, a, r in sorted(deltas, key=lambda d: d[:3]):
                n, e, cond, extra = r
                rest = _mono(tuple(x for j, x in enumerate(inner) if j != i))
                nb = subst(rest, {n: e}) * cond
                nvs = [(x, s) for x, s in vs if x != n] + extra
                return outer * (red_sum(nvs, nb) if nvs else nb)
    # range restriction: ge0(+-v + e)
    for i, (a, p) in enumerate(inner):
        if a.kind == 'ge0' and is_int(a.args[0]):
            for n, s in vs:
                va = Atom('var', n)
                sp = _split_lin(a.args[0], va)
                if sp is None or sp[0].const not in (1, -1) or n in sp[1].fv:
                    continue
                A, B = sp
                rest = tuple(x for j, x in enumerate(inner) if j != i)
                oth = [(x, y) for x, y in vs if x != n]
                if A.const == 1:
                    # v >= -B ; lower bound L=-B
                    L = -B
                    if any(o[0] in L.fv for o in oth):
                        continue
                    if nonneg(L) and nonneg(s - L):
                        n2, v2 = newvar(s - L)
                        return outer * (red_sum(oth + [(n2, s - L)], subst(_mono(rest), {n: v2 + L})) if (s - L).ms else ZERO)
                else:
                    U = B + 1   # v < U
                    if any(o[0] in U.fv for o in oth):
                        continue
                    if nonneg(U) and nonneg(s - U):
                        if not U.ms:
                            return ZERO
                        n2, v2 = newvar(U)
                        return outer * red_sum(oth + [(n2, U)], subst(_mono(rest), {n: v2}))
    # flatten nested sums
    for i, (a, p) in enumerate(inner):
        if a.kind == 'red' and a.args[0] == 'sum' and p == 1:
            nn, ss, bb = open_red(a)
            rest = _mono(tuple(x for j, x in enumerate(inner) if j != i))
            return outer * red_sum(vs + list(zip(nn, ss)), rest * bb)
    # connected components
    comps = []
    for a, p in inner:
        dep = set(a.fv & names)
        merged = [(a, p)]
        keep = []
        for d, xs in comps:
            if d & dep:
                dep |= d
                merged = xs + merged
            else:
                keep.append((d, xs))
        comps = keep + [(dep, merged)]
    res = outer
    for d, xs in comps:
        cv = [(n, s) for n, s in vs if n in d]
        xs = sorted(xs, key=lambda ap: ap[0].key)
        if len(xs) == 1 and xs[0][0].kind == 'exp':
            res = res * exp(red_lse(cv, xs[0][0].args[0]))
        else:
            res = res * _mk_red('sum', cv, _mono(tuple(xs)))
    return res


def _rangecond(c, names):
    for a in c.atoms():
        if a.fv & names and a.kind not in ('ge0', 'eq0'):
            return False
        if a.fv & names and not is_int(a.args[0]):
            return False
    return True


def inrange(e, s):
    """0 <= e < s"""
    q, r = divmod_poly(e, s)
    if q.ms and q.const is None and r.ms and s.cint != 1:
        return eq0(fdiv(e, s))
    return ge0(e) * ge0(s - 1 - e)


def _solve(p, vs):
    """p==0 solved for one of vs -> (name, expr, cond, extra vars) exact"""
    for n, s in vs:
        va = Atom('var', n)
        sp = _split_lin(p, va)
        if sp is None:
            continue
        A, B = sp
        if n in B.fv or n in A.fv:
            continue
        k = A.const
        if k is None or k == 0:
            continue
        if abs(k) == 1:
            e = B.scale(-1 / k)
            if not is_int(e):
                continue
            return n, e, inrange(e, s), []
        if k.denominator == 1:
            num = B.scale(Fraction(-1 if k > 0 else 1))
            kk = lift(abs(k))
            e = fdiv(num, kk)
            return n, e, eq0(mod(num, kk)) * ge0(num) * ge0(s - 1 - e), []
    # perm[e] == x  <=>  0 <= x < n and e == perm^-1[x]
    nm = {n for n, s in vs}
    for m, c in p.ms:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'el':
            a = m[0][0]
            i = BASES.get(a.args[0], {})
            if not i.get('perm') or not i.get('inv') or not (a.fv & nm):
                continue
            x = (p - T({m: c})).scale(-1 / c)
            if contains_atom(x, lambda z: z is a) or any(t.fv & nm for t in a.args[1][:-1]):
                continue
            r = _solve(a.args[1][-1] - el(i['inv'], *a.args[1][:-1], x), vs)
            if r is not None and i.get('range') is not None:
                return r[0], r[1], r[2] * inrange(x, i['range']), r[3]
    # fdiv(v, m) == e
    for a in p.atoms():
        if a.kind == 'fn' and a.args[0] == 'fdiv':
            r, m = a.args[1]
            va = r.single()
            if va is None or va.kind != 'var':
                continue
            n = va.args[0]
            s = dict(vs).get(n)
            if s is None:
                continue
            sp = _split_lin(p, a)
            if sp is None or sp[0].const not in (1, -1) or n in sp[1].fv or n in m.fv:
                continue
            e = sp[1].scale(-1 / sp[0].const)
            n2, rho = newvar(m)
            ex = m * e + rho
            return n, ex, ge0(e) * ge0(s - 1 - ex), [(n2, m)]
    return None


def red_lse(vs, body):
    if body is -INF:
        return -INF
    names = {n for n, s in vs}
    outer, inner = {}, {}
    for m, c in body.ms:
        (inner if _dep(m, names) else outer)[m] = c
    out = T(outer)
    inn = T(inner)
    used = inn.fv & names
    for n, s in vs:
        if n not in used:
            out = out + log(s)
    vs = [(n, s) for n, s in vs if n in used]
    if not vs:
        return out
    names = set(used)
    # flatten nested lse
    changed = True
    while changed:
        changed = False
        for m, c in inn.ms:
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'red' and m[0][0].args[0] == 'lse' \
                    and m[0][0].fv & names:
                nn, ss, bb = open_red(m[0][0])
                inn = inn - _mono(m) + bb
                vs = vs + list(zip(nn, ss))
                names |= set(nn)
                changed = True
                break
            # log of plain sum with -> exp form: log(poly) stays
    comps = []
    for m, c in inn.ms:
        dep = set()
        for a, p in m:
            dep |= a.fv & names
        if not dep:
            out = out + T({m: c})
            continue
        cur = {m: c}
        keep = []
        for d, xs in comps:
            if d & dep:
                dep |= d
                cur.update(xs)
            else:
                keep.append((d, xs))
        comps = keep + [(dep, cur)]
    for d, xs in comps:
        cv = [(n, s) for n, s in vs if n in d]
        b = T(xs)
        r = _lse_norm(cv, b)
        out = out + (r if r is not None else _lse_sel(cv, b))
    return out


def _lse_norm(cv, b):
    """lse over u,v of f(u,v) + g(v) - lse_u f(u,v)  ->  lse over v of g(v)"""
    if len(cv) < 2 or not any(c < 0 and len(m) == 1 and m[0][0].kind == 'red' and m[0][0].args[0] == 'lse' for m, c in b.ms):
        return None
    from itertools import combinations
    bd = dict(b.ms)
    for k in range(1, len(cv)):
        for U in combinations(cv, k):
            un = {n for n, s in U}
            F = {m: c for m, c in b.ms if _dep(m, un)}
            if not F or len(F) == len(b.ms):
                continue
            sz = sorted(s.key for n, s in U)
            if not any(c < 0 and len(m) == 1 and m[0][0].kind == 'red' and m[0][0].args[0] == 'lse' and not (m[0][0].fv & un)
                       and len(m[0][0].args[2].ms) == len(F) and sorted(s.key for s in m[0][0].args[1]) == sz for m, c in b.ms):
                continue
            L = red_lse(list(U), T(F))
            if L.ms and all(bd.get(m) == -c and not _dep(m, un) for m, c in L.ms):
                return red_lse([x for x in cv if x[0] not in un], b - T(F) + L)
    return None


def _delta_cond(c, cv):
    """boolean c contains an equation solvable for one of cv"""
    for m, k in c.ms:
        for a, p in m:
            if a.kind == 'eq0' and _solve(a.args[0], cv) is not None:
                return True
    return False


def _lse_sel(cv, b):
    for m, c in b.ms:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel':
            a = m[0][0]
            if a.args[2] is -INF and len(a.args[0].ms) == 1 and _delta_cond(a.args[0], cv):
                return log(red('sum', cv, exp(b)))
    return _mk_red('lse', cv, b)


def red_max(op, vs, body):
    names = {n for n, s in vs}
    if body.const is not None:
        return body
    # push selections with independent conditions outward
    for m, c in body.ms:
        for a, p in m:
            if a.kind == 'sel' and not (a.args[0].fv & names) and a.fv & names:
                return sel(a.args[0], red_max(op, vs, replace_atom(body, a, a.args[1])),
                           red_max(op, vs, replace_atom(body, a, a.args[2])))
    outer, inner = {}, {}
    for m, c in body.ms:
        (inner if _dep(m, names) else outer)[m] = c
    inn = T(inner)
    if not inn.ms:
        return T(outer)
    vs = [(n, s) for n, s in vs if n in inn.fv]
    return T(outer) + _mk_red(op, vs, inn)


def strip_monotone(names, body):
    """argmax-preserving simplification"""
    for _ in range(8):
        outer, inner = {}, {}
        for m, c in body.ms:
            (inner if _dep(m, names) else outer)[m] = c
        inn = T(inner)
        if len(inn.ms) == 1:
            m, c = inn.ms[0]
            # -exp(A)/log(U) with U in (0,1): positive product, compare through the logarithm
            if len(m) > 1 and all(a.kind == 'exp' or (a.kind == 'fn' and a.args[0] == 'log' and _unit_draw(a.args[1][0]))
                                  for a, p in m):
                neg = sum(p for a, p in m if a.kind == 'fn')
                if neg == int(neg) and (c > 0) == (neg % 2 == 0):
                    out = ZERO
                    for a, p in m:
                        if a.kind == 'exp':
                            out = out + a.args[0].scale(Fraction(p))
                        else:
                            out = out + log(-lift(a)).scale(Fraction(p))
                    body = out
                    continue
            # positive multiplicative constants / independent positive factors
            if c > 0:
                dep = tuple((a, p) for a, p in m if a.fv & names)
                ind = tuple((a, p) for a, p in m if not (a.fv & names))
                if len(dep) == 1 and dep[0][1] == 1 and all(_posatom(a) for a, p in ind):
                    a = dep[0][0]
                    if a.kind == 'exp':
                        body = a.args[0]
                        continue
                    if a.kind == 'fn' and a.args[0] in ('log', 'sigmoid', 'tanh', 'inv_logit'):
                        body = a.args[1][0]
                        continue
                    body = lift(a)
                    if c == 1 and not ind:
                        return body
                    continue
                if c != 1:
                    body = T({m: ONEF})
                    continue
        elif inn.ms and inn.ms != body.ms:
            body = inn
            continue
        elif len(inn.ms) > 1:
            # common positive independent factor, e.g. 1/temperature
            g = None
            for m, c in inn.ms:
                ind = {(a, p) for a, p in m if not (a.fv & names) and _posatom(a)}
                g = ind if g is None else (g & ind)
            if g:
                k = _mono(tuple(sorted(g, key=lambda ap: ap[0].key)))
                body = inn * tpow(k, -1)
                continue
            cs = {abs(c) for m, c in inn.ms}
            if len(cs) == 1 and cs != {ONEF}:
                body = inn.scale(1 / cs.pop())
                continue
        return inn
    return body


def _unit_draw(t):
    u = t.single()
    return u is not None and u.kind == 'draw' and u.args[1] == 'rand'


def _posatom(a):
    if a.kind == 'exp':
        return True
    if a.kind == 'sym':
        info = SYMS.get(a.args[0], {})
        return (info.get('lo') is not None and info['lo'] > 0) or info.get('pos', False)
    return False


def indicator_poly(t):
    """t as a polynomial in 0/1 atoms that is itself 0 or 1 everywhere, or None"""
    def conv(t, d=0):
        if d > 12:
            return None
        r = ZERO
        for m, c in t.ms:
            f = lift(c)
            for a, e in m:
                if a.kind in ('eq0', 'ge0'):
                    f = f * lift(a)
                elif a.kind == 'sel':
                    x, y, z = (conv(g, d + 1) for g in a.args)
                    if x is None or y is None or z is None:
                        return None
                    f = f * (x * y + z - x * z)
                else:
                    return None
            r = r + f
        return r
    p = conv(t)
    if p is None or len(p.ms) > 40 or (p * p - p).ms:
        return None
    return p


def _argmax_indicator(n, k, body):
    """argmax over n < k of a 0/1 body: the first index at which it is 1"""
    inst = [subst(body, {n: lift(i)}) for i in range(k)]
    ps = [indicator_poly(b) for b in inst]
    if None in ps:
        return None
    free, disjoint, out, poly = ONE, True, ZERO, ZERO
    for i, p in enumerate(ps):
        poly = poly + (p * free).scale(i)
        out = out + inst[i].scale(i)
        for q in ps[:i]:
            if (p * q).ms:
                disjoint = False
        free = free - free * p
    return out if disjoint else poly


def red_argmax(op, vs, body):
    names = {n for n, s in vs}
    if op == 'argmin':
        return red_argmax('argmax', vs, -body)
    body = strip_monotone(names, body)
    if len(vs) == 1:
        n, s = vs[0]
        # Gumbel-max: F - log(-log U), U drawn independently along n
        for m, c in body.ms:
            if c == -1 and len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log':
                x = m[0][0].args[1][0]
                if len(x.ms) == 1 and x.ms[0][1] == -1 and len(x.ms[0][0]) == 1:
                    y = x.ms[0][0][0][0]
                    if y.kind == 'fn' and y.args[0] == 'log':
                        u = y.args[1][0].single()
                        if u is not None and u.kind == 'draw' and u.args[1] == 'rand' and not u.args[3] and \
                                any(i.single() is Atom('var', n) for i in u.args[2]):
                            F = body - T({m: c})
                            if not contains_atom(F, lambda z: z is u):
                                idx = [i for i in u.args[2] if i.single() is not Atom('var', n)]
                                return draw(u.args[0], 'cat', idx, [(n, s)], [F])
        # Gumbel via exponential: F - log(E)
        for m, c in body.ms:
            if c == -1 and len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log':
                u = m[0][0].args[1][0].single()
                if u is not None and u.kind == 'draw' and u.args[1] == 'expo':
                    F = body - T({m: c})
                    idx = [i for i in u.args[2] if i.single() is not Atom('var', n)]
                    return draw(u.args[0], 'cat', idx, [(n, s)], [F])
    if not body.ms or not (body.fv & names):
        return ZERO
    # delta: argmax_s eq(s, e) = e
    if len(vs) == 1:
        a = body.single()
        if a is not None and a.kind == 'eq0':
            r = _solve(a.args[0], vs)
            if r is not None and r[2] is ONE and not r[3]:
                return r[1]
        n, s = vs[0]
        k = lift(s).const
        if k is not None and 2 <= k <= 8:
            r = _argmax_indicator(n, int(k), body)
            if r is not None:
                return r
    return _mk_red('argmax', vs, body)


# ---------------------------------------------------------------- comparison helpers
def strip_ids(t):
    """forget draw identities (compare laws, sharing pattern only)"""
    def f(a):
        if a.kind == 'draw' and a.args[0] != 0:
            n, s, laws = open_draw(a)
            return draw(0, a.args[1], [rebuild(i, f) for i in a.args[2]], list(zip(n, s)),
                        [rebuild(x, f) for x in laws])
        return None
    return rebuild(t, f)


def bool_atoms(t):
    return [a for a in all_atoms(t) if a.bool and not any(v.startswith('#') for v in a.fv)
            and not any(v.startswith('%') for v in a.fv)]


# ---------------------------------------------------------------- probe expansion (used by the rules)
def _nested(t, names, probe, out):
    for m, c in t.ms:
        for a, p in m:
            if a.kind in ('eq0',) and (a.fv & names) and contains_atom(a.args[0], lambda z: z is probe):
                out.add(a)
            else:
                for x in _subs(a.args):
                    _nested(x, names, probe, out)


def expand(t, probe=None, small=4):
    """unroll reductions over axes of small constant size; Shannon-expand sums whose body depends (nested) on
    'index == probe' conditions"""
    def f(a):
        if a.kind != 'red':
            return None
        op = a.args[0]
        names, sizes, body = open_red(a)
        body = rebuild(body, f)
        vs = list(zip(names, sizes))
        if op in ('sum', 'lse'):
            for n, s in list(vs):
                if s.cint is not None and s.cint <= small:
                    parts = [rebuild(subst(body, {n: lift(i)}), f) for i in range(s.cint)]
                    if op == 'sum':
                        body = sum(parts[1:], parts[0])
                    else:
                        body = log(sum((exp(p) for p in parts[1:]), exp(parts[0])))
                    vs.remove((n, s))
        if not vs:
            return body
        if op == 'lse':
            e = exp(body)
            if len(e.ms) > 1 or (e.ms and not all(x.kind == 'exp' for x, p in e.ms[0][0])):
                return log(red('sum', vs, e))
        if op == 'sum' and probe is not None:
            nm = {n for n, s in vs}
            todo = [body]
            done = ZERO
            for _ in range(40):
                if not todo:
                    break
                b = todo.pop()
                s = set()
                for m, c in b.ms:
                    for x, p in m:
                        if x.kind not in ('eq0',):
                            for y in _subs(x.args):
                                _nested(y, nm, probe, s)
                if not s:
                    done = done + b
                    continue
                x = sorted(s, key=lambda z: z.key)[0]
                b0 = subst_atom(b, x, ZERO)
                b1 = subst_atom(b, x, ONE)
                todo.append(b0 + lift(x) * (b1 - b0))
            else:
                return None
            body = done
        return red(op, vs, body)
    return rebuild(t, f)
