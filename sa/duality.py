"""Joint law of sampled indices, read off the draw terms produced by the abstract interpreter."""
from .terms import *
from . import terms as tm
from .values import Unk


def choice_atoms(t):
    """draw / argmax atoms that are not inside the binder of another atom"""
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        for m, c in x.ms:
            for a, p in m:
                ga(a)

    def ga(a):
        if a.kind == 'draw' or (a.kind == 'red' and a.args[0] in ('argmax', 'argmin')):
            out.add(a)
        for x in tm._subs(a.args):
            go(x)
    go(t)
    return out


def closed(a):
    return not any(v.startswith('#') for v in a.fv)


def inner(a):
    """choice atoms that a depends upon (strictly inside)"""
    s = set()
    for x in tm._subs(a.args):
        s |= choice_atoms(x)
    s.discard(a)
    return s


def law_of(a):
    """(bound names, sizes, normalised log law) of a choice atom; argmax counts as the law it maximises"""
    if a.kind == 'draw':
        if a.args[1] != 'cat':
            raise Unk(f'draw kind {a.args[1]}')
        n, s, laws = open_draw(a)
        body = laws[0]
    else:
        n, s, body = open_red(a)
    vs = list(zip(n, s))
    return n, s, body - red('lse', vs, body)


def joint(expr, limit=40):
    """expectation of expr over all choices in it -> T (choices eliminated innermost-dependants first)"""
    for _ in range(limit):
        atoms = [a for a in choice_atoms(expr) if closed(a)]
        if not atoms:
            if choice_atoms(expr):
                raise Unk('choice below a binder')
            return expr
        inn = {a: inner(a) for a in atoms}
        top = [a for a in atoms if not any(a in inn[b] for b in atoms if b is not a)]
        if not top:
            raise Unk('cyclic choices')
        a = sorted(top, key=lambda x: x.key)[0]
        n, s, law = law_of(a)
        if len(n) != 1:
            raise Unk('multi-axis choice')
        e = subst_atom(expr, a, lift(Atom('var', n[0])))
        if contains_atom(e, lambda z: z is a):
            raise Unk('could not eliminate choice')
        expr = red('sum', list(zip(n, s)), exp(law) * e)
    raise Unk('too many choices')
