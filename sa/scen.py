"""Analysis contexts: how the public entry points are driven in the abstract interpreter."""
from .interp import *
from .values import *
from . import terms as tm
from .terms import ZERO, ONE, INF, el, base, sym, sel, eq0, lift
from .duality import joint

P = 'simple_einet.'
SUMS = {'LinsumLayer': (P + 'layers.linsum', 2), 'LinsumLayer2': (P + 'layers.linsum', 2),
        'EinsumLayer': (P + 'layers.einsum', 2), 'SumLayer': (P + 'layers.sum', 1), 'MixingLayer': (P + 'layers.mixing', 1)}
LEAFS = {'Normal': 'normal', 'RatNormal': 'normal', 'Bernoulli': 'bernoulli', 'Binomial': 'binomial',
         'ConditionalBinomial': 'binomial', 'Categorical': 'categorical', 'MultivariateNormal': 'multivariate_normal',
         'PiecewiseLinear': 'piecewise_linear', 'Mixture': 'mixture', 'MultiDistributionLayer': 'multidistribution'}


class Sz:
    """symbolic sizes of one context"""

    def __init__(self, par='even', R=None, N=None, Ci=None, Co=None):
        h = sym('h', 1)
        self.h = h
        self.par = par
        self.D = {'even': 2 * h, 'odd': 2 * h + 1, 'any': h}[par]
        self.Dout = {'even': h, 'odd': h + 1, 'any': h}[par]
        self.N = sym('N') if N is None else lift(N)
        self.R = sym('R', 2) if R is None else lift(R)
        self.Ci = sym('Ci') if Ci is None else lift(Ci)
        self.Co = sym('Co') if Co is None else lift(Co)

    def __str__(self):
        return f'features={self.par},R={self.R},N={self.N},in={self.Ci},out={self.Co}'


def py(t):
    """sizes as the program sees them (python int when concrete)"""
    return norm(t)


def new_sum(it, kind, z, dropout=0.0):
    C = it.repo_attr(SUMS[kind][0], kind)
    if kind == 'MixingLayer':
        kw = dict(num_features=1, num_sums_in=py(z.Ci), num_sums_out=py(z.Co), dropout=dropout)
    else:
        kw = dict(num_features=py(z.D), num_sums_in=py(z.Ci), num_sums_out=py(z.Co), num_repetitions=py(z.R), dropout=dropout)
    return it.call(C, [], kw)


def x_sizes(kind, z):
    return [z.N, ONE, z.Co, z.Ci] if kind == 'MixingLayer' else [z.N, z.D, z.Ci, z.R]


def sum_input(kind, z, f=None, name='x', grad=False):
    if f is None:
        base(name)
        f = lambda *v: el(name, *v)
    return mk(x_sizes(kind, z), lambda v: f(*v), grad=grad, store=Storage('input:' + name))


def new_ctx(it, **kw):
    Ctx = it.repo_attr(P + 'sampling_utils', 'SamplingContext')
    return it.call(Ctx, [], kw)


def parent_indices(z, kind, diff):
    ko = ONE if kind == 'MixingLayer' else z.Dout
    base('s', rng=z.Co, integer=True)
    base('rho', rng=z.R, integer=True)
    S = lambda n, k: el('s', n, k) if z.Co.cint != 1 else ZERO
    RH = lambda n: el('rho', n) if z.R.cint != 1 else ZERO
    if diff:
        io = mk([z.N, ko, z.Co], lambda v: eq0(S(v[0], v[1]) - v[2]), store=Storage('input:indices_out'))
        ir = mk([z.N, z.R], lambda v: eq0(RH(v[0]) - v[1]), store=Storage('input:indices_repetition'))
    else:
        io = mk([z.N, ko], lambda v: S(v[0], v[1]), dtype='long', store=Storage('input:indices_out'))
        ir = mk([z.N], lambda v: RH(v[0]), dtype='long', store=Storage('input:indices_repetition'))
    return io, ir, S, RH


def opq(name, n):
    """an arbitrary but fixed index in [0, n)"""
    n = lift(n)
    if n.cint == 1:
        return ZERO
    base(name, integer=True, rng=n)
    return el(name)


def tempered(t, temp, skip=()):
    """every layer weight logit divided by the sum temperature"""
    ps = [b for b in BASES if b.startswith('param') and b not in skip]
    return tm.subst_base(t, {b: (lambda *i, b=b: tm.div(el(b, *i), temp)) for b in ps})
