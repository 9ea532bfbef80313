"""rules on the data sets: catalogue, splits, leakage, row alignment (external loaders are opaque sources of rows)"""
import contextlib
from fractions import Fraction
from ..scen import *
from .model import LOADER, same_shape
from .. import torchmodel as tmod

DA = P + 'data'
DEBD = 'accidents ad baudio bbc bnetflix book c20ng cr52 cwebkb dna jester kdd kosarek moviereview msnbc msweb nltcs plants pumsb_star tmovie tretail voting'.split()
TV = {'MNIST': 1, 'FashionMNIST': 1, 'CIFAR10': 3, 'SVHN': 3, 'CelebA': 3, 'LSUN': 3, 'Flowers102': 3, 'ImageFolder': 3, 'LFWPeople': 3, 'FakeData': 3}
IMAGES = ['mnist', 'mnist-16', 'mnist-32', 'fmnist', 'fmnist-16', 'fmnist-32', 'celeba', 'celeba-small', 'celeba-tiny', 'cifar', 'svhn', 'svhn-extra',
          'lsun', 'fake', 'flowers', 'tiny-imagenet', 'lfw']
SYNTH = {'2-clusters': 2, '3-clusters': 3, '9-clusters': 9, '2-moons': 2, 'circles': 2, 'aniso': 3, 'varied': 3}
TABLES = {'digits': 64, '20newsgroup': None, 'kddcup99': None, 'covtype': 54, 'breast_cancer': 30, 'wine': 13}
VOC = sym('voc', 60)
NAMES = IMAGES + ['synth-' + s for s in SYNTH] + list(TABLES) + ['mnist-bin'] + DEBD


def stub(name, attrs=None, **methods):
    c = Cls(name, None, None)
    for k, f in methods.items():
        c.attrs[k] = Builtin(k, f)
    o = Obj(c)
    o.attrs.update(attrs or {})
    return o


class World:
    """models of the external data libraries for one run"""

    def __init__(self):
        self.k = 0
        self.fits = []        # (what, tensor it learned from)
        self.seeds = []
        self.perms = []       # random permutations (tensor, generator seed, number of draws from it so far)
        self.splits = {}      # split id -> dict(parent)

    def fresh(self):
        self.k += 1
        return self.k

    def rows(self, name, cols, n=None, dtype='float', x=True):
        n = sym('N' + name) if n is None else lift(n)
        if n.cint is None:
            n = sym('N' + name, 10)
        b = f'src:{name}:{"x" if x else "y"}'
        base(b, integer=not x)
        return mk([n] + ([] if cols is None else [cols]), lambda v: el(b, *v), dtype=dtype)

    # -------------------------------------------------- sources
    def torchvision(self, cls):
        def make(it, a, k):
            k = dict(k)
            ident = tuple(sorted((kk, repr(v)) for kk, v in k.items() if kk in ('train', 'split', 'classes')))
            if cls == 'ImageFolder':
                ident = (('root', repr(k.get('root'))),)
            n = sym(f'N{cls}{ident}', 10)
            ln = lambda it, a, kk: n
            return stub(cls, dict(kind='source', key=(cls, ident), transform=k.get('transform'), size=n,
                                  data=stub('rows', __len__=ln), length=n), __len__=ln)
        return make

    def generator(self, it, a, k):
        g = stub('Generator', dict(kind='generator', seed=None))

        def seed(it, a, kk):
            g.attrs['seed'] = a[0] if a else kk.get('seed')
            return g
        g.cls.attrs['manual_seed'] = Builtin('manual_seed', seed)
        return g

    def random_split(self, it, a, k):
        ds, lengths = (list(a) + [None, None])[:2]
        ds = k.get('dataset', ds)
        lengths = list(it.iterate(k.get('lengths', lengths)))
        gen = k.get('generator', a[2] if len(a) > 2 else None)
        n = ds.attrs['size']
        sid = self.fresh()
        if all(isinstance(x, float) for x in lengths):
            tot = ZERO if abs(sum(lengths) - 1) > 1e-9 else n
        else:
            tot = sum((lift(x) for x in lengths), ZERO)
        if ds.attrs['kind'] == 'tensors':
            out = []
            for i, x in enumerate(lengths):
                b = f'split:{sid}:{i}'
                base(b, rng=n)
                ts = [mk([lift(x)] + t.shape[1:], lambda v, b=b, t=t: t.at([el(b, v[0])] + list(v[1:])), dtype=t.dtype) for t in ds.attrs['tensors']]
                out.append(self.tensors(it, ts, {}))
        else:
            out = None
        self.splits[sid] = dict(total=tot, size=n, seed=None if gen is None or not isinstance(gen, Obj) else gen.attrs.get('seed'), where=it.loc())
        return out or [stub('Subset', dict(kind='part', parent=ds, split=sid, index=i, size=lift(x) if not isinstance(x, float) else sym(f'part{sid}.{i}'), dataset=ds),
                     __len__=lambda it, a, kk, x=x: lift(x)) for i, x in enumerate(lengths)]

    def concat(self, it, a, k):
        ps = list(it.iterate(a[0] if a else k['datasets']))
        return stub('ConcatDataset', dict(kind='concat', parts=ps, size=sum((p.attrs['size'] for p in ps), ZERO)), __len__=lambda it, aa, kk: sum((p.attrs['size'] for p in ps), ZERO))

    def tensors(self, it, a, k):
        return stub('TensorDataset', dict(kind='tensors', tensors=tuple(a), size=a[0].shape[0]), __len__=lambda it, aa, kk: a[0].shape[0])

    def sparse(self, X):
        return stub('csr_matrix', dict(dense=X, shape=tuple(X.shape)), toarray=lambda it, a, k: X)

    def train_test_split(self, it, a, k):
        wrap = [isinstance(t, Obj) for t in a]
        out = self._tts([t.attrs['dense'] if isinstance(t, Obj) else t for t in a], k, it)
        return [self.sparse(t) if wrap[i // 2] else t for i, t in enumerate(out)]

    def _tts(self, a, k, it):
        sid = self.fresh()
        n = a[0].shape[0]
        seed = k.get('random_state')
        self.splits[sid] = dict(total=n, size=n, seed=seed, where=it.loc())
        s = [sym(f'part{sid}.{i}', 4) for i in (0, 1)]
        out = []
        for t in a:
            for i in (0, 1):
                b = f'split:{sid}:{i}'
                base(b, rng=n)
                if t.shape[0] is not n:
                    raise PyRaise('ValueError', 'inconsistent numbers of samples')
                out.append(mk([s[i]] + t.shape[1:], lambda v, b=b, t=t: t.at([el(b, v[0])] + list(v[1:])), dtype=t.dtype))
        return out

    def learner(self, name, cols=None, check=True):
        def make(it, a, k):
            me = stub(name, dict(id=None))
            w = self

            def fit(it, a, kk):
                me.attrs['id'] = w.fresh()
                if check:
                    w.fits.append((name, a[0] if a else kk['X'], it.loc()))
                return me

            def transform(it, a, kk):
                i = me.attrs['id']
                if i is None:
                    raise PyRaise('NotFittedError', name)
                t = a[0] if a else kk['X']
                b = f'learned:{name}:{i}'
                base(b)
                if t.dim == 1:
                    return mk(t.shape, lambda v: t.at(v), dtype='long')
                if cols is not None or name == 'PCA':
                    c = k.get('n_components', cols)
                    nv, x = tm.newvar(t.shape[1])
                    return mk([t.shape[0], c], lambda v: tm.red_sum([(nv, t.shape[1])], t.at([v[0], x]) * el(b, x, v[1])))
                base(b + '.sd')
                return mk(t.shape, lambda v: (t.at(v) - el(b, v[1])) * el(b + '.sd', v[1]))
            me.cls.attrs['fit'] = Builtin('fit', fit)
            me.cls.attrs['transform'] = Builtin('transform', transform)
            me.cls.attrs['fit_transform'] = Builtin('fit_transform', lambda it, a, kk: (fit(it, a, kk), transform(it, a, kk))[1])
            return me
        return make

    def table(self, name, cols):
        def make(it, a, k):
            key = name + (':' + str(k['subset']) if 'subset' in k else '')
            n = None
            X = self.rows(key, lift(cols))
            y = self.rows(key, None, n=X.shape[0], dtype='long', x=False)
            if cols is VOC:
                X = self.sparse(X)
            return (X, y) if k.get('return_X_y') else stub('Bunch', dict(data=X, target=y))
        return make

    def synth(self, kind):
        def make(it, a, k):
            seed = k.get('random_state')
            n = k.get('n_samples', a[0] if a else 100)
            self.seeds.append((kind, seed, it.loc()))
            sid = repr(seed) if seed is not None else f'nondet{self.fresh()}'
            cen = k.get('centers')
            kl = 2 if kind != 'make_blobs' else len(list(it.iterate(cen))) if cen is not None and not isinstance(cen, int) else cen if cen is not None else 3
            key = f'{kind}:{sid}'
            X = self.rows(key, 2, n=n)
            X = mk([lift(n), 2], X.at)
            b = f'src:{key}:y'
            base(b, integer=True)
            self.classes = kl
            return X, mk([lift(n)], lambda v: el(b, *v), dtype='long')
        return make

    def randperm(self, it, a, k):
        g = k.get('generator')
        n = a[0] if a else k['n']
        t = tmod.rand_perm(it, n, 'torch' if g is None else 'generator')
        if g is not None:
            g.attrs['draws'] = g.attrs.get('draws', 0) + 1
        self.perms.append((t, g.attrs.get('seed') if g is not None else None, g.attrs.get('draws') if g is not None else None))
        return t

    def loader(self, it, a, k):
        names = ['dataset', 'batch_size', 'shuffle', 'sampler', 'batch_sampler', 'num_workers']
        k = dict(zip(names, a), **k)
        return stub('DataLoader', dict(kind='loader', **{n: k.get(n) for n in names + ['drop_last']}))

    def bits(self, it, a, k):
        sh = a[0] if isinstance(a[0], (tuple, list)) else a
        return mk([70000] + list(sh[1:]), lambda v: el('src:mnist-bin:x', *v))

    def np_split(self, it, a, k):
        x, at = a[0], [norm(v) for v in it.iterate(a[1])]
        if isinstance(x, Obj) and x.cls.name == 'bytes':
            assert at == [-70000]
            base('src:mnist-bin:x')
            base('src:mnist-bin:y', integer=True)
            return [stub('pixelbytes'), mk([70000], lambda v: el('src:mnist-bin:y', *v), dtype='long')]
        n = x.shape[0].cint
        out = []
        for l, h in zip([0] + at, at + [n]):
            out.append(mk([h - l] + x.shape[1:], lambda v, l=l: x.at([v[0] + l] + list(v[1:])), dtype=x.dtype))
        return out

    def np_delete(self, it, a, k):
        x, cols = a[0], [norm(v) for v in it.iterate(a[1])]
        assert k.get('axis', a[2] if len(a) > 2 else None) == 1
        keep = [j for j in range(x.shape[1].cint) if j not in cols]
        return tmod.call_ext(it, 'torch.index_select', [x, 1, tmod.as_ten(it, keep)], {})

    def ext(self):
        e = {}
        for c in TV:
            e['torchvision.datasets.' + c] = self.torchvision(c)
        for m in ('torch.utils.data.', 'torch.utils.data.dataset.'):
            e[m + 'random_split'] = self.random_split
            e[m + 'ConcatDataset'] = self.concat
            e[m + 'TensorDataset'] = self.tensors
        e['torch.Generator'] = self.generator
        e['torch.randperm'] = self.randperm
        e['itertools.islice'] = lambda it, a, k: list(it.iterate(a[0]))[slice(*a[1:])]
        e['torch.utils.data.DataLoader'] = self.loader
        e['torch.utils.data.dataloader.DataLoader'] = self.loader
        e['sklearn.model_selection.train_test_split'] = self.train_test_split
        e['sklearn.preprocessing.StandardScaler'] = self.learner('StandardScaler')
        e['sklearn.preprocessing.LabelEncoder'] = self.learner('LabelEncoder', check=False)
        e['sklearn.preprocessing.OneHotEncoder'] = self.learner('OneHotEncoder', cols=80, check=False)
        e['sklearn.decomposition.PCA'] = self.learner('PCA')
        for n, c in (('load_digits', 64), ('load_wine', 13), ('load_breast_cancer', 30), ('fetch_covtype', 54), ('fetch_kddcup99', 41),
                     ('fetch_20newsgroups_vectorized', 'voc')):
            e['sklearn.datasets.' + n] = self.table(n, VOC if c == 'voc' else c)
        for s in ('make_blobs', 'make_moons', 'make_circles'):
            e['sklearn.datasets.' + s] = self.synth(s)
        T = 'torchvision.transforms.'
        e[T + 'Compose'] = lambda it, a, k: stub('Compose', dict(transforms=a[0] if a else k['transforms']))
        e[T + 'Resize'] = lambda it, a, k: stub('Resize', dict(size=k.get('size', a[0] if a else None)))
        e[T + 'ToTensor'] = lambda it, a, k: stub('ToTensor')
        e[T + 'Normalize'] = lambda it, a, k: stub('Normalize', dict(mean=list(it.iterate(k.get('mean', a[0] if a else None))), std=list(it.iterate(k.get('std', a[1] if len(a) > 1 else None)))))
        e['numpy.dot'] = lambda it, a, k: tmod.call_ext(it, 'torch.matmul', [tmod.as_ten(it, x) for x in a], {})
        e['numpy.delete'] = self.np_delete
        e['numpy.hstack'] = lambda it, a, k: tmod.call_ext(it, 'torch.cat', [list(it.iterate(a[0]))], dict(dim=1))
        e['numpy.split'] = self.np_split
        e['os.path.join'] = lambda it, a, k: '/'.join(map(str, a))
        e['csv.reader'] = lambda it, a, k: [stub('csv', dict(path=a[0].args[0] if isinstance(a[0], ExtVal) and a[0].args else repr(a[0])))]
        old = tmod.EXT.get('numpy.array')

        def array(it, a, k):
            if isinstance(a[0], list) and len(a[0]) == 1 and isinstance(a[0][0], Obj) and a[0][0].cls.name == 'csv':
                path = str(a[0][0].attrs['path'])
                part = [q for q in ('train', 'valid', 'test') if f'.{q}.data' in path]
                name = path.split('/')[-1].split('.')[0]
                D = it.repo_attr(DA, 'DEBD_shapes')[name]['train'][1]
                return self.rows('debd:' + (part[0] if len(part) == 1 else path), D, dtype='long')
            if old is None:
                raise Unk('numpy.array')
            return old(it, a, k)
        e['numpy.array'] = array
        for m in ('imageio.v3.', 'imageio.', 'imageio.v2.'):
            e[m + 'imread'] = lambda it, a, k: stub('png', __getitem__=lambda it, a, k: stub('rgb', ravel=lambda it, a, k: stub('bytes')))
        e['numpy.unpackbits'] = lambda it, a, k: stub('bits', reshape=self.bits)
        e['os.path.exists'] = lambda it, a, k: True
        e['logging.getLogger'] = lambda it, a, k: stub('Logger', {}, **{m: (lambda it, a, k: None) for m in ('info', 'debug', 'warning', 'error')})
        e['time.time'] = lambda it, a, k: sym('now')
        return e


@contextlib.contextmanager
def world():
    w = World()
    e = w.ext()
    old = {k: tmod.EXT.get(k) for k in e}
    tmod.EXT.update(e)
    try:
        yield w
    finally:
        for k, v in old.items():
            if v is None:
                tmod.EXT.pop(k, None)
            else:
                tmod.EXT[k] = v


def _hooks(w):
    return {'simple_einet/data.py:maybe_download_debd': lambda it, f, args, kwargs: None}


def catalogue(rep, tier):
    rep.parallel(_dataset, [(n, nm) for n in NAMES for nm in ((True, False) if n in IMAGES else (True,))])


def _source(ds):
    """flat list of (source key, selection chain) of an image data set"""
    k = ds.attrs.get('kind')
    if k == 'source':
        return [(ds.attrs['key'], ())]
    if k == 'part':
        return [(s, ch + ((ds.attrs['split'], ds.attrs['index']),)) for s, ch in _source(ds.attrs['parent'])]
    if k == 'concat':
        return [x for p in ds.attrs['parts'] for x in _source(p)]
    return None


def _leaf(ds):
    k = ds.attrs.get('kind')
    if k == 'source':
        return [ds]
    return [x for p in (ds.attrs['parts'] if k == 'concat' else [ds.attrs['parent']]) for x in _leaf(p)]


def _apart(c1, c2):
    for (s, i), (t, j) in zip(c1, c2):
        if s != t:
            return False
        if i != j:
            return True
    return False


def _rowidx(t):
    """the source rows an entry of a table is taken from: {(source base, row index term)}"""
    return {(a.args[0][:-2], a.args[0][-1], a.args[1][0]) for a in tm.all_atoms(t) if a.kind == 'el' and a.args[0].startswith('src:')}


def _disjoint(r1, r2, n1, n2):
    """rows r1(i), i < n1, and r2(j), j < n2, never coincide"""
    a, b = r1.single(), r2.single()
    if a is not None and b is not None and a.kind == b.kind == 'el' and a.args[0].startswith('split:') and b.args[0].startswith('split:'):
        (_, s, i), (_, t, j) = a.args[0].split(':'), b.args[0].split(':')
        if s == t and i != j:
            return True
        if s == t:
            return _disjoint(a.args[1][0], b.args[1][0], None, None)
        return _disjoint(a.args[1][0], r2, None, n2) or _disjoint(r1, b.args[1][0], n1, None)
    if a is not None and a.kind == 'el' and a.args[0].startswith('split:'):
        return _disjoint(a.args[1][0], r2, None, n2)
    if b is not None and b.kind == 'el' and b.args[0].startswith('split:'):
        return _disjoint(r1, b.args[1][0], n1, None)
    from .leaves import interval
    try:
        l1, _, h1, _ = _iv(r1)
        l2, _, h2, _ = _iv(r2)
    except TypeError:
        return None
    return h1 < l2 or h2 < l1


def _iv(r):
    lo = hi = 0
    for m, c in r.ms:
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            raise TypeError
        l, h = tm.atom_range(m[0][0])
        l, h = lift(l).cint, lift(h).cint
        lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
    return lo, False, hi, False


def _dataset(rep, name, normalize):
    con = DA + '.get_datasets'
    c = f'{name},normalize={normalize}'
    with world() as w:
        def run(it):
            w.__init__()
            it.hooks.update(_hooks(w))
            g = lambda n, *a: it.call(it.repo_attr(DA, n), list(a), {})
            shape = g('get_data_shape', name)
            nc = g('get_data_num_classes', name)
            cl = g('is_classification_data', name)
            oned = g('is_1d_data', name)
            tr = it.call(it.repo_attr(DA, 'get_datasets'), [name, 'DIR'], dict(normalize=normalize))
            return [norm(v) for v in it.iterate(shape)], norm(nc), cl, oned, list(it.iterate(tr))
        for r in rep.paths('D1 every catalogued data set loads', con, c, explore(LOADER, run)):
            shape, nc, cl, oned, trip = r.value
            if any(isinstance(x, Unknown) for x in [nc, cl, oned] + trip + [t for d in trip if isinstance(d, Obj) for t in d.attrs.get('tensors', ())]):
                rep.und('D1 every catalogued data set loads', con, c, f'{[nc, cl, oned] + trip!r}'[:300])
                continue
            rep.cond(len(trip) == 3 and all(isinstance(d, Obj) and 'kind' in d.attrs for d in trip), 'D1 every catalogued data set loads', con, c, f'{trip!r}'[:300])
            if len(trip) != 3 or not all(isinstance(d, Obj) and 'kind' in d.attrs for d in trip):
                continue
            rep.cond(isinstance(nc, int) and nc >= 0 and (nc == 0 or cl is True) and (name not in DEBD or cl is False), 'D2 class counts and the classification flag agree', DA + '.get_data_num_classes', c,
                     f'{nc} classes, classification data: {cl}')
            rep.cond(oned is (shape[2] == 1), 'D3 one-dimensional data are recognised by their shape', DA + '.is_1d_data', c, f'shape {shape}, is_1d_data {oned}')
            for sid, s in w.splits.items():
                rep.equal('D4 a split uses every row once', con, c, s['total'], s['size'], r.facts, f'lengths of the split at {s["where"]}')
                rep.cond(isinstance(s['seed'], int) and not isinstance(s['seed'], bool), 'D5 splits are reproducible', con, c, f'the split at {s["where"]} is not seeded')
            for kind, seed, where in w.seeds:
                rep.cond(isinstance(seed, int), 'D5 splits are reproducible', con, c, f'{kind} at {where} is not seeded')
            if trip[0].attrs['kind'] == 'tensors':
                _tables(rep, r, w, name, c, con, shape, nc, trip)
            else:
                _images(rep, r, w, name, c, con, shape, nc, trip, normalize)


def _images(rep, r, w, name, c, con, shape, nc, trip, normalize):
    src = [_source(d) for d in trip]
    rep.cond(all(s for s in src), 'D1 every catalogued data set loads', con, c, 'a split without rows')
    if name != 'fake':
        for i, j, what in ((0, 1, 'training and validation'), (0, 2, 'training and test'), (1, 2, 'validation and test')):
            for (k1, c1) in src[i]:
                for (k2, c2) in src[j]:
                    rep.cond(k1 != k2 or _apart(c1, c2), 'D6 training, validation and test rows are disjoint', con, c, f'{what} rows both come from {k1}')
        for i, what in ((0, 'train'), (2, 'test')):
            for (cls, ident), _ in src[i]:
                d = dict(ident)
                tag = d.get('train', d.get('split', d.get('classes', d.get('root', ''))))
                ok = (tag == ('True' if what == 'train' else 'False')) if 'train' in d else what in tag or cls == 'LSUN' and what == 'test' and 'val' in tag or what == 'train' and 'extra' in tag
                rep.cond(ok, 'D7 test rows come from the test part of the data', con, c, f'{what} set built from {cls}{dict(ident)}')
    tf = [x.attrs.get('transform') for d in trip for x in _leaf(d)]
    rep.cond(all(t is tf[0] or _tfkey(t) == _tfkey(tf[0]) for t in tf), 'D8 all splits are preprocessed alike', con, c, 'transforms differ between the splits')
    for t in tf:
        if not isinstance(t, Obj) or 'transforms' not in t.attrs:
            rep.bad('D8 all splits are preprocessed alike', con, c, f'no transform: {t!r}')
            continue
        ops = [(o.cls.name, o) for o in t.attrs['transforms'] if isinstance(o, Obj)]
        names = [n for n, _ in ops]
        rs = [[norm(v) for v in list(o.attrs['size'])] for n, o in ops if n == 'Resize']
        rep.cond(rs == [shape[1:]], 'D9 images are resized to the catalogued shape', con, c, f'resize to {rs}, catalogued shape {shape}')
        rep.cond('ToTensor' in names and all(names.index('ToTensor') < i for i, n in enumerate(names) if n == 'Normalize'), 'D9 images are resized to the catalogued shape', con, c, f'transforms {names}')
        nm = [o for n, o in ops if n == 'Normalize']
        if name == 'fake':
            continue
        rep.cond(len(nm) == (1 if normalize else 0), 'D10 images are normalised exactly when asked', con, c, f'{len(nm)} normalisation steps with normalize={normalize}')
        for o in nm:
            m, s = [norm(v) for v in o.attrs['mean']], [norm(v) for v in o.attrs['std']]
            chans = TV[_leaf(trip[0])[0].cls.name]
            rep.cond(len(m) == len(s) and len(m) in (1, shape[0]) and all(float(v) == 0.5 for v in m + s), 'D11 normalisation maps [0, 1] onto [-1, 1] in every channel', con, c, f'mean {m}, std {s}, {shape[0]} channels')
    cls = {x.cls.name for d in trip for x in _leaf(d)}
    for k in cls:
        if k != 'LFWPeople' or True:
            rep.cond(shape[0] == TV[k], 'D12 the catalogued channels are those of the images', con, c, f'{shape[0]} channels catalogued for {k}')


def _tfkey(t):
    return repr([(o.cls.name, sorted((k, repr(v)) for k, v in o.attrs.items())) for o in t.attrs['transforms']]) if isinstance(t, Obj) and 'transforms' in t.attrs else None


def _tables(rep, r, w, name, c, con, shape, nc, trip):
    px = shape[0] * shape[1] * shape[2]
    idx = []
    for what, d in zip(('training', 'validation', 'test'), trip):
        ts = d.attrs['tensors']
        X, y = ts[0], ts[1]
        if not isinstance(X, Ten) or not isinstance(y, Ten):
            rep.und('D13 every row keeps its label', con, c, f'{what}: {X!r}'[:200])
            return
        if not (X.shape[0] is y.shape[0]):
            rep.equal('D13 every row keeps its label', con, c, X.shape[0], y.shape[0], r.facts, f'{what}: rows and labels')
        tot = ONE
        for s in X.shape[1:]:
            tot = tot * s
        rep.equal('D14 every row has the catalogued number of values', con, c, tot, lift(px), r.facts, f'{what} rows')
        if not name.startswith('synth'):
            rep.cond([norm(s) for s in X.shape[1:]] == shape, 'D14 every row has the catalogued number of values', con, c, f'{what} rows have shape {X.shape[1:]}, catalogued {shape}')
        n = opq(f'row.{what}', X.shape[0])
        t = X.at([n] + [opq(f'p{k}', s) for k, s in enumerate(X.shape[1:])])
        rx = {q for q in _rowidx(t) if X.shape[0].cint == 1 or tm.contains_atom(q[2], lambda a: a.kind == 'el' and a.args[0] == f'row.{what}')}
        ry = _rowidx(y.at([n]))
        if len(rx) != 1 or (name not in DEBD and len(ry) != 1):
            rep.bad('D13 every row keeps its label', con, c, f'{what}: a row is built from {sorted(map(repr, rx))}, its label from {sorted(map(repr, ry))}'[:400])
            return
        (sx, _, ix), = rx
        if name not in DEBD:
            (sy, kind, iy), = ry
            rep.cond(sx == sy and kind == 'y' and ix is iy, 'D13 every row keeps its label', con, c, f'{what}: row {ix} of {sx} carries label {iy} of {sy}')
        idx.append((what, sx, ix, X.shape[0], t))
        if name in DEBD:
            part = {'training': 'train', 'validation': 'valid', 'test': 'test'}[what]
            rep.cond(sx == f'src:debd:{part}', 'D7 test rows come from the test part of the data', con, c, f'{what} rows come from {sx}')
    for i in range(3):
        for j in range(i):
            a, b = idx[i], idx[j]
            d = True if a[1] != b[1] else _disjoint(a[2], b[2], a[3], b[3])
            if d is None:
                rep.und('D6 training, validation and test rows are disjoint', con, c, f'{a[2]!r} / {b[2]!r}')
            else:
                rep.cond(d, 'D6 training, validation and test rows are disjoint', con, c, f'{a[0]} row {a[2]!r} and {b[0]} row {b[2]!r} of {a[1]} may coincide')
    for kind, x, where in w.fits:
        f = _rowidx(x.at([opq('fit', x.shape[0])] + [opq(f'p{k}', s) for k, s in enumerate(x.shape[1:])]))
        for what, sx, ix, n, _ in idx:
            for s, _, i in f:
                if what == 'training':
                    continue
                rep.cond(s != sx or _disjoint(i, ix, None, None) is True, 'D15 scaling is learned from training rows only', con, c, f'{kind} at {where} learns from {what} rows')
    sig = [_shape_of(t) for *_, t in idx]
    rep.cond(sig[0] == sig[1] == sig[2], 'D16 all splits are scaled alike', con, c, f'learned transforms {sig}')
    if name.startswith('synth'):
        rep.cond(nc == w.classes, 'D17 the catalogued classes are those of the labels', DA + '.get_data_num_classes', c, f'{nc} classes catalogued, labels take {w.classes} values')


def _shape_of(t):
    return sorted({a.args[0] for a in tm.all_atoms(t) if a.kind == 'el' and a.args[0].startswith('learned:')})


# ------------------------------------------------------------------ loaders
def loaders(rep, tier):
    for loop in (False, True):
        for seed in (0, 7):
            _loader(rep, loop, seed)
    for size in (1, 2, 3, 5):
        for seed in (None, 0, 7):
            for shuffle in (True, False):
                _sampler(rep, size, seed, shuffle)


def _loader(rep, loop, seed):
    con = DA + '.build_dataloader'
    c = f'wine,loop={loop},seed={seed}'
    with world() as w:
        def run(it):
            w.__init__()
            it.hooks.update(_hooks(w))
            ds = []

            def get(it, f, args, kwargs):
                it.hooks.pop('simple_einet/data.py:get_datasets')
                r = it.call_func(f, args, kwargs)
                ds.append(list(it.iterate(r)))
                return r
            it.hooks['simple_einet/data.py:get_datasets'] = get
            made = []

            def smp(it, f, args, kwargs):
                b = it.bind_args(f, args, kwargs)
                made.append((b['self'], b))
                return MISSING
            it.hooks['simple_einet/data.py:TrainingSampler.__init__'] = smp
            ls = it.call(it.repo_attr(DA, 'build_dataloader'), [], dict(dataset_name='wine', data_dir='DIR', batch_size=sym('B'), num_workers=2, loop=loop, normalize=False, seed=seed))
            return ds, list(it.iterate(ls)), made
        for r in rep.paths('L1 every loader serves its own split', con, c, explore(LOADER, run)):
            ds, ls, made = r.value
            if len(ds) != 1 or len(ls) != 3 or not all(isinstance(l, Obj) and l.attrs.get('kind') == 'loader' for l in ls):
                rep.und('L1 every loader serves its own split', con, c, f'{ls!r}'[:200])
                continue
            for i, what in enumerate(('training', 'validation', 'test')):
                a = ls[i].attrs
                rep.cond(a['dataset'] is ds[0][i], 'L1 every loader serves its own split', con, c, f'the {what} loader serves another split')
                rep.cond(lift(a['batch_size']) is sym('B'), 'L2 the batch size is handed on', con, c, f'{what}: {a["batch_size"]}')
                rep.cond(not a['drop_last'] and a['batch_sampler'] is None, 'L3 no row is dropped', con, c, f'{what} loader drops the last rows')
                s = a['sampler']
                if i == 0 and loop:
                    b = [b for o, b in made if o is s]
                    if not b and s is not None and not isinstance(s, Unknown):
                        rep.und('L4 the endless training loader shuffles with the given seed', con, c, f'sampler {s!r}'[:200])
                        continue
                    rep.cond(bool(b) and not a['shuffle'] and lift(b[0]['size']) is ds[0][0].attrs['size'] and b[0]['seed'] == seed and b[0].get('shuffle', True) is True,
                             'L4 the endless training loader shuffles with the given seed', con, c, f'sampler {b!r}, shuffle={a["shuffle"]}'[:300])
                elif i == 0:
                    rep.cond(s is None and a['shuffle'] is True, 'L5 training rows are shuffled', con, c, f'shuffle={a["shuffle"]}, sampler={s!r}')
                else:
                    rep.cond(s is None and not a['shuffle'], 'L6 validation and test rows are served once and in order', con, c, f'{what}: shuffle={a["shuffle"]}, sampler={s!r}')


def _sampler(rep, size, seed, shuffle):
    con, rule = DA + '.TrainingSampler', 'L7 the endless sampler repeats permutations of all rows, determined by its seed'
    c = f'size={size},seed={seed},shuffle={shuffle}'
    with world() as w:
        def run(it):
            w.__init__()
            it.gen_limit = 3 * size
            o = it.call(it.repo_attr(DA, 'TrainingSampler'), [], dict(size=size, seed=seed, shuffle=shuffle))
            f = it.getattr(o, '__iter__')
            a = list(it.iterate(it.call(f, [], {})))
            p1 = list(w.perms)
            b = list(it.iterate(it.call(f, [], {})))
            return a, b, p1, w.perms[len(p1):], list(it.rng)
        for r in rep.paths(rule, con, c, explore(LOADER, run)):
            a, b, p1, p2, rng = r.value
            rep.cond(not any(q[0] == 'torch' for q in rng), 'L8 the sampler leaves the global random state alone', con, c, f'{rng[:3]}')
            for seq, ps, what in ((a, p1, 'first'), (b, p2, 'second')):
                if len(seq) < 2 * size or len(seq) % size:
                    rep.und(rule, con, c, f'{len(seq)} indices')
                    continue
                for k in range(len(seq) // size):
                    blk = [norm(v) for v in seq[k * size:(k + 1) * size]]
                    if not shuffle or size == 1:
                        rep.cond(blk == list(range(size)), rule, con, c, f'{what} iteration, round {k}: {blk}')
                        continue
                    ok = k < len(ps) and all(lift(blk[j]) is ps[k][0].at([lift(j)]) for j in range(size))
                    rep.cond(ok, rule, con, c, f'{what} iteration, round {k}: {blk!r} is not one shuffle of all rows'[:300])
                    if k < len(ps):
                        rep.cond(ps[k][1] == (seed or 0) and ps[k][2] == k + 1, rule, con, c, f'{what} iteration, round {k}: drawn from a generator seeded {ps[k][1]!r}, draw {ps[k][2]}')
