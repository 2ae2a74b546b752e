"""C23: discrete cosine and sine transforms (wafo.dctpack)."""
import numpy as np
from hypothesis import strategies as st
import scipy.fftpack

from core import sub, check, close, same, arr, raises, unchanged
from gens import fl, seeds, nice, rs


def D():
    import wafo.dctpack as d
    return d


def cosm(n, t, ortho):
    """Matrix of the DCT of type t from the documented definition."""
    k = np.arange(n)[:, None] * 1.0
    m = np.arange(n)[None, :] * 1.0
    if t == 1:
        A = 2 * np.cos(np.pi * k * m / (n - 1))
        A[:, 0] = 1
        A[:, -1] = (-1.0) ** k[:, 0]
        return A
    if t == 2:
        A = 2 * np.cos(np.pi * k * (2 * m + 1) / (2 * n))
        if ortho:
            A *= np.where(k == 0, np.sqrt(1 / (4.0 * n)), np.sqrt(1 / (2.0 * n)))
        return A
    A = 2 * np.cos(np.pi * (k + 0.5) * m / n)
    A[:, 0] = 1
    if ortho:
        A = np.sqrt(2.0 / n) * np.cos(np.pi * (k + 0.5) * m / n)
        A[:, 0] = 1 / np.sqrt(n)
    return A


def sinm(n, t, ortho):
    """Matrix of the DST of type t; scipy's own orthonormal scaling is taken over (it is that of a package outside)."""
    if ortho:
        return scipy.fftpack.dst(np.eye(n), t, axis=0, norm='ortho')
    k = np.arange(n)[:, None] * 1.0
    m = np.arange(n)[None, :] * 1.0
    if t == 1:
        return 2 * np.sin(np.pi * (k + 1) * (m + 1) / (n + 1))
    if t == 2:
        return 2 * np.sin(np.pi * (k + 1) * (2 * m + 1) / (2 * n))
    A = 2 * np.sin(np.pi * (2 * k + 1) * (m + 1) / (2 * n))
    A[:, -1] = (-1.0) ** k[:, 0]
    return A


def matrix(name, n, t, ortho):
    if name.startswith('i'):
        t = {1: 1, 2: 3, 3: 2}[t]
    return (cosm if 'dct' in name else sinm)(n, t, ortho)


def along(x, A, axis):
    return np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)


def fit(x, n, axis):
    """x truncated or zero padded to length n along axis."""
    x = np.moveaxis(x, axis, 0)
    y = np.zeros((n,) + x.shape[1:])
    m = min(n, x.shape[0])
    y[:m] = x[:m]
    return np.moveaxis(y, 0, axis)


@st.composite
def one(draw):
    nd = draw(st.integers(1, 3))
    shape = draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd))
    if nd == 1 and draw(st.booleans()):
        shape = [draw(st.integers(1, 40))]
    return dict(shape=shape, axis=draw(st.integers(-nd, nd - 1)), n=draw(st.one_of(st.none(), st.integers(2, 9))), type=draw(st.integers(1, 3)),
                norm=draw(st.sampled_from([None, 'ortho', 'default'])), fun=draw(st.sampled_from(['dct', 'idct', 'dst', 'idst'])), seed=draw(seeds()),
                dtype=draw(st.sampled_from(['float', 'int', 'bool', 'list'])))


def data(c):
    r = rs(c['seed'])
    x = r.uniform(-2, 2, c['shape'])
    if c['dtype'] == 'int':
        x = np.rint(3 * x).astype(int)
    if c['dtype'] == 'bool':
        x = x > 0
    return x, (x.tolist() if c['dtype'] == 'list' else x)


@sub('C23', one(), quick=400)
def transforms(c):
    """non-trivial: length 2 or more"""
    x, given = data(c)
    ax, t = c['axis'], c['type']
    n = c['n'] or x.shape[ax]
    ortho = c['norm'] in ('ortho', 'default')
    if t == 1 and c['fun'].endswith('dct') and (n < 2 or ortho):    # only norm=None is documented for DCT-I
        return None
    if t == 1 and n < 2:
        return None
    kw = {} if c['norm'] == 'default' else dict(norm=c['norm'])
    with unchanged(c['fun'], x):
        y = getattr(D(), c['fun'])(given, t, c['n'], ax, **kw)
    want = along(fit(x * 1.0, n, ax), matrix(c['fun'], n, t, ortho), ax)
    close(y, want, 1e-11, 1e-11 * np.sqrt(n), c['fun'])
    if t == 2 and c['norm'] == 'default' and c['n'] is None and ax in (-1, x.ndim - 1):
        close(getattr(D(), c['fun'])(given), want, 1e-11, 1e-11 * np.sqrt(n), c['fun'] + ' with its defaults')
    return n > 1 and '%s type %d' % (c['fun'], t)


@st.composite
def many(draw):
    nd = draw(st.integers(1, 4))
    shape = draw(st.lists(st.integers(1, 4), min_size=nd, max_size=nd))
    if nd == 1:
        shape = [draw(st.integers(1, 30))]
    axes = draw(st.one_of(st.none(), st.permutations(range(nd)).flatmap(lambda p: st.integers(1, nd).map(lambda k: list(p[:k])))))
    neg = draw(st.booleans())
    if axes is not None and neg:
        axes = [a - nd for a in axes]
    k = nd if axes is None else len(axes)
    return dict(shape=shape, axes=axes, new=draw(st.one_of(st.none(), st.lists(st.integers(2, 6), min_size=k, max_size=k))), type=draw(st.integers(1, 3)),
                norm=draw(st.sampled_from([None, 'ortho', 'default'])), fun=draw(st.sampled_from(['dctn', 'idctn', 'dstn', 'idstn'])), seed=draw(seeds()),
                dtype=draw(st.sampled_from(['float', 'int', 'bool', 'list'])))


@sub('C23', many(), quick=400)
def multidimensional(c):
    """non-trivial: two or more axes transformed, or a changed shape"""
    x, given = data(c)
    t = c['type']
    ortho = c['norm'] in ('ortho', 'default')
    axes = list(range(x.ndim)) if c['axes'] is None else c['axes']
    new = [x.shape[a] for a in axes] if c['new'] is None else c['new']
    if t == 1 and (min(new) < 2 or (ortho and 'dct' in c['fun'])):
        return None
    kw = {} if c['norm'] == 'default' else dict(norm=c['norm'])
    if c['axes'] is not None:
        kw['axes'] = tuple(c['axes']) if c['seed'] % 2 else c['axes']
    if c['new'] is not None:
        kw['shape'] = tuple(c['new'])
    with unchanged(c['fun'], x):
        y = getattr(D(), c['fun'])(given, t, **kw)
    want = x * 1.0
    for a, n in zip(axes, new):
        want = along(fit(want, n, a), matrix(c['fun'][:-1], n, t, ortho), a)
    close(y, want, 1e-10, 1e-10 * np.sqrt(want.size), c['fun'])
    raises(lambda: getattr(D(), c['fun'])(given, t, shape=tuple(new) + (3,), axes=axes), 'shape longer than axes', ValueError)
    return len(axes) > 1 or c['new'] is not None


@sub('C23', st.tuples(st.lists(st.integers(1, 6), min_size=1, max_size=4), st.sampled_from(['dct', 'dst']), st.integers(2, 3), seeds(), nice(-3, 3)), quick=200)
def inversion(c):
    """non-trivial: more than one element"""
    shape, kind, t, seed, s = c
    r = rs(seed)
    x, y = r.uniform(-2, 2, shape), r.uniform(-2, 2, shape)
    d = D()
    fn, inv = getattr(d, kind + 'n'), getattr(d, 'i' + kind + 'n')
    X = arr(fn(x, t))
    close(inv(X, t), x, 1e-11, 1e-11, 'inverse of the transform')
    close(fn(inv(x, t), t), x, 1e-11, 1e-11, 'transform of the inverse')
    if kind == 'dct':
        close(np.sum(X ** 2), np.sum(x ** 2), 1e-11, 1e-12, 'orthonormality')
    close(fn(x + s * y, t), X + s * arr(fn(y, t)), 1e-10, 1e-10, 'linearity')
    close(getattr(d, 'i' + kind)(getattr(d, kind)(x, t), t), x, 1e-11, 1e-11, 'inverse in one dimension')
    return x.size > 1


@sub('C23', st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=5), st.one_of(st.none(), st.integers(-3, 7))), quick=150)
def shift_dimensions(c):
    """non-trivial: three or more dimensions"""
    shape, n = c
    x = np.arange(np.prod(shape)).reshape(shape)
    d = D()
    y = d.shiftdim(x, n) if n is not None else d.shiftdim(x)
    if n is None:
        if max(shape) == 1:
            return None
        k = next(i for i, v in enumerate(shape) if v != 1)
        same(y, x.reshape(shape[k:]), 'leading ones removed')
    elif n < 0:
        same(y, x.reshape([1] * -n + shape), 'padded with ones')
    else:
        for _ in range(n):
            x = np.moveaxis(x, 0, -1)
        same(y, x, 'dimensions shifted left by %d' % n)
    return len(shape) > 2
