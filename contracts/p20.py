"""P20 - features: tilings, basis functions, tensors, state-action features."""
import itertools
import math

from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.features', 'mushroom_rl.features.features', 'mushroom_rl.features.tiles', 'mushroom_rl.features.basis',
           'mushroom_rl.features.tensors', 'mushroom_rl.utils.features', 'mushroom_rl.utils.torch']
P = 'P20'


def vec(c, xs):
    """vector of the given scalars"""
    if not c.symbolic:
        import numpy
        return numpy.array([float(x) for x in xs])

    def pick(i):
        if isinstance(i, int):
            return xs[i]
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = c.ite(c.eq(i, k), xs[k], r)
        return r
    return c.tabulate((len(xs),), pick)


def among(c, v, vals, k):
    """v is one of vals (the k-th is tried first: cheaper for the solver)"""
    if c.symbolic and k < len(vals):
        from pydv.core import zt
        e = c.eq(vals[k], v)
        if e is True or c.eng.must(zt(e)):
            return e
    return c.or_(*[c.eq(q, v) for q in vals])


# ------------------------------------------------------------------ tilings
def mk_tiles(d, sel):
    @harness(P, f'tiles_{d}d' + ('_selected' if sel else ''))
    def tiles(c):
        M = c.mod('mushroom_rl.features.tiles')
        lo = [c.real(f'lo{i}', -5, 0) for i in range(d)]
        hi = [c.real(f'hi{i}', .5, 6) for i in range(d)]
        N = [c.size(f'N{i}', 1) for i in range(d)]
        T = M.Tiles([[lo[i], hi[i]] for i in range(d)], list(N), state_components=[2, 0][:d] if sel else None)
        x = c.array('x', (3 if sel else d,), lo=-6, hi=7)
        y = [c.at(x, k) for k in ([2, 0][:d] if sel else range(d))]
        tot = 1
        for n in N:
            tot = tot * n
        c.ensure_eq('size', lambda: T.size, tot)
        r = T(x)
        inside = c.and_(*[c.and_(c.le(lo[i], y[i]), c.lt(y[i], hi[i])) for i in range(d)])
        if not c.symbolic and any(min(abs(y[i] - lo[i]), abs(y[i] - hi[i])) < 1e-9 for i in range(d)):
            c.assume(False)
        if r is None:
            c.ensure('a-point-inside-has-a-tile', lambda: c.not_(inside))
            return
        c.ensure('a-point-outside-has-none', lambda: inside)
        want, mul = 0, 1
        for i in range(d):
            t = (y[i] - lo[i]) / (hi[i] - lo[i])
            if c.symbolic:
                c.lemma('fraction', lambda: c.and_(c.le(0, t), c.lt(t, 1)))
            k = c.floor(N[i] * (y[i] - lo[i]) / (hi[i] - lo[i]))
            if not c.symbolic and abs(N[i] * t - round(N[i] * t)) < 1e-9:
                c.assume(False)
            want = want + k * mul
            mul = mul * N[i]
            if d == 1:
                c.ensure('index-in-range', lambda: c.and_(c.le(0, k), c.lt(k, N[i])))
        c.ensure('tile', lambda: c.eq(r, want))

    return tiles


mk_tiles(1, False)
mk_tiles(2, False)
mk_tiles(2, True)


@harness(P, 'tiles_float_edge', bounded_only=True)
def tiles_edge(c):
    """floating point: the last number below the upper bound still belongs to the last tile"""
    M = c.mod('mushroom_rl.features.tiles')
    if c.symbolic:
        unsup(c, 'floating point')
    import numpy
    lo, hi, n = c.choice('lo', [-1., 0., -3., -.1]), c.choice('hi', [1., .3, 7.]), c.choice('n', [1, 2, 3, 10])
    T = M.Tiles([[lo, hi], [0., 1.]], [n, 4])
    x = numpy.array([numpy.nextafter(hi, lo), .1])
    c.ensure('last-tile', lambda: T(x) == n - 1)


def mk_gen(d, uniform):
    @harness(P, f'tiles_generate_{d}d' + ('_uniform' if uniform else ''))
    def gen(c):
        M = c.mod('mushroom_rl.features.tiles')
        K = c.choice('tilings', [1, 2, 3])
        lo = [c.real(f'lo{i}', -5, 0) for i in range(d)]
        hi = [c.real(f'hi{i}', .5, 6) for i in range(d)]
        N = [c.choice(f'N{i}', [1, 3]) for i in range(d)]
        ts = M.Tiles.generate(K, list(N), list(lo), list(hi), uniform)
        c.ensure('number', lambda: len(ts) == K)
        x = [c.real(f'x{i}', -5, 6) for i in range(d)]
        X = vec(c, x)
        # up to the rounding of the displacements
        inside = c.and_(*[c.and_(c.le(lo[i] + 1e-9, x[i]), c.lt(x[i], hi[i] - 1e-9)) for i in range(d)])
        for j in range(K):
            r = ts[j](X)
            c.ensure_eq('tiles', lambda: ts[j].size, math.prod(N))
            if r is None:
                c.ensure('covers-the-range', lambda: c.not_(inside))
                continue
            want, mul = 0, 1
            for i in range(d):
                side = (hi[i] - lo[i]) / (N[i] - (K - 1) / K)
                v = (j * (1 if uniform else 2 * i + 1)) % K
                t = (x[i] - (lo[i] + (-K + 1 + v) / K * side)) / side
                if not c.symbolic and abs(t - round(t)) < 1e-9:
                    c.assume(False)
                # 0 <= component: t in [k, k+1)
                want = want + c.floor(t) * mul
                mul *= N[i]
            if c.symbolic:
                c.ensure('displaced-tile', lambda: c.eq(r, want))
            else:
                c.ensure('displaced-tile', lambda: r == want)
    return gen


for _d, _u in ((1, False), (1, True), (2, False), (2, True)):
    mk_gen(_d, _u)


@harness(P, 'tiles_automatic_number', bounded_only=True)
def tiles_auto(c):
    """n_tilings = -1: the square of the bits needed for four times the dimension or for the tiles of a side, whichever is more"""
    M = c.mod('mushroom_rl.features.tiles')
    d = c.choice('d', [1, 2, 3])
    n = c.choice('n', [1, 3, 5, 9, 12, 20])
    N = [n] + [2] * (d - 1)
    ts = M.Tiles.generate(-1, N, [0.] * d, [1.] * d)
    bits = max((4 * d - 1).bit_length(), (max(N) - 1).bit_length())
    c.ensure('number', len(ts) == bits * bits)


class Tiling:
    """arbitrary tiling: a size and an index (or none) for every point"""
    _pydv_ghost = True

    def __init__(self, c, name, none):
        self.c, self.size, self.none = c, c.size(name + 'size', 1), none
        self.ix = c.func(name + 'ix', 1, 'int', 0)

    def index(self, v):
        c = self.c
        i = self.ix(v)
        if c.symbolic:
            c.assume(c.lt(i, self.size))
            return i
        return int(i) % self.size

    def __call__(self, x):
        return None if self.none else self.index(self.c.at(x, 0))


@harness(P, 'tiles_features')
def tiles_features(c):
    M = c.mod('mushroom_rl.features.features')
    k = c.choice('tilings', [1, 2, 3])
    ts = [Tiling(c, f't{i}', c.choice(f'none{i}', [False, True])) for i in range(k)]
    F = M.Features(tilings=ts if k > 1 else c.choice('single', [ts[0], ts]))
    tot = sum(t.size for t in ts)
    c.ensure_eq('size', lambda: F.size, tot)
    b = c.choice('batch', [0, 1, 2])
    x = c.array('x', (1,) if b == 0 else (b, 1))
    y = F(x)
    ind = F.compute_indexes(x)
    rows = [c.at(x, 0)] if b == 0 else [c.at(x, i, 0) for i in range(b)]
    for j, v in enumerate(rows):
        act, off = [], 0
        for t in ts:
            if not t.none:
                act.append(t.index(v) + off)
            off = off + t.size
        c.ensure_all('one-active-tile-per-tiling', (tot,), lambda q: c.eq(
            c.at(y, q) if b < 2 else c.at(y, j, q), c.ite(c.or_(*[c.eq(q, a) for a in act]) if act else False, 1., 0.)))
        got = ind if b < 2 else ind[j]
        c.ensure('indexes', lambda: c.and_(len(got) == len(act), *[c.eq(g, a) for g, a in zip(got, act)]))


@harness(P, 'voronoi')
def voronoi(c):
    M = c.mod('mushroom_rl.features.tiles')
    n, d = c.choice('n', [1, 2, 3]), c.choice('d', [1, 2])
    Q = c.array('Q', (n, d))
    V = M.VoronoiTiles(Q)
    x = c.array('x', (d,))
    c.ensure('size', lambda: V.size == n)
    r = V(x)
    dist = [sum((c.at(Q, i, j) - c.at(x, j)) ** 2 for j in range(d)) for i in range(n)]
    c.ensure('in-range', lambda: c.and_(c.le(0, r), c.lt(r, n)))
    for i in range(n):
        c.ensure('nearest', lambda: c.implies(c.eq(r, i), lambda: c.and_(*[c.le(c.sqrt(dist[i]), c.sqrt(dist[k])) for k in range(n)])))


# ------------------------------------------------------------------ basis functions
@harness(P, 'basis_functions')
def basis(c):
    M = c.mod('mushroom_rl.features.basis')
    d = c.choice('d', [1, 2, 3])
    sel = c.choice('sel', [None, [2, 0], [1]])
    n = len(sel) if sel else d
    x = c.array('x', (3 if sel else d,), lo=-3, hi=3)
    x0 = c.copy(x)
    y = [c.at(x0, k) for k in (sel or range(d))]
    m, s = c.array('m', (n,), lo=-3, hi=3), c.array('s', (n,), lo=.2, hi=3)
    c.ensure_eq('gaussian', lambda: M.GaussianRBF(m, s, sel)(x), c.exp(-sum((y[i] - c.at(m, i)) ** 2 / c.at(s, i) for i in range(n))))
    w = c.array('w', (n,), lo=-3, hi=3)
    c.ensure_eq('fourier', lambda: M.FourierBasis(m, s, w, sel)(x), c.cos(
        math.pi * sum((y[i] - c.at(m, i)) / c.at(s, i) * c.at(w, i) for i in range(n))))
    deg = [c.choice(f'deg{i}', [1, 2, 3]) for i in range(n)]
    dims = sel or list(range(d))
    val = 1.
    for i in range(n):
        val = val * y[i] ** deg[i]
    c.ensure_eq('polynomial', lambda: M.PolynomialBasis(dims, deg)(x), val)
    c.ensure_eq('constant', lambda: M.PolynomialBasis()(x), 1)
    L, H = c.array('L', (3 if sel else d,), lo=-4, hi=-1), c.array('H', (3 if sel else d,), lo=1, hi=4)
    val = 1.
    for i in range(n):
        k = dims[i]
        val = val * ((y[i] - (c.at(L, k) + c.at(H, k)) / 2) / ((c.at(H, k) - c.at(L, k)) / 2)) ** deg[i]
    c.ensure_eq('normalized-polynomial', lambda: M.PolynomialBasis(dims, deg, L, H)(x), val)
    for i in range(3 if sel else d):
        c.ensure_eq('input-untouched', lambda: c.at(x, i), c.at(x0, i))


@harness(P, 'basis_features')
def basis_features(c):
    M = c.mod('mushroom_rl.features.features')
    k, b, d = c.choice('k', [1, 2, 3]), c.choice('batch', [0, 1, 2]), c.choice('d', [1, 2])
    fs = [c.func(f'f{i}', d) for i in range(k)]
    F = M.Features(basis_list=[(lambda s, f=f: f(*[c.at(s, j) for j in range(d)])) for f in fs])
    c.ensure('size', lambda: F.size == k)
    split = c.choice('split', [False, True])
    if split and d == 2:
        A, B = c.array('A', (1,) if b == 0 else (b, 1)), c.array('B', (1,) if b == 0 else (b, 1))
        y = F(A, B)
        row = lambda i: [c.at(z, 0) if b == 0 else c.at(z, i, 0) for z in (A, B)]
    else:
        x = c.array('x', (d,) if b == 0 else (b, d))
        y = F(x)
        row = lambda i: [c.at(x, j) if b == 0 else c.at(x, i, j) for j in range(d)]
    c.ensure_shape('shape', y, (k,) if b < 2 else (b, k))
    for i in range(max(b, 1)):
        for q in range(k):
            c.ensure_eq('value', lambda: c.at(y, q) if b < 2 else c.at(y, i, q), fs[q](*row(i)))


@harness(P, 'functional_features')
def functional(c):
    M = c.mod('mushroom_rl.features.features')
    x = c.array('x', (c.size('n', 1),))
    f = c.func('f', 1)
    n = c.size('out', 1)
    F = M.Features(n_outputs=n, function=lambda v: f(c.at(v, 0)))
    c.ensure_eq('size', lambda: F.size, n)
    c.ensure_eq('applies', lambda: F(x), f(c.at(x, 0)))
    I = M.Features(n_outputs=n)
    y = I(x)
    c.ensure_all('identity', (x.shape[0],), lambda i: c.eq(c.at(y, i), c.at(x, i)))


@harness(P, 'factory_is_exclusive')
def factory(c):
    M = c.mod('mushroom_rl.features.features')
    on = [c.choice(k, [False, True]) for k in ('basis', 'tiles', 'tensors', 'outputs')]

    class T:
        _pydv_ghost = True
        size = 1
    kw = dict(basis_list=[lambda s: 0] if on[0] else None, tilings=[T()] if on[1] else None, tensor_list=[T()] if on[2] else None,
              n_outputs=2 if on[3] else None)
    c.ensure('exactly-one-kind', lambda: c.raises(ValueError, lambda: M.Features(**kw)) == (sum(on) != 1))


# ------------------------------------------------------------------ generated bases
CENTERS = [[1], [2], [3], [1, 2], [2, 3], [2, 1, 2]]


def grid(c, nc, lo, hi, eta, cyclic):
    axes, w = [], []
    for i, n in enumerate(nc):
        if n == 1:
            axes.append([(lo[i] + hi[i]) / 2.])
            w.append((hi[i] - lo[i]) / 2)
        else:
            e = hi[i] - (hi[i] - lo[i]) / n if cyclic else hi[i]
            axes.append([lo[i] + k * (e - lo[i]) / (n - 1) for k in range(n)])
            w.append((1 + eta) * (e - lo[i]) / n)
    return axes, w


def first_fastest(ns, k):
    """position of the k-th point of the product when the first axis runs fastest"""
    ix = []
    for n in reversed(ns):
        ix.append(k % n)
        k //= n
    ix = ix[::-1]
    r, m = 0, 1
    for i, n in zip(ix, ns):
        r += i * m
        m *= n
    return r


@harness(P, 'uniform_grid')
def uniform(c):
    M = c.mod('mushroom_rl.utils.features')
    nc = CENTERS[c.choice('centers', list(range(len(CENTERS))))]
    d = len(nc)
    lo = [c.real(f'lo{i}', -5, 0) for i in range(d)]
    hi = [c.real(f'hi{i}', .5, 6) for i in range(d)]
    eta = c.real('eta', .01, .99)
    cyc = c.choice('cyclic', [False, True])
    g, w = M.uniform_grid(list(nc), vec(c, lo), vec(c, hi), eta, cyc)
    axes, ws = grid(c, nc, lo, hi, eta, cyc)
    pts = list(itertools.product(*axes))
    c.ensure_shape('one-row-per-point', g, (len(pts), d))
    for i in range(d):
        c.ensure_eq('width', lambda: c.at(w, i), ws[i])
    # every point of the product appears (rows and points are equally many)
    for p in pts:
        c.ensure('every-point', lambda: c.or_(*[c.and_(*[c.eq(c.at(g, r, i), p[i]) for i in range(d)]) for r in range(len(pts))]))


@harness(P, 'generated_bases')
def generated(c):
    M = c.mod('mushroom_rl.features.basis')
    nc = CENTERS[c.choice('centers', list(range(len(CENTERS))))]
    d = len(nc)
    lo = [c.real(f'lo{i}', -5, 0) for i in range(d)]
    hi = [c.real(f'hi{i}', .5, 6) for i in range(d)]
    eta = c.real('eta', .01, .99)
    if c.symbolic:
        # the grid itself is covered for every range by `uniform_grid`
        lo, hi, eta = [-1., -2.5, 0.][:d], [2., .5, 1.][:d], .25
    x = c.array('x', (d,), lo=-6, hi=7)
    rb = M.GaussianRBF.generate(list(nc), vec(c, lo), vec(c, hi), eta=eta)
    axes, ws = grid(c, nc, lo, hi, eta, False)
    pts = list(itertools.product(*axes))
    c.ensure('number-of-gaussians', lambda: len(rb) == len(pts))
    vals = [b(x) for b in rb]
    for ip, p in enumerate(pts):
        k = first_fastest(nc, ip)
        v = c.exp(-sum((c.at(x, i) - p[i]) ** 2 / (2 * (ws[i] / 3) ** 2) for i in range(d)))
        c.ensure('gaussian-at-every-point', lambda: among(c, v, vals, k))
    n = c.choice('n', [0, 1, 2])
    fb = M.FourierBasis.generate(vec(c, lo), vec(c, hi), n)
    cs = list(itertools.product(range(n + 1), repeat=d))
    c.ensure('number-of-harmonics', lambda: len(fb) == len(cs))
    if len(cs) <= 9:
        vals = [b(x) for b in fb]
        for iw, w in enumerate(cs):
            v = c.cos(math.pi * sum((c.at(x, i) - lo[i]) / (hi[i] - lo[i]) * w[i] for i in range(d)))
            c.ensure('every-harmonic', lambda: among(c, v, vals, first_fastest([n + 1] * d, iw)))


@harness(P, 'generated_polynomials')
def polys(c):
    M = c.mod('mushroom_rl.features.basis')
    n, deg = c.choice('n', [1, 2, 3, 4]), c.choice('deg', [0, 1, 2, 3, 4])
    import numpy
    x = [2., 3., 5., 7.][:n]
    bs = M.PolynomialBasis.generate(deg, n)
    X = vec(c, x)
    num = lambda v: round(float(v.item() if hasattr(v, 'item') else v))
    got = sorted(num(b(X)) for b in bs)
    want = sorted(round(math.prod(v ** e for v, e in zip(x, es))) for es in itertools.product(range(deg + 1), repeat=n) if sum(es) <= deg)
    c.ensure('every-monomial-once', lambda: got == want)


# ------------------------------------------------------------------ tensors
def mk_tensor(kind):
    @harness(P, 'tensor_' + kind)
    def tensor(c):
        M, F = c.mod('mushroom_rl.features.tensors'), c.mod('mushroom_rl.features.features')
        n, d, b = c.choice('centers', [1, 2, 3]), c.choice('d', [1, 2]), c.choice('batch', [0, 1, 2])
        norm = c.choice('normalized', [False, True])
        mu, s = c.array('mu', (n, d), lo=-2, hi=2), c.array('s', (d,), lo=.5, hi=3)
        dims = [None, [2, 0][:d]][c.choice('selected', [0, 1])]     # only some of the input's dimensions
        T = (M.GaussianRBFTensor if kind == 'gaussian' else M.VonMisesBFTensor)(mu, s, dims, norm)
        two = c.choice('constant', [False, True])
        phi = F.Features(tensor_list=[T] + ([M.ConstantTensor()] if two else []))
        k = n + (1 if two else 0)
        c.ensure_eq('size', lambda: phi.size, k)
        wd = d if dims is None else 3
        x = c.array('x', (wd,) if b == 0 else (b, wd), lo=-2, hi=2)
        y = phi(x)
        c.ensure_shape('shape', y, (k,) if b < 2 else (b, k))
        for i in range(max(b, 1)):
            xs = [c.at(x, j) if b == 0 else c.at(x, i, j) for j in (range(d) if dims is None else dims)]
            vals = []
            for q in range(n):
                dl = [xs[j] - c.at(mu, q, j) for j in range(d)]
                if kind == 'gaussian':
                    vals.append(c.exp(-sum(dl[j] ** 2 / c.at(s, j) for j in range(d))))
                else:
                    vals.append(c.exp(sum(c.cos(2 * math.pi * dl[j]) / c.at(s, j) for j in range(d)) - sum(1 / c.at(s, j) for j in range(d))))
            if norm:
                t = sum(vals)
                vals = [v / t for v in vals]
            if two:
                vals.append(1.)
            for q in range(k):
                g = c.at(y, q) if b < 2 else c.at(y, i, q)
                c.ensure('value', lambda: c.eq(g, vals[q]) if c.symbolic else abs(float(g) - float(vals[q])) < 1e-4)
    return tensor


mk_tensor('gaussian')
mk_tensor('von_mises')


@harness(P, 'tensor_random_fourier')
def rfb(c):
    M, F = c.mod('mushroom_rl.features.tensors'), c.mod('mushroom_rl.features.features')
    d, n, b = c.choice('d', [1, 2]), c.choice('n', [1, 2, 3]), c.choice('batch', [0, 1, 2])
    Pm, ph, nu = c.array('P', (d, n), lo=-2, hi=2), c.array('phi', (n,), lo=-3, hi=3), c.real('nu', .3, 4)
    phi = F.Features(tensor_list=[M.RandomFourierBasis(Pm, ph, nu)])
    c.ensure_eq('size', lambda: phi.size, n)
    x = c.array('x', (d,) if b == 0 else (b, d), lo=-2, hi=2)
    y = phi(x)
    c.ensure_shape('shape', y, (n,) if b < 2 else (b, n))
    for i in range(max(b, 1)):
        xs = [c.at(x, j) if b == 0 else c.at(x, i, j) for j in range(d)]
        for q in range(n):
            v = c.sin(sum(xs[j] * c.at(Pm, j, q) for j in range(d)) / nu + c.at(ph, q))
            g = c.at(y, q) if b < 2 else c.at(y, i, q)
            c.ensure('value', lambda: c.eq(g, v) if c.symbolic else abs(float(g) - float(v)) < 1e-4)


@harness(P, 'generated_tensors')
def generated_tensors(c):
    M, F = c.mod('mushroom_rl.features.tensors'), c.mod('mushroom_rl.features.features')
    nc = CENTERS[c.choice('centers', list(range(len(CENTERS))))]
    d = len(nc)
    # the grid itself is covered for every range by `uniform_grid`
    lo, hi, eta = [-1., -2.5, 0.][:d], [2., .5, 1.][:d], .25
    kind = c.choice('kind', ['gaussian', 'von_mises'])
    norm = c.choice('normalized', [False, True])
    dims = [None, list(range(d))[::-1]][c.choice('selected', [0, 1])]
    ts = (M.GaussianRBFTensor if kind == 'gaussian' else M.VonMisesBFTensor).generate(list(nc), vec(c, lo), vec(c, hi), dims, eta, norm)
    phi = F.Features(tensor_list=ts)
    axes, ws = grid(c, nc, lo, hi, eta, kind == 'von_mises')
    pts = list(itertools.product(*axes))
    c.ensure_eq('number-of-centers', lambda: phi.size, len(pts))
    x = c.array('x', (d,), lo=-2, hi=2)
    xs = [c.at(x, j) for j in (dims or range(d))]
    y = phi(x)
    c.ensure_shape('shape', y, (len(pts),))
    if len(pts) > 4 and c.symbolic:
        return
    vals = []
    for p in pts:
        dl = [xs[j] - p[j] for j in range(d)]
        if kind == 'gaussian':
            vals.append(c.exp(-sum(dl[j] ** 2 / (2 * (ws[j] / 3) ** 2) for j in range(d))))
        else:
            vals.append(c.exp(sum(c.cos(2 * math.pi * dl[j]) / ws[j] for j in range(d)) - sum(1 / ws[j] for j in range(d))))
    if norm:
        t = sum(vals)
        if not c.symbolic:
            c.assume(t > 1e-3)
        vals = [v / t for v in vals]
    if c.symbolic:
        for ip, v in enumerate(vals):
            c.ensure('value-at-every-point', lambda: among(c, v, [c.at(y, q) for q in range(len(pts))], first_fastest(nc, ip)))
    else:
        c.ensure('value-at-every-point', lambda: max(abs(a - b) for a, b in zip(sorted(float(v) for v in vals), sorted(float(q) for q in y))) < 1e-4)


@harness(P, 'generated_random_tensors')
def generated_random(c):
    M, F, V = c.mod('mushroom_rl.features.tensors'), c.mod('mushroom_rl.features.features'), c.mod('mushroom_rl.features.tiles')
    d, n, nu = c.choice('d', [1, 2]), c.choice('n', [2, 3, 4]), c.real('nu', .3, 4)
    bias = c.choice('bias', [False, True])
    phi = F.Features(tensor_list=M.RandomFourierBasis.generate(nu, n, d, bias))
    c.ensure_eq('number-of-features', lambda: phi.size, n)
    x = c.array('x', (3, d), lo=-2, hi=2)
    y = phi(x)
    c.ensure_shape('shape', y, (3, n))
    c.ensure_all('bounded', (3, n), lambda i, j: c.and_(c.le(-1, c.at(y, i, j)), c.le(c.at(y, i, j), 1)))
    if bias:
        c.ensure_all('constant-last', (3,), lambda i: c.eq(c.at(y, i, n - 1), 1.))
    # Voronoi tilings with random prototypes
    uni, nt = c.choice('uniform', [False, True]), c.choice('tilings', [1, 2, 3])
    lo, hi = [c.real(f'lo{i}', -5, 0) for i in range(d)], [c.real(f'hi{i}', .5, 6) for i in range(d)]
    a, b = vec(c, lo), vec(c, hi)
    ts = V.VoronoiTiles.generate(nt, n, low=a, high=b) if uni else V.VoronoiTiles.generate(nt, n, mu=a, sigma=b)
    c.ensure('number-of-tilings', lambda: len(ts) == nt and all(t.size == n for t in ts))
    c.ensure('different-objects', lambda: len(set(id(t) for t in ts)) == nt)
    for t in ts:
        Q = t._prototypes if hasattr(t, '_prototypes') else unsup(c, 'prototypes')
        c.ensure_shape('prototypes', Q, (n, d))
        if uni:
            c.ensure_all('prototypes-within-the-range', (n, d), lambda i, j: c.and_(
                c.le(vec_at(lo, j, c), c.at(Q, i, j)), c.le(c.at(Q, i, j), vec_at(hi, j, c))))
    if d == 2:
        c.ensure('range-of-both-or-neither', c.raises(AssertionError, lambda: V.VoronoiTiles.generate(nt, n, low=a, high=b, mu=a, sigma=b)))


def vec_at(xs, j, c):
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = c.ite(c.eq(j, i), xs[i], r)
    return r


# ------------------------------------------------------------------ state-action features
@harness(P, 'action_features')
def action_features(c):
    M = c.mod('mushroom_rl.features.features')
    k, nA = c.size('k', 1), c.choice('nA', [1, 2, 3])
    b = c.choice('batch', [0, 1, 2])
    f = c.array('f', (k,) if b == 0 else (b, k))
    a = [c.choice(f'a{i}', list(range(nA))) for i in range(max(b, 1))]
    if c.symbolic:
        A = c.tabulate((1,), lambda i: a[0], kind='int') if b == 0 else c.tabulate(
            (b, 1), lambda i, j: a[i] if isinstance(i, int) else c.ite(c.eq(i, 0), a[0], a[-1]), kind='int')
    else:
        import numpy
        A = numpy.array(a) if b == 0 else numpy.array(a).reshape(-1, 1)
    y = M.get_action_features(f, A, nA)
    c.ensure_shape('shape', y, (nA * k,) if b == 0 else (b, nA * k))
    for i in range(max(b, 1)):
        for m in range(nA):
            c.ensure_all('block', (k,), lambda j: c.eq(c.at(y, m * k + j) if b == 0 else c.at(y, i, m * k + j),
                                                       (c.at(f, j) if b == 0 else c.at(f, i, j)) if m == a[i] else 0.))
