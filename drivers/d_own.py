import hashlib

import numpy as np
from enc import attempt, enc
import lmcdrv  # noqa: F401 (numpy error state)
from runlmc.approx import interpolation as ip
from runlmc.approx.iterative import Iterative
from runlmc.approx.ski import SKI
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.shur import shur
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization import priors
from runlmc.util import numpy_convenience as nc
from runlmc.util.normalizer import Norm


def dig(x):
    """Digest of an object of the caller: contents, types, identities."""
    h = hashlib.sha1()

    def go(y):
        h.update(type(y).__name__.encode())
        if isinstance(y, np.ndarray):
            h.update(repr((y.shape, y.dtype.str, y.strides, id(y),
                           y.flags.writeable)).encode())
            if y.dtype == object:
                for z in y.ravel():
                    h.update(repr(id(z)).encode())
            else:
                h.update(np.ascontiguousarray(y).tobytes())
            if y.base is not None and isinstance(y.base, np.ndarray):
                h.update(np.ascontiguousarray(y.base).tobytes())
        elif isinstance(y, (list, tuple)):
            h.update(repr((len(y), id(y))).encode())
            for z in y:
                go(z)
        elif isinstance(y, dict):
            h.update(repr((len(y), id(y))).encode())
            for k in sorted(y):
                go(k)
                go(y[k])
        elif isinstance(y, (int, float, str, bool, type(None))):
            h.update(repr(y).encode())
        else:
            h.update(repr(id(y)).encode())
    go(x)
    return h.hexdigest()[:16]


def lay(a, how):
    """The numbers of a, in some memory layout, as a fresh array."""
    a = np.array(a, dtype=float)
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * s + 1 for s in a.shape), 7.25)
        v = b[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if how == 'rev':
        return np.array(a[::-1])[::-1]
    if how == 'int':
        return np.round(a * 3).astype(int)
    return np.ascontiguousarray(a)


class Owner:
    """The objects the caller holds."""

    def __init__(self, ev):
        self.objs, self.ev = {}, ev

    def own(self, name, x):
        self.objs[name] = x
        return x

    def note(self, op, o, w=(), **kw):
        e = {'op': op, 'o': o, 'w': list(w),
             'dig': [{'n': n, 'd': dig(x)} for n, x in sorted(self.objs.items())]}
        e.update(kw)
        self.ev.append(e)


def ok(f):
    """Only whether it completed."""
    o = attempt(f)
    return o if o['k'] == 'exc' else enc(True)


def mats(f, n, L, own):
    """A matrix made from owned pieces."""
    rng = np.random.RandomState(n)
    tops = [own('top%d' % i, L(5. * 2. ** -np.arange(n) + i)) for i in range(2)]
    T = [Toeplitz(t) for t in tops]
    if f == 'toeplitz':
        return T[0]
    if f == 'bttb':
        top = own('btop', L(np.array([9. / (1 + i + j) for i in range(n) for j in range(3)])))
        return BTTB(top, own('sizes', [n, 3]))
    if f == 'diag':
        return Diag(own('d', L(np.arange(1., n + 1))))
    if f == 'dense':
        return NumpyMatrix(own('A', L(rng.randn(n, n + 1))))
    if f == 'kron':
        return Kronecker(NumpyMatrix(own('A', L(rng.randn(2, 2)))), T[0])
    if f == 'sum':
        return SumMatrix(own('ls', T + [Diag(own('d', L(np.arange(1., n + 1))))]))
    if f == 'comp':
        return Composition(own('ls', [NumpyMatrix(own('A', L(rng.randn(n + 1, n)))), T[0]]))
    if f == 'blocks':
        b = np.empty((2, 2), dtype=object)
        b[0, 0], b[1, 1], b[0, 1], b[1, 0] = T[0], T[1], T[0], T[0]
        return SymmSquareBlockMatrix(own('blk', b))
    if f == 'blockdiag':
        return BlockDiag(own('ls', T + [NumpyMatrix(own('A', L(rng.randn(2, 2))))]))
    import scipy.sparse
    W = scipy.sparse.csr_matrix(np.eye(n + 1, n))
    own('wd', W.data)
    own('wi', W.indices)
    return SKI(T[0], W, W.transpose().tocsr())


def pure(sc, ev):
    f, n = sc['f'], sc['n']
    L = lambda a: lay(a, sc['lay'])
    O = Owner(ev)
    own = O.own
    rng = np.random.RandomState(3 + n)
    calls = []
    xs = lambda P: own('xs', [own('x%d' % i, L(rng.uniform(0, 4, size=(n + i, P)))) for i in range(2)])
    ys = lambda: own('ys', [own('y%d' % i, L(rng.randn(n + i) * 3)) for i in range(2)])
    grid = L(np.arange(-2., 9.))
    if f == 'autogrid':
        X = xs(2)
        lo, hi, m = own('lo', L([-1., 1.])), own('hi', L([9., 2.])), own('m', L([n + 2., n + 3.]))
        calls = [lambda: ip.autogrid(X, lo, hi, m), lambda: ip.autogrid(X, None, hi, None),
                 lambda: ip.autogrid(X, own('lo2', [0, 0]), own('hi2', [1, 1]), own('m2', [3, 9]))]
    elif f == 'cubic':
        own('g', grid)
        s = own('s', L(rng.uniform(-4, 11, size=n)))
        calls = [lambda: ip.interp_cubic(grid, s)]
    elif f == 'bicubic':
        own('g', grid)
        g2 = own('g2', L(np.arange(0., 12, 2)))
        s = own('s', L(rng.uniform(-4, 11, size=(n, 2))))
        calls = [lambda: ip.interp_bicubic(grid, g2, s)]
    elif f in ('multi', 'multi2'):
        own('g', grid)
        X = xs(1 if f == 'multi' else 2)
        gs = [grid] if f == 'multi' else [grid, own('g2', L(np.arange(-3., 12)))]
        calls = [lambda: ip.multi_interpolant(X, *gs)]
    elif f == 'kernel':
        u = own('u', L(np.linspace(-1.9, 1.9, n)) if sc['lay'] != 'int' else np.arange(-1, 2))
        calls = [lambda: ip.cubic_kernel(u)]
    elif f in ('solve', 'solvecg'):
        A = rng.randn(n, n)
        K = NumpyMatrix(own('A', L(A.dot(A.T) + n * np.eye(n))))
        y = own('y', L(rng.randn(n) * 4))
        mr = f == 'solve'
        calls = [lambda: Iterative.solve(K, y, minres=mr), lambda: Iterative.solve(K, y, verbose=True, minres=mr)]
    elif f in ('toeplitz', 'bttb', 'diag', 'dense', 'kron', 'sum', 'comp', 'blocks', 'blockdiag', 'ski'):
        M = []

        def build():
            M.append(mats(f, n, L, own))
        try:
            build()
        except Exception as x:  # pylint: disable=broad-except
            ev.append({'op': 'escaped', 'o': enc(x)})
            return
        M = M[0]
        v = own('v', L(rng.randn(M.shape[1]) * 5))
        X = own('X', L(rng.randn(M.shape[1], 3) * 5))
        O.note('own', enc(True))
        mats_digs = dict(O.objs)
        # building once more, now that the pieces are recorded
        O.note('build', ok(lambda: mats(f, n, L, lambda k, x: mats_digs.get(k, x))))
        for name, c in (('matvec', lambda: M.matvec(v)), ('matmat', lambda: M.matmat(X)),
                        ('numpy', M.as_numpy), ('operator', lambda: M.as_linear_operator().matvec(v)),
                        ('matvec', lambda: M.matvec(v))):
            O.note(name, ok(c))
        if hasattr(M, 'upper_eig_bound') and f in ('toeplitz', 'diag'):
            O.note('bound', ok(M.upper_eig_bound))
        return
    elif f == 'tesselate':
        a = own('a', L(rng.randn(2 * n, 2) * 5))
        ls = own('ls', [n, 0, n])
        calls = [lambda: nc.tesselate(a, ls)]
    elif f == 'search':
        a = own('a', L(np.sort(rng.randn(n) * 5)[::-1]))
        calls = [lambda: nc.search_descending(0., a, True), lambda: nc.search_descending(1, a, False)]
    elif f == 'eig':
        a = own('a', L(5. * 2. ** -np.arange(n)))
        calls = [lambda: nc.smallest_eig(a)]
    elif f == 'symmap':
        a = own('a', L(rng.randn(n, n) * 5))
        calls = [lambda: nc.symm_2d_list_map(lambda z: z, a, n)]
    elif f == 'offsets':
        a = own('a', [3, 0] + [2] * n)
        b = own('b', L(np.arange(n)).astype(int))
        calls = [lambda: nc.begin_end_indices(a), lambda: nc.begin_end_indices(b)]
    elif f == 'chunks':
        a, b = own('a', L(np.arange(2 * n + 1))), own('b', list(range(2 * n + 1)))
        calls = [lambda: list(nc.chunks(a, n)), lambda: list(nc.chunks(b, 2))]
    elif f == 'product':
        a, b = own('a', L(np.arange(n))), own('b', L(np.arange(3.)))
        calls = [lambda: nc.cartesian_product(a, b), lambda: nc.cartesian_product(a, a, b)]
    elif f == 'entries':
        a = own('a', L(rng.randn(n, 3) * 5))
        calls = [lambda: nc.map_entries(lambda z: z + 1, a)]
    elif f == 'mean':
        X = own('xs', [own('x%d' % i, L(rng.randn(n + i))) for i in range(2)])
        c0 = own('c0', L([1., 2.]))
        mc, z = Constant(1, 2, c0), Zero(1, 2)
        g = own('g', L([3., 4.]))
        calls = [lambda: mc.f(X), lambda: mc.mean_gradient(X), lambda: z.f(X), lambda: z.mean_gradient(X),
                 lambda: mc.update_gradient(g)]
    elif f == 'kern':
        d = own('d', L(np.abs(rng.randn(n, 2)) * 3))
        sm = [RBF(.7), Matern32(1.3), StdPeriodic(.9, 1.4), Scaled(RBF(2.))]
        g = own('g', [L([3.]), L([4.])])
        for k in sm:
            calls += [lambda k=k: k.from_dist(d), lambda k=k: k.kernel_gradient(d)]
        calls += [lambda: sm[2].update_gradient(own('g2', L([2., 3.]))), lambda: sm[0].update_gradient(g[0])]
    elif f == 'prior':
        a = own('a', L(np.abs(rng.randn(n)) + .5))
        for p in (priors.Gaussian(1, 2), priors.Gamma(2, 3), priors.InverseGamma(2, 1), priors.HalfLaplace(2)):
            calls += [lambda p=p: p.lnpdf(a), lambda p=p: p.lnpdf_grad(a)]
    elif f == 'shur':
        a = own('a', L(5. * 2. ** -np.arange(n)))
        calls = [lambda: shur(a)]
    elif f == 'norm':
        a = own('a', L(rng.randn(n) * 5))
        nm = Norm()
        calls = [lambda: nm.scale_by(a), lambda: nm.normalize(a), lambda: nm.inverse_mean(a),
                 lambda: nm.inverse_variance(a)]
    elif f == 'fkern':
        lk = own('lk', [RBF(active_dims=own('ad', [1, 0]), name='a'), RBF(name='b')])
        rk = own('rk', [2, 1])
        sk, ik, ii = own('sk', [RBF(name='c')]), own('ik', [RBF(name='d')]), own('ii', [1])
        vecs = own('vecs', [own('v%d' % i, L(rng.randn(r, 3) * 4)) for i, r in enumerate([2, 1, 1])])
        nz = own('nz', L([1., 2., 3.]))
        st = {}

        def mk():
            st['k'] = FunctionalKernel(D=3, lmc_kernels=lk, lmc_ranks=rk, slfm_kernels=sk, indep_gp=ik,
                                       indep_gp_index=ii)

        def setnoise():
            st['k'].noise = nz

        def setvecs():
            st['k'].coreg_vecs = vecs + [np.zeros((1, 3))]
        ds = own('ds', {(0, 1): own('d2', L(np.abs(rng.randn(n)) * 3))})
        calls = [mk, lambda: st['k'].set_input_dim(2), setnoise, setvecs, lambda: st['k'].coreg_mats(),
                 lambda: st['k'].eval_kernels(ds)]
    elif f == 'gpy':
        X, Y = xs(1), ys()
        ks, rk = own('ks', [RBF(1.), RBF(.3)]), own('rk', [1, 2])
        q = own('q', [own('q0', L(rng.randn(2) * 3)), own('q1', L(rng.randn(1) * 3))])
        qs = own('quant', L([5., 50.]))
        st = {}

        def mk():
            st['m'] = GPyLMC(X, Y, ks, rk)
        calls = [mk, lambda: st['m'].predict(q), lambda: st['m'].predict_quantiles(q, qs)]
    O.note('own', enc(True))
    for c in calls:
        O.note(f, ok(c))


def hist(sc, ev):
    D, P = sc['D'], sc['P']
    rng = np.random.RandomState(11)
    O = Owner(ev)
    Lx = lambda a: lay(a, sc['lx'])
    data = lambda: [rng.uniform(0, 5, size=(4 + i, P)) for i in range(D)]
    flat = lambda a: a[:, 0] if sc['flat'] and P == 1 else a
    xs = O.own('xs', [O.own('x%d' % i, flat(Lx(x))) for i, x in enumerate(data())])
    ys = O.own('ys', [O.own('y%d' % i, Lx(np.sin(np.arange(len(x)) * 1.3 + i) * 3)) for i, x in enumerate(xs)])
    cx, cy = [np.array(x, dtype=float) for x in xs], [np.array(y, dtype=float) for y in ys]

    def lists():
        r = {'lmc_kernels': [RBF(.8, name='l0')], 'lmc_ranks': [1]}
        if sc['mix'] == 'all':
            r['slfm_kernels'] = [Matern32(1.1, name='s0')]
            r['indep_gp'] = [RBF(1.5, name='i0')]
            r['indep_gp_index'] = [D - 1]
        return r
    args = O.own('args', lists())
    gk = {}
    if sc['grid']:
        gk = {'lo': O.own('lo', Lx(np.zeros(P))), 'hi': O.own('hi', Lx(np.full(P, 6.))),
              'm': O.own('m', np.full(P, 6 if P == 1 else 3))}
    base = dict(normalize=sc['norm'], prediction=sc['mode'], max_procs=1, trace_iterations=1)
    opts = O.own('opts', dict(base, **gk))
    O.note('own', enc(True))
    st = {}

    def build(x, y, a, kw):
        np.random.seed(3)
        return InterpolatedLLGP(x, y, functional_kernel=FunctionalKernel(D=D, **a), **kw)

    def mk():
        st['m'] = build(xs, ys, args, opts)
    O.note('build', ok(mk))
    if 'm' not in st:
        return
    m = st['m']
    vers = {'q1': 0, 'q2': 0}

    def content(q, v):
        r = np.random.RandomState(100 * v + (7 if q == 'q1' else 9))
        if q == 'q1':
            return [r.uniform(.2, 4.8, size=(1 + i % 2, P)) for i in range(D)]
        # also points outside the grid, and outputs without points
        return [r.uniform(-4, 12, size=((1 + i) % 3, P)) for i in range(D)]
    Q = {q: [flat(lay(a, sc['lq'])) for a in content(q, 0)] for q in vers}
    for q in vers:
        O.own(q, Q[q])
    quant = O.own('quant', np.array([5, 90, 50]) if sc['lq'] == 'int' else lay([5., 90., 50.], sc['lq']))
    nq = np.array(quant, dtype=float)
    res, rname = [], 'none'

    def fresh(pars):
        kw = dict(base, **{k: np.array(v, dtype=float) for k, v in gk.items()})
        f = build([x.copy() for x in cx], [y.copy() for y in cy], lists(), kw)
        f.update_model(False)
        f.param_array[:] = pars
        f.update_model(True)
        f.parameters_changed()
        return f

    def ask(model, f, q, qu):
        r = model.predict(q) if f == 'predict' else [model.predict_quantiles(q, qu)]
        return [a for part in r for a in part]
    O.note('own', enc(True))
    # the answers of a fresh model are computed at the end: the models share
    # caches, and another model in between would empty them
    later = []
    for op in sc['ops']:
        if op['op'] in ('predict', 'quant'):
            q = Q[op['q']]
            out = []

            def run():
                out.extend(ask(m, op['op'], q, quant))
                return [np.array(a) for a in out]
            o = attempt(run)
            cq = [np.array(a, dtype=float) for a in q]
            later.append((len(ev), op['op'], cq, np.array(m.param_array)))
            res[:] = out
            # every answer given stays the caller's
            rname = 'r%d' % len(ev)
            O.own(rname, list(out))
            O.note(op['op'], o, w=[rname])
        elif op['op'] == 'scribble':
            if op['q'] == 'res':
                for a in res:
                    if a.flags.writeable:
                        a[...] = 1e6
                O.note('scribble', enc(True), w=[rname])
            else:
                vers[op['q']] += 1
                for a, c in zip(Q[op['q']], content(op['q'], vers[op['q']])):
                    c = flat(c)
                    a[...] = np.round(3 * c) if sc['lq'] == 'int' else c
                O.note('scribble', enc(True), w=[op['q']])
        elif op['op'] == 'optimize':
            kw = O.own('kw', {'optimizer': AdaDelta(max_it=2, verbosity=0)})
            O.note('own', enc(True), w=['kw'])
            np.random.seed(4)
            O.note('optimize', ok(lambda: m.optimize(**kw)))
        elif op['op'] == 'setnoise':
            nz = O.own('nz', lay(np.arange(1., D + 1), sc['lq']))
            O.note('own', enc(True), w=['nz'])

            def sn():
                m.kern.noise = nz
            O.note('setnoise', ok(sn))
        elif op['op'] == 'setvecs':
            cur = [np.array(v) + (.25 if i < 2 else 0) for i, v in enumerate(m.kern.coreg_vecs)]
            vs = O.own('vs', [lay(v, 'c' if sc['lq'] == 'int' else sc['lq']) for v in cur])
            O.note('own', enc(True), w=['vs'])

            def sv():
                m.kern.coreg_vecs = vs
            O.note('setvecs', ok(sv))
        else:
            O.note('read', ok(lambda: (m.K(), m.log_likelihood(), m.normal_quadratic(), m.log_det_K())))
    for i, f, cq, pars in later:
        ev[i]['fresh'] = attempt(lambda: ask(fresh(pars), f, cq, nq.copy()))


def replay(sc, ev):
    np.random.seed(1)
    globals()[sc['kind']](sc, ev)
