import numpy as np
from enc import attempt, enc
import lmcdrv  # noqa: F401 (numpy error state)
from runlmc.kern.rbf import RBF
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.diag import Diag
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero
from runlmc.models.interpolated_llgp import InterpolatedLLGP

KW = dict(max_procs=1, trace_iterations=1)


def x_of(i, s, amp=None):
    rng = np.random.RandomState(17 + i)
    sh = {1: (s['n'],), 2: (s['n'], s['c']), 3: (s['n'], s['c'], 2)}[s['nd']]
    a = rng.uniform(0, 4, size=sh)
    return np.arange(a.size).reshape(sh) if amp == 'intx' else a


def y_of(i, s, amp='plain'):
    if s['const']:
        y = np.full(s['n'], 0. if s['const'] == 9 else s['const'] / 1000.)
    else:
        y = np.sin(np.arange(s['n']) * (i + 1.) + 1)
        y = {'tiny': 1e-9 * y, 'offset': 1e4 + 1e-3 * y}.get(amp, y)
    if amp in ('int', 'intx'):
        y = np.round(300 * y).astype(int)
    return y if s['nd'] == 1 else np.column_stack([y, y + 1])


def good(P, D, mode='on-the-fly', fk=None, **kw):
    """A model with well-formed arguments."""
    xs = [x_of(i, {'n': 3 + i, 'nd': 2, 'c': P}) for i in range(D)]
    ys = [y_of(i, {'n': 3 + i, 'nd': 1, 'const': 0}) for i in range(D)]
    np.random.seed(5)
    fk = fk or FunctionalKernel(D=D, lmc_kernels=[RBF(.5)], lmc_ranks=[1])
    return InterpolatedLLGP(xs, ys, functional_kernel=fk, prediction=mode,
                            **dict(KW, **kw))


def answers(m, P, D):
    xs = [x_of(50 + i, {'n': 2, 'nd': 2, 'c': P}) for i in range(D)]
    mu, var = m.predict(xs)
    return np.concatenate([np.concatenate(mu), np.concatenate(var),
                           [m.log_likelihood()]])


def made(ev, make, use):
    """Construct, then use what was constructed: rejection is due at
    construction, not at first use."""
    got = []

    def call():
        got.append(make())
        return True
    o = attempt(call)
    ev.append({'op': 'call', 'o': o})
    if got:
        ev.append({'op': 'use', 'o': attempt(use, got[0])})
    return o


def model(sc, ev):
    P = sc['P']
    D = max(len(sc['xs']), len(sc['ys']), 1)
    old = good(P, 2)
    before = attempt(answers, old, P, 2)
    fk = None
    if sc['fk'] != 'none':
        np.random.seed(5)
        fk = FunctionalKernel(D=D, lmc_kernels=[RBF(.5)], lmc_ranks=[1])
        if sc['fk'] == 'bound':
            fk.set_input_dim(sc['fkP'])
    xs = [x_of(i, s, sc['amp']) for i, s in enumerate(sc['xs'])]
    ys = [y_of(i, s, sc['amp']) for i, s in enumerate(sc['ys'])]

    o = made(ev, lambda: InterpolatedLLGP(
        xs, ys, functional_kernel=fk, normalize=sc['norm'], prediction=sc['mode'], **KW),
             lambda m: answers(m, P, D))
    if o['k'] == 'exc' and fk is not None:
        PP = sc['fkP'] if sc['fk'] == 'bound' else P

        def retry():
            m = good(PP, D, fk=fk)
            return bool(np.isfinite(answers(m, PP, D)).all())
        ev.append({'op': 'retry', 'o': attempt(retry)})
    ev.append({'op': 'after', 'before': before, 'now': attempt(answers, old, P, 2)})


def fk(sc, ev):
    kw = {}
    if sc['D'] >= 0:
        kw['D'] = sc['D']
    for name, key in (('lmc_kernels', 'lmc'), ('slfm_kernels', 'slfm'), ('indep_gp', 'indep')):
        if sc[key] >= 0:
            kw[name] = [RBF() for _ in range(sc[key])]
    if sc['ranks'] != [-1]:
        kw['lmc_ranks'] = list(sc['ranks'])
    if sc['idx'] != [-1]:
        kw['indep_gp_index'] = list(sc['idx'])

    def use(k):
        k.set_input_dim(1)
        return [np.array(b) for b in k.coreg_mats()]
    made(ev, lambda: FunctionalKernel(**kw), use)


def dims(sc, ev):
    k = FunctionalKernel(D=2, lmc_kernels=[RBF(.5)], lmc_ranks=[1], slfm_kernels=[RBF(.7)])

    def call():
        for p in sc['ps']:
            k.set_input_dim(p)
        return True
    ev.append({'op': 'call', 'o': attempt(call)})

    def use():
        P = min(2, sc['ps'][0])
        return (k.P == sc['ps'][0] and k.num_lmc == {tuple(range(k.P)): 1}
                and k.num_slfm == {tuple(range(k.P)): 1}
                and (P != k.P or np.isfinite(answers(good(P, 2, fk=k), P, 2)).all()))
    ev.append({'op': 'retry', 'o': attempt(lambda: bool(use()))})


def mat(sc, ev):
    c = sc['cls']
    a = np.arange(1., 1 + int(np.prod(sc['sh']))).reshape(sc['sh'])

    def call():
        if c == 'toeplitz':
            m = Toeplitz(a)
        elif c == 'diag':
            m = Diag(a)
        elif c == 'dense':
            m = NumpyMatrix(a)
        elif c == 'bttb':
            m = BTTB(a, sc['more'])
        elif c == 'sum':
            m = SumMatrix([NumpyMatrix(np.ones((k, k))) for k in sc['more']])
        elif c == 'rsum':
            m = SumMatrix([NumpyMatrix(np.ones(divmod(k, 100))) for k in sc['more']])
        elif c == 'blocks':
            rows = [[NumpyMatrix(np.ones((2, 2))) for _ in range(k)] for k in sc['more']]
            if rows and all(len(r) == len(rows) for r in rows):
                b = np.empty((len(rows), len(rows)), dtype=object)
                for i, r in enumerate(rows):
                    for j, x in enumerate(r):
                        b[i, j] = x
                rows = b
            m = SymmSquareBlockMatrix(rows)
        else:
            m = Matrix.wrap(tuple(sc['sh']), lambda x: np.zeros(sc['sh'][0]))
        return m
    made(ev, call, lambda m: m.matvec(np.ones(m.shape[1])))


def query(sc, ev):
    P, D = sc['P'], len(sc['qs'])
    m = good(P, D, sc['mode'])
    before = attempt(answers, m, P, D)
    qs = [x_of(70 + i, s) for i, s in enumerate(sc['qs'])]
    f = m.predict if sc['f'] == 'predict' else m.predict_quantiles
    ev.append({'op': 'call', 'o': attempt(f, qs)})
    ev.append({'op': 'after', 'before': before, 'now': attempt(answers, m, P, D)})


def mean(sc, ev):
    f = Zero(1, sc['D']) if sc['t'] == 'zero' else Constant(1, sc['D'])
    xs = [np.linspace(0, 1, 3) if nd == 1 else np.ones((3, 1)) for nd in sc['nds']]
    ev.append({'op': 'call', 'o': attempt(f.f, xs)})


def replay(sc, ev):
    np.random.seed(1)
    globals()[sc['kind']](sc, ev)
