import pickle

import numpy as np
import scipy.sparse
from enc import attempt, enc
from runlmc.approx.ski import SKI
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz


def gen(s, i, j):
    return ((i * i * 7 + j * 5 + i * j * 3 + s * 11) % 7) - 3


def genvec(s, n):
    return np.array([gen(s, i, s) for i in range(1, n + 1)])


def build(e, s):
    t = e['t']
    if t == 'toep':
        v = np.array(e['v'])
        return Toeplitz(v if s % 2 else v.astype(float))
    if t == 'bttb':
        v = np.array(e['v'], dtype=float)
        return BTTB(v, e['sizes'] if s % 2 else tuple(e['sizes']))
    if t == 'diag':
        return Diag(np.array(e['v'], dtype=float if s % 2 else int))
    if t == 'id':
        return Identity(e['n'])
    if t == 'np':
        a = np.array(e['v'], dtype=float)
        return NumpyMatrix(np.asfortranarray(a) if s % 2 else a)
    if t == 'wrap':
        a = np.array(e['v'], dtype=float)
        return Matrix.wrap(a.shape, a.dot)
    sub = [build(x, s) for x in e['a']]
    if t == 'kron':
        return Kronecker(*sub)
    if t == 'bd':
        return BlockDiag(sub)
    if t == 'sum':
        return SumMatrix(sub)
    if t == 'comp':
        return Composition(sub)
    if t == 'sq':
        D, k = e['D'], e['skew']
        tab = [[sub[(abs(i - j) + (min(i, j) + 1) * k) % len(sub)]
                for j in range(D)] for i in range(D)]
        arr = np.empty((D, D), dtype=object)      # documented: a 2D array
        for i in range(D):
            for j in range(D):
                arr[i, j] = tab[i][j]
        tab = arr
        return SymmSquareBlockMatrix(tab)
    if t == 'ski':
        W = scipy.sparse.csr_matrix(np.array(e['w'], dtype=float))
        return SKI(sub[0], W, W.transpose().tocsr())
    raise AssertionError(t)


def replay(sc, ev):
    s = sc['s']
    try:
        M = build(sc['e'], s)
    except Exception as x:  # pylint: disable=broad-except
        ev.append({'op': 'build', 'o': enc(x)})
        return
    m, n = (int(x) for x in M.shape)
    ev.append({'op': 'shape', 'o': enc([m, n])})
    ev.append({'op': 'square', 'o': attempt(M.is_square)})

    def vec(f, via, p, half=False, strided=False):
        x = genvec(s + p, n)
        if half:
            x = x / 2.
        if strided:
            big = np.full(2 * n, 9, dtype=x.dtype)
            big[::2] = x
            x = big[::2]
        keep = np.array(x)
        ev.append({'op': 'matvec', 'via': via, 'p': p, 'half': half,
                   'o': attempt(lambda: np.asarray(f(x)))})
        ev.append({'op': 'same', 'via': via,
                   'o': enc(bool((x == keep).all()))})

    def mat(f, via, p, w, fort=False):
        X = np.array([[gen(s + p, i, j + 1) for j in range(1, w + 1)]
                      for i in range(1, n + 1)], dtype=float).reshape(n, w)
        if fort:
            X = np.asfortranarray(X)
        keep = np.array(X)
        ev.append({'op': 'matmat', 'via': via, 'p': p, 'w': w,
                   'o': attempt(lambda: np.asarray(f(X)))})
        ev.append({'op': 'same', 'via': via, 'o': enc(bool((X == keep).all()))})

    vec(M.matvec, 'int', 0)
    vec(M.matvec, 'half', 1, half=True)
    mat(M.matmat, 'mat', 2, 3)
    ev.append({'op': 'numpy', 'via': 'first', 'o': attempt(M.as_numpy)})
    op = attempt(M.as_linear_operator)
    if op['k'] == 'exc':
        ev.append({'op': 'linop', 'o': op})
    else:
        lo = M.as_linear_operator()
        vec(lo.matvec, 'linop', 3)
        vec(M.as_linear_operator().dot, 'linop_again', 4, half=True)
        if m == n or n > 0:
            mat(lo.matmat, 'linop', 1, 2)
    # a copy sent to another process
    try:
        M2 = pickle.loads(pickle.dumps(M))
    except Exception as x:  # pylint: disable=broad-except
        ev.append({'op': 'pickle', 'o': enc(x)})
        return
    vec(M2.matvec, 'copy', 2, half=True)
    mat(M2.matmat, 'copy', 0, 1)
    if attempt(M2.as_linear_operator)['k'] != 'exc':
        vec(M2.as_linear_operator().matvec, 'copy_linop', 0)
    # the same object again, after all of the above
    vec(M.matvec, 'again', 5, strided=True)
    mat(M.matmat, 'fortran', 3, 4, fort=True)
    if n <= 40:
        ev.append({'op': 'numpy', 'via': 'again', 'o': attempt(M.as_numpy)})
