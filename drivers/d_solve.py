import logging
import re

import numpy as np
import scipy.sparse.linalg as sla
from enc import arr, attempt, enc, exc, fx
from runlmc.approx.iterative import Iterative
from runlmc.linalg.diag import Diag
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.toeplitz import Toeplitz


class Counting(Matrix):
    """Counts the products asked of the system matrix."""

    def __init__(self, K):
        super().__init__(*K.shape)
        self.K = K
        self.prods = 0

    def matvec(self, x):
        self.prods += 1
        return self.K.matvec(x)


class Grab(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, record):
        if record.levelno >= logging.CRITICAL:
            self.msgs.append(record.getMessage())


def operator(m, n):
    f = m['fam']
    if f in ('lap', 'toep', 'smooth'):
        top = np.array(m['top']) / 1000.
        return Toeplitz(top), np.full(n, top[0])
    if f == 'diag':
        v = np.array(m['v']) / 1000.
        return Diag(v), v
    A = np.array(m['A'], dtype=float).reshape(n, n)
    K = A.T.dot(A) + np.eye(n) * (m['sh'] / 1000.)
    return NumpyMatrix(K), np.diag(K)


def replay(sc, ev):
    n = sc['n']
    K, dg = operator(sc['m'], n)
    K = Counting(K)
    if sc['pre'] == 'jacobi':
        K.preconditioner = sla.LinearOperator(
            shape=(n, n), dtype=float, matvec=lambda x: np.asarray(x).ravel() / dg)
    y = np.array(sc['y'], dtype=sc['dt'])
    keep = np.array(y)
    kw = {}
    if sc['tol'] != 99:
        kw['tol'] = 10. ** -sc['tol']
    if sc['verbose']:
        kw['verbose'] = True
    if not sc['minres']:
        kw['minres'] = False
    h = Grab()
    lg = logging.getLogger('runlmc')
    lg.addHandler(h)
    e = {'op': 'solve'}
    try:
        r = Iterative.solve(K, y, **kw)
        if sc['verbose']:
            x, ctr, err = r
            e.update(x=arr(x), ctr=enc(ctr), err=enc(float(err)))
        else:
            e.update(x=arr(r))
    except Exception as x:  # pylint: disable=broad-except
        ev.append({'op': 'raised', 'o': exc(x)})
        return
    finally:
        lg.removeHandler(h)
    nums = []
    for m in h.msgs:
        for w in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', m):
            nums.append(fx(float(w)))
    e.update(logged=len(h.msgs), nums=nums, prods=K.prods,
             same=bool((y == keep).all()))
    ev.append(e)
