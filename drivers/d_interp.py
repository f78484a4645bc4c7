import numpy as np
from enc import attempt
from runlmc.approx.interpolation import (interp_bicubic, interp_cubic,
                                         multi_interpolant)


def dense(f, *a):
    return attempt(lambda: np.asarray(f(*a).toarray()))


def replay(sc, ev):
    grids = [(a['o'] + a['d'] * np.arange(a['m'])) / 1000. for a in sc['axes']]
    P = len(grids)
    Xs = [np.array(x, dtype=float).reshape(len(x), P) / 1000. for x in sc['xs']]
    if sc['bad'] != 'no':
        gr = [g.copy() for g in grids]
        X = Xs[0]
        k = sc['at'] - 1
        if sc['bad'] == 'short':
            gr[-1] = gr[-1][:3]
        elif sc['bad'] == 'uneven':
            step = gr[-1][1] - gr[-1][0]
            gr[-1][k] += step * (.3 if k == 0 else -.3)
        elif sc['bad'] == 'gap':
            a = sc['axes'][-1]
            gr[-1] = (a['o'] + a['d'] * np.arange(sc['len'])) / 1000.
            gr[-1][k + 1:] += a['d'] / 1000. * sc['off'] / 1000.
        elif sc['bad'] == 'grid2d':
            gr[-1] = gr[-1].reshape((-1, 1) if k % 2 else (1, -1))
            if not k % 2:
                gr[-1] = np.repeat(gr[-1], 4, axis=0)
        elif sc['bad'] == 'samples':
            X = X.reshape(-1, 1, P) if k % 2 else np.hstack([X, X, X])
        if P == 1:
            if sc['bad'] != 'samples':
                X = X.ravel()
            ev.append({'op': 'reject', 'o': dense(interp_cubic, gr[0], X)})
        else:
            ev.append({'op': 'reject', 'o': dense(interp_bicubic, gr[0], gr[1], X)})
        return
    for i, X in enumerate(Xs):
        if P == 1:
            o = dense(interp_cubic, grids[0], X.ravel())
        else:
            o = dense(interp_bicubic, grids[0], grids[1], X)
        ev.append({'op': 'single', 'd': i + 1, 'o': o})
    ev.append({'op': 'multi', 'o': dense(multi_interpolant, Xs, *grids)})
    if P == 1:
        ev.append({'op': 'multi', 'o': dense(
            multi_interpolant, [X.ravel() for X in Xs], *grids)})
    else:
        ev.append({'op': 'multi', 'o': dense(
            multi_interpolant, [np.asfortranarray(X) for X in Xs], *grids)})
