import numpy as np
from enc import attempt, enc
from d_linops import build, genvec
from runlmc.linalg.shur import shur


def replay(sc, ev):
    if sc['op'] == 'chol':
        top = np.array(sc['top'], dtype=float) / 1000.
        if sc['s'] and all(x % 1000 == 0 for x in sc['top']):
            top = np.array([x // 1000 for x in sc['top']])
        keep = np.array(top)
        ev.append({'op': 'chol', 'o': attempt(shur, top)})
        ev.append({'op': 'same', 'o': enc(bool((keep == top).all()))})
        return
    M = build(sc['e'], sc['s'])
    ev.append({'op': 'bound', 'o': attempt(lambda: float(M.upper_eig_bound()))})
    # again after the matrix has been used
    x = genvec(sc['s'], int(M.shape[1])) / 1.
    M.matvec(x)
    ev.append({'op': 'bound', 'o': attempt(lambda: float(M.upper_eig_bound()))})
