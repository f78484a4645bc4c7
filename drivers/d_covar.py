import numpy as np
from enc import attempt, enc
import lmcdrv
from runlmc.lmc.likelihood import ExactLMCLikelihood


def gen(s, i):
    return ((i * i * 7 + s * 11 + i * s * 3) % 7) - 3


def replay(sc, ev):
    r = sc['r']
    m = lmcdrv.model(r)
    n = sum(len(x) for x in r['X'])
    K = m.kernel.K
    ev.append({'op': 'shape', 'o': enc([int(x) for x in K.shape])})
    for s in (1, 2):
        x = np.array([gen(s, i) for i in range(1, n + 1)], dtype=float)
        ev.append({'op': 'opvec', 's': s, 'o': attempt(lambda: np.asarray(K.matvec(x)))})
    ev.append({'op': 'op', 'o': attempt(K.as_numpy)})
    ev.append({'op': 'linop', 's': 1, 'o': attempt(
        lambda: np.asarray(K.as_linear_operator().dot(
            np.array([gen(1, i) for i in range(1, n + 1)], dtype=float))))})


def replay_lik(sc, ev):
    r = sc['r']
    fk = lmcdrv.fkern(r)
    m = lmcdrv.model(r, fk)
    order = [('K', m.K), ('logdet', m.log_det_K), ('quad', m.normal_quadratic),
             ('ll', m.log_likelihood)]
    k = len(r['X'][0]) % 4
    for name, f in order[k:] + order[:k]:
        ev.append({'op': name, 'o': attempt(f)})
    ev.append({'op': 'll', 'o': attempt(m.log_likelihood)})
    ev.append({'op': 'obj', 'o': attempt(lambda: float(-m.objective_function()))})
    q = attempt(m.normal_quadratic)
    for e in ev:
        if e['op'] in ('ll', 'obj'):
            e['q'] = q
    Xs = lmcdrv.xs_of(r['X'], r['P'])
    ev.append({'op': 'cross', 'o': attempt(
        ExactLMCLikelihood.kernel_from_indices, Xs, Xs, fk)})
    ev.append({'op': 'K', 'o': attempt(m.K)})
