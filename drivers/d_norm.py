import numpy as np
from enc import attempt, enc
import lmcdrv
QT = {'def': (2.5, 97.5), 'one': [50], 'many': (1, 5, 25, 75, 99),
      'rev': np.array([97.5, 50, 2.5, 2.5]),
      'ext': [.1, .5, 1.6, 50., 98.4, 99.7, 99.9]}


def replay(sc, ev):
    r = sc['r']
    m = lmcdrv.model(r, prediction=sc['mode'])
    ev.append({'op': 'ys', 'norm': r['norm'], 'o': enc(list(m.Ys))})
    other = lmcdrv.model(r, normalize=not r['norm'])
    ev.append({'op': 'ys', 'norm': not r['norm'], 'o': enc(list(other.Ys))})
    r2 = dict(r)
    r2['Y'] = [[a / 1000. * y + b for y in ys]
               for ys, a, b in zip(r['Y'], sc['a'], sc['b'])]
    m2 = lmcdrv.model(r2, prediction=sc['mode'])
    batches = [lmcdrv.xs_of(b, r['P'], squeeze=True) for b in sc['qs']]
    for i, b in enumerate(batches):
        ev.append({'op': 'predict', 'b': i + 1, 'o': attempt(m.predict, b)})
    # other units per output; predictions converted back
    r3 = dict(r)
    us = [10. ** u for u in sc['u']]
    r3['Y'] = [[y * u for y in ys] for ys, u in zip(r['Y'], us)]
    m3 = lmcdrv.model(r3, prediction=sc['mode'])

    def back(b):
        mu, var = m3.predict(b)
        return ([np.asarray(x) / u for x, u in zip(mu, us)],
                [np.asarray(x) / u / u for x, u in zip(var, us)])
    ev.append({'op': 'units', 'b': 1, 'ys': enc(list(m3.Ys)),
               'o': attempt(back, batches[0])})
    for i, b in enumerate(batches):
        ev.append({'op': 'scaled', 'b': i + 1, 'o': attempt(m2.predict, b)})
        if sc['qt'] == 'def':
            o = attempt(m.predict_quantiles, b)
        else:
            o = attempt(m.predict_quantiles, b, QT[sc['qt']])
        ev.append({'op': 'quantiles', 'qt': sc['qt'], 'b': i + 1, 'o': o})
        o = attempt(m.predict_quantiles, b, quantiles=QT['many'])
        ev.append({'op': 'quantiles', 'qt': 'many', 'b': i + 1, 'o': o})
