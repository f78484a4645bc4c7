from enc import attempt
import lmcdrv


def replay(sc, ev):
    r = sc['r']
    m = lmcdrv.model(r, prediction=sc['mode'])
    for i, b in enumerate(sc['qs']):
        Xs = lmcdrv.xs_of(b, r['P'], squeeze=(i % 2 == 0))
        ev.append({'op': 'predict', 'b': i + 1, 'o': attempt(m.predict, Xs)})
    Xs = lmcdrv.xs_of(sc['qs'][0], r['P'])
    ev.append({'op': 'predict', 'b': 1, 'o': attempt(m.predict, Xs)})
