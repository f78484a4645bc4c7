import random
import numpy as np
from enc import attempt, enc
import lmcdrv
from runlmc.approx.interpolation import autogrid


def replay(sc, ev):
    r = sc['r']
    lo, hi, m = r['lo'] or None, r['hi'] or None, r['m'] or None
    how = sc['how']
    if how == 'model':
        mod = lmcdrv.model(r)
        items = sorted(mod.grid_axes.items())
        ev.append({'op': 'model', 'ads': [[int(d) for d in k] for k, _ in items],
                   'o': enc([list(v) for _, v in items])})
        return
    Xs = lmcdrv.xs_of(r['X'], r['P'])
    if how == 'shuffled':
        rows = np.vstack(Xs)
        rnd = random.Random(len(rows))
        order = list(range(len(rows)))
        rnd.shuffle(order)
        rows = rows[order]
        cut = sorted(rnd.sample(range(1, len(rows)), len(Xs) - 1))
        Xs = np.split(rows, cut)
    lo, hi = (None if b is None else [x / 1000. for x in b] for b in (lo, hi))
    if how != 'list':
        lo, hi, m = (None if b is None else np.array(b) for b in (lo, hi, m))
    if how == 'int' and m is not None:
        m = m.astype(float)
    ev.append({'op': 'autogrid', 'o': attempt(lambda: list(autogrid(Xs, lo, hi, m)))})
