import numpy as np
from enc import arr, attempt, enc
from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero


def replay(sc, ev):
    objs = []
    shared = {}

    def new(o):
        if o['t'] == 'zero':
            objs.append(Zero(1, o['D']))
            return
        c0 = np.array(o['c0'], dtype=float) / 1000.
        if o['src'] == 'int':
            c0 = np.array([x // 1000 for x in o['c0']])
        if o['src'] == 'shared':
            # several objects built from one array
            key = tuple(o['c0'])
            c0 = shared.setdefault(key, c0)
            c0[:] = np.array(o['c0']) / 1000.
        objs.append(Constant(1, o['D']) if o['src'] == 'default'
                    else Constant(1, o['D'], c0))

    def xs(o):
        return [np.linspace(0, 9, n).astype(o.get('dt', 'float')) if i + 1 != o['at']
                else np.linspace(0, 1, n).reshape(-1, 1)
                for i, n in enumerate(o['lens'])]

    for o in sc['ops']:
        e = dict(o)
        m = objs[o['k'] - 1] if 'k' in o else None
        if o['op'] == 'new':
            e['o'] = attempt(new, o)
        elif o['op'] in ('f', 'grad'):
            res = []

            def call():
                res.append(m.f(xs(o)) if o['op'] == 'f'
                           else m.mean_gradient(xs(o)))
                return res[0]
            e['o'] = attempt(call)
            spoil(res)
        else:
            if o['op'] == 'setall':
                m.c[:] = np.array(o['v']) / 1000.
            elif o['op'] == 'set1':
                m.c[o['i'] - 1] = o['v'] / 1000.
            elif o['op'] == 'upd':
                g = np.array(o['v']) / 1000.
                m.update_gradient(g)
                g += 7
            if isinstance(m, Zero):
                e['c'] = e['g'] = enc(np.array([]))
            else:
                e['c'] = arr(np.array(m.c))
                e['g'] = arr(np.array(m.c.gradient))
        ev.append(e)


def spoil(x):
    """What was returned belongs to the caller."""
    for y in x:
        if isinstance(y, np.ndarray):
            y += 5
        else:
            spoil(y)
