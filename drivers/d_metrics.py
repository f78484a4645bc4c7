import numpy as np
from enc import attempt, enc
import lmcdrv
from d_grad import flat, kern_params, leaves
from runlmc.approx.iterative import Iterative
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta

NAMES = ['iterations', 'solv_error', 'grad_norms', 'grad_error', 'log_likely']
SOLVES = []
ORIG = Iterative.solve


def spy(K, y, *a, **k):
    out = ORIG(K, y, *a, **k)
    if isinstance(out, tuple) and len(out) == 3:
        SOLVES.append((float(out[1]), float(out[2])))
    return out


class Watched(InterpolatedLLGP):
    """Reports every parameter update after the model has dealt with it."""
    on_update = None

    def parameters_changed(self):
        del SOLVES[:]
        super().parameters_changed()
        if Watched.on_update:
            Watched.on_update(self)


def lists(m):
    if m.metrics is None:
        return {'none': True}
    return {'none': False,
            'lists': {n: enc([float(x) for x in getattr(m.metrics, n)])
                      for n in NAMES}}


def build(r, it, on):
    ks = [lmcdrv.kern(t['kern'], t['ad'], 'k%d' % i)
          for i, t in enumerate(r['terms'])]
    fk = lmcdrv.fkern(r, ks)
    kw = {}
    for name, conv in (('lo', lmcdrv.mil), ('hi', lmcdrv.mil), ('m', np.array)):
        if r.get(name):
            kw[name] = conv(r[name])
    m = Watched(lmcdrv.xs_of(r['X'], r['P']), lmcdrv.ys_of(r['Y']),
                normalize=r['norm'], functional_kernel=fk, max_procs=1,
                trace_iterations=it, tolerance=1e-8, metrics=on, **kw)
    return m, fk, ks


def act(o, m, fk, ks):
    if o['op'] == 'write':
        by = {p.name: p for p in leaves(fk)}
        vs = [p for n, p in by.items() if n[0] == 'a' and n[1:].isdigit()]
        if o['what'] == 'kern' and kern_params(ks[0]):
            kern_params(ks[0])[0][:] = o['v'] / 1000.
        elif o['what'] == 'vec' and vs:
            vs[-1][0, 0] = o['v'] / 1000.
        else:
            by['noise'][:] = o['v'] / 1000.
    elif o['op'] == 'batch':
        m.update_model(False)
        fk.noise = o['v'] / 2000.
        for k in ks:
            for p in kern_params(k):
                p[:] = o['v'] / 1000.
        m.update_model(True)
    elif o['op'] == 'opt':
        m.optimize(optimizer=AdaDelta(max_it=o['k'], min_grad_ratio=0.))
    elif o['op'] == 'predict':
        m.predict([np.array(x) for x in m.Xs])
    elif o['op'] == 'll':
        m.log_likelihood()


def replay(sc, ev):
    r = sc['r']
    Iterative.solve = staticmethod(spy)
    models = []

    def on_update(m):
        if models and m is not models[0][0]:
            return
        fk, ks = models[0][1:] if models else cur
        e = {'op': 'upd'}
        e.update(lists(m))
        e['A'] = enc([np.array(a, dtype=float) for a in fk.coreg_vecs])
        e['kap'] = enc([np.array(a, dtype=float) for a in fk.coreg_diags])
        e['noise'] = enc(np.array(fk.noise, dtype=float))
        e['kp'] = enc([np.array([float(np.ravel(p)[0]) for p in kern_params(k)])
                       for k in ks])
        e['ctrs'] = enc([c for c, _ in SOLVES])
        unit = max([x for _, x in SOLVES] + [1e-14])
        e['errs'] = enc([x / unit for _, x in SOLVES])
        if m.metrics is not None and len(m.metrics.solv_error):
            e['err'] = enc(float(m.metrics.solv_error[-1]) / unit)
        e['g'] = attempt(flat, m.kernel)
        ev.append(e)

    def state(m):
        return enc(np.array(m.param_array, dtype=float))

    try:
        # building a model is its first update, seen once it is complete
        Watched.on_update = None
        np.random.seed(11)
        first = build(r, sc['it'], sc['on'])
        models.append(first)
        on_update(first[0])
        np.random.seed(11)
        models.append(build(r, sc['it'], False))
        Watched.on_update = staticmethod(on_update)
        e = {'op': 'build', 'o': enc(None)}
        e.update(lists(models[0][0]), mine=state(models[0][0]), twin=state(models[1][0]))
        ev.append(e)
        for i, o in enumerate(sc['ops']):
            if o['op'] == 'opt':
                ev.append({'op': 'optstart'})
            e = dict(o)
            for j, (m, fk, ks) in enumerate(models):
                np.random.seed(100 + i)
                out = attempt(act, o, m, fk, ks)
                if j == 0:
                    e['o'] = out
                    e.update(lists(m))
            e.update(mine=state(models[0][0]), twin=state(models[1][0]))
            ev.append(e)
    finally:
        Watched.on_update = None
        Iterative.solve = staticmethod(ORIG)
