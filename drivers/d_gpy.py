import numpy as np
from enc import attempt, enc
import lmcdrv
from runlmc.models.gpy_lmc import GPyLMC

QUANT = {'def': (2.5, 97.5), 'one': [50.], 'many': (1., 5., 25., 75., 99.),
         'rev': [97.5, 50, 2.5, 2.5]}


def terms_of(k):
    """The (kernel, coregionalization) factors of the wrapped GPy kernel."""
    import GPy
    parts = list(k.parts) if isinstance(k, GPy.kern.Add) else [k]
    out = []
    for p in parts:
        b, = [x for x in p.parts if isinstance(x, GPy.kern.Coregionalize)]
        f, = [x for x in p.parts if x is not b]
        out.append((f, b))
    return out


def set_params(g, ts, noise):
    ranks = []
    for (f, b), t in zip(terms_of(g.kern), ts):
        ranks.append(int(b.W.shape[1]))
        if ranks[-1] == len(t['A']):
            b.W[:] = lmcdrv.mil(t['A']).T
        b.kappa[:] = lmcdrv.mil(t['kap'])
        new = lmcdrv.kern(t['kern'], t['ad']).to_gpy()
        f.param_array[:] = new.param_array
        f.notify_observers() if hasattr(f, 'notify_observers') else None
    for lik, v in zip(g.likelihood.likelihoods_list, noise):
        lik.variance = v / 1000.
    g.parameters_changed()
    return ranks


def replay(sc, ev):
    r = sc['r']
    ks = [lmcdrv.kern(t['kern'], t['ad'], 'k%d' % i)
          for i, t in enumerate(r['terms'])]
    box = []
    sq = len(r['X'][0]) % 2 == 0
    ev.append({'op': 'build', 'o': attempt(lambda: box.append(GPyLMC(
        lmcdrv.xs_of(r['X'], 1, sq), lmcdrv.ys_of(r['Y']), ks,
        [len(t['A']) for t in r['terms']])))})
    if not box:
        return
    m = box[0]
    d = [0, 300, 1700]
    x0, z = np.zeros((1, 1)), np.array(d).reshape(-1, 1) / 1000.
    ev.append({'op': 'kernels', 'd': d, 'o': attempt(
        lambda: [np.ravel(f.K(x0, z)) for f, _ in terms_of(m.gpy_model.kern)])})
    first = {'op': 'params', 'terms': r['terms'], 'noise': r['noise']}
    for i, o in enumerate([first] + sc['ops']):
        e = dict(o)
        if o['op'] == 'params':
            e['ranks'] = attempt(set_params, m.gpy_model, o['terms'], o['noise'])
        elif o['op'] == 'll':
            e['o'] = attempt(lambda: float(m.log_likelihood()))
        else:
            Xs = lmcdrv.xs_of(o['X'], 1, i % 2 == 0)
            if o['op'] == 'predict':
                e['o'] = attempt(m.predict, Xs)
            elif o['qt'] == 'def':
                e['o'] = attempt(m.predict_quantiles, Xs)
            else:
                e['o'] = attempt(m.predict_quantiles, Xs, QUANT[o['qt']])
        ev.append(e)
