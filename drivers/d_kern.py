import numpy as np
from enc import attempt, enc
import lmcdrv
from d_grad import kern_params
from runlmc.kern.scaled import Scaled


def replay(sc, ev):
    kd = sc['kern']
    nb = len(kd['p0']) - kd['ns']
    u, us = kd.get('u', 0), kd.get('us', 0)
    du, su = 10. ** -u, 10. ** us        # unit of distances, of scales
    # a parameter is its nominal value times f: values and gradients are
    # converted back to the nominal units
    f = np.array({'rbf': [10. ** (2 * u)], 'm32': [10. ** u],
                  'per': [1., du], 'id': []}[kd['t']] + [su] * kd['ns'])
    S = su ** kd['ns']
    ad = {0: [], 1: [0], 2: [1]}[kd['ad']]
    k = lmcdrv.kern({'t': kd['t'], 'p': kd['p0'][:nb], 's': []}, ad)
    base = k
    for s in kd['p0'][nb:]:
        k = Scaled(k)
    ps = kern_params(k)
    for p, v, fi in zip(ps, kd['p0'], f):
        p[:] = v / 1000. * fi

    def values():
        return np.array([float(p[0]) for p in ps]) / f
    ev.append({'op': 'make', 'o': enc(values())})
    for o in sc['ops']:
        e = dict(o)
        if o['op'] in ('eval', 'grad'):
            d = np.array(o['d'], dtype=float).reshape(o['sh']) / 1000. * du
            d = np.array(d, order=o['lay'])
            if o['op'] == 'eval':
                e['o'] = attempt(lambda: np.array(k.from_dist(d)) / S)
            else:
                e['o'] = attempt(lambda: back(k.kernel_gradient(d), f, S))
        elif o['op'] == 'set':
            ps[o['i'] - 1][:] = o['v'] / 1000. * f[o['i'] - 1]
            e['o'] = enc(values())
        elif o['op'] == 'update':
            e['o'] = attempt(update, k, ps, np.array(o['v']) / 1000.)
        elif o['op'] == 'gpy':
            e['o'] = attempt(gpy, base, np.array(o['d']) / 1000. * du, ad,
                             0. if u else .25)
        ev.append(e)


def back(gs, f, S):
    return [np.array(g) * (f[i] if i < len(f) else 1.) / S
            for i, g in enumerate(gs)]


def update(k, ps, g):
    k.update_gradient(g)
    return np.array([float(np.asarray(p.gradient).ravel()[0]) for p in ps])


def gpy(k, d, ad, x0):
    gk = k.to_gpy()
    x = np.full((1, 2 if ad else 1), x0)
    z = np.repeat(x, len(d), axis=0)
    z[:, ad[0] if ad else 0] += d
    if ad:                      # the other dimension must not matter
        z[:, 1 - ad[0]] += 3
    return np.array(gk.K(x, z)).ravel()
