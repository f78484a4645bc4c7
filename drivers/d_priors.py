import numpy as np
from enc import arr, attempt, enc
import lmcdrv
from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from runlmc.parameterization.parameterized import Parameterized
from runlmc.parameterization import priors as pr


class Toy(Model):
    """Four parameters, two of them below another node."""

    def __init__(self, first):
        super().__init__('toy')
        self.pa = Param('pa', np.zeros(2) + .25)
        self.pb = Param('pb', np.zeros(1) + .25)
        self.sub = Parameterized('sub')
        self.pc = Param('pc', np.zeros(1) + .25)
        self.pd = Param('pd', np.zeros(3) + .25)
        self.sub.link_parameters(self.pc, self.pd)
        ps = [self.pa, self.pb, self.sub]
        self.link_parameters(*(ps if first else ps[::-1]))
        self.slots = [self.pa, self.pb, self.pc, self.pd]

    def log_likelihood(self):
        return -.5 * np.sum(np.square(self.param_array - .5))

    def parameters_changed(self):
        self.gradient = -(self.param_array - .5)


def lmc_model():
    r = {'P': 1, 'D': 2, 'norm': True, 'lo': [], 'hi': [], 'm': [],
         'noise': [500, 400],
         'terms': [{'kind': 'lmc', 'kern': {'t': 'rbf', 'p': [900], 's': []},
                    'ad': [], 'out': 1, 'A': [[700, 400]], 'kap': [300, 600]},
                   {'kind': 'slfm', 'kern': {'t': 'm32', 'p': [1200], 's': []},
                    'ad': [], 'out': 1, 'A': [[500, -200]], 'kap': [0, 0]}],
         'X': [[[0], [1500], [3100]], [[300], [2200], [2900]]],
         'Y': [[100, -900, 400], [1000, 200, -300]]}
    m = lmcdrv.model(r)
    k = m.kernel
    by = {p.name: p for p in leaves(m)}
    m.slots = [by['a0'], k_param(m, 0), by['kappa0'], by['noise']]
    return m


def leaves(node):
    for p in node.parameters:
        if p.has_parent() and getattr(p, 'parameters', None):
            yield from leaves(p)
        else:
            yield p


def k_param(m, q):
    for p in leaves(m):
        if p.name == 'inv_lengthscale' and p._parent_.name == 'k%d' % q:
            return p
    raise AssertionError([p.hierarchy_name() for p in leaves(m)])


def make(p):
    a, b = p['a'] / 1000., p['b'] / 1000.
    return {'gauss': lambda: pr.Gaussian(a, b), 'gamma': lambda: pr.Gamma(a, b),
            'gammaEV': lambda: pr.Gamma.from_EV(a, b),
            'igamma': lambda: pr.InverseGamma(a, b),
            'hlap': lambda: pr.HalfLaplace(a)}[p['t']]()


def replay(sc, ev):
    m = lmc_model() if sc['kind'] == 'lmc' else Toy(sc['kind'] == 'toy')
    pool = [make(p) for p in sc['pool']]
    sizes = [s.size for s in m.slots]
    offs = np.concatenate([[0], np.cumsum(sizes)])

    def positions():
        # where each slot's entries are in the flat parameter array
        out = []
        for s in m.slots:
            out.extend(int(i) for i in m._raveled_index_for(s))
        return out

    def read():
        pos = positions()
        pg = -(np.array(m.objective_function_gradients()) + np.array(m.gradient))
        pg = pg * np.ones(m.size)
        others = np.delete(pg, pos)
        return {'k': 'read',
                'vals': arr(np.concatenate([np.array(s).ravel() for s in m.slots])),
                'lp': enc(float(m.log_prior())),
                'obj': enc(float(m.objective_function())),
                'll': enc(float(m.log_likelihood())),
                'pg': arr(pg[pos]),
                'rest': enc(float(np.abs(others).max() if others.size else 0.))}

    def target(o):
        s = m.slots[o['slot'] - 1]
        a, b = o['from'] - 1 - offs[o['slot'] - 1], o['to'] - offs[o['slot'] - 1]
        if b - a == s.size:
            return s
        return s[:, a:b] if s.ndim == 2 else s[a:b]

    def write(o):
        s = m.slots[o['slot'] - 1]
        a, b = o['from'] - 1 - offs[o['slot'] - 1], o['to'] - offs[o['slot'] - 1]
        v = np.array(o['v']) / 1000.
        if s.ndim == 2:
            s[:, a:b] = v.reshape(1, -1)
        else:
            s[a:b] = v

    for i, s in enumerate(m.slots):
        write({'slot': i + 1, 'from': int(offs[i]) + 1, 'to': int(offs[i + 1]),
               'v': sc['v0'][offs[i]:offs[i + 1]]})
    ev.append({'op': 'start', 'o': attempt(read)})
    for o in sc['ops']:
        e = dict(o)
        if o['op'] == 'density':
            p = pool[o['p'] - 1]
            x = np.array(o['x']) / 1000.
            e['f'] = attempt(lambda: p.lnpdf(x))
            e['g'] = attempt(lambda: p.lnpdf_grad(x))
            e['f1'] = attempt(lambda: float(p.lnpdf(float(x[0]))))
            e['g1'] = attempt(lambda: float(p.lnpdf_grad(float(x[0]))))
            ev.append(e)
            continue

        def act():
            if o['op'] == 'prior':
                target(o).set_prior(pool[o['p'] - 1])
            elif o['op'] == 'unset':
                target(o).unset_prior()
            elif o['op'] == 'positive':
                target(o).constrain_positive(warning=False)
            else:
                write(o)
            return read()
        e['o'] = attempt(act)
        ev.append(e)
