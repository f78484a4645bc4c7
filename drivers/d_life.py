import copy
import logging
import pickle
import re
import numpy as np
from enc import attempt, arr, enc, exc
import fresh
import lmcdrv
from d_grad import kern_params, leaves
from runlmc.kern.stationary_kern import StationaryKern
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization import priors as pr


class Live:
    def __init__(self, r, mode, **kw):
        self.r = r
        self.ks = [lmcdrv.kern(t['kern'], t['ad'], 'k%d' % i)
                   for i, t in enumerate(r['terms'])]
        self.fk = lmcdrv.fkern(r, self.ks)
        self.m = lmcdrv.model(r, self.fk, prediction=mode, **kw)

    def duplicate(self, how):
        """The copy, with its parts found through the copied model alone."""
        m = {'copy': self.m.copy, 'deepcopy': lambda: copy.deepcopy(self.m),
             'pickle': lambda: pickle.loads(pickle.dumps(self.m))}[how]()
        new = Live.__new__(Live)
        new.r, new.m = self.r, m
        new.fk, = [p for p in m.parameters if isinstance(p, FunctionalKernel)]
        by = {(p.k if hasattr(p, 'k') else p).name: p for p in new.fk.parameters
              if isinstance(p, StationaryKern)}
        new.ks = [by['k%d' % i] for i in range(len(self.ks))]
        return new

    def part(self, what, q):
        return kern_params(self.ks[q]) if what == 'kern' else [self.leaf(what, q)]

    def attribute(self, o):
        for p in self.part(o['what'], o['q'] - 1):
            a, b = o['a'] / 1000., o['b'] / 1000.
            if o['op'] == 'prior':
                p.set_prior(pr.Gaussian(a - 1.5, b) if o['what'] == 'vec' else pr.Gamma(a, b))
            elif o['op'] == 'unprior':
                p.unset_prior()
            elif o['op'] == 'fix':
                p.fix(warning=False)
            else:
                p.unfix()

    def free(self):
        return len(self.m.optimizer_array)

    def params(self):
        return ([np.array(a, dtype=float) for a in self.fk.coreg_vecs],
                [np.array(a, dtype=float) for a in self.fk.coreg_diags],
                [[float(p[0]) for p in kern_params(k)] for k in self.ks],
                np.array(self.fk.noise, dtype=float))

    def flat(self):
        v, d, k, n = self.params()
        return np.concatenate([x.ravel() for x in v + d]
                              + [np.array(x, dtype=float) for x in k] + [n])

    def leaf(self, what, q):
        by = {p.name: p for p in leaves(self.fk)}
        return by[{'vec': 'a%d' % q, 'diag': 'kappa%d' % q, 'noise': 'noise'}[what]]

    def set(self, o):
        q, what, how = o['q'] - 1, o['what'], o['how']
        v = lmcdrv.mil(o['vals'])
        if what == 'kern':
            ps = kern_params(self.ks[q])
            if how == 'elem':
                ps[o['i']][:] = v[0]
            else:
                for p, x in zip(ps, v):
                    if how == 'setter':
                        p[0] = x
                    else:
                        p[:] = x
            return
        p = self.leaf(what, q)
        if how == 'elem':
            p[np.unravel_index(o['i'], p.shape)] = v[0]
        elif how == 'fill':
            p[:] = v[0]
        elif how == 'setter':
            if what == 'noise':
                self.fk.noise = v
            elif what == 'vec':
                vs = [np.array(a) for a in self.fk.coreg_vecs]
                vs[q] = v.reshape(p.shape)
                self.fk.coreg_vecs = vs
            else:
                ds = [np.array(a) for a in self.fk.coreg_diags]
                ds[q] = v
                self.fk.coreg_diags = ds
        elif how == 'regexp':
            self.m[r'(.*\.)?' + re.escape(p.name) + '$'] = v.reshape(p.shape)
        else:
            p[:] = v.reshape(p.shape)

    def load(self, params, attrs):
        v, d, k, n = params
        self.m.update_model(False)
        self.fk.coreg_vecs = v
        self.fk.coreg_diags = d
        for kk, vals in zip(self.ks, k):
            for p, x in zip(kern_params(kk), vals):
                p[:] = x
        self.fk.noise = n
        self.m.update_model(True)
        for o in attrs:
            self.attribute(o)

    def read(self, what, xs):
        m = self.m
        if what == 'K':
            return np.array(m.K())
        if what == 'logdet':
            return float(m.log_det_K())
        if what == 'lik':
            return float(m.log_likelihood())
        if what == 'objective':
            return float(m.objective_function())
        if what == 'quad':
            return float(m.normal_quadratic())
        if what == 'op':
            n = len(m.y)
            return np.column_stack([m.kernel.K.matvec(e) for e in np.eye(n)])
        if what == 'grad':
            return np.array(m.gradient)
        if what == 'prior':
            return float(m.log_prior())
        if what == 'objgrad':    # what the prior adds, and where
            return np.array(m.objective_function_gradients() + m.gradient)
        if what == 'predict':
            return list(m.predict(lmcdrv.xs_of(xs, self.r['P'])))
        if what == 'quantiles':
            return list(m.predict_quantiles(lmcdrv.xs_of(xs, self.r['P'])))
        raise AssertionError(what)


READS = ('K', 'logdet', 'lik', 'objective', 'quad', 'op', 'grad')


def handler(reqs):
    return [answer(q) for q in reqs]


def answer(req):
    r, mode, params, attrs, what, xs = req
    live = Live(r, mode)
    live.load(params, attrs)
    if what != 'grad':
        return attempt(live.read, what, xs)
    # every gradient the current parameters allow, by repeated updates
    seen = []
    np.random.seed(5)
    for _ in range(60):
        if len(seen) >= 2 ** (len(live.m.y) - 1):
            break
        a = np.array(live.m.gradient)
        if not any(np.allclose(a, b, 1e-9, 1e-12) for b in seen):
            seen.append(a)
        live.m.trigger_update()
    return {'k': 'list', 'v': [arr(a) for a in seen]}


_started = []


class Interrupted(Exception):
    pass


def interrupt(m, n):
    """Optimization stopped from outside at its n-th iteration."""
    left = [n]

    def stop():
        left[0] -= 1
        if left[0] == 0:
            raise KeyboardInterrupt if n % 2 else Interrupted
    try:
        m.optimize(optimizer=AdaDelta(max_it=n + 2, step_rate=.5, callback=stop,
                                      permitted_drops=99))
    except (KeyboardInterrupt, Interrupted):
        pass


def replay(sc, ev):
    if not _started:
        fresh.start(handler)
        _started.append(1)
    log = logging.getLogger('runlmc')
    was = log.level
    if sc['dbg']:
        log.setLevel(logging.DEBUG)
    try:
        history(sc, ev)
    finally:
        log.setLevel(was)


def history(sc, ev):
    np.random.seed(len(sc['ops']))
    models = [Live(m['r'], m['m0'], metrics=sc['met'] and i == 0)
              for i, m in enumerate(sc['ms'][:sc['n']])]
    modes = [m['m0'] for m in sc['ms']][:sc['n']]
    susp = [False] * len(models)
    attrs = [[] for _ in models]
    asked = []

    def log(op, h, **kw):
        e = {'op': op, 'h': h + 1, 'ps': [arr(x.flat()) for x in models],
             'free': [x.free() for x in models]}
        e.update(kw)
        ev.append(e)

    def read(h, what, xs):
        n = sum(map(len, models[h].r['X']))
        if what == 'grad' and n > 3:
            what = 'op'
        o = attempt(models[h].read, what, xs)
        log('read', h, what=what, o=o)
        asked.append((ev[-1], (models[h].r, modes[h], models[h].params(),
                               list(attrs[h]), what, xs)))
    try:
        log('create', 0)
        for o in sc['ops']:
            h = o['h'] - 1
            x = models[h]
            try:
                if o['op'] == 'read':
                    read(h, o['what'], o['xs'])
                    continue
                if o['op'] == 'set':
                    x.set(o)
                elif o['op'] == 'suspend':
                    x.m.update_model(False)
                    susp[h] = True
                elif o['op'] == 'resume':
                    x.m.update_model(True)
                    susp[h] = False
                elif o['op'] == 'mode':
                    x.m.prediction = o['mode']
                    modes[h] = o['mode']
                elif o['op'] == 'randomize':
                    x.m.randomize()
                elif o['op'] == 'shift':
                    x.m.optimizer_array = x.m.optimizer_array + .05
                elif o['op'] == 'optimize':
                    x.m.optimize(optimizer=AdaDelta(max_it=o['n'], step_rate=.5))
                elif o['op'] == 'interrupt':
                    interrupt(x.m, o['n'])
                elif o['op'] in ('prior', 'unprior', 'fix', 'free'):
                    x.attribute(o)
                    attrs[h] = [a for a in attrs[h]
                                if (a['what'], a['q']) != (o['what'], o['q'])]
                    if o['op'] in ('prior', 'fix'):
                        attrs[h].append(o)
                elif o['op'] == 'copy':
                    models.append(x.duplicate(o['how']))
                    modes.append(modes[h])
                    susp.append(False)
                    attrs.append(list(attrs[h]))
                log(o['op'], h, **{k: v for k, v in o.items() if k not in ('op', 'h')})
            except Exception as e:  # escaped from the code under test
                log('escaped', h, o=exc(e), during=o['op'])
                raise
        for h, x in enumerate(models):
            if susp[h]:
                x.m.update_model(True)
                log('resume', h)
        for h, x in enumerate(models):
            qs = [[rows[0]] for rows in x.r['X']]
            for what in (('predict', 'lik', 'grad') if h % 2 == len(sc['ops']) % 2
                         else ('K', 'predict', 'quad')) + (('prior',) if attrs[h] else ()):
                read(h, what, qs)
    finally:
        for (e, _), f in zip(asked, fresh.ask([q for _, q in asked])):
            e['fresh'] = f
