import contextlib
import io
import numpy as np
from enc import arr, exc
from runlmc.models.multigp import MultiGP
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.param import Param


class Toy(MultiGP):
    """A model whose gradients follow a script."""

    def __init__(self, x0, ask):
        super().__init__([np.arange(3.)], [np.arange(3.)], normalize=False,
                         name='toy')
        self.ask = ask
        self.p = Param('p', np.array(x0))
        self.link_parameter(self.p)

    def log_likelihood(self):
        return 0.

    def parameters_changed(self):
        pass

    def objective_function_gradients(self):
        return self.ask(np.array(self.p.values))


class Overrun(Exception):
    pass


def replay(sc, ev):
    c = sc['cfg']
    log = []

    def callback():
        log.append('c')
    kw = {'callback': callback}
    if c['verb']:
        kw['verbosity'] = c['verb']
    if c['def'] not in ('all', 'stop'):
        kw.update(max_it=c['maxit'], min_grad_ratio=c['ratio'] / 1000.,
                  permitted_drops=c['drops'])
    if c['def'] not in ('all', 'rule'):
        kw.update(step_rate=c['rule']['rate'] / 1000.,
                  decay=c['rule']['decay'] / 1000.,
                  momentum=c['rule']['momentum'] / 1000.,
                  offset=c['rule']['offset'] / 1e6)
    # other optimizers, before and after, with settings of their own
    AdaDelta(max_it=1, min_grad_ratio=0.9, permitted_drops=1, step_rate=3,
             decay=0.1, momentum=0.1, offset=1.)
    opt = AdaDelta(**kw)
    AdaDelta(max_it=2, min_grad_ratio=0.8, permitted_drops=2, step_rate=4,
             decay=0.2, momentum=0.2, offset=2.)
    x0 = np.array(c['x0']) / 1000.
    for k, run in enumerate(sc['runs']):
        del log[:]
        at = []

        def ask(x):
            log.append('g')
            at.append(np.array(x))
            if len(at) > len(run['grads']) + 3:
                raise Overrun()
            return np.array(run['grads'][min(len(at), len(run['grads'])) - 1],
                            dtype=float)
        o = {'k': 'none'}
        x = np.array(x0)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if c['on'] == 'opt':
                    opt.opt(x, fp=ask)
                    x = opt.x_opt
                else:
                    m = Toy(x0, ask)
                    m.optimize(optimizer=opt)
                    x = np.array(m.p.values)
            except Exception as e:  # pylint: disable=broad-except
                o = exc(e)
        ev.append({'op': 'run', 'k': k + 1, 'o': o, 'at': [arr(a) for a in at],
                   'log': list(log), 'x': arr(x)})
