import os
import shutil
import tempfile
import time
from multiprocessing import Pool

import numpy as np
from enc import attempt, enc
import lmcdrv  # noqa: F401 (numpy error state)
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.util.inline_pool import InlinePool


class TaskError(Exception):
    """Raised by a failing task."""


def task(i, folder, after, fails, payload):
    """Waits for its turn to finish, then returns or fails.  If the schedule
    cannot be kept, the task goes on after a while: the result counts, not
    the schedule."""
    end = time.time() + 4
    while after and time.time() < end and \
            not os.path.exists(os.path.join(folder, 'done%d' % after)):
        time.sleep(.002)
    name = os.path.join(folder, 'run%d_%d_%d' % (i, os.getpid(), time.time_ns()))
    open(name, 'w').close()
    open(os.path.join(folder, 'done%d' % i), 'w').close()
    if fails:
        raise TaskError(i)
    return int(payload.sum()) + 3


def small(i, fail):
    if i == fail:
        raise TaskError(i)
    return 10 * i + 3


def burst(sc, ev):
    p = Pool(processes=sc['w']) if sc['w'] else None
    try:
        ip = InlinePool(p)
        args = [(i, sc['fail']) for i in range(1, sc['n'] + 1)]
        ev.append({'op': 'burst',
                   'o': attempt(lambda: np.array(list(ip.starmap(small, args))))})
    finally:
        if p:
            p.terminate()


def pool(sc, ev):
    scratch = tempfile.mkdtemp(dir=os.environ['VERIF_WORK'])
    p = Pool(processes=sc['w']) if sc['w'] else None
    ip = InlinePool(p)
    try:
        for r, rnd in enumerate(sc['rounds']):
            folder = os.path.join(scratch, 'r%d' % r)
            os.mkdir(folder)
            prev, last = {}, 0
            for i in rnd['order']:
                prev[i] = last
                last = i
            forced = rnd['n'] <= 4 * sc['w']
            args = [(i, folder, prev[i] if forced else 0, i in rnd['fail'],
                     np.full(i, 10.)) for i in range(1, rnd['n'] + 1)]
            which = [0]

            def call():
                try:
                    return list(ip.starmap(task, args))
                except TaskError as x:
                    which[0] = x.args[0]
                    raise
            o = attempt(call)
            ran = len([f for f in os.listdir(folder) if f.startswith('run')])
            ev.append({'op': 'round', 'i': r + 1, 'o': o, 'task': which[0], 'ran': ran})
    finally:
        if p:
            p.terminate()
        shutil.rmtree(scratch, ignore_errors=True)


def build(sc, procs):
    D, P = sc['D'], sc['P']
    rng = np.random.RandomState(21)
    ns = {1: [305], 2: [140, 170], 3: [100, 90, 120]}[D]
    xs = [rng.uniform(0, 5, size=(n, P)) for n in ns]
    ys = [np.sin(x[:, 0] * (i + 1)) + .3 * rng.randn(len(x)) for i, x in enumerate(xs)]
    kw = {}
    if sc['mix'] in ('lmc', 'all'):
        kw.update(lmc_kernels=[RBF(.8, name='l0')], lmc_ranks=[1])
    if sc['mix'] in ('slfm', 'all'):
        kw.update(slfm_kernels=[Matern32(1.1, name='s0')])
    if sc['mix'] == 'all':
        kw.update(indep_gp=[RBF(1.5, name='i0')], indep_gp_index=[D - 1])
    np.random.seed(9)
    fk = FunctionalKernel(D=D, **kw)
    fk.noise = np.arange(1., D + 1)
    return InterpolatedLLGP(xs, ys, functional_kernel=fk, normalize=sc['norm'],
                            prediction=sc['mode'], max_procs=procs,
                            m=np.full(P, 10 if P == 1 else 4), trace_iterations=sc['it'], metrics=sc['met'])


def query(sc, k):
    rng = np.random.RandomState(31 + k)
    return [rng.uniform(.5, 4.5, size=((k if i == k % sc['D'] else 1 - k % 2), sc['P']))
            for i in range(sc['D'])]


def do(m, sc, o):
    k = o['k']
    np.random.seed(40 + k)
    if o['op'] == 'predict':
        mu, var = m.predict(query(sc, k))
        return list(mu) + list(var)
    if o['op'] == 'quant':
        return list(m.predict_quantiles(query(sc, k), (5, 50, 80)))
    if o['op'] == 'set':
        m.kern.noise = np.arange(1., sc['D'] + 1) + .5 * k
        return np.array(m.gradient)
    if o['op'] == 'lik':
        rec = [m.metrics.iterations[-1], m.metrics.solv_error[-1]] if sc['met'] else []
        return np.array([m.log_likelihood(), m.normal_quadratic(), m.log_det_K()] + rec)
    if o['op'] == 'grad':
        m.parameters_changed()
        return np.array(m.gradient)
    m.optimize(optimizer=AdaDelta(max_it=2, verbosity=0))
    return np.array(m.param_array)


def model(sc, ev):
    one = build(sc, 1)
    par = build(sc, sc['w'])
    try:
        for o in sc['ops']:
            a, b = attempt(do, one, sc, o), attempt(do, par, sc, o)
            ev.append({'op': o['op'], 'one': a, 'par': b})
    finally:
        p = getattr(getattr(par, '_pool', None), '_pool', None)
        if p is not None:
            p.terminate()


def replay(sc, ev):
    np.random.seed(1)
    globals()[sc['kind']](sc, ev)
