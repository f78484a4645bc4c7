"""Builds kernels and models from descriptions in thousandths (ModelGen.tla)."""
import numpy as np
from runlmc.kern.identity import Identity
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP

np.seterr(all='ignore')


def mil(a):
    return np.array(a, dtype=float) / 1000.


def kern(k, ad, name=None):
    kw = {}
    if ad:
        kw['active_dims'] = tuple(ad)
    if name:
        kw['name'] = name
    p = [x / 1000. for x in k['p']]
    if k['t'] == 'rbf':
        r = RBF(p[0], **kw)
    elif k['t'] == 'm32':
        r = Matern32(p[0], **kw)
    elif k['t'] == 'per':
        r = StdPeriodic(p[0], p[1], **kw)
    elif k['t'] == 'id':
        r = Identity(**kw)
    else:
        raise AssertionError(k)
    if k['s']:
        r = Scaled(r)
        r.scale[:] = k['s'][0] / 1000.
    return r


def fkern(r, kernels=None):
    """Functional kernel with every number of the description set."""
    ts = r['terms']
    ks = kernels or [kern(t['kern'], t['ad'], 'k%d' % i)
                     for i, t in enumerate(ts)]
    sel = lambda kind: [k for k, t in zip(ks, ts) if t['kind'] == kind]
    kw = {}
    if sel('lmc'):
        kw['lmc_kernels'] = sel('lmc')
        kw['lmc_ranks'] = [len(t['A']) for t in ts if t['kind'] == 'lmc']
    if sel('slfm'):
        kw['slfm_kernels'] = sel('slfm')
    if sel('indep'):
        kw['indep_gp'] = sel('indep')
        idx = [t['out'] - 1 for t in ts if t['kind'] == 'indep']
        if idx != list(range(len(idx))) or len(idx) % 2:
            kw['indep_gp_index'] = idx
    fk = FunctionalKernel(D=r['D'], **kw)
    set_numbers(fk, r)
    return fk


def set_numbers(fk, r):
    fk.coreg_vecs = [mil(t['A']) for t in r['terms']]
    fk.coreg_diags = [mil(t['kap']) for t in r['terms']]
    if 'noise' in r:
        fk.noise = mil(r['noise'])


def xs_of(X, P, squeeze=False):
    """Rows per output as arrays; 1-D arrays when squeeze and P == 1."""
    out = []
    for rows in X:
        a = mil(rows).reshape(len(rows), P)
        out.append(a.ravel() if squeeze and P == 1 else a)
    return out


def ys_of(Y):
    return [mil(y) for y in Y]


def model(r, fk=None, squeeze=None, **kw):
    fk = fk or fkern(r)
    kw.setdefault('max_procs', 1)
    kw.setdefault('trace_iterations', 1)
    kw.setdefault('normalize', r['norm'])
    scalar = r['P'] == 1 and len(r['X'][0]) % 2 == 1
    for name, conv in (('lo', mil), ('hi', mil), ('m', np.array)):
        if r.get(name):
            v = conv(r[name])
            kw[name] = v[0] if scalar else v
    if squeeze is None:
        squeeze = len(r['X'][0]) % 2 == 0
    return InterpolatedLLGP(xs_of(r['X'], r['P'], squeeze), ys_of(r['Y']),
                            functional_kernel=fk, **kw)
