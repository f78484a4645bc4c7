import numpy as np
from enc import attempt, enc
import lmcdrv
from d_grad import kern_params, leaves
from runlmc.lmc.functional_kernel import FunctionalKernel


def build(sc):
    ts = sc['terms']
    ks = [lmcdrv.kern(t['kern'], t['ad'], 'k%d' % i) for i, t in enumerate(ts)]
    sel = lambda kind: [k for k, t in zip(ks, ts) if t['kind'] == kind]
    idx = [t['out'] - 1 for t in ts if t['kind'] == 'indep']
    kw = {}
    if sel('lmc'):
        kw.update(lmc_kernels=sel('lmc'),
                  lmc_ranks=[len(t['A']) for t in ts if t['kind'] == 'lmc'])
    if sel('slfm'):
        kw['slfm_kernels'] = sel('slfm')
    if sel('indep'):
        kw['indep_gp'] = sel('indep')
        if idx != list(range(len(idx))) or len(idx) % 2:
            kw['indep_gp_index'] = idx
    return ks, FunctionalKernel(D=sc['D'], **kw)


class Grads:
    """Stands for a likelihood's gradients: distinct known numbers."""

    def __init__(self, sc, s):
        self.sc, self.s = sc, s

    def coreg_vec_gradients(self):
        return [np.array([[self.s * 1000 + q * 100 + r * 10 + d
                           for d in range(1, self.sc['D'] + 1)]
                          for r in range(1, len(t['A']) + 1)], dtype=float)
                for q, t in enumerate(self.sc['terms'], 1)]

    def coreg_diags_gradients(self):
        return [np.array([-(self.s * 1000 + q * 100 + d)
                          for d in range(1, self.sc['D'] + 1)], dtype=float)
                for q in range(1, len(self.sc['terms']) + 1)]

    def kernel_gradients(self):
        return [np.array([self.s * 500 + q * 10 + i for i in range(
            1, len(t['kern']['p']) + len(t['kern']['s']) + 1)], dtype=float)
                for q, t in enumerate(self.sc['terms'], 1)]

    def noise_gradient(self):
        return np.array([self.s * 777 + d
                         for d in range(1, self.sc['D'] + 1)], dtype=float)


def pairs(d, f=lambda x: x):
    return [[[int(i) for i in k], f(d[k])] for k in sorted(d)]


def ints(x):
    return [int(i) for i in x]


def read(sc, fk, e, dim):
    e['Q'], e['D'] = enc(fk.Q), enc(fk.D)
    e['vecs'] = enc([np.array(a) for a in fk.coreg_vecs])
    e['diags'] = enc([np.array(a) for a in fk.coreg_diags])
    e['noise'] = enc(np.array(fk.noise))
    e['mats'] = enc(fk.coreg_mats())
    e['nonindep'] = enc(ints(fk.filter_non_indep_idxs(range(len(sc['terms'])))))
    if not dim:
        return
    e['P'] = enc(fk.P)
    e['ads'] = enc(pairs(fk.active_dims, ints))
    e['adq'] = enc([ints(fk.get_active_dims(q)) for q in range(fk.Q)])
    e['nl'] = enc(pairs(fk.num_lmc, int))
    e['ns'] = enc(pairs(fk.num_slfm, int))
    e['ni'] = enc(pairs(fk.num_indep, int))
    e['tr'] = enc([[ints(k), int(fk.total_rank(k))] for k in sorted(fk.active_dims)])
    e['matsad'] = enc([[ints(k), list(fk.coreg_mats(k))] for k in sorted(fk.active_dims)])
    e['nonindepad'] = enc([[ints(k), ints(fk.filter_non_indep_idxs(fk.active_dims[k]))]
                           for k in sorted(fk.active_dims)])


def upd(sc, fk, ks, o, e):
    fk.update_gradient(Grads(sc, o['s']))
    by = {p.name: p for p in leaves(fk)}
    ga, gk = [], []
    for i, t in enumerate(sc['terms']):
        ga.append(np.array(by['a%d' % i].gradient).reshape(
            len(t['A']), sc['D']) if t['kind'] != 'indep' else None)
        gk.append(np.array(by['kappa%d' % i].gradient)
                  if t['kind'] == 'lmc' else None)
    e['ga'], e['gk'] = enc(ga), enc(gk)
    e['gp'] = enc([np.array([float(np.ravel(p.gradient)[0])
                             for p in kern_params(k)]) for k in ks])
    e['gn'] = enc(np.array(by['noise'].gradient))


def replay(sc, ev):
    ks, fk = build(sc)
    keys = sorted({tuple(sorted(t['ad'])) if t['ad'] else tuple(range(sc['P']))
                   for t in sc['terms']})
    dim = False
    for o in sc['ops']:
        e = dict(o)
        k = o['op']
        if k == 'dim':
            e['o'] = attempt(fk.set_input_dim, o['P'])
            dim = True
        elif k == 'vecs':
            e['o'] = attempt(setattr, fk, 'coreg_vecs', [lmcdrv.mil(a) for a in o['v']])
        elif k == 'diags':
            e['o'] = attempt(setattr, fk, 'coreg_diags', [lmcdrv.mil(a) for a in o['v']])
        elif k == 'noise':
            e['o'] = attempt(setattr, fk, 'noise', lmcdrv.mil(o['v']))
        elif k == 'kset':
            kern_params(ks[o['q'] - 1])[o['i'] - 1][:] = o['v'] / 1000.
            e['o'] = enc(None)
        elif k == 'read':
            e['o'] = attempt(read, sc, fk, e, dim)
        elif k == 'upd':
            e['o'] = attempt(upd, sc, fk, ks, o, e)
        else:
            ds = {a: lmcdrv.mil(d) for a, d in zip(keys, o['d'])}
            if k == 'eval':
                e['o'] = attempt(lambda: [np.array(x) for x in fk.eval_kernels(ds)])
            elif k == 'grad':
                e['o'] = attempt(lambda: [[np.array(y) for y in x]
                                          for x in fk.eval_kernel_gradients(ds)])
            else:
                ad = tuple(o['ad'])
                e['o'] = attempt(lambda: np.array(fk.eval_kernels_fixed_dim(ds[ad], ad)))
        ev.append(e)
    e = {'op': 'read'}
    e['o'] = attempt(read, sc, fk, e, dim)
    ev.append(e)
    x = np.array(fk.optimizer_array)
    fk.optimizer_array = x + .5
    ev.append({'op': 'nudge', 'n': enc(int(x.size)), 'noise': enc(np.array(fk.noise)),
               'vecs': enc([np.array(a) for a in fk.coreg_vecs]),
               'diags': enc([np.array(a) for a in fk.coreg_diags]),
               'kp': enc([np.array([float(np.ravel(p)[0]) for p in kern_params(k)])
                          for k in ks])})
