import numpy as np
from enc import attempt, enc
import lmcdrv
from runlmc.lmc.likelihood import ExactLMCLikelihood


def flat(k):
    """All gradient components of a likelihood, by kind of parameter."""
    return np.concatenate(
        [np.asarray(a, dtype=float).ravel() for a in k.coreg_vec_gradients()]
        + [np.asarray(a, dtype=float).ravel() for a in k.coreg_diags_gradients()]
        + [np.asarray(a, dtype=float).ravel() for a in k.kernel_gradients()]
        + [np.asarray(k.noise_gradient(), dtype=float).ravel()])


def kern_params(k):
    if hasattr(k, 'k'):
        return kern_params(k.k) + [k.scale]
    return [getattr(k, n) for n in ('inv_lengthscale', 'period')
            if hasattr(k, n)]


def leaves(x):
    ps = getattr(x, 'parameters', None)
    if not ps:
        return [x]
    return [l for p in ps for l in leaves(p)]


def model_grad(fk, r, ks):
    """Gradient stored at the parameters the model optimizes."""
    by = {p.name: p for p in leaves(fk)}
    out = []
    for i, t in enumerate(r['terms']):
        if t['kind'] != 'indep':
            out.append(by['a%d' % i].gradient)
    for i, t in enumerate(r['terms']):
        if t['kind'] == 'lmc':
            out.append(by['kappa%d' % i].gradient)
    for k in ks:
        out += [p.gradient for p in kern_params(k)]
    out.append(by['noise'].gradient)
    return np.concatenate([np.array(o, dtype=float).ravel() for o in out])


def replay(sc, ev):
    r = sc['r']
    ks = [lmcdrv.kern(t['kern'], t['ad'], 'k%d' % i)
          for i, t in enumerate(r['terms'])]
    fk = lmcdrv.fkern(r, ks)
    m = lmcdrv.model(r, fk, trace_iterations=sc['it'], tolerance=1e-8)
    ev.append({'op': 'exact', 'o': attempt(
        lambda: flat(ExactLMCLikelihood(fk, m.Xs, m.Ys)))})
    ev.append({'op': 'kernel', 'o': attempt(lambda: flat(m.kernel))})
    got = []
    repeat = sc['it'] <= 2 and len(r['terms']) == 1
    for i in range(32):
        g = attempt(model_grad, fk, r, ks)
        if i % 8 == 0:
            ev.append({'op': 'model', 'o': g})
            ev.append({'op': 'kernel', 'o': attempt(lambda: flat(m.kernel))})
        got.append(g)
        fk.noise = lmcdrv.mil(r['noise'])    # triggers an update
        if i >= 8 and not repeat:
            break
    if repeat:
        ev.append({'op': 'fresh', 'o': enc(got)})
