import numpy as np
from enc import attempt
from runlmc.util import numpy_convenience as nc


def layout(a, lay):
    """An array equal to `a` with another memory layout."""
    if lay == 'C':
        return np.ascontiguousarray(a)
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'rev':
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if lay == 'strided':
        big = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if lay == 'bcast':
        last = np.arange(a.shape[-1]).astype(a.dtype)
        return np.broadcast_to(last, a.shape)
    raise AssertionError(lay)


def call(c):
    f, xs = c['f'], c['xs']
    if f == 'tesselate':
        n, w = c['n'], c['w']
        a = np.arange(n) if w == 0 else (
            10 * np.arange(n).reshape(-1, 1) + np.arange(w))
        lens = {'list': xs, 'iter': iter(xs), 'arr': np.array(xs, int)}[c['it']]
        return [np.asarray(x) for x in nc.tesselate(a, lens)]
    if f == 'search':
        unit = {'tiny': 2. ** -60, 'big': 2. ** 70}.get(c['as'], 1)
        s = {'list': xs, 'int': np.array(xs, int)}.get(
            c['as'], np.array(xs, float) * unit)
        return int(nc.search_descending(c['x'] * unit, s, c['incl']))
    if f == 'beginend':
        b, e = nc.begin_end_indices(xs if c['as'] == 'list' else np.array(xs))
        return [np.asarray(b), np.asarray(e)]
    if f == 'chunks':
        l = list(range(len(xs)))
        l = l if c['as'] == 'list' else np.array(l)
        return [np.array(x) for x in nc.chunks(l, c['n'])]
    if f == 'map':
        a = np.arange(int(np.prod(xs))).reshape(xs).astype(c['dt'])
        return nc.map_entries(lambda x: 3 * x + 1, layout(a, c['lay']))
    if f == 'cart':
        axes = [100 * (i + 1) + np.arange(n) for i, n in enumerate(xs)]
        frac = {'int': (), 'float': (0, 1), 'mixed': (1,), 'mixed1': (0,)}
        axes = [a + .5 if i % 2 in frac[c['dt']] else a
                for i, a in enumerate(axes)]
        return nc.cartesian_product(*axes)
    if f == 'symm':
        D = c['D']
        arr = np.empty((D, D), dtype=object)
        for i in range(D):
            for j in range(D):
                arr[i, j] = xs[(i + j + 2) % len(xs)]
        out = nc.symm_2d_list_map(lambda x, k: 5 * x + k, arr, D, 2,
                                  dtype=c['dt'])
        return np.array(out, dtype=float)
    if f == 'eig':
        return float(nc.smallest_eig(np.array(xs, dtype=float)))
    raise AssertionError(f)


def replay(sc, ev):
    ev.append({'op': 'call', 'o': attempt(call, sc)})
