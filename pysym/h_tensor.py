"""C21, C22: contraction and decomposition of arrays with symbolic entries."""
import itertools

import numpy as np

from pysym import arrays as A
from pysym.engine import SymPos, all_of, any_of, num
from pysym.h_paths import any_path, count, has, inds_of, opts, simulate, uniq


def class_dims(names, o):
    d = [int(c) for c in o.get('d', '2')]
    return {x: d[i % len(d)] for i, x in enumerate(names)}


def subset(e, xs, label):
    return [x for x in xs if e.choose(2, label)]


def scalar(x):
    return x[()] if isinstance(x, np.ndarray) and x.shape == () else x


# ---- C21
def contract_(e, o):
    from tnco.utils import tn
    A.install()
    sizes = [int(c) for c in o['s']]
    n = len(sizes)
    length = int(o.get('l', n - 1))
    path = any_path(e, n, length, 'flip' in o)
    steps, cur = simulate(n, path)
    ts = inds_of(e, sizes, 0)
    every = uniq(ts)
    hyper = any(count(ts, x) > 2 for x in every)
    dd = class_dims(every, o)
    given = 'out' in o
    out = [e.name('o', 0, []) for _ in range(int(o['out']))] if given else None
    if given and 'sub' in o:
        out = subset(e, every, 'output')
    arrs = [A.array(e, 'a', tuple(dd[x] for x in t), 'cplx' in o) for t in ts]
    stray = given and any(not has(every, x) for x in out)
    refuse = stray or (hyper and not given)
    form = e.choose(2, 'form of the arguments')
    dims = [None, dd][form]
    try:
        zs, zo, za = tn.contract(iter(path) if form else path, iter(ts) if form else ts, None if out is None else iter(out), iter(arrs) if form else arrs, dims)
    except ValueError:
        e.check(refuse, 'C21 consistent network refused', f'{path} {ts} {out}')
        e.cover('network refused')
        return
    what = f'{path} {ts} outputs {out}: {zs}'
    e.check(not refuse, 'C21 inconsistent network accepted', what)
    opened = [x for x in every if (given and bool(has(out, x))) or count(ts, x) == 1]
    want_out = [x for x in every if (bool(has(out, x)) if given else count(ts, x) == 1)]
    e.check(len(zs) == n - length and len(za) == len(zs), 'C21 wrong number of tensors left', what)
    e.check(len(zo) == len(want_out) and all(has(want_out, x) for x in zo), 'C21 wrong output indices', f'{what} {zo}')
    if length == n - 1:
        e.check(len(zs[0]) == len(opened) and all(has(opened, x) for x in zs[0]), 'C21 wrong indices left', what)
        e.cover('one tensor left')
    for z, a in zip(zs, za):
        e.check(tuple(a.shape) == tuple(dd[x] for x in z), 'C21 axes do not follow the indices', what)
    want = A.value(ts, arrs, opened, dd)
    got = A.value(zs, za, opened, dd) if uniq(zs) and len(uniq(zs)) >= len(opened) or not opened else None
    e.check(got is not None, 'C21 an open index is lost', what)
    for k in want:
        e.same_num(got[k], want[k], 'C21 wrong value', what)
    if form == 0:
        r = tn.contract(path, ts, out, None, dd)
        e.check([list(x) for x in r[0]] == [list(x) for x in zs] and frozenset(r[1]) == frozenset(zo), 'C21 indices differ without arrays', f'{what} {r}')
    e.cover('contracted')
    if hyper:
        e.cover('hyper-index')


def shapes(e, o):
    """Shapes that do not fit, and wrong dimensions, are refused."""
    from tnco.utils import tn
    A.install()
    sizes = [int(c) for c in o['s']]
    n = len(sizes)
    ts = inds_of(e, sizes, 0)
    every = uniq(ts)
    sh = [tuple(1 + e.choose(2, 'dimension') for _ in t) for t in ts]
    lie = e.choose(3, 'dimensions')
    dd, bad = {}, False
    for t, s in zip(ts, sh):
        for x, k in zip(t, s):
            bad = bad or dd.setdefault(x, k) != k
    dims = None
    if lie:
        dims = {x: 1 + e.choose(2, 'given dimension') for x in every}
        bad = bad or any(dims[x] != dd[x] for x in every)
    ar = [np.ones(s) for s in sh]
    if lie == 2:
        ar = ar[:-1]
        bad = True
    try:
        tn.contract([(0, 1)], ts, every, ar, dims)
    except ValueError:
        e.check(bad, 'C21 consistent network refused', f'{ts} {sh} {dims}')
        e.cover('network refused')
        return
    e.check(not bad, 'C21 inconsistent network accepted', f'{ts} {sh} {dims}')
    e.cover('contracted')


def dot(e, o):
    from tnco.utils import tensor
    A.install()
    ts = inds_of(e, [int(c) for c in o['s']], 0)
    every = uniq(ts)
    dd = class_dims(every, o)
    both = [x for x in ts[0] if has(ts[1], x)]
    hy = [e.name('h', 0, []) for _ in range(int(o['h']))] if 'h' in o else subset(e, both, 'hyper-index')
    bad = any(not has(both, x) for x in hy)
    arrs = [A.array(e, 'a', tuple(dd[x] for x in t), 'cplx' in o) for t in ts]
    try:
        az, zs = tensor.tensordot((arrs[0], ts[0]), (arrs[1], ts[1]), hyper_inds=(iter(hy) if hy else None))
    except ValueError:
        e.check(bad, 'C21 consistent product refused', f'{ts} {hy}')
        e.cover('product refused')
        return
    what = f'{ts} hyper {hy}: {zs}'
    e.check(not bad, 'C21 inconsistent product accepted', what)
    opened = [x for x in every if has(hy, x) or not has(both, x)]
    e.check(len(zs) == len(opened) and all(has(opened, x) for x in zs), 'C21 wrong indices of a product', what)
    e.check(tuple(az.shape) == tuple(dd[x] for x in zs), 'C21 axes do not follow the indices', what)
    want = A.value(ts, arrs, list(zs), dd)
    for k in want:
        e.same_num(scalar(az[k]), want[k], 'C21 wrong value of a product', what)
    only = tensor.tensordot((None, ts[0]), (None, ts[1]), hyper_inds=hy, return_inds_only=True)
    e.check(list(only) == list(zs), 'C21 indices differ without arrays', f'{what} {only}')
    e.cover('product')


# ---- C22
def expand(inds, rec, every, at):
    """Indices (by position in every) of one assignment in the reduced tensor, or None off the merged diagonal."""
    v = dict(zip(every, at))
    for k, xs in rec.items():
        if any(v[x] != v[k] for x in xs):
            return None
    return tuple(v[x] for x in inds)


def dec(e, o):
    from tnco.utils import tensor
    A.install()
    shape = tuple(int(c) for c in o['shape'])
    every = [f'i{k}' for k in range(len(shape))]
    a = A.array(e, 'a', shape, 'cplx' in o)
    for i in np.ndindex(*shape):
        if 'diag' in o and i[0] != i[1]:
            a[i] = num(0) if not e.concrete else 0.
    atol = e.real('atol', 0) if 'tol' not in o else float(o['tol'])
    (b, inds), rec = tensor.decompose_hyper_inds(a, iter(every), atol=atol)
    what = f'{shape}: {inds} {rec}'
    merged = [x for xs in rec.values() for x in xs]
    e.check(len(set(merged)) == len(merged) and not set(merged) & set(inds) and not set(merged) & set(rec), 'C22 index merged twice', what)
    e.check(set(inds) | set(rec) | set(merged) == set(every), 'C22 index dropped without a record', what)
    e.check(len(set(inds)) == len(inds) and tuple(b.shape) == tuple(shape[every.index(x)] for x in inds), 'C22 axes do not follow the indices', what)
    for k, xs in rec.items():
        e.check(all(shape[every.index(x)] == shape[every.index(k)] for x in xs), 'C22 indices of different dimensions merged', what)
    for at in np.ndindex(*shape):
        w = expand(inds, rec, every, at)
        r = 0 if w is None else scalar(b[w])
        if e.concrete:
            e.check(abs(a[at] - r) <= (atol + 1e-5 * abs(r)) * (1 + 1e-9) + 1e-300, 'C22 decomposition differs from the tensor', f'{what} at {at}: {a[at]} {r}')
        else:
            e.check(A.within(a[at], r, num(atol) + num(1e-5) * abs(num(r))), 'C22 decomposition differs from the tensor', f'{what} at {at}')
    e.cover('merged' if rec else 'left as it is')
    if rec and not inds:
        e.cover('reduced to a number')


def net(e, o):
    """Value of a network before and after, closeness being equality."""
    from tnco.utils import tn
    A.install()
    A.EXACT = True
    ts = inds_of(e, [int(c) for c in o['s']], 0)
    every = uniq(ts)
    dd = class_dims(every, o)
    kinds = o.get('k', '')
    arrs = []
    for j, t in enumerate(ts):
        sh = tuple(dd[x] for x in t)
        k = kinds[j] if j < len(kinds) else 'g'
        if k == 'g':        # general entries
            a = A.array(e, 'a', sh)
        else:
            a = np.empty(sh, dtype=float if e.concrete else object)
            a.fill(0. if e.concrete else num(0))
            d = e.real('a') if k == 'c' else None
            for v in range(min(sh)):
                a[(v,) * len(sh)] = d if k == 'c' else e.real('a')     # a multiple of a delta, or diagonal
        arrs.append(a)
    out = subset(e, every, 'output') if 'out' in o else [x for x in every if count(ts, x) == 1]
    try:
        na, nt, m = tn.decompose_hyper_inds(iter(arrs), iter(ts), atol=0)
    finally:
        A.EXACT = False
    what = f'{ts} outputs {out}: {nt} {m}'
    e.check(len(na) == len(ts) and len(nt) == len(ts), 'C22 number of tensors changed', what)
    e.check(len(m) == len(every) and all(has(list(m), x) for x in every), 'C22 map of indices is not complete', what)
    e.check(all(m[m[x]] == m[x] for x in every), 'C22 map of indices is not consistent', what)
    nn = uniq(nt)
    e.check(all(has(list(m.values()), x) for x in nn), 'C22 unknown index', what)
    for t, a in zip(nt, na):
        e.check(len(uniq([t])) == len(t), 'C22 index repeated in a tensor', what)
        e.check(tuple(a.shape) == tuple(dd[x] for x in t), 'C22 axes do not follow the indices', what)
    opened = [x for x in every if has(out, x) or count(ts, x) == 1]
    nopen = uniq([[m[x] for x in opened]])
    e.check(all(has(nn, x) for x in nopen), 'C22 open index lost', what)
    if 'out' not in o:
        # the indices of only one tensor stay open and no others do
        once = [x for x in nn if count(nt, x) == 1]
        e.check(all(has(nopen, x) for x in once), 'C22 index left open', what)
    want = A.value(ts, arrs, opened, dd)
    got = A.value(nt, na, nopen, dd)
    for k, w in want.items():
        v = {}
        off = False
        for x, kx in zip(opened, k):
            i = next(i for i, y in enumerate(nopen) if y == m[x])
            off = off or v.setdefault(i, kx) != kx
        g = 0 if off else got[tuple(v[i] for i in range(len(nopen)))]
        e.same_num(g, w, 'C22 value of the network changed', what)
    e.cover('network with merged indices' if len(set(m.values())) < len(m) else 'network left as it is')


KINDS = {'contract': contract_, 'shapes': shapes, 'dot': dot, 'dec': dec, 'net': net}


def run(e, prop, tier, config):
    kind, o = opts(config)
    KINDS[kind](e, o)
