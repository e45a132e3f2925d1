"""C17-C20, C23: trees and paths over symbolic index names and symbolic positions."""
from pysym.engine import Abort, SymName, all_of, any_of, implies, neg, same_name as eq


def opts(config):
    kind, *o = config.split(':')
    return kind, dict((x.split('=') if '=' in x else (x, '1')) for x in o)


# ---- oracle: what a linear path does, written from its definition
def simulate(n, path):
    """[(leaves of x, leaves of y), ...] and the final list of leaf sets; None if a position is not valid."""
    cur = [frozenset([t]) for t in range(n)]
    steps = []
    for xs in path:
        x, y = xs
        x, y = int(x), int(y)
        if x == y or not (0 <= x < len(cur) and 0 <= y < len(cur)):
            return None, None
        a, b = cur[x], cur[y]
        for p in sorted((x, y), reverse=True):
            cur.pop(p)
        cur.append(a | b)
        steps.append(frozenset((a, b)))
    return steps, cur


def any_path(e, n, length, flip=True):
    """A path of the given length over n tensors: every pair of positions at every step, in either order."""
    path, k = [], n
    for _ in range(length):
        x, y = e.position('x', 0, k - 1), e.position('y', 0, k - 1)
        e.assume(x != y if flip else x < y)
        path.append((x, y))
        k -= 1
    return path


def inds_of(e, sizes, pool, label='i'):
    """Tensors with symbolic index names, distinct within a tensor."""
    out = []
    for s in sizes:
        t = []
        for _ in range(s):
            t.append(e.name(label, 0, t))
        out.append(t)
    return out


def has(xs, x):
    return any(y == x for y in xs)


def count(ts, x):
    n = 0
    for t in ts:
        if bool(has(t, x)):
            n += 1
    return n


def uniq(ts):
    out = []
    for t in ts:
        for x in t:
            if not any(x == y for y in out):
                out.append(x)
    return out


def fs(xs):
    return sorted(xs)


# ---- C17
def tree_inds(e, o):
    from tnco.ctree import ContractionTree
    sizes = [int(c) for c in o['s']]
    n = len(sizes)
    extra = int(o.get('x', 0))          # tensors the path may leave alone
    pool = int(o.get('p', sum(sizes)))
    length = n - 1 - (e.choose(extra + 1, 'tensors left alone') if extra else 0)
    path = any_path(e, n, length, 'flip' in o)
    steps, cur = simulate(n, path)
    top = cur[-1]
    if len(top) != length + 1:
        raise Abort  # several trees
    ts = inds_of(e, sizes, pool)
    used = sorted(top)
    tus = [ts[t] for t in used]
    names = uniq(tus)
    nout = int(o.get('out', -1))
    if nout < 0:
        out = None
    else:
        out = [e.name('o', 0, []) for _ in range(nout)]
    hyper = any(count(tus, x) > 2 for x in names)
    share = 'share' in o
    every = uniq(ts)
    primes = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    dd = {x: primes[i] for i, x in enumerate(every)}
    how = e.choose(3, 'form of the arguments')
    one = how == 1
    dims = 3 if one else dd
    # expected
    def outs(x):
        return (out is not None and bool(has(out, x))) or count(tus, x) == 1
    want = {}
    for t in used:
        want[frozenset([t])] = [x for x in names if has(ts[t], x)]
    bad_share = False
    for st in steps:
        a, b = st
        c = a | b
        inside = [ts[t] for t in c]
        outside = [ts[t] for t in used if t not in c]
        want[c] = [x for x in names if bool(any_of([has(t, x) for t in inside])) and (outs(x) or bool(any_of([has(t, x) for t in outside])))]
        if not any(x == y for x in want[a] for y in want[b]):
            bad_share = True
    refuse = (out is None and hyper) or (share and bad_share)
    try:
        tree = ContractionTree((path, iter(path), tuple(map(list, path)))[how], iter(ts) if how == 1 else ts, dims,
                               output_inds=None if out is None else iter(out), check_shared_inds=share)
    except ValueError as x:
        if 'hyper' in str(x) or 'shared' in str(x):
            e.check(refuse, 'C17 consistent input refused', f'{path} {ts}')
            e.cover('input refused')
            return
        raise
    e.check(not refuse, 'C17 inconsistent input accepted', f'{path} {ts}')
    # structure
    e.check(len(tree) == 2 * len(used) - 1 and tree.n_leaves == len(used), 'C17 wrong number of nodes')
    leaves = {}
    for i, nd in enumerate(tree.nodes):
        if i < len(used):
            e.check(nd.is_leaf(), 'C17 tensor is not a leaf')
            leaves[i] = frozenset([used[i]])
    for _ in range(len(tree)):
        for i, nd in enumerate(tree.nodes):
            if i not in leaves and all(c in leaves for c in nd.children):
                leaves[i] = leaves[nd.children[0]] | leaves[nd.children[1]]
    e.check(len(leaves) == len(tree), 'C17 nodes not connected')
    got = {frozenset(leaves[c] for c in nd.children) for nd in tree.nodes if not nd.is_leaf()}
    e.check(got == set(steps), 'C17 tree does not do the contractions of the path', f'{path}: {got}')
    inds = tree.inds
    for i in range(len(tree)):
        g, w = list(inds[i]), want[leaves[i]]
        e.check(len(g) == len(w), 'C17 node carries wrong indices', f'path {path}, {ts}, node {fs(leaves[i])}: {g} instead of {w}')
        e.check(all_of([has(w, x) for x in g]), 'C17 node carries wrong indices', f'path {path}, {ts}, node {fs(leaves[i])}: {g} instead of {w}')
    root = [x for x in names if outs(x)]
    e.check(len(tree.output_inds()) == len(root) and all(bool(has(root, x)) for x in tree.output_inds()), 'C17 wrong output indices')
    e.check(frozenset(tree.all_inds()) == frozenset(names), 'C17 wrong set of indices')
    td = tree.dims
    e.check(len(td) == len(names), 'C17 wrong dimensions')
    e.check(all(td[x] == (3 if one else dd[x]) for x in names), 'C17 wrong dimensions', f'{dict(td)} {dd}')
    e.cover('tree built')
    if hyper:
        e.cover('hyper-index')
    if length < n - 1:
        e.cover('tensors left alone')


# ---- C18
def tree_path(e, o):
    from tnco.ctree import ContractionTree
    from tnco_core import Node
    n = int(o['n'])
    extra = int(o.get('x', 0))
    length = n - 1 - (e.choose(extra + 1, 'tensors left alone') if extra else 0)
    path = any_path(e, n, length, False)
    steps, cur = simulate(n, path)
    if len(cur[-1]) != length + 1:
        raise Abort
    # a ring plus an index common to all: every contraction shares one
    ts = [[f'r{t}', f'r{(t + 1) % n}', 'h'] if n > 2 else [f'r{t}', 'h'] for t in range(n)]
    tree = ContractionTree(path, ts, 2, output_inds=['h'])
    if 'perm' in o:
        # other labels for the internal nodes, as exchanges leave them, and children in either order
        f, a = tree.__reduce__()
        nodes, inds, dims, cache = a
        nl, N = tree.n_leaves, len(nodes)
        new = list(range(N))
        free = list(range(nl, N - 1))
        for i in range(nl, N - 1):
            new[i] = free.pop(e.choose(len(free), 'label'))
        nn, ni = [None] * N, [None] * N
        for i, nd in enumerate(nodes):
            ch, pa = nd.children, nd.parent
            ch = [c if c is None or c < 0 else new[c] for c in ch]
            if i >= nl and e.choose(2, 'order of the children'):
                ch = ch[::-1]
            ch = [-1 if c is None else c for c in ch]
            nn[new[i]] = Node(tuple(ch), -1 if pa is None or pa < 0 else new[pa])
            ni[new[i]] = inds[i]
        tree = f(nn, ni, dims, cache)
        e.cover('relabelled tree')
    got = tree.path()
    st, cu = simulate(n, got)
    e.check(st is not None, 'C18 path is not valid', f'{got}')
    e.check(len(st) == len(steps) and set(st) == set(steps), 'C18 path does other contractions than the tree', f'{got} from {path}')
    again = ContractionTree(got, ts, 2, output_inds=['h'])
    st2, _ = simulate(n, again.path())
    e.check(st2 is not None and set(st2) == set(steps), 'C18 the tree built from its own path is another one', f'{got}')
    e.check(sorted(map(sorted, again.inds[:])) == sorted(map(sorted, tree.inds[:])), 'C18 the tree built from its own path carries other indices', f'{got}')
    e.cover('path read')
    if length < n - 1:
        e.cover('tensors left alone')


# ---- C19
def merge(e, o):
    from tnco.utils.tn import merge_contraction_paths
    n = int(o['n'])
    lens = [int(c) for c in o['l']]
    paths = [any_path(e, n, k, 'flip' in o) for k in lens]
    if 'fresh' in o:   # paths of one contraction that share no tensor
        xs = [x for p in paths for x in p[0]]
        for i in range(len(xs)):
            for j in range(i):
                e.assume(xs[i] != xs[j])
    auto = bool(e.choose(2, 'autocomplete'))
    every, groups = [], []
    for p in paths:
        st, cur = simulate(n, p)
        every += st
        groups.append(frozenset(t for s in st for x in s for t in x))
    clash = any(groups[i] & groups[j] for i in range(len(groups)) for j in range(i))
    try:
        got = merge_contraction_paths(n, iter(paths) if e.choose(2, 'form') else paths, autocomplete=auto)
    except ValueError:
        e.check(clash, 'C19 disconnected paths refused', f'{paths}')
        e.cover('paths refused')
        return
    e.check(not clash, 'C19 paths that reuse a tensor accepted', f'{paths}: {got}')
    st, cur = simulate(n, got)
    e.check(st is not None, 'C19 merged path is not valid', f'{paths}: {got}')
    e.check(len(set(st)) == len(st) and set(every) <= set(st), 'C19 merged path does other contractions', f'{paths}: {got}')
    if auto:
        e.check(len(cur) == 1, 'C19 merged path is not complete', f'{paths}: {got}')
    else:
        e.check(len(st) == len(every), 'C19 merged path does other contractions', f'{paths}: {got}')
    # contractions added for completion only join what is left
    e.check(set(st[:len(every)]) == set(every), 'C19 merged path does other contractions', f'{paths}: {got}')
    e.cover('paths merged')


def split(e, o):
    from tnco.utils.tn import merge_contraction_paths, split_contraction_path
    n, k = int(o['n']), int(o['l'])
    path = any_path(e, n, k, 'flip' in o)
    steps, cur = simulate(n, path)
    norm, cc = bool(e.choose(2, 'normalized')), bool(e.choose(2, 'with the groups'))
    got = split_contraction_path(n, iter(path), return_connected_components=cc, normalize_paths=norm)
    if cc:
        got, groups = got
        e.check(len(groups) == len(got), 'C19 not one path per group', f'{path}')
        e.check(sorted(t for g in groups for t in g) == list(range(n)), 'C19 the groups do not partition the tensors', f'{path}: {groups}')
        e.check(set(groups) == set(cur), 'C19 the groups are not the connected ones', f'{path}: {groups}')
    else:
        e.check(all(len(p) for p in got), 'C19 empty path reported')
        groups = [None] * len(got)
        if norm:
            # groups are in order of their first tensor
            groups = [g for g in sorted(cur, key=min) if len(g) > 1]
            e.check(len(groups) == len(got), 'C19 not one path per group', f'{path}: {got}')
            if sorted(map(len, got)) != sorted(len(g) - 1 for g in groups):
                e.fail('C19 split paths do other contractions', f'{path}: {got}')
            # find the group each path belongs to: sizes may coincide, so only validity and length can be told apart here
            for p in got:
                e.check(simulate(len(p) + 1, p)[0] is not None, 'C19 split path is not valid', f'{path}: {got}')
            e.cover('path split')
            return
    every = []
    for p, g in zip(got, groups):
        if norm:
            m = sorted(g)
            st, cu = simulate(len(m), p)
            e.check(st is not None and len(cu) == 1, 'C19 split path is not valid', f'{path}: {got}')
            st = [frozenset(frozenset(m[t] for t in x) for x in s) for s in st]
        else:
            st, cu = simulate(n, p)
            e.check(st is not None, 'C19 split path is not valid', f'{path}: {got}')
            used = frozenset(t for s in st for x in s for t in x)
            if g is not None:
                e.check(used == (g if len(g) > 1 else frozenset()), 'C19 split path contracts tensors of other groups', f'{path}: {got}')
            else:
                e.check(used in cur, 'C19 split path contracts tensors of other groups', f'{path}: {got}')
        every += st
    e.check(len(every) == len(steps) and set(every) == set(steps), 'C19 split paths do other contractions', f'{path}: {got}')
    if not norm:
        back = merge_contraction_paths(n, got, autocomplete=False)
        e.check(set(simulate(n, back)[0]) == set(steps), 'C19 merging the split paths does other contractions', f'{path}: {got} {back}')
    e.cover('path split')


KINDS = {'tree': tree_inds, 'path': tree_path, 'merge': merge, 'split': split}


def run(e, prop, tier, config):
    kind, o = opts(config)
    KINDS[kind](e, o)


# ---- C20
def components(ts):
    comp = [{t} for t in range(len(ts))]
    for a in range(len(ts)):
        for b in range(a):
            if any(x == y for x in ts[a] for y in ts[b]):
                ca, cb = next(c for c in comp if a in c), next(c for c in comp if b in c)
                if ca is not cb:
                    comp.remove(cb)
                    ca |= cb
    return [frozenset(c) for c in comp]


def joined(ts, step):
    a, b = step
    return any(x == y for t in a for s in b for x in ts[t] for y in ts[s])


def random_path(e, o):
    from tnco.utils import tn

    from pysym import rng
    rng.install()
    ts = inds_of(e, [int(c) for c in o['s']], 0)
    n = len(ts)
    comp = components(ts)
    mode = int(o.get('m', e.choose(3, 'mode')))
    if mode == 0:
        got = tn.get_random_contraction_path(iter(ts), merge_paths=False)
        e.check(len(got) == sum(1 for c in comp if any(len(ts[t]) for t in c)), 'C20 not one path per component', f'{ts}: {got}')
        seen = []
        for p in got:
            st, cur = simulate(n, p)
            e.check(st is not None, 'C20 path is not valid', f'{ts}: {got}')
            for s in st:
                e.check(joined(ts, s), 'C20 tensors without a common index are contracted', f'{ts}: {got}')
            if st:
                used = frozenset(t for s in st for x in s for t in x)
                e.check(used in comp and used in cur, 'C20 path does not contract its component', f'{ts}: {got}')
                seen.append(used)
        e.check(len(set(seen)) == len(seen) and set(seen) == {c for c in comp if len(c) > 1}, 'C20 a component is not contracted', f'{ts}: {got}')
    else:
        got = tn.get_random_contraction_path(ts, autocomplete=mode == 1)
        st, cur = simulate(n, got)
        e.check(st is not None, 'C20 path is not valid', f'{ts}: {got}')
        first = st[:n - len(comp)]
        for s in first:
            e.check(joined(ts, s), 'C20 tensors without a common index are contracted', f'{ts}: {got}')
        if mode == 1:
            e.check(len(cur) == 1, 'C20 path is not complete', f'{ts}: {got}')
        else:
            e.check(set(cur) == set(comp), 'C20 path does not contract its components', f'{ts}: {got}')
    e.cover('random path')
    if len(comp) > 1:
        e.cover('several components')
    if any(count(ts, x) > 2 for x in uniq(ts)):
        e.cover('hyper-index')


KINDS['random'] = random_path


# ---- C23
def open_inds(ts, leaves, outs, used):
    """Indices carried by the contraction of the given tensors, by definition."""
    inside = [ts[t] for t in leaves]
    outside = [ts[t] for t in used if t not in leaves]
    return [x for x in uniq(inside) if has(outs, x) or any(has(t, x) for t in outside) or count([ts[t] for t in used], x) == 1]


def fuse_(e, o):
    from pysym.engine import SymDim, patch_math, num
    from tnco.utils import tn

    from pysym import rng
    rng.install()
    patch_math(tn)
    ts = inds_of(e, [int(c) for c in o['s']], 0)
    n = len(ts)
    every = uniq(ts)
    hyper = any(count(ts, x) > 2 for x in every)
    nout, nex = int(o.get('out', -1)), int(o.get('ex', 0))
    # outputs and excluded indices: a choice among the indices present, or one that is not present
    out = None if nout < 0 else [e.name('o', 0, []) for _ in range(nout)]
    exc = [e.name('x', 0, []) for _ in range(nex)]
    w = [e.int('w', 0, 8) for _ in every]
    dims = {x: (2 ** k if e.concrete else SymDim(k)) for x, k in zip(every, w)}
    if 'uni' in o:
        k = e.choose(3, 'width of an index')
        w = [k] * len(every)
        dims = 2 ** k
    lim = e.int('max_width', 0, 40)
    stray = any(not has(every, x) for x in (out or []) + exc)
    refuse = (out is None and hyper) or stray
    try:
        path, fused = tn.fuse(iter(ts), dims, lim, None if out is None else iter(out), exclude_inds=iter(exc), return_fused_inds=True)
    except ValueError:
        e.check(refuse, 'C23 consistent input refused', f'{ts} {out} {exc}')
        e.cover('input refused')
        return
    e.check(not refuse, 'C23 inconsistent input accepted', f'{ts} {out} {exc}')
    what = f'{ts} outputs {out} excluded {exc}: {path}'
    st, cur = simulate(n, path)
    e.check(st is not None, 'C23 path is not valid', what)
    e.check(len(fused) == len(path), 'C23 wrong number of fused tensors', what)
    outs = out if out is not None else [x for x in every if count(ts, x) == 1]
    sets = [frozenset([t]) for t in range(n)]
    for (x, y), s, f in zip(path, st, fused):
        e.check(joined(ts, s), 'C23 tensors without a common index are contracted', what)
        for a in s:
            for x in exc:
                e.check(not any(has(ts[t], x) for t in a), 'C23 tensor with an excluded index is contracted', what)
        a, b = s
        z = open_inds(ts, a | b, outs, range(n))
        e.check(len(f) == len(z) and all(has(z, x) for x in f), 'C23 wrong indices reported', f'{what}: {f} instead of {z}')
        tot = 0
        for x in z:
            tot = tot + w[next(i for i, k in enumerate(every) if k == x)]
        e.check(tot <= lim, 'C23 fused tensor is too wide', what)
        e.cover('tensors fused')
    if not path:
        e.cover('nothing fused')
    if hyper:
        e.cover('hyper-index')


KINDS['fuse'] = fuse_
