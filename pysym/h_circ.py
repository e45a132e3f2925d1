"""C26-C28: gates, circuits and sampling over symbolic matrices, states and draws."""
import itertools
import math

import numpy as np

from pysym import arrays as A
from pysym.engine import SymBool, all_of, any_of, neg, num
from pysym.engine import same_name
from pysym.h_paths import has, opts, uniq

R2 = 1 / math.sqrt(2)
FIXED = {
    'h': [[R2, R2], [R2, -R2]], 'k': [[1, 1], [1, -1]], 'j': [[1, 2], [2, -1]], 'n': [[1, 1j], [1j, 1]], 'x': [[0, 1], [1, 0]], 'z': [[1, 0], [0, -1]], 'y': [[0, -1j], [1j, 0]], 's': [[1, 0], [0, 1j]], 'i': [[1, 0], [0, 1]],
    'c': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], 'w': [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    'Z': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]],
    'o': [[1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0, 1, 0]],
}
SIZE = {**{k: int(math.log2(len(v))) for k, v in FIXED.items()}, **dict.fromkeys('gGrfpud', 1), **dict.fromkeys('tTDPMQ', 2), **dict.fromkeys('bB', 3)}


def zeros(e, shape):
    a = np.empty(shape, dtype=complex if e.concrete else object)
    a.fill(0)
    return a


def unit(e, n, label):
    """n numbers with squares adding up to one."""
    x = [e.real(label) for _ in range(n)]
    t = sum((v * v for v in x[1:]), x[0] * x[0])
    e.assume(abs(t - 1) < 1e-9 if e.concrete else t == 1)
    return x


def cpx(e, x, y):
    return complex(x, y) if e.concrete else x + y * 1j


def matrix(e, kind):
    """A matrix of the given kind with arbitrary entries."""
    n = 2 ** SIZE[kind]
    a = zeros(e, (n, n))
    if kind in FIXED:
        for i, j in np.ndindex(n, n):
            a[i, j] = FIXED[kind][i][j]
    elif kind in 'gt':                       # any real matrix
        for i, j in np.ndindex(n, n):
            a[i, j] = e.real('m')
    elif kind in 'GT':                       # any complex matrix
        for i, j in np.ndindex(n, n):
            a[i, j] = e.cplx('m')
    elif kind == 'B':                        # any diagonal matrix without zeros
        for i in range(n):
            a[i, i] = e.real('m')
            e.assume(a[i, i] != 0)
    elif kind in 'dDb':                      # any real diagonal matrix
        for i in range(n):
            a[i, i] = e.real('m')
    elif kind == 'M':                        # a monomial matrix: any non-zero entries at a permutation
        left = list(range(n))
        for i in range(n):
            x = e.real('m')
            e.assume(x != 0)
            a[i, left.pop(e.choose(len(left), 'column'))] = x
    elif kind == 'Q':                        # any non-zero entries in two blocks
        for i, j in np.ndindex(n, n):
            if i // 2 == j // 2:
                x = e.real('m')
                e.assume(x != 0)
                a[i, j] = x
    elif kind in 'rf':                       # multiples of rotations and reflections
        c, s = e.real('c'), e.real('c')
        e.assume((c != 0) | (s != 0))
        a[0, 0], a[0, 1], a[1, 0], a[1, 1] = (c, -s, s, c) if kind == 'r' else (c, s, s, -c)
    elif kind in 'pP':                       # multiples of phases
        p = e.cplx('p')
        e.assume(p != 0)
        for i in range(n):
            a[i, i] = p.conjugate()
        a[n - 1, n - 1] = p
    elif kind == 'u':                        # multiples of any unitary
        z, w = e.cplx('u'), e.cplx('u')
        e.assume((z != 0) | (w != 0))
        a[0, 0], a[0, 1], a[1, 0], a[1, 1] = z, -w.conjugate(), w, z.conjugate()
    else:
        raise KeyError(kind)
    return a


def pool(e, n):
    q = []
    for _ in range(n):
        q.append(e.name('q', 0, q))
    return q


def settle(*xs):
    """Formulas in one form, so that equal polynomials look the same."""
    import z3
    return [SymBool(z3.simplify(x.e, som=True, arith_lhs=True)) if isinstance(x, SymBool) else bool(x) for x in xs]


def iff(e, r, want, label, what):
    if e.concrete:
        return e.check(bool(r) == bool(want), label, what)
    r, want = settle(r, want)
    e.check((r == want) if isinstance(r, SymBool) else (want == r), label, what)


# ---- the operator of a gate on a list of qubits, entry by entry
def embed(m, at, n):
    """{(out bits, in bits): entry} of matrix m on positions at, identity elsewhere."""
    res = {}
    for o in itertools.product((0, 1), repeat=n):
        for i in itertools.product((0, 1), repeat=n):
            if any(o[k] != i[k] for k in range(n) if k not in at):
                continue
            r = int(''.join(str(o[k]) for k in at), 2)
            c = int(''.join(str(i[k]) for k in at), 2)
            res[o, i] = m[r, c]
    return res


def product(x, y, n):
    res = {}
    for (o, k), v in x.items():
        for i in itertools.product((0, 1), repeat=n):
            if (k, i) in y:
                res[o, i] = res.get((o, i), 0) + v * y[k, i]
    return res


def commute(e, o):
    from tnco.utils import circuit as C
    A.install()
    kinds = o['g']
    qs = pool(e, int(o.get('q', 2)))
    gates = [(matrix(e, k), pick(e, qs, SIZE[k])) for k in kinds]
    exact = 'tol' not in o
    kw = {} if exact else {'atol': e.real('atol', 0)}
    if e.choose(2, 'by matrix') == 0:
        kw['use_matrix_commutation'] = False
    (a, qa), (b, qb) = gates
    A.EXACT = exact
    try:
        r = C.commute((a, iter(qa)), (b, iter(qb)), **kw)
        back = C.commute((b, qb), (a, qa), **kw) if exact else None
    finally:
        A.EXACT = False
    what = f'{kinds} on {qa} and {qb}'
    names = uniq([qa, qb])
    if len(names) == len(qa) + len(qb):
        e.check(r if isinstance(r, SymBool) else bool(r), 'C26 gates on different qubits do not commute', what)
        e.cover('different qubits')
        return
    if 'use_matrix_commutation' in kw:
        e.check(neg(r) if isinstance(r, SymBool) else not r, 'C26 gates on common qubits commute without a test of the matrices', what)
        return
    n = len(names)
    x, y = (embed(m, [next(i for i, z in enumerate(names) if z == q) for q in g], n) for m, g in gates)
    ab, ba = product(x, y, n), product(y, x, n)
    keys = set(ab) | set(ba)
    if exact:
        if e.concrete:
            want = all(abs(ab.get(k, 0) - ba.get(k, 0)) < 1e-9 for k in keys)
        else:
            want = all_of([num(ab.get(k, 0)) == num(ba.get(k, 0)) for k in sorted(keys)])
        iff(e, r, want, 'C26 commuting gates and order of application', what)
        iff(e, back, want, 'C26 commuting gates and order of application', what)
        e.cover('gates compared')
        return
    atol = num(kw['atol'])
    if e.concrete:
        want = all(abs(ab.get(k, 0) - ba.get(k, 0)) <= (kw['atol'] + 1e-5 * max(abs(ba.get(k, 0)), abs(ab.get(k, 0)))) * (1 + 1e-9) + 1e-12 for k in keys)
        e.check(want or not r, 'C26 gates far from commuting are reported to commute', what)
        return
    close = all_of([A.within(ab.get(k, 0), ba.get(k, 0), atol + num(1e-5) * abs(num(ba.get(k, 0)))) | A.within(ab.get(k, 0), ba.get(k, 0), atol + num(1e-5) * abs(num(ab.get(k, 0)))) for k in sorted(keys)])
    r, close = settle(r, close)
    e.check((neg(r) | close) if isinstance(r, SymBool) else (not r or close), 'C26 gates far from commuting are reported to commute', what)
    e.cover('tolerance')


def pick(e, qs, n):
    """n different qubits out of qs in any order."""
    left = list(qs)
    return [left.pop(e.choose(len(left), 'qubit')) for _ in range(n)]


def same(e, o):
    from tnco.utils import circuit as C
    A.install()
    kinds = o['g']
    qs = pool(e, int(o.get('q', 2)))
    (a, qa), (b, qb) = [(matrix(e, k), pick(e, qs, SIZE[k])) for k in kinds]
    cells = list(np.ndindex(*a.shape))
    if 'copy' in o:         # the second is a multiple of the first but for one entry, its qubits listed in another order
        c = e.real('factor')
        e.assume(c != 0)
        qb = pick(e, qa, len(qa))
        b = to_order(e, a, qa, qb)
        for i in np.ndindex(*b.shape):
            b[i] = c * b[i]
        at = cells[e.choose(len(cells), 'entry')]
        b[at] = b[at] + e.real('change')
    if not e.concrete:
        e.assume(any_of([num(a[i]) != 0 for i in cells]))
    elif not np.any(a):
        e.assume(False)
    A.EXACT = True
    try:
        r = C.same((a, iter(qa)), (b, iter(qb)), atol=0)
    finally:
        A.EXACT = False
    what = f'{kinds} on {qa} and {qb}'
    if len(qa) != len(qb) or any(not has(qa, q) for q in qb):
        iff(e, r, False, 'C26 gates on other qubits are the same', what)
        e.cover('other qubits')
        return
    m = to_order(e, b, qb, qa)
    if e.concrete:
        i0 = max(cells, key=lambda i: abs(a[i]))
        want = abs(m[i0]) > 0 and all(abs(a[i] * m[i0] - m[i] * a[i0]) < 1e-9 * max(1, abs(a[i0] * m[i0])) for i in cells)
    else:
        n = [(num(a[i]), num(m[i])) for i in cells]
        # every entry is zero in both or neither, and all minors vanish (with the zero pattern settled first, as the solver needs it)
        want = all_of([(x != 0) == (y != 0) for x, y in n])
        if e.decide(want.e if isinstance(want, SymBool) else _z(want)):
            x0, y0 = next((x, y) for x, y in n if e.decide((x != 0).e))
            want = all_of([x * y0 == y * x0 for x, y in n])
        else:
            want = False
    iff(e, r, want, 'C26 same gates', what)
    e.cover('same compared')


def _z(b):
    import z3
    return z3.BoolVal(bool(b))


def to_order(e, m, frm, to):
    """The matrix of the gate on qubits frm, written for the order to."""
    n = len(frm)
    at = [next(i for i, y in enumerate(frm) if y == x) for x in to]
    res = zeros(e, m.shape)
    for o in itertools.product((0, 1), repeat=n):
        for i in itertools.product((0, 1), repeat=n):
            so, si = [0] * n, [0] * n
            for k, p in enumerate(at):
                so[p], si[p] = o[k], i[k]
            res[bits(o), bits(i)] = m[bits(so), bits(si)]
    return res


def bits(b):
    return int(''.join(map(str, b)), 2)


def refuse(e, o):
    """Malformed gates are refused by both functions, well-formed ones are not."""
    from tnco.utils import circuit as C
    A.install()
    shape = tuple((1, 2, 3, 4)[e.choose(4, 'size')] for _ in range((2, 1, 3)[e.choose(3, 'axes')]))
    k = e.choose(4, 'number of qubits')
    qs = [e.name('q') for _ in range(k)]
    good = (np.array([[0, 1], [1, 0]]), [e.name('r')])
    bad = shape not in ((2, 2), (4, 4)) or shape[0] != 2 ** k or any(same_name(qs[i], qs[j]) for i in range(k) for j in range(i))
    g = (np.ones(shape), qs)
    f = (C.commute, C.same)[e.choose(2, 'function')]
    pair = (g, good) if e.choose(2, 'place') else (good, g)
    try:
        f(*pair)
    except ValueError:
        e.check(bad, 'C26 proper gate refused', f'{shape} on {qs}')
        e.cover('gate refused')
        return
    e.check(not bad, 'C26 malformed gate accepted', f'{shape} on {qs}')


# ---- C27
TOKEN = {'0': [1, 0], '1': [0, 1], '+': [R2, R2], '-': [R2, -R2]}


class Two(dict):
    def __missing__(self, k):
        return 2

    def __getitem__(self, k):
        return 2


def state_of(e, o, key, qubits):
    """(argument of load, {qubit: vector})"""
    k = o.get(key, '0')
    if k == 'n':
        return None, {}
    if k != 'd':
        return k, {q: TOKEN[k] for q in qubits}
    arg, vec = {}, {}
    for q in qubits:
        c = e.choose(3, 'state')
        if c == 0:
            continue
        if c == 1:
            arg[q] = '01+-'[e.choose(4, 'token')]
            vec[q] = TOKEN[arg[q]]
        else:
            x = unit(e, 2, 'v') if key == 'i' else None
            if x is None:
                y = unit(e, 3, 'v')
                x = [y[0], cpx(e, y[1], y[2])]
            v = zeros(e, (2,))
            v[0], v[1] = x
            arg[q] = v
            vec[q] = list(v)
    return arg, vec


def circuit_of(e, o):
    qs = pool(e, int(o.get('q', 2)))
    kinds = o['g']
    if 'at' in o:           # fixed qubits: digits, one group per gate
        at = iter(o['at'])
        return [(matrix(e, k), [qs[int(next(at))] for _ in range(SIZE[k])]) for k in kinds], kinds
    return [(matrix(e, k), pick(e, qs, SIZE[k])) for k in kinds], kinds


def amplitude(gates, qubits, initial, final):
    """{(bits of open final qubits, bits of open initial qubits): amplitude}, straight from the definition."""
    n = len(qubits)
    where = [[next(i for i, y in enumerate(qubits) if y == q) for q in qs] for _, qs in gates]
    oi = [k for k in range(n) if k not in initial]
    of = [k for k in range(n) if k not in final]
    res = {}
    for bi in itertools.product((0, 1), repeat=len(oi)):
        psi = {}
        for b in itertools.product((0, 1), repeat=n):
            if any(b[k] != v for k, v in zip(oi, bi)):
                continue
            p = 1
            for k, v in initial.items():
                p = p * v[b[k]]
            psi[b] = p
        for (m, _), at in zip(gates, where):
            new = {}
            for b, p in psi.items():
                c = bits([b[k] for k in at])
                for r in range(len(m)):
                    t = list(b)
                    for k, v in zip(at, format(r, f'0{len(at)}b')):
                        t[k] = int(v)
                    t = tuple(t)
                    new[t] = new.get(t, 0) + m[r, c] * p
            psi = new
        for bf in itertools.product((0, 1), repeat=len(of)):
            tot = 0
            for b, p in psi.items():
                if any(b[k] != v for k, v in zip(of, bf)):
                    continue
                for k, v in final.items():
                    x = v[b[k]]
                    p = p * (x.conjugate() if hasattr(x, 'conjugate') else x)
                tot = tot + p
            res[bf, bi] = tot
    return res


def load(e, o):
    from tnco.utils import circuit as C
    from pysym import rng
    A.install()
    rng.install()
    gates, kinds = circuit_of(e, o)
    qubits = uniq([qs for _, qs in gates])
    n = len(qubits)
    ia, iv = state_of(e, o, 'i', qubits)
    fa, fv = state_of(e, o, 'f', qubits)
    simp = 'simp' in o
    fuse = None if 'fuse' not in o else float(o['fuse'])
    kw = dict(initial_state=ia, final_state=fa, simplify=simp, decompose_hyper_inds='dec' in o, fuse=fuse)
    if 'nomat' in o:
        kw['use_matrix_commutation'] = False
    if not e.concrete:
        kw['dtype'] = object
        if simp:
            kw['atol'] = 0
    A.EXACT = not e.concrete
    try:
        arrays, ts, out = C.load([(m, tuple(q)) for m, q in gates] if 'it' not in o else iter([(m, tuple(q)) for m, q in gates]), **kw)
    finally:
        A.EXACT = False
    what = f'{kinds} on {[q for _, q in gates]}, from {ia!r} to {fa!r}, {kw}: {ts} {list(out)}'
    e.check(len(arrays) == len(ts), 'C27 numbers of arrays and tensors differ', what)
    for t, a in zip(ts, arrays):
        e.check(tuple(a.shape) == (2,) * len(t), 'C27 axes do not follow the indices', what)
    opened = [(q, 'f') for q in qubits if not any(q == x for x in fv)] + [(q, 'i') for q in qubits if not any(q == x for x in iv)]
    e.check(len(out) == len(opened) and all(has(list(out), x) for x in opened), 'C27 open qubits are not the outputs', what)
    names = uniq(ts)
    e.check(all(has(names, x) for x in opened), 'C27 an open qubit is in no tensor', what)
    got = A.value(ts, arrays, opened, Two())
    pos = {k: v for k, v in enumerate(qubits)}
    want = amplitude(gates, qubits, {k: iv[q] for k, q in pos.items() if q in iv}, {k: fv[q] for k, q in pos.items() if q in fv})
    flat = {bf + bi: v for (bf, bi), v in want.items()}
    if simp:
        # up to a constant: the same direction
        up_to_factor(e, got, flat, what)
        e.cover('gates cancelled' if cancelled(e, ts, arrays, kinds, fuse) else 'nothing cancelled')
        return
    for k, w in flat.items():
        e.same_num(scalar(got[k]), w, 'C27 amplitude of the circuit', what, coef=1e-9)
    e.cover('circuit loaded')
    if opened:
        e.cover('open qubits')


def cancelled(e, ts, arrays, kinds, fuse):
    return fuse is None and len(ts) < len(kinds)


def scalar(x):
    return x[()] if isinstance(x, np.ndarray) and x.shape == () else x


def up_to_factor(e, got, want, what):
    ks = list(want)
    if e.concrete:
        k0 = max(ks, key=lambda k: abs(want[k]))
        g, w = complex(scalar(got[k0])), complex(want[k0])
        if abs(w) < 1e-9:
            for k in ks:
                e.check(abs(complex(scalar(got[k]))) < 1e-6, 'C27 amplitude up to a factor', what)
            return
        e.check(abs(g) > 1e-9, 'C27 amplitude lost', what)
        for k in ks:
            e.check(abs(complex(scalar(got[k])) * w - g * complex(want[k])) < 1e-6, 'C27 amplitude up to a factor', f'{what} at {k}')
        return
    for k0 in ks:
        w = num(want[k0])
        if e.decide((w != 0).e):
            break
        e.check(num(scalar(got[k0])) == 0, 'C27 amplitude up to a factor', what)
    else:
        return
    g = num(scalar(got[k0]))
    e.check(g != 0, 'C27 amplitude lost', what)
    for k in ks:
        e.same_num(num(scalar(got[k])) * w, num(want[k]) * g, 'C27 amplitude up to a factor', f'{what} at {k}', coef=1e-9)


MENU = {'x': 'x', 'h': 'h', 's': 's', 'z': 'z', 'cx': 'c', 'cz': 'Z', 'swap': 'w', 'ccx': 'o'}


def library(e, kind, names, nq):
    """A circuit of the given library and the same circuit as [(matrix, qubits)] by the documented meaning of its gates."""
    gates, qubits = [], None
    if kind == 'qiskit':
        import qiskit
        qc = qiskit.QuantumCircuit(nq)
        qubits = list(qc.qubits)
    else:
        import cirq
        qubits = cirq.LineQubit.range(nq)
        ops = []
    text = []
    for nm in names:
        n = SIZE[MENU[nm]]
        at = pick(e, range(nq), n)
        text.append(f'{nm}{tuple(at)}')
        gates.append((np.array(FIXED[MENU[nm]]), [qubits[k] for k in at]))
        if kind == 'qiskit':
            getattr(qc, nm)(*at)
        else:
            ops.append({'x': cirq.X, 'h': cirq.H, 's': cirq.S, 'z': cirq.Z, 'cx': cirq.CNOT, 'cz': cirq.CZ, 'swap': cirq.SWAP, 'ccx': cirq.CCNOT}[nm](*[qubits[k] for k in at]))
    if kind == 'qiskit':
        return qc, gates, qubits, text
    if kind == 'moment':
        e.assume(len({q for op in ops for q in op.qubits}) == sum(len(op.qubits) for op in ops))
        return cirq.Moment(ops), gates, qubits, text
    if e.choose(2, 'measured'):
        ops.append(cirq.measure(*sorted({q for op in ops for q in op.qubits})))
        text.append('measure')
    return cirq.Circuit(ops), gates, qubits, text


def conv(e, o):
    """Circuits of other libraries, from arbitrary initial states."""
    from tnco.utils import circuit as C
    A.install()
    circuit, gates, qubits, text = library(e, o['k'], o['g'].split('+'), int(o['q']))
    used = [q for q in qubits if any(q in qs for _, qs in gates)]
    arg, vec = {}, {}
    for q in used:
        v = zeros(e, (2,))
        v[0], v[1] = unit(e, 2, 'v')
        arg[q], vec[q] = v, list(v)
    kw = {} if e.concrete else dict(dtype=object)
    A.EXACT = not e.concrete
    try:
        arrays, ts, out = C.load(circuit, initial_state=arg, final_state=None, simplify=False, decompose_hyper_inds=False, fuse=None, **kw)
    finally:
        A.EXACT = False
    what = f'{o["k"]} circuit {" ".join(text)}'
    opened = [(q, 'f') for q in used]
    e.check(sorted(map(str, out)) == sorted(map(str, opened)), 'C27 open qubits are not the outputs', what)
    got = A.value(ts, arrays, opened, Two())
    want = amplitude(gates, used, {k: vec[q] for k, q in enumerate(used)}, {})
    for (bf, _), w in want.items():
        e.same_num(scalar(got[bf]), w, 'C27 amplitude of ' + what if len(gates) == 1 else 'C27 amplitude of a circuit of another library', what, coef=1e-9)
    e.cover('library circuit')


def norms(e, o):
    """States that are not normalised, tokens and forms that are not known, are refused; states of other qubits are ignored."""
    from tnco.utils import circuit as C
    A.install()
    q, r = pool(e, 2)
    k = e.choose(4, 'kind')
    g = [(np.array([[0, 1], [1, 0]], dtype=complex if e.concrete else object), (q,))]
    v = A.array(e, 'v', (2,))
    arg = [{q: v}, {q: '2'}, '2', {r: v, q: '1'}][k]
    tag = ('initial_state', 'final_state')[e.choose(2, 'state')]
    n2 = v[0] * v[0] + v[1] * v[1]
    lo, hi = (1 - 1e-8) ** 2, (1 + 1e-8) ** 2
    kw = {} if e.concrete else dict(dtype=object)
    what = f'{tag} of kind {k}'
    try:
        C.load(g, **{tag: arg}, simplify=False, decompose_hyper_inds=False, fuse=None, **kw)
    except (ValueError, NotImplementedError):
        e.check(k in (1, 2) or (k == 0 and True), 'C27 proper state refused', what)
        if k == 0:
            e.check((n2 <= lo * (1 + 1e-12)) | (n2 >= hi * (1 - 1e-12)), 'C27 normalised state refused', what)
        e.cover('state refused')
        return
    e.check(k in (0, 3), 'C27 unknown state accepted', what)
    if k == 0:
        e.check((n2 >= lo * (1 - 1e-12)) & (n2 <= hi * (1 + 1e-12)), 'C27 state that is not normalised accepted', what)


# ---- C28
class Opt:
    """Stands for the optimizer: any valid path for each network, among several results."""

    def __init__(self, e, o):
        self.e, self.any = e, 'path' in o

    def optimize(self, tn, **k):
        from types import SimpleNamespace as R
        from pysym.h_paths import any_path
        n = len(list(tn.ts_inds))
        if n > 3 or not self.any:
            path = [(0, 1)] * (n - 1)
        else:
            path = [(int(x), int(y)) for x, y in any_path(self.e, n, n - 1)]
        return tn, [R(path=None, cost=2.), R(path=path, cost=1.)][::-1 if not self.any or self.e.choose(2, 'order of results') else 1]


def classical(e, m):
    """Does the matrix only permute the basis states, up to phases (as documented)?"""
    n = len(m)
    one = []
    for i in range(n):
        row = [j for j in range(n) if bool(m[i, j] != 0)]
        if len(row) != 1:
            return None
        x = m[i, row[0]]
        if not (abs(x) == 1 if isinstance(x, (int, float, complex)) else bool(square(e, x) == 1)):
            return None
        one.append(row[0])
    return one if sorted(one) == list(range(n)) else None


def sampling(e, o):
    from tnco.app.circuit import sampling as S
    from pysym import rng
    A.install()
    rng.install()
    if 'lib' in o:
        circuit, gates, _, text = library(e, o['lib'], o['g'].split('+'), int(o['q']))
        kinds = f'{o["lib"]} circuit {" ".join(text)}'
        for nm in o['g'].split('+'):
            e.assume(nm not in ('cx', 'ccx') or o['lib'] != 'qiskit')     # the order of qubits there is a matter of C27
    else:
        gates, kinds = circuit_of(e, o)
        circuit = [(m, tuple(q)) for m, q in gates]
    shots = int(o.get('n', 1))
    qubits = uniq([q for _, q in gates])
    kw = dict(simplify='simp' in o, decompose_hyper_inds='dec' in o, fuse=None)
    if not e.concrete:
        kw['dtype'] = object
    if 'order' in o:
        kw['qubit_order'] = iter(qubits[::-1]) if e.choose(2, 'order of qubits') else qubits
    if 'hits' in o:
        kw['normalize'] = False
    e.draws = []
    plans = [classical(e, m) for m, _ in gates]
    bad = any(p is None and len(q) != 1 for p, (_, q) in zip(plans, gates))
    what = f'{kinds} on {[q for _, q in gates]}'
    A.EXACT = not e.concrete
    zero = None
    try:
        if 'twice' in o:
            mid = S.sample(circuit, Opt(e, o), return_intermediate_state_only=True, **{k: v for k, v in kw.items() if k not in ('qubit_order', 'normalize')})
            hits, order = S.sample(mid, Opt(e, o), shots, **kw)
        else:
            hits, order = S.sample(circuit, Opt(e, o), shots, **kw)
    except ValueError as x:
        e.check(bad, 'C28 proper circuit refused', f'{what}: {x!r}')
        e.cover('circuit refused')
        return
    except ZeroDivisionError:
        zero = True
    except NotImplementedError as x:
        raise
    finally:
        A.EXACT = False
    e.check(not bad, 'C28 gate neither classical nor on one qubit accepted', what)
    if zero:
        hits, order = None, qubits
    else:
        order = list(order)
        e.check(len(order) == len(qubits) and all(has(order, q) for q in qubits), 'C28 wrong qubits reported', f'{what}: {order}')
        if 'qubit_order' in kw:
            e.check(order in (qubits, qubits[::-1]), 'C28 order of qubits is not the one asked for', f'{what}: {order}')
    # the draws and what they mean, from the amplitudes of the circuit so far
    draws = iter(e.draws)
    want = {}
    for _ in range(shots):
        b = [0] * len(order)
        for k, ((m, q), p) in enumerate(zip(gates, plans)):
            at = [next(i for i, y in enumerate(order) if y == x) for x in q]
            if p is not None:
                v = bits([b[i] for i in at])
                r = next(i for i, j in enumerate(p) if j == v)
                for i, c in zip(at, format(r, f'0{len(at)}b')):
                    b[i] = int(c)
                continue
            amp = state_after(gates[:k + 1], list(order))
            f = list(b)
            f[at[0]] ^= 1
            p0, p1 = (square(e, amp.get(tuple(x), 0)) for x in (b, f))
            if (abs(p0 + p1) < 1e-12) if e.concrete else e.decide(z3_zero(p0 + p1)):
                return e.cover('no amplitude left')      # no distribution to follow
            u = next(draws, None)
            e.check(u is not None, 'C28 no draw for a gate', what)
            if (u * (p0 + p1) < p1) if e.concrete else truth(e, u * (p0 + p1), p1):
                b = f
        s = ''.join(map(str, b))
        want[s] = want.get(s, 0) + 1
    e.check(not zero, 'C28 division by zero', what)
    e.check(next(draws, None) is None, 'C28 more draws than gates that need one', what)
    what = f'{what} order {order} hits {hits}'
    e.check(set(hits) == set(want), 'C28 wrong bits sampled', f'{what} want {want}')
    for s, n in want.items():
        e.check(hits[s] == (n if 'hits' in o else n / shots), 'C28 wrong frequency', f'{what} want {want}')
    e.check(list(hits.values()) == sorted(hits.values(), reverse=True), 'C28 results are not sorted', what)
    e.cover('bits sampled')
    if any(p is None for p in plans):
        e.cover('quantum gate')


def z3_zero(x):
    import z3
    return z3.simplify(num(x).re, som=True) == 0


def truth(e, a, b):
    """Does a < b hold on this path?  (Both sides are told to the solver if it does not know.)"""
    import z3
    d = z3.simplify((num(a) - num(b)).re, som=True)
    if len(draws_in(d)) == 1:       # probabilities that are plain numbers come rounded: stay clear of the very threshold
        e.assume(SymBool(z3.Or(d > z3.RealVal('1/1000000000'), d < z3.RealVal('-1/1000000000'))))
    return e.decide(d < 0)


def draws_in(d):
    """The variables of a linear expression (None stands for others)."""
    import z3
    out, todo = set(), [d]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and not z3.is_rational_value(t):
            out.add(str(t))
        todo += t.children()
    return out


def square(e, x):
    if e.concrete:
        return abs(x) ** 2
    x = num(x)
    return x.real * x.real + x.imag * x.imag


def state_after(gates, order):
    n = len(order)
    psi = {(0,) * n: 1}
    for m, q in gates:
        at = [next(i for i, y in enumerate(order) if y == x) for x in q]
        new = {}
        for b, p in psi.items():
            c = bits([b[k] for k in at])
            for r in range(len(m)):
                t = list(b)
                for k, v in zip(at, format(r, f'0{len(at)}b')):
                    t[k] = int(v)
                t = tuple(t)
                if isinstance(m[r, c], (int, float)) and m[r, c] == 0:
                    continue
                new[t] = new.get(t, 0) + m[r, c] * p
        psi = new
    return psi


def classify(e, o):
    """Which matrices count as classical."""
    from tnco.app.circuit import sampling as S
    A.install()
    n, k = int(o['n']), int(o.get('m', o['n']))
    m = zeros(e, (n, k))
    for i in np.ndindex(n, k):
        m[i] = e.cplx('m') if 'cplx' in o else e.real('m')
    r = S.is_classical_operation(m)
    if n != k or n & (n - 1):
        e.check(not r, 'C28 matrix of a wrong shape counts as classical', f'{n}x{k}')
        e.cover('wrong shape')
        return
    w = classical(e, m)
    e.check(bool(r) == (w is not None), 'C28 classical gates', f'{n}x{k} {w}')
    e.cover('classical' if w else 'not classical')


KINDS = {'commute': commute, 'same': same, 'refuse': refuse, 'load': load, 'norms': norms, 'conv': conv, 'sample': sampling, 'classify': classify}


def run(e, prop, tier, config):
    kind, o = opts(config)
    KINDS[kind](e, o)
