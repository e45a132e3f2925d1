"""Arrays of symbolic entries and the array functions that must understand them."""
import itertools

import numpy as np

from pysym.engine import E, SymBool, SymNum, _is0, all_of, num

EXACT = False     # True: closeness means equality


def array(e, label, shape, cplx=False):
    """An array with arbitrary real (complex) entries."""
    get = e.cplx if cplx else e.real
    if e.concrete:
        a = np.empty(shape, dtype=complex if cplx else float)
    else:
        a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = get(label)
    return a


def symbolic(*xs):
    return any(isinstance(x, (SymNum,)) or getattr(x, 'dtype', None) == object for x in xs)


def within(a, b, tol):
    """|a - b| <= tol, without square roots."""
    d = num(a) - num(b)
    tol = num(tol)
    if _is0(d.im):
        return (d.real <= tol) & (-d.real <= tol)
    return (tol >= 0) & (d.real * d.real + d.imag * d.imag <= tol * tol)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    if E().concrete:
        return abs(a - b) <= atol + (0 if EXACT else rtol) * abs(b)
    if EXACT:
        return num(a) == num(b)
    return within(a, b, num(atol) + num(rtol) * abs(num(b)))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not symbolic(a, b, rtol, atol):
        if EXACT:
            return bool(np.all(np.asarray(a) == np.asarray(b)))
        return np.allclose(a, b, rtol=rtol, atol=atol)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return all_of([isclose(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel())])


def norm(a, *args, **k):
    if not symbolic(a):
        return np.linalg.norm(a, *args, **k)
    t = num(0)
    for x in np.asarray(a).ravel():
        x = num(x)
        t = t + x.real * x.real + x.imag * x.imag
    return t.sqrt()


def install():
    import autoray as ar
    ar.register_backend(SymNum, 'numpy')
    for name, f in (('allclose', allclose), ('linalg.norm', norm)):
        ar.register_function('numpy', name, f)


def value(ts, arrays, out, dims):
    """The network's value by definition: {assignment of out: sum over the rest of the product}."""
    names = []
    for t in ts:
        for x in t:
            if not any(x == y for y in names):
                names.append(x)
    inner = [x for x in names if not any(x == y for y in out)]
    ts = [[next(i for i, y in enumerate(out + inner) if y == x) for x in t] for t in ts]
    D = [dims[x] for x in out + inner]
    res = {}
    for o in itertools.product(*[range(d) for d in D[:len(out)]]):
        tot = 0
        for i in itertools.product(*[range(d) for d in D[len(out):]]):
            v = o + i
            p = 1
            for t, a in zip(ts, arrays):
                p = p * a[tuple(v[k] for k in t)]
            tot = tot + p
        res[o] = tot
    return res
