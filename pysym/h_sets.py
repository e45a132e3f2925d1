"""C24: ordered frozen sets, on symbolic elements."""
from pysym.engine import all_of, any_of, same_name as eq

from tnco.ordered_frozenset import OrderedFrozenSet as S


def dedup(xs):
    out = []
    for x in xs:
        if not any(x == y for y in out):
            out.append(x)
    return out


def has(xs, x):
    return any(x == y for y in xs)


def names(e, label, n, pool):
    return [e.name(label, pool) for _ in range(n)]


def run(e, prop, tier, config):
    kind, *o = config.split(':')
    o = dict(x.split('=') for x in o)
    if kind == 'bitset':
        return bitset(e, o)
    n, m = int(o.get('n', 3)), int(o.get('m', 3))
    xs, ys = names(e, 'x', n, n + m), names(e, 'y', m, n + m)

    def same(got, want, label):
        got = list(got)
        e.check(len(got) == len(want), label, f'{got} instead of {want}')
        e.check(all_of([eq(a, b) for a, b in zip(got, want)]), label, f'{got} instead of {want}')

    a = S(iter(xs))
    ux, uy = dedup(xs), dedup(ys)
    same(a, ux, 'C24 elements are not the distinct ones in order of first insertion')
    e.check(len(a) == len(ux), 'C24 wrong length')
    same(a.copy(), ux, 'C24 a copy has other elements')
    both = [x for x in ux if has(uy, x)]
    only = [x for x in ux if not has(uy, x)]
    other = [y for y in uy if not has(ux, y)]
    sub, sup = not only, not other
    for k in ((kind,) if kind != 'all' else ('self', 'set', 'list', 'iter')):
        mk = {'self': lambda: S(ys), 'set': lambda: set(ys), 'frozenset': lambda: frozenset(ys), 'list': lambda: list(ys), 'iter': lambda: iter(list(ys)),
              'dup': lambda: list(ys) + list(ys)}[k]
        same(a.intersection(mk()), both, 'C24 wrong intersection')
        same(a.difference(mk()), only, 'C24 wrong difference')
        if k not in ('set', 'frozenset'):
            same(a.union(mk()), ux + other, 'C24 wrong union')
            same(a.symmetric_difference(mk()), only + other, 'C24 wrong symmetric difference')
        else:  # the order of the other operand is not defined
            e.check(set(a.union(mk())) == set(ux + other) and list(a.union(mk()))[:len(ux)] == ux, 'C24 wrong union')
            e.check(set(a.symmetric_difference(mk())) == set(only + other), 'C24 wrong symmetric difference')
        e.check(bool(a.isdisjoint(mk())) == (not both), 'C24 wrong answer: isdisjoint')
        e.check(bool(a.issubset(mk())) == sub, 'C24 wrong answer: issubset')
        e.check(bool(a.issuperset(mk())) == sup, 'C24 wrong answer: issuperset')
        if k in ('self', 'set', 'frozenset'):
            b = mk()
            same(a & b, both, 'C24 wrong result: &')
            same(a - b, only, 'C24 wrong result: -')
            e.check(set(a | b) == set(ux + other) and len(a | b) == len(ux + other), 'C24 wrong result: |')
            e.check(set(a ^ b) == set(only + other) and len(a ^ b) == len(only + other), 'C24 wrong result: ^')
            if k == 'self':
                same(a | b, ux + other, 'C24 wrong result: |')
                same(a ^ b, only + other, 'C24 wrong result: ^')
            e.check(bool(a <= b) == sub, 'C24 wrong answer: <=')
            e.check(bool(a >= b) == sup, 'C24 wrong answer: >=')
            e.check(bool(a < b) == (sub and not sup), 'C24 wrong answer: <')
            e.check(bool(a > b) == (sup and not sub), 'C24 wrong answer: >')
            e.check(bool(a == b) == (sub and sup), 'C24 wrong answer: ==')
            e.check(bool(a != b) == (not (sub and sup)), 'C24 wrong answer: !=')
            if sub and sup:
                e.cover('equal sets')
                e.check(hash(a) == hash(S(ys)), 'C24 equal sets with different hashes', f'{xs} and {ys}')
                e.check(hash(a) == hash(frozenset(ys)), 'C24 equal sets with different hashes', f'{xs} and {ys}')
                e.check(a in {S(ys)}, 'C24 equal sets with different hashes', f'{xs} and {ys}')
    e.check(all((x in a) == has(ux, x) for x in ux + uy), 'C24 wrong answer: in')
    e.cover('sets compared')


# ---- C12: the checks made by tnco.bitset.Bitset in front of the core
_mod = None


def bitset_module():
    """tnco/bitset.py over a base class that accepts exactly what the core accepts (decided by the C++ side of C12)."""
    global _mod
    if _mod is None:
        import importlib.util
        import sys
        import types

        import tnco

        class Base:
            def __init__(self, *a):
                self.got = None
                if not a:
                    self.got = ([], 0)
                elif isinstance(a[0], str):
                    if any(c not in '01' for c in a[0]):
                        raise ValueError
                    self.got = ([i for i, c in enumerate(a[0]) if c == '1'], len(a[0]))
                else:
                    bits, n = list(a[0]), a[1]
                    for x in bits:
                        if not isinstance(x, int) or not isinstance(n, int):
                            raise TypeError
                        if x < 0 or x >= n:
                            raise ValueError
                    self.got = (bits, n)
        fake = types.ModuleType('tnco_core')
        fake.Bitset = Base
        real = sys.modules['tnco_core']
        sys.modules['tnco_core'] = fake
        try:
            spec = importlib.util.spec_from_file_location('tnco_bitset_under_test', tnco.__path__[0] + '/bitset.py')
            _mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(_mod)
        finally:
            sys.modules['tnco_core'] = real
    return _mod


def bitset(e, o):
    B = bitset_module().Bitset
    k = int(o['k'])
    bits = [e.int('bit', -1, k + 1) for _ in range(k)]
    n = e.int('n', -1, k + 1)
    ok = all_of([n >= 0] + [b >= 0 for b in bits] + [b < n for b in bits] + [bits[i] != bits[j] for i in range(k) for j in range(i)])
    try:
        b = B(iter(bits), n)
    except (ValueError, TypeError):
        e.check(~ok if not isinstance(ok, bool) else not ok, 'C12 a legal list of positions is refused')
        e.cover('positions refused')
        return
    e.check(ok, 'C12 an illegal list of positions is accepted')
    e.check(len(b.got[0]) == k, 'C12 positions lost')
    e.check(all_of([x == y for x, y in zip(b.got[0], bits)] + [b.got[1] == n]), 'C12 positions changed')
    e.cover('positions accepted')
