"""C25: symbols, subscripts and lists of indices."""
import z3

from pysym.engine import E, SymBool, SymInt, SymPos, _Int
from pysym.h_paths import has, inds_of, opts, uniq

TOP = 0x10FFFF


class SymChr:
    """A character known by its code point."""

    def __init__(self, code):
        self.code = code


def code(c):
    return c.code if isinstance(c, SymChr) else z3.IntVal(ord(c))


def sym_chr(i):
    if not isinstance(i, _Int):
        return chr(i)
    if E().decide(z3.Or(i.e < 0, i.e > TOP)):
        raise ValueError('chr() arg not in range(0x110000)')
    return SymChr(i.e)


def symbol(e, o):
    from tnco.utils import tn
    tn.chr = sym_chr
    last = TOP - 140 - 2048
    i, j = e.position('i', 0, last), e.position('j', 0, last)
    e.assume(i < j)
    a, b = tn.get_symbol(i), tn.get_symbol(j)
    if e.concrete:
        a, b = ord(a), ord(b)
        w = lambda x: x
    else:
        a, b = code(a), code(b)
        w = SymBool
    e.check(w(a != b), 'C25 two indices have one symbol', f'{i!r} {j!r}')
    for x in (a, b):
        e.check(w(x < 0xD800) | w(x > 0xDFFF), 'C25 symbol is a surrogate')
        e.check(w(x <= TOP), 'C25 symbol is not a character')
        e.check(w(x >= 192) | (w(x >= 65) & w(x <= 90)) | (w(x >= 97) & w(x <= 122)), 'C25 symbol has a meaning of its own')
    e.cover('symbols')


def pattern(e, text, lists, label, what):
    left, sep, right = text.partition('->')
    terms = left.split(',') + [right]
    e.check(sep == '->' and len(terms) == len(lists) and all(len(a) == len(b) for a, b in zip(terms, lists)), label, what)
    flat = [(c, x) for a, b in zip(terms, lists) for c, x in zip(a, b)]
    e.check(all((c == d) == (x == y) for c, x in flat for d, y in flat), label, what)


def einsum(e, o):
    from tnco.utils import tensor, tn
    ts = inds_of(e, [int(c) for c in o['s']], 0)
    every = uniq(ts)
    out = [x for x in every if e.choose(2, 'output')]
    s = tn.get_einsum_subscripts(iter(ts), iter(out))
    pattern(e, s, ts + [out], 'C25 subscripts do not name the indices', f'{ts} {out}: {s!r}')
    if len(ts) == 2:
        s = tensor.get_einsum_subscripts(*ts, out)
        pattern(e, s, ts + [out], 'C25 subscripts do not name the indices', f'{ts} {out}: {s!r}')
    e.cover('subscripts')


def read(e, o):
    from tnco.utils import tn
    sizes = [int(c) for c in o['s']]      # tensors per index
    ot, st = e.name('output token', 0, []), e.name('sparse token', 0)
    rows, dims = {}, {}
    for k, s in enumerate(sizes):
        names = []
        for _ in range(s):
            names.append(e.name('t', 0, names))
        d = e.choose(2, 'dimension') + 2
        rows[f'i{k}'] = (str(d) if e.choose(2, 'as text') else d, *names)
        dims[f'i{k}'] = d
    same = bool(ot == st)
    try:
        tm, td, out, sp = tn.read_inds(rows, output_index_token=ot, sparse_index_token=st)
    except ValueError:
        e.check(same, 'C25 list of indices refused', f'{rows}')
        e.cover('equal tokens refused')
        return
    what = f'{rows} {ot} {st}: {tm} {out} {sp}'
    e.check(not same, 'C25 equal tokens accepted', what)
    names = [x for x in uniq([r[1:] for r in rows.values()]) if x != ot and x != st]
    e.check(len(tm) == len(names) and all(has(list(tm), x) for x in names), 'C25 wrong tensors read', what)
    for x in names:
        e.check(list(tm[x]) == [i for i, r in rows.items() if has(r[1:], x)], 'C25 wrong indices of a tensor read', what)
    e.check(out == {i for i, r in rows.items() if has(r[1:], ot)}, 'C25 wrong output indices read', what)
    e.check(sp == {i for i, r in rows.items() if has(r[1:], st)}, 'C25 wrong sparse indices read', what)
    e.check(dict(td) == dims, 'C25 wrong dimensions read', what)
    e.cover('indices read')


KINDS = {'symbol': symbol, 'einsum': einsum, 'read': read}


def run(e, prop, tier, config):
    kind, o = opts(config)
    KINDS[kind](e, o)
