"""Path-forking symbolic execution of ordinary Python code on z3 proxies.

The code under test runs unmodified.  Branching on a symbolic value asks the
solver which sides are feasible; the exploration re-executes the body for every
feasible combination of sides.  In replay mode the same body runs on plain
Python values read from a counterexample.
"""
import json
import signal
import sys
import time
import traceback
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402


class Abort(BaseException):
    """Leaves the current path."""


class Hang(BaseException):
    pass


NAME = z3.DeclareSort('Name')
RANK = z3.Function('rank', NAME, z3.IntSort())


def _name_const(n):
    return z3.Const(n, NAME)


class Engine:
    cur = None

    def __init__(self, prop, budget=1e9, replay=None, max_viol=3, path_timeout=60):
        self.prop, self.budget, self.path_timeout = prop, budget, path_timeout
        self.s = z3.SimpleSolver()
        self.s.set('timeout', 20000)
        self.trail, self.pos, self.model, self.vals, self.names = [], 0, None, [], {}
        self.stat = dict(paths=0, queries=0, checks=0, trivial=0, decisions=0, unknown=0, assumed_out=0)
        self.solver_s = 0.0
        self.labels, self.covers = {}, {}
        self.viol, self.seen, self.max_viol, self.bad_paths = [], set(), max_viol, 0
        self.truncated = self.stopped = False
        self.concrete = replay is not None
        self.replay = list(replay or [])
        self.rpos = 0
        self.t0 = time.time()
        self.functions = set()
        self.consts = {}
        self.unsupported = {}
        Engine.cur = self

    # ---- solver
    def _check(self):
        t = time.time()
        self.stat['queries'] += 1
        try:
            return self.s.check()
        finally:
            self.solver_s += time.time() - t

    def _begin(self):
        self.s.reset()
        self.pos, self.vals, self.names, self.model = 0, [], {}, None
        self.classes, self.memo = [], {}

    def _next(self):
        while self.trail:
            d = self.trail[-1]
            if d[0] + 1 < d[1]:
                d[0] += 1
                return True
            self.trail.pop()
        return False

    def _fresh_name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return f'{n}#{k}'

    def _take(self, name):
        if self.rpos >= len(self.replay):
            raise Abort('replay exhausted')
        k, v = self.replay[self.rpos]
        self.rpos += 1
        if k.split('#')[0] != name:
            raise Abort(f'replay expected {name}, got {k}')
        return v

    def choose(self, n, name='choice'):
        if self.concrete:
            return int(self._take(name))
        if n <= 0:
            raise AssertionError('choose(0)')
        if n == 1:
            v = 0
        elif self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
        else:
            self.trail.append([0, n, False])
            self.pos += 1
            v = 0
        self.vals.append((name, None, v))
        return v

    def _const(self, name, sort):
        nm = self._fresh_name(name)
        key = (nm, sort)
        if key not in self.consts:
            self.consts[key] = {'b': z3.Bool, 'i': z3.Int, 'r': z3.Real, 'n': _name_const}[sort](nm + '!' + sort)
        e = self.consts[key]
        self.vals.append((nm, e, None))
        return e

    def bool(self, name):
        if self.concrete:
            return self._take(name) in ('True', 'true', '1')
        return SymBool(self._const(name, 'b'))

    def int(self, name, lo=None, hi=None):
        if self.concrete:
            return int(self._take(name))
        e = self._const(name, 'i')
        if lo is not None:
            self._add(e >= lo)
        if hi is not None:
            self._add(e <= hi)
        return SymInt(e)

    def position(self, name, lo, hi):
        x = self.int(name, lo, hi)
        return x if self.concrete else SymPos(x.e)

    def real(self, name, lo=None, hi=None):
        if self.concrete:
            return float(Fraction(self._take(name).rstrip('?')))
        e = self._const(name, 'r')
        if lo is not None:
            self._add(e >= lo)
        if hi is not None:
            self._add(e <= hi)
        return SymNum(e)

    def cplx(self, name):
        if self.concrete:
            return complex(self.real(name + '.re'), self.real(name + '.im'))
        return SymNum(self._const(name + '.re', 'r'), self._const(name + '.im', 'r'))

    def name(self, label, n=0, distinct=None):
        """A symbolic name (any of infinitely many), other than the settled names in distinct (a list).
        With a list, settles at once which of the names so far it equals."""
        if self.concrete:
            x = 'i' + self._take(label)
            if distinct is not None and x in distinct:
                raise Abort('assumption false')
            return x
        x = SymName(self._const(label, 'n'))
        if distinct is not None:
            for y in distinct:
                self._add(x.e != y.e)
            x.cls({y._k for y in distinct})
        return x

    def _add(self, c):
        self.s.add(c)
        self.model = None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._decide(c)

    def _decide(self, c):
        self.stat['decisions'] += 1
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            side = (d[0] == 0) if d[2] else (d[0] != 0)
            if d[1] > 1 or self.pos > len(self.trail) - 1:
                self._add(c if side else z3.Not(c))
            self.memo[c.get_id()] = (side, c)
            return side
        # every decision takes a place in the trail, known or not: terms are not always written the same way in every run
        known = self.memo.get(c.get_id())
        if known is not None:
            self.trail.append([0, 1, known[0]])
            self.pos += 1
            return known[0]
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stat['assumed_out'] += 1
                raise Abort
            if r == z3.sat:
                self.model = self.s.model()
        t_ok = f_ok = False
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            t_ok, f_ok = z3.is_true(v), z3.is_false(v)
        m = self.model
        if not t_ok:
            self.s.push(); self.s.add(c)
            r = self._check()
            self.s.pop()
            if r != z3.unsat:
                t_ok = True
                self.stat['unknown'] += r == z3.unknown
        if not f_ok:
            self.s.push(); self.s.add(z3.Not(c))
            r = self._check()
            self.s.pop()
            if r != z3.unsat:
                f_ok = True
                self.stat['unknown'] += r == z3.unknown
        if not t_ok and not f_ok:
            self.stat['assumed_out'] += 1
            raise Abort
        side = t_ok
        self.trail.append([0, 2 if t_ok and f_ok else 1, t_ok])
        self.pos += 1
        self.s.add(c if side else z3.Not(c))
        if m is not None and z3.is_true(m.eval(c, model_completion=True)) != side:
            self.model = None
        self.memo[c.get_id()] = (side, c)
        return side

    # ---- specification side
    def assume(self, b):
        if isinstance(b, SymBool):
            self._add(b.e)
            if self._check() == z3.unsat:
                self.stat['assumed_out'] += 1
                raise Abort
        elif not b:
            self.stat['assumed_out'] += 1
            raise Abort('assumption false')

    def check(self, b, label, detail=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stat['checks'] += 1
        if isinstance(b, SymBool):
            c = z3.simplify(b.e)
            if z3.is_true(c):
                self.stat['trivial'] += 1
                return
            self.s.push(); self.s.add(z3.Not(c))
            r = self._check()
            if r == z3.sat:
                m = self.s.model()
                self.s.pop()
                self._violation(label, detail, m)
            self.s.pop()
            self.stat['unknown'] += r == z3.unknown
        elif not b:
            self.fail(label, detail)

    def fail(self, label, detail=''):
        if self.concrete:
            self.viol.append(dict(label=label, detail=str(detail)[:600], vals=[]))
            raise Abort
        if self._check() != z3.sat:
            self.stat['unknown'] += 1
            raise Abort
        self._violation(label, detail, self.s.model())

    def _violation(self, label, detail, m):
        self.bad_paths += 1
        if label not in self.seen:
            self.seen.add(label)
            vals = []
            for n, e, c in self.vals:
                vals.append([n, str(c) if e is None else self._show(m.eval(e, model_completion=True))])
            self.viol.append(dict(label=label, detail=str(detail)[:600], vals=vals))
        raise Abort

    @staticmethod
    def _show(v):
        if z3.is_rational_value(v):
            return f'{v.numerator_as_long()}/{v.denominator_as_long()}'
        if z3.is_algebraic_value(v):
            return str(v.approx(30).as_fraction())
        if v.sort() == NAME:
            return str(v).rsplit('!', 1)[-1]
        return str(v)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def same_num(self, a, b, label, detail='', tol=1e-6, coef=0):
        """Numeric identity, decided over the reals (coefficients within coef of a simple constant count as that constant)."""
        if self.concrete:
            a, b = complex(a), complex(b)
            self.check(abs(a - b) <= tol * max(1.0, abs(a), abs(b)), label, f'{detail} {a} != {b}')
            return
        a, b = num(a), num(b)
        for x, y in ((a.re, b.re), (a.im, b.im)):
            if coef:
                x, y = (_snap(z3.simplify(v, som=True), coef) for v in (x, y))
            d = z3.simplify(x - y, som=True)
            self.check(SymBool(d == 0), label, detail)

    # ---- driver
    def explore(self, body):
        def on_alarm(*_):
            raise Hang
        signal.signal(signal.SIGALRM, on_alarm)
        while True:
            if time.time() - self.t0 > self.budget:
                self.truncated = True
                return
            self._begin()
            self.stat['paths'] += 1
            before = self.solver_s
            signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
            try:
                if self.stat['paths'] <= 3:
                    self._trace(body)
                else:
                    body(self)
            except Abort:
                pass
            except Hang:
                if self.solver_s - before > self.path_timeout / 3:      # the solver's time, not the code's
                    self.stat['unknown'] += 1
                    self.unsupported['solver time'] = self.unsupported.get('solver time', 0) + 1
                else:
                    self._late('hang', 'no answer within the time limit')
            except (MemoryError, RecursionError) as x:
                self._late('crash', repr(x))
            except Unsupported as x:
                self.unsupported[str(x)] = self.unsupported.get(str(x), 0) + 1
                self.stat['unknown'] += 1
            except z3.Z3Exception as x:
                self.unsupported[repr(x)[:200]] = 1
                self.stat['unknown'] += 1
            except Exception as x:  # the code under test refused a legal input
                tb = traceback.extract_tb(x.__traceback__)
                if _is_harness(tb):
                    traceback.print_exc()
                    self.unsupported[f'harness: {x!r}'[:300]] = 1
                    self.stat['unknown'] += 1
                else:
                    self._late('throws', ''.join(traceback.format_exception_only(x)).strip() + ' at ' + _where(tb))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if self.concrete:
                return
            if len(self.viol) >= self.max_viol or self.bad_paths >= 25:
                self.stopped = True
                return
            if not self._next():
                return

    def _late(self, label, detail):
        try:
            self.fail(label, detail)
        except Abort:
            pass

    def _trace(self, body):
        fs = self.functions

        def prof(frame, event, arg):
            if event == 'call':
                f = frame.f_code.co_filename
                if '/tnco/' in f and not f.startswith('/verif'):
                    fs.add(f[f.rindex('/tnco/') + 1:] + ':' + frame.f_code.co_qualname)
        sys.setprofile(prof)
        try:
            body(self)
        finally:
            sys.setprofile(None)

    def report(self, config):
        return dict(config=config, **self.stat, truncated=self.truncated, stopped=self.stopped, solver_s=round(self.solver_s, 3),
                    wall_s=round(time.time() - self.t0, 3), labels=self.labels, covers=self.covers, violations=self.viol,
                    functions=sorted(self.functions), unsupported=self.unsupported)


def _snap(d, coef):
    """A sum of monomials whose coefficients, where within coef of a multiple of 2**-10 or of sqrt(1/2) * 2**-10, become that multiple:
    products of rounded constants are told apart from the constants only beyond rounding."""
    from fractions import Fraction
    r2 = Fraction(0.5 ** 0.5)
    keep = []
    for t in d.children() if z3.is_add(d) else [d]:
        c, rest = (t.arg(0), t.children()[1:]) if z3.is_mul(t) else (t, [])
        if z3.is_rational_value(c):
            v = Fraction(c.numerator_as_long(), c.denominator_as_long())
            for u in (1, r2):
                w = round(v / u * 1024) * u / 1024
                if abs(v - w) < coef:
                    if w:
                        keep.append(z3.Product([z3.RealVal(w)] + rest) if rest else z3.RealVal(w))
                    break
            else:
                keep.append(t)
        else:
            keep.append(t)
    return z3.Sum(keep) if keep else z3.RealVal(0)


class Unsupported(Exception):
    """The proxies cannot follow an operation."""


def _where(tb):
    fr = [f for f in tb if '/tnco/' in f.filename] or tb
    return f'{fr[-1].filename.split("/repo/")[-1]}:{fr[-1].name}' if fr else '?'


def _is_harness(tb):
    # raised by harness code itself (not inside the code under test)
    return not any('/tnco/' in f.filename and '/verif/' not in f.filename for f in tb)


def E():
    return Engine.cur


# ------------------------------------------------------------------ proxies
class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, _b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _b(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        return SymBool(self.e == _b(o))

    def __ne__(self, o):
        return SymBool(self.e != _b(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return f'SymBool({self.e})'


def _b(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def all_of(it):
    it = list(it)
    if any(isinstance(x, SymBool) for x in it):
        return SymBool(z3.And([_b(x) for x in it]))
    return all(it)


def any_of(it):
    it = list(it)
    if any(isinstance(x, SymBool) for x in it):
        return SymBool(z3.Or([_b(x) for x in it]))
    return any(it)


def neg(b):
    return ~b if isinstance(b, SymBool) else not b


def implies(a, b):
    return any_of([neg(a), b])


def _cmp(op):
    def f(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        return SymBool(op(self.e, o))
    return f


class _Int:
    _v = None

    @staticmethod
    def _coerce(o):
        if isinstance(o, _Int):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(int(o))
        if isinstance(o, float):
            return z3.RealVal(Fraction(o))
        return NotImplemented

    def _bin(op, rev=False):
        def f(self, o):
            if isinstance(o, SymNum):
                return NotImplemented
            o = self._coerce(o)
            if o is NotImplemented:
                return o
            a, b = (o, self.e) if rev else (self.e, o)
            r = z3.simplify(op(a, b))
            return type(self)(r) if r.sort() == z3.IntSort() else SymNum(r)
        return f
    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: a + b, True)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: a - b, True)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _bin(lambda a, b: a * b, True)

    def __floordiv__(self, o):
        o = self._coerce(o)
        if E().decide(o == 0):
            raise ZeroDivisionError
        if not z3.is_int_value(o) or o.as_long() < 0:
            raise Unsupported('floordiv')
        return type(self)(self.e / o)

    def __mod__(self, o):
        o = self._coerce(o)
        if E().decide(o == 0):
            raise ZeroDivisionError
        if not z3.is_int_value(o) or o.as_long() < 0:
            raise Unsupported('mod')
        return type(self)(self.e % o)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        o = self._coerce(o)
        return False if o is NotImplemented else SymBool(self.e == o)

    def __ne__(self, o):
        o = self._coerce(o)
        return True if o is NotImplemented else SymBool(self.e != o)

    def __bool__(self):
        return E().decide(self.e != 0)

    def concretize(self):
        """Forks over the values."""
        if self._v is not None:
            return self._v
        g = E()
        c = z3.simplify(self.e)
        if z3.is_int_value(c):
            return c.as_long()
        for _ in range(400):
            if g.pos < len(g.trail):
                # the value tried at this point on the first visit is recorded with the decision
                v = g.trail[g.pos][3]
            else:
                if g.model is None:
                    r = g._check()
                    if r == z3.unsat:
                        raise Abort
                    if r == z3.unknown:
                        raise Unsupported('concretize')
                    g.model = g.s.model()
                v = g.model.eval(self.e, model_completion=True).as_long()
            p = g.pos
            t = g.decide_at(self.e == v, v)
            if t:
                self._v = v
                return v
        raise Unsupported('too many values')

    def __index__(self):
        return self.concretize()
    __int__ = __index__

    def __hash__(self):
        return hash(self.concretize())

    def __float__(self):
        return float(self.concretize())

    def __repr__(self):
        return f'{self._v}' if self._v is not None else f'SymInt({self.e})'
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __reduce__(self):
        return (int, (self.concretize(),))

    def _refuse(name):
        def f(self, *a):
            raise Unsupported(f'int.{name}')
        return f
    for _n in ('__truediv__', '__rtruediv__', '__rfloordiv__', '__rmod__', '__lshift__', '__rshift__', '__and__', '__or__', '__xor__',
               '__rlshift__', '__rrshift__', '__rand__', '__ror__', '__rxor__', '__invert__', '__divmod__', '__rdivmod__', 'bit_length'):
        locals()[_n] = _refuse(_n)

    def __truediv__(self, o):
        return SymNum(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymNum(z3.ToReal(self.e))

    def __pow__(self, n, mod=None):
        if isinstance(n, int) and not isinstance(n, _Int) and 0 <= n < 64:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported('pow')

    def __rpow__(self, b, mod=None):
        raise Unsupported('rpow')


class SymInt(_Int, int):
    """A symbolic integer that passes for an int.  Built-in code that takes an int subclass at its stored
    value must not see it: use SymPos for positions in lists."""

    def __new__(cls, e):
        x = int.__new__(cls, 0)
        x.e = e
        return x


class SymPos(_Int):
    """A symbolic integer used as a position: built-in code asks for __index__, which forks over the values."""

    def __init__(self, e):
        self.e = e


def _decide_at(self, c, v):
    """decide() that remembers the value v with the decision."""
    n = len(self.trail)
    r = self._decide(z3.simplify(c))
    if len(self.trail) > n:
        self.trail[n].append(v)
    return r


Engine.decide_at = _decide_at


def _ranked(a, b, f):
    if not isinstance(b, SymName):
        return NotImplemented
    if a is b:
        return f(0, 0)
    g = E()
    x, y = RANK(a.e), RANK(b.e)
    g._add((x == y) == (a.e == b.e))
    return g.decide(f(x, y))


class SymName:
    """A symbolic index name.  Equality is symbolic.  Hashing a name first settles (by
    forking) which of the names hashed so far it equals; names of one class share a hash."""
    __slots__ = ('e', '_k')

    def __init__(self, e):
        self.e = e
        self._k = None

    def cls(self, other=()):
        if self._k is None:
            g = E()
            for k, r in enumerate(g.classes):
                if k not in other and g.decide(self.e == r):
                    self._k = k
                    return k
            self._k = len(g.classes)
            g.classes.append(self.e)
        return self._k

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SymName):
            if self._k is not None and o._k is not None:
                return self._k == o._k
            return E().decide(self.e == o.e)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return _ranked(self, o, lambda a, b: a < b)

    def __gt__(self, o):
        return _ranked(self, o, lambda a, b: a > b)

    def __le__(self, o):
        return _ranked(self, o, lambda a, b: a <= b)

    def __ge__(self, o):
        return _ranked(self, o, lambda a, b: a >= b)

    def __hash__(self):
        return (self.cls() + 3) * 0x9E3779B97F4A7C15 % 0x1FFFFFFFFFFFFFF

    def __repr__(self):
        return f'<{self.e}>'
    __str__ = __repr__


def same_name(a, b):
    """Equality of names as a formula."""
    if isinstance(a, SymName) and isinstance(b, SymName):
        if a._k is not None and b._k is not None:
            return a._k == b._k
        return SymBool(a.e == b.e)
    return a == b


def num(x):
    if isinstance(x, SymNum):
        return x
    if isinstance(x, _Int):
        return SymNum(z3.ToReal(x.e))
    if isinstance(x, (bool, int)):
        return SymNum(z3.RealVal(int(x)))
    if isinstance(x, Fraction):
        return SymNum(z3.RealVal(x))
    import numpy as np
    if isinstance(x, np.ndarray) and x.shape == ():
        return num(x[()])
    if isinstance(x, (int, np.integer)):
        return SymNum(z3.RealVal(int(x)))
    if isinstance(x, (float, np.floating)):
        if not np.isfinite(x):
            raise Unsupported('inf')
        return SymNum(z3.RealVal(Fraction(float(x))))
    if isinstance(x, (complex, np.complexfloating)):
        return SymNum(z3.RealVal(Fraction(x.real)), z3.RealVal(Fraction(x.imag)))
    if isinstance(x, np.bool_):
        return SymNum(z3.RealVal(int(x)))
    raise Unsupported(f'number {type(x)}')


ZERO = z3.RealVal(0)


def _is0(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def _mul(a, b):
    if _is0(a) or _is0(b):
        return ZERO
    return a * b


def _add(a, b):
    if _is0(a):
        return b
    if _is0(b):
        return a
    return a + b


class SymNum:
    """A symbolic complex number (exact)."""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    __array_ufunc__ = None

    # a number out of an array has these as well
    shape, ndim, size = (), 0, 1

    def __init__(self, re, im=ZERO):
        self.re, self.im = re, im

    def reshape(self, *shape):
        import numpy as np
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def __getitem__(self, k):
        if k != ():
            raise IndexError(k)
        return self

    def item(self):
        return self

    @property
    def real(self):
        return SymNum(self.re)

    @property
    def imag(self):
        return SymNum(self.im)

    def conjugate(self):
        return SymNum(self.re, self.im if _is0(self.im) else -self.im)
    conj = conjugate

    @staticmethod
    def _o(o):
        try:
            return num(o)
        except Unsupported:
            return None

    def _arr(self, o, f):
        import numpy as np
        if isinstance(o, np.ndarray):
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                r[i] = f(o[i])
            return r if o.shape else r[()]
        return NotImplemented

    def __add__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self + x)
        return SymNum(z3.simplify(_add(self.re, p.re)), z3.simplify(_add(self.im, p.im)))
    __radd__ = __add__

    def __neg__(self):
        return SymNum(z3.simplify(-self.re), z3.simplify(-self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self - x)
        return self + (-p)

    def __rsub__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: x - self)
        return p + (-self)

    def __mul__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self * x)
        return SymNum(z3.simplify(_add(_mul(self.re, p.re), -_mul(self.im, p.im)) if not (_is0(self.im) or _is0(p.im)) else _mul(self.re, p.re)),
                      z3.simplify(_add(_mul(self.re, p.im), _mul(self.im, p.re))))
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self / x)
        d = _add(_mul(p.re, p.re), _mul(p.im, p.im))
        if E().decide(d == 0):
            raise ZeroDivisionError
        if _is0(p.im):
            r = SymRatio(self.re / p.re, ZERO if _is0(self.im) else self.im / p.re)
        else:
            n = self * p.conjugate()
            r = SymRatio(n.re / d, n.im / d)
        r.n, r.d = self, p
        return r

    def __rtruediv__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: x / self)
        return p / self

    def __pow__(self, n):
        if isinstance(n, (int, float)) and n == int(n) and 0 <= n < 16:
            r = SymNum(z3.RealVal(1))
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('pow')

    def __abs__(self):
        if _is0(self.im):
            return SymNum(z3.If(self.re >= 0, self.re, -self.re))
        return root(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self == x)
        return SymBool(z3.And(self.re == p.re, self.im == p.im))

    def __ne__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self != x)
        return SymBool(z3.Or(self.re != p.re, self.im != p.im))

    def _c(op):
        def f(self, o):
            p = self._o(o)
            if p is None:
                return self._arr(o, lambda x: f(self, num(x)))
            if isinstance(p, SymRatio) and _is0(p.im) and _is0(p.d.im):
                if E().decide(p.d.re > 0):
                    return SymBool(op(self.re * p.d.re, p.n.re))
                return SymBool(op(p.n.re, self.re * p.d.re))
            return SymBool(op(self.re, p.re))
        return f
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def __bool__(self):
        return E().decide(z3.Or(self.re != 0, self.im != 0))

    def __hash__(self):
        return 78

    def __float__(self):
        c = z3.simplify(self.re)
        if z3.is_rational_value(c) and _is0(z3.simplify(self.im)):
            return float(c.as_fraction())
        raise Unsupported('float()')

    def __complex__(self):
        raise Unsupported('complex()')

    def __int__(self):
        raise Unsupported('int()')

    def sqrt(self):
        return root(self.re)

    def __repr__(self):
        return f'SymNum({self.re},{self.im})' if not _is0(self.im) else f'SymNum({self.re})'


class SymRatio(SymNum):
    """A quotient that is compared without dividing."""
    __slots__ = ('n', 'd')

    def __eq__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self == x)
        if isinstance(p, SymRatio):
            return self.n * p.d == p.n * self.d
        return self.n == p * self.d

    def __ne__(self, o):
        p = self._o(o)
        if p is None:
            return self._arr(o, lambda x: self != x)
        return ~(self == p)
    __hash__ = SymNum.__hash__


class SymRoot(SymNum):
    """A square root that remembers its square."""
    __slots__ = ('sq',)

    def __pow__(self, n):
        return SymNum(self.sq) if n == 2 else SymNum.__pow__(self, n)

    def __abs__(self):
        return self

    def _c(op, sq):
        def f(self, o):
            p = self._o(o)
            if p is None:
                return self._arr(o, lambda x: f(self, num(x)))
            p = p.re
            # against a number of known sign, compare the squares
            if z3.is_rational_value(z3.simplify(p)):
                return SymBool(z3.simplify(sq(self.sq, z3.simplify(p))))
            return SymBool(op(self.re, p))
        return f
    __lt__ = _c(lambda a, b: a < b, lambda s, p: z3.And(p > 0, s < p * p))
    __le__ = _c(lambda a, b: a <= b, lambda s, p: z3.And(p >= 0, s <= p * p))
    __gt__ = _c(lambda a, b: a > b, lambda s, p: z3.Or(p < 0, s > p * p))
    __ge__ = _c(lambda a, b: a >= b, lambda s, p: z3.Or(p <= 0, s >= p * p))


def root(e):
    g = E()
    e = z3.simplify(e)
    r = z3.Real(f'root_{e.get_id()}')
    g._keep = getattr(g, '_keep', {})
    if g._keep.get(e.get_id()) is None:
        g._keep[e.get_id()] = e
    g.s.add(r >= 0, r * r == e)
    g.model = None
    x = SymRoot(r)
    x.sq = e
    return x


class SymDim:
    """A dimension known by its base-2 logarithm (a symbolic integer): products add logarithms."""
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w

    def __mul__(self, o):
        if isinstance(o, SymDim):
            return SymDim(self.w + o.w)
        if isinstance(o, (int, float)) and o == 1:
            return self
        raise Unsupported('product of a dimension')
    __rmul__ = __mul__

    def log2(self):
        return self.w

    def _o(self, o):
        if isinstance(o, SymDim):
            return o.w
        import math
        if isinstance(o, (int, float)) and o > 0 and math.log2(o) == int(math.log2(o)):
            return int(math.log2(o))
        raise Unsupported('comparison of a dimension')

    def __le__(self, o):
        return self.w <= self._o(o)

    def __lt__(self, o):
        return self.w < self._o(o)

    def __ge__(self, o):
        return self.w >= self._o(o)

    def __gt__(self, o):
        return self.w > self._o(o)

    def __eq__(self, o):
        return self.w == o.w if isinstance(o, SymDim) else (self.w == self._o(o))

    def __ne__(self, o):
        return self.w != o.w if isinstance(o, SymDim) else (self.w != self._o(o))

    def __hash__(self):
        return 5

    def __int__(self):
        raise Unsupported('int(dimension)')
    __index__ = __int__

    def __float__(self):
        raise Unsupported('float(dimension)')


def patch_math(*modules):
    """math.log2 (and log, prod) on symbolic dimensions, in the given modules."""
    import math
    import types

    def log2(x):
        return x.w if isinstance(x, SymDim) else x.log2() if hasattr(x, 'log2') else math.log2(x)

    def log(x, base=None):
        if isinstance(x, SymDim):
            if base == 2:
                return x.w
            raise Unsupported('log')
        return math.log(x) if base is None else math.log(x, base)
    fake = types.ModuleType('math')
    fake.__dict__.update(math.__dict__)
    fake.log2, fake.log = log2, log
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is math:
                setattr(m, k, fake)
            elif v is math.log2:
                setattr(m, k, log2)
            elif v is math.log:
                setattr(m, k, log)


def run_main(module):
    """python -m entry: PROP TIER CONFIG BUDGET | replay PROP TIER CONFIG FILE"""
    import importlib
    m = importlib.import_module(module)
    a = sys.argv[2:]
    if a[0] == 'run':
        g = Engine(a[1], float(a[4]))
        g.explore(lambda e: m.run(e, a[1], a[2], a[3]))
        print('@@REPORT ' + json.dumps(g.report(a[3])))
    else:
        with open(a[4]) as f:
            vals = [ln.rstrip('\n').rsplit(' ', 1) for ln in f if ln.strip() and not ln.startswith('#')]
        g = Engine(a[1], replay=vals)
        g.explore(lambda e: m.run(e, a[1], a[2], a[3]))
        v = g.viol
        print('REPRODUCED ' + v[0]['label'] + ': ' + v[0]['detail'] if v else f'NOT-REPRODUCED {g.unsupported}')
