"""Proxies that stand for solver terms inside the running code."""
import math
from fractions import Fraction

from . import engine
from . import terms as T


def ctx():
    c = engine.CURRENT
    if c is None:
        raise engine.Unsupported("symbolic value used outside a run")
    return c


class Proxy(object):
    __slots__ = ()


def _isnum(x):
    return isinstance(x, (int, float)) or isinstance(x, Fraction)


def num_term(x):
    "Term of a numeric operand, or None."
    t = type(x)
    if t is SymInt or t is SymFloat:
        return x.t
    if t is SymBool:
        return T.b2i(x.t)
    if t is bool or t is int:
        return T.intc(x)
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return None
        return T.realc(x)
    if t is Fraction:
        return T.realc(x)
    if isinstance(x, int):
        return T.intc(int(x))
    if isinstance(x, float):
        return T.realc(float(x))
    return None


def wrap(t):
    if t.sort == "Bool":
        return t.val if t.op == "const" else SymBool(t)
    if t.sort == "Int":
        return t.val if t.op == "const" else SymInt(t)
    if t.op == "const":
        f = float(t.val)
        return f
    return SymFloat(t)


def boolw(t):
    return t.val if t.op == "const" else SymBool(t)


def _special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


class _Num(Proxy):
    __slots__ = ()

    def key(self):
        return self.t.id

    def _truth(self):
        z = T.intc(0) if self.t.sort == "Int" else T.realc(0)
        return boolw(T.not_(T.eq(self.t, z)))

    def __bool__(self):
        return bool(self._truth())

    # comparison -----------------------------------------------------------
    def _cmp(self, other, f, special):
        o = num_term(other)
        if o is None:
            if _special(other):
                return special(0.0, other)
            return NotImplemented
        return boolw(f(self.t, o))

    def __lt__(self, o):
        return self._cmp(o, T.lt, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, T.le, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a), lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a), lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, T.eq, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: T.not_(T.eq(a, b)), lambda a, b: a != b)
        return r

    def __hash__(self):
        return hash(concretize(self, "hash"))

    # arithmetic -----------------------------------------------------------
    def _bin(self, other, f, swap=False):
        o = num_term(other)
        if o is None:
            if _special(other):
                raise engine.Unsupported("arithmetic with inf/nan")
            return NotImplemented
        return wrap(f(o, self.t) if swap else f(self.t, o))

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, T.add, True)

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, T.sub, True)

    def __mul__(self, o):
        return self._bin(o, T.mul)

    def __rmul__(self, o):
        return self._bin(o, T.mul, True)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __neg__(self):
        return wrap(T.neg(self.t))

    def __pos__(self):
        return wrap(self.t)

    def __abs__(self):
        z = T.intc(0) if self.t.sort == "Int" else T.realc(0)
        return wrap(T.ite(T.le(z, self.t), self.t, T.neg(self.t)))

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and not isinstance(o, Proxy) and 0 <= o <= 8:
            r = T.intc(1) if self.t.sort == "Int" else T.realc(1)
            for _ in range(o):
                r = T.mul(r, self.t)
            return wrap(r)
        raise engine.Unsupported("power")

    def __rpow__(self, o):
        raise engine.Unsupported("power")

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return wrap(T.floor(self.t))

    def __ceil__(self):
        return wrap(T.neg(T.floor(T.neg(self.t))))

    def __round__(self, nd=None):
        return do_round(self, nd)

    # conversions ------------------------------------------------------------
    def __index__(self):
        if type(self) is SymFloat:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return enumerate_values(self)

    def __int__(self):
        return enumerate_values(to_int(self))

    def __float__(self):
        return float(concretize(self, "float()"))

    def __str__(self):
        return repr(ctx().sentinel(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format_number(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise engine.Unsupported("pickling a symbolic value")


class SymInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def bit_length(self):
        raise engine.Unsupported("bit_length")

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def _bits(self, o):
        raise engine.Unsupported("bit operation")

    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = _bits
    __rand__ = __ror__ = __rxor__ = _bits

    def __invert__(self):
        return wrap(T.sub(T.intc(-1), self.t))


class SymFloat(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def is_integer(self):
        return boolw(T.eq(self.t, T.to_real(T.floor(self.t))))


class SymBool(Proxy):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def key(self):
        return self.t.id

    def _truth(self):
        return self

    def __bool__(self):
        return ctx().branch(self.t)

    def _i(self):
        return wrap(T.b2i(self.t))

    def __eq__(self, o):
        if type(o) is SymBool:
            return boolw(T.eq(self.t, o.t))
        if o is True:
            return boolw(self.t)
        if o is False:
            return boolw(T.not_(self.t))
        n = num_term(o)
        if n is None:
            return NotImplemented
        return boolw(T.eq(T.b2i(self.t), n))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return boolw(T.not_(r.t)) if type(r) is SymBool else not r

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return boolw(T.and_(self.t, o.t if type(o) is SymBool else T.boolc(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return boolw(T.or_(self.t, o.t if type(o) is SymBool else T.boolc(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return wrap(T.sub(T.intc(-1), T.b2i(self.t)))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return truediv(self._i(), o)

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()


# ------------------------------------------------------------------- numbers


def nonzero(t):
    z = T.intc(0) if t.sort == "Int" else T.realc(0)
    return ctx().branch(T.not_(T.eq(t, z)))


def truediv(a, b):
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        return NotImplemented
    if not nonzero(y):
        raise ZeroDivisionError("division by zero")
    return wrap(T.div(x, y))


def floordiv(a, b):
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        return NotImplemented
    if not nonzero(y):
        raise ZeroDivisionError("integer division or modulo by zero")
    if x.sort == "Int" and y.sort == "Int":
        return wrap(T.idiv(x, y))
    return wrap(T.to_real(T.floor(T.div(x, y))))


def mod(a, b):
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        return NotImplemented
    if not nonzero(y):
        raise ZeroDivisionError("modulo by zero")
    if x.sort == "Int" and y.sort == "Int":
        return wrap(T.imod(x, y))
    q = T.to_real(T.floor(T.div(x, y)))
    return wrap(T.sub(T.to_real(x), T.mul(T.to_real(y), q)))


def to_int(x):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._i()
    if t is SymFloat:
        a = x.t
        return wrap(
            T.ite(T.le(T.realc(0), a), T.floor(a), T.neg(T.floor(T.neg(a))))
        )
    raise engine.Unsupported("int() of %s" % t)


P53 = 2 ** 53


def to_float(x):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymBool:
        return wrap(T.to_real(T.b2i(x.t)))
    a = x.t
    exact = T.and_(T.le(T.intc(-P53), a), T.le(a, T.intc(P53)))
    if ctx().branch(exact):
        return wrap(T.to_real(a))
    # round to nearest, ties to even, binade by binade up to 2**64
    for k in range(1, 12):
        hi = T.intc(2 ** (53 + k))
        if ctx().branch(T.and_(T.le(T.neg(hi), a), T.le(a, hi))):
            g = 2 ** k
            q = T.idiv(a, T.intc(g))
            r = T.sub(a, T.mul(q, T.intc(g)))
            half = T.intc(g // 2)
            up = T.or_(
                T.lt(half, r),
                T.and_(T.eq(r, half), T.eq(T.imod(q, T.intc(2)), T.intc(1))),
            )
            q2 = T.ite(up, T.add(q, T.intc(1)), q)
            return wrap(T.to_real(T.mul(q2, T.intc(g))))
    raise engine.Unsupported("float() of an integer beyond 2**64")


def do_round(x, nd=None):
    if type(x) is not SymFloat:
        return to_int(x)
    if nd is not None:
        if isinstance(nd, Proxy):
            raise engine.Unsupported("round")
        s = T.realc(Fraction(10) ** nd)
        a = T.mul(x.t, s)
    else:
        a = x.t
    f = T.floor(a)
    frac = T.sub(a, T.to_real(f))
    half = T.realc(Fraction(1, 2))
    up = T.or_(
        T.lt(half, frac),
        T.and_(T.eq(frac, half), T.eq(T.imod(f, T.intc(2)), T.intc(1))),
    )
    r = T.ite(up, T.add(f, T.intc(1)), f)
    if nd is None:
        return wrap(r)
    return wrap(T.div(T.to_real(r), s))


def concretize(x, why):
    """One value of x; recorded, because the other values are not explored."""
    c = ctx()
    t = x.t
    i = len(c.taken)
    if i < len(c.prefix) and isinstance(c.prefix[i], tuple):
        unique, v = c.prefix[i]
    else:
        r, env = c.solver.model(T.variables([t]) or c.inputs[:1])
        if r != "sat":
            raise engine.Infeasible() if r == "unsat" else engine.Unsupported("model")
        v = T.evaluate(t, env)
        if v is None:
            raise engine.Unsupported("concretize")
        unique = c.solver.check([T.not_(T.eq(t, T.const(v, t.sort)))]) == "unsat"
    c.taken.append((unique, v))
    if not unique:
        c.lossy.append("%s of a symbolic value" % why)
    c._assert(T.eq(t, T.const(v, t.sort)))
    if isinstance(v, Fraction):
        return float(v)
    return v


def enumerate_values(x):
    """All values of x in turn (complete case split)."""
    if not isinstance(x, Proxy):
        return x
    c = ctx()
    t = x.t
    n = 0
    while True:
        i = len(c.taken)
        # the candidate value must be reproducible when a prefix is replayed
        v = None
        if i < len(c.prefix):
            d = c.prefix[i]
            if isinstance(d, tuple):
                c.taken.append(d)
                kind, v = d
                if kind:
                    c._assert(T.eq(t, T.intc(v)))
                    c.model_env = None
                    return v
                c._assert(T.not_(T.eq(t, T.intc(v))))
                c.model_env = None
                continue
        r, env = c.solver.model(T.variables([t]))
        if r == "unsat":
            raise engine.Infeasible()
        if r != "sat":
            raise engine.Unsupported("enumerate")
        v = T.evaluate(t, env)
        n += 1
        if n > 64:
            raise engine.Unsupported("too many values to enumerate")
        c.ex.tick()
        other = c.solver.check([T.not_(T.eq(t, T.intc(v)))])
        if other != "unsat":
            c.ex.forks += 1
            c.ex.push_work(c.taken + [(False, v)])
        c.taken.append((True, v))
        c._assert(T.eq(t, T.intc(v)))
        c.model_env = None
        return v


# Representatives: a symbolic integer that becomes part of a file name is
# replaced by a native integer with the same number of digits and the same
# order relative to every other integer formatted so far.


def representative(x, digits=None):
    c = ctx()
    t = x.t
    for u, r in c.keyreps:
        if u is t:
            return r
    for u, r in c.keyreps:
        if c.branch(T.eq(u, t)):
            return r
    if c.branch(T.lt(t, T.intc(0))):
        raise engine.Unsupported("negative integer in a name")
    d = 1
    while not c.branch(T.lt(t, T.intc(10 ** d))):
        d += 1
        if d > 20:
            raise engine.Unsupported("integer too long")
    lo, hi = (0 if d == 1 else 10 ** (d - 1)), 10 ** d - 1
    for u, r in sorted(c.keyreps, key=lambda p: p[1]):
        if len(str(r)) != d:
            continue
        if c.branch(T.lt(t, u)):
            hi = min(hi, r - 1)
        else:
            lo = max(lo, r + 1)
    r = (lo + hi) // 2
    if r < lo or r > hi:
        # no room between two neighbours: only possible when the symbolic
        # values leave no room either (single digits)
        raise engine.Infeasible()
    c.keyreps.append((t, r))
    return r


def format_number(x, spec):
    if spec == "":
        return str(x)
    if type(x) is SymInt:
        return format(representative(x), spec)
    c = ctx()
    return format(concretize(x, "formatting"), spec)


# -------------------------------------------------------------------- strings


def chars_of(s):
    if type(s) is SymStr:
        return s.c
    return [T.intc(ord(ch)) for ch in s]


def mkstr(chars):
    if all(c.op == "const" for c in chars):
        return "".join(chr(c.val) for c in chars)
    return SymStr(chars)


def seq_eq(a, b):
    if len(a) != len(b):
        return T.ff()
    return T.and_(*[T.eq(x, y) for x, y in zip(a, b)])


def char_lower(c):
    up = T.and_(T.le(T.intc(65), c), T.le(c, T.intc(90)))
    return T.ite(up, T.add(c, T.intc(32)), c)


def char_upper(c):
    lo = T.and_(T.le(T.intc(97), c), T.le(c, T.intc(122)))
    return T.ite(lo, T.sub(c, T.intc(32)), c)


def isstr(x):
    return isinstance(x, str)


class SymStr(Proxy):
    """Symbolic characters, concrete length (printable ASCII)."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    @property
    def __class__(self):
        return str

    def key(self):
        return ("s",) + tuple(c.id for c in self.c)

    def _truth(self):
        return len(self.c) > 0

    def __bool__(self):
        return len(self.c) > 0

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.c])

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented if not isinstance(o, Proxy) else False
        return boolw(seq_eq(self.c, chars_of(o)))

    def __ne__(self, o):
        if not isstr(o):
            return NotImplemented if not isinstance(o, Proxy) else True
        return boolw(T.not_(seq_eq(self.c, chars_of(o))))

    def __hash__(self):
        # Native containers compare hashes first; a constant hash makes them
        # fall through to __eq__ among symbolic strings only.
        return hash(self.concrete("hash"))

    def concrete(self, why):
        """A native string; complete if the path leaves only one."""
        c = ctx()
        i = len(c.taken)
        if i < len(c.prefix) and isinstance(c.prefix[i], tuple):
            unique, out = c.prefix[i]
        else:
            r, env = c.solver.model(T.variables(self.c))
            if r != "sat":
                raise engine.Infeasible()
            out = "".join(chr(T.evaluate(ch, env)) for ch in self.c)
            unique = c.solver.check([T.not_(seq_eq(self.c, chars_of(out)))]) == "unsat"
        c.taken.append((unique, out))
        if not unique:
            c.lossy.append("%s of a symbolic string" % why)
        for ch, v in zip(self.c, out):
            c._assert(T.eq(ch, T.intc(ord(v))))
        c.model_env = None
        return out

    def _order(self, o, strict):
        a, b = self.c, chars_of(o)
        n = min(len(a), len(b))
        if strict:
            r = T.boolc(len(a) < len(b))
        else:
            r = T.boolc(len(a) <= len(b))
        for i in range(n - 1, -1, -1):
            r = T.or_(T.lt(a[i], b[i]), T.and_(T.eq(a[i], b[i]), r))
        return boolw(r)

    def __lt__(self, o):
        return self._order(o, True) if isstr(o) else NotImplemented

    def __le__(self, o):
        return self._order(o, False) if isstr(o) else NotImplemented

    def __gt__(self, o):
        if not isstr(o):
            return NotImplemented
        return SymStr(chars_of(o))._order(self, True)

    def __ge__(self, o):
        if not isstr(o):
            return NotImplemented
        return SymStr(chars_of(o))._order(self, False)

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.c + chars_of(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(chars_of(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * int(n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[i])
        if isinstance(i, Proxy):
            i = i.__index__()
        return mkstr([self.c[i]])

    def __contains__(self, o):
        r = contains(self, o)
        return bool(r)

    def __str__(self):
        return ctx().sentinel(self)

    def __repr__(self):
        return "'%s'" % ctx().sentinel(self)

    def __format__(self, spec):
        if spec:
            return format(self.concrete("formatting"), spec)
        return ctx().sentinel(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __mod__(self, args):
        raise engine.Unsupported("% on a symbolic string")

    # methods ----------------------------------------------------------------
    def lower(self):
        return mkstr([char_lower(c) for c in self.c])

    casefold = lower

    def upper(self):
        return mkstr([char_upper(c) for c in self.c])

    def _at(self, i, sub):
        return seq_eq(self.c[i : i + len(sub)], sub)

    def find(self, sub, start=0, end=None):
        s = chars_of(sub)
        n = len(self.c) if end is None else min(end, len(self.c))
        b = ctx().branch
        for i in range(start, n - len(s) + 1):
            if b(self._at(i, s)):
                return i
        return -1

    def rfind(self, sub):
        s = chars_of(sub)
        b = ctx().branch
        for i in range(len(self.c) - len(s), -1, -1):
            if b(self._at(i, s)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        s = chars_of(sub)
        if not s:
            return len(self.c) + 1
        n = i = 0
        b = ctx().branch
        while i + len(s) <= len(self.c):
            if b(self._at(i, s)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return boolw(T.or_(*[self._st(q, start) for q in p]))
        return boolw(self._st(p, start))

    def _st(self, p, start):
        s = chars_of(p)
        if start + len(s) > len(self.c):
            return T.ff()
        return self._at(start, s)

    def endswith(self, p):
        if isinstance(p, tuple):
            return boolw(T.or_(*[self._en(q) for q in p]))
        return boolw(self._en(p))

    def _en(self, p):
        s = chars_of(p)
        if len(s) > len(self.c):
            return T.ff()
        return self._at(len(self.c) - len(s), s)

    def replace(self, old, new, count=-1):
        o, nw = chars_of(old), chars_of(new)
        if not o:
            raise engine.Unsupported("replace of an empty string")
        out = []
        i = 0
        b = ctx().branch
        while i < len(self.c):
            if (
                count != 0
                and i + len(o) <= len(self.c)
                and b(self._at(i, o))
            ):
                out += nw
                i += len(o)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        b = ctx().branch
        if sep is None:
            out, cur = [], []
            for c in self.c:
                if b(_space(c)):
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(mkstr(cur))
            if maxsplit >= 0 and len(out) > maxsplit + 1:
                raise engine.Unsupported("split(None, n)")
            return out
        s = chars_of(sep)
        out, cur, i = [], [], 0
        while i < len(self.c):
            if (
                maxsplit != 0
                and i + len(s) <= len(self.c)
                and b(self._at(i, s))
            ):
                out.append(mkstr(cur))
                cur = []
                i += len(s)
                maxsplit -= 1
            else:
                cur.append(self.c[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None:
            return self.split(sep, maxsplit)
        s = chars_of(sep)
        if len(s) != 1:
            raise engine.Unsupported("rsplit")
        b = ctx().branch
        out, cur = [], []
        for c in reversed(self.c):
            if maxsplit != 0 and b(T.eq(c, s[0])):
                out.append(mkstr(cur[::-1]))
                cur = []
                maxsplit -= 1
            else:
                cur.append(c)
        out.append(mkstr(cur[::-1]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(sep)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + n :]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        n = len(sep)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + n :]))

    def splitlines(self, keepends=False):
        return [self] if self.c else []

    def _stripset(self, chars):
        if chars is None:
            return _space
        cs = chars_of(chars)
        return lambda c: T.or_(*[T.eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        b = ctx().branch
        i = 0
        while i < len(self.c) and b(f(self.c[i])):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        b = ctx().branch
        n = len(self.c)
        while n > 0 and b(f(self.c[n - 1])):
            n -= 1
        return mkstr(self.c[:n])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.c
            out += chars_of(x)
            first = False
        return mkstr(out)

    def isdigit(self):
        if not self.c:
            return False
        return boolw(
            T.and_(*[T.and_(T.le(T.intc(48), c), T.le(c, T.intc(57))) for c in self.c])
        )

    isnumeric = isdecimal = isdigit

    def isupper(self):
        raise engine.Unsupported("isupper")

    islower = isupper

    def _all(self, f):
        return boolw(T.and_(*[f(c) for c in self.c])) if self.c else False

    def isspace(self):
        return self._all(_space)

    def isalpha(self):
        return self._all(_alpha)

    def isalnum(self):
        return self._all(lambda c: T.or_(_alpha(c), _within(c, "09")))

    def removeprefix(self, p):
        return mkstr(self.c[len(chars_of(p)) :]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(self.c) - len(chars_of(p))
        return mkstr(self.c[:n]) if self.endswith(p) else self

    def encode(self, *a):
        return self.concrete("encode").encode(*a)

    def title(self):
        raise engine.Unsupported("title")

    capitalize = title

    def format(self, *a, **k):
        return self.concrete("format").format(*a, **k)

    def isidentifier(self):
        return self.concrete("isidentifier").isidentifier()


def _within(c, ends):
    return T.and_(T.le(T.intc(ord(ends[0])), c), T.le(c, T.intc(ord(ends[1]))))


def _alpha(c):
    "Characters of symbolic strings are ASCII."
    return T.or_(_within(c, "az"), _within(c, "AZ"))


def _space(c):
    return T.or_(*[T.eq(c, T.intc(x)) for x in (32, 9, 10, 11, 12, 13)])


def contains(s, o):
    "o in s for strings where either is symbolic."
    a, b = chars_of(s), chars_of(o)
    if len(b) == 0:
        return True
    return boolw(
        T.or_(*[seq_eq(a[i : i + len(b)], b) for i in range(len(a) - len(b) + 1)])
    )


def has_proxy(x, depth=6):
    if isinstance(x, Proxy):
        return True
    t = type(x)
    if t in (str, int, float, bool, bytes) or x is None or depth == 0:
        return False
    if isinstance(x, dict):
        return any(has_proxy(k, depth - 1) or has_proxy(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_proxy(v, depth - 1) for v in x)
    d = getattr(x, "__dataclass_fields__", None)
    if d is not None and not isinstance(x, type):
        return any(has_proxy(getattr(x, f), depth - 1) for f in d)
    return False
