"""Functions the instrumented source calls instead of the plain operations."""
import builtins
import enum
import functools
import itertools
import math
import operator
import re
from fractions import Fraction

from . import engine
from . import terms as T
from .proxies import (
    Proxy,
    SymBool,
    SymFloat,
    SymInt,
    SymStr,
    boolw,
    chars_of,
    contains,
    ctx,
    do_round,
    enumerate_values,
    mkstr,
    num_term,
    to_float,
    to_int,
    wrap,
)


def isproxy(x):
    return issubclass(type(x), Proxy)


def lookup_number(text, v):
    c = engine.CURRENT
    if c is None or not c.symbolic:
        return None
    return c.sentinels.get(v)


def h_int(f, args, kw):
    if not args:
        return f(*args, **kw)
    x = args[0]
    if isproxy(x):
        if type(x) is SymStr:
            return int(x.concrete("int()"))
        return to_int(x)
    if type(x) is str:
        v = f(*args, **kw)
        p = lookup_number(x, v)
        if p is not None:
            return to_int(p) if type(p) is not SymInt else p
        return v
    return f(*args, **kw)


def h_float(f, args, kw):
    if not args:
        return f(*args, **kw)
    x = args[0]
    if isproxy(x):
        if type(x) is SymStr:
            return float(x.concrete("float()"))
        return to_float(x)
    if type(x) is str:
        v = f(*args, **kw)
        p = lookup_number(x, v)
        if p is not None:
            return to_float(p)
        return v
    return f(*args, **kw)


def h_str(f, args, kw):
    if len(args) == 1 and type(args[0]) is SymStr:
        return args[0]
    return f(*args, **kw)


def h_bool(f, args, kw):
    if args and isproxy(args[0]):
        x = args[0]
        return x._truth()
    return f(*args, **kw)


REAL_TYPES = {SymInt: int, SymFloat: float, SymBool: bool, SymStr: str}


def h_type(f, args, kw):
    if len(args) == 1 and isproxy(args[0]):
        return REAL_TYPES[type(args[0])]
    return f(*args, **kw)


def h_len(f, args, kw):
    return f(*args, **kw)


def _minmax(args, kw, pick):
    items = list(args[0]) if len(args) == 1 else list(args)
    if kw or not items or not any(isproxy(x) for x in items):
        return None
    ts = [num_term(x) for x in items]
    if any(t is None for t in ts):
        return None
    real = any(t.sort == "Real" for t in ts)
    if real and any(t.sort == "Int" for t in ts):
        # Python keeps the type of the winner; values are equal either way
        ts = [T.to_real(t) for t in ts]
    r = ts[0]
    for t in ts[1:]:
        r = T.ite(pick(t, r), t, r)
    return wrap(r)


def h_min(f, args, kw):
    if len(args) == 1 and not isinstance(args[0], (list, tuple)):
        args = (list(args[0]),)
    r = _minmax(args, kw, lambda t, r: T.lt(t, r))
    return f(*args, **kw) if r is None else r


def h_max(f, args, kw):
    if len(args) == 1 and not isinstance(args[0], (list, tuple)):
        args = (list(args[0]),)
    r = _minmax(args, kw, lambda t, r: T.lt(r, t))
    return f(*args, **kw) if r is None else r


def h_round(f, args, kw):
    if args and isproxy(args[0]):
        return do_round(*args, **kw)
    return f(*args, **kw)


def h_abs(f, args, kw):
    return f(*args, **kw)


def h_repr(f, args, kw):
    return f(*args, **kw)


def h_ord(f, args, kw):
    x = args[0]
    if type(x) is SymStr:
        return wrap(x.c[0])
    return f(*args, **kw)


def h_range(f, args, kw):
    if any(isproxy(a) for a in args):
        args = tuple(enumerate_values(a) if isproxy(a) else a for a in args)
    return f(*args, **kw)


PI = Fraction(math.pi)


def h_cos(f, args, kw):
    x = args[0]
    if not isproxy(x):
        return f(*args, **kw)
    t = T.to_real(num_term(x))
    if t.op == "const":
        return math.cos(float(t.val))
    c = ctx()
    app = T.uf("cosr", t)
    if app not in c.cos_apps:
        one = T.realc(1)
        c._assert(T.and_(T.le(T.realc(-1), app), T.le(app, one)))
        zero, pi = T.realc(0), T.realc(PI)
        inside = T.and_(T.le(zero, t), T.le(t, pi))
        c._assert(T.implies(T.eq(t, zero), T.eq(app, one)))
        c._assert(T.implies(T.eq(t, pi), T.eq(app, T.realc(-1))))
        c._assert(
            T.implies(
                T.and_(T.lt(zero, t), T.lt(t, pi)),
                T.and_(T.lt(T.realc(-1), app), T.lt(app, one)),
            )
        )
        # Bounds by the first Taylor terms: 1 - t^2/2 <= cos t, and the mirror
        # image at pi; enough to reject other curves with the same end points.
        half = T.realc(Fraction(PI) / 2)
        c._assert(T.implies(T.and_(inside, T.lt(t, half)), T.lt(zero, app)))
        c._assert(T.implies(T.and_(inside, T.lt(half, t)), T.lt(app, zero)))
        for other in c.cos_apps:
            o = other.args[0]
            oin = T.and_(T.le(zero, o), T.le(o, pi))
            c._assert(
                T.implies(
                    T.and_(inside, oin, T.lt(t, o)), T.lt(other, app)
                )
            )
            c._assert(
                T.implies(
                    T.and_(inside, oin, T.lt(o, t)), T.lt(app, other)
                )
            )
        c.cos_apps.append(app)
        c.model_env = None
    return SymFloat(app)


def h_floor(f, args, kw):
    x = args[0]
    return wrap(T.floor(x.t)) if isproxy(x) else f(*args, **kw)


def h_ceil(f, args, kw):
    x = args[0]
    return x.__ceil__() if isproxy(x) else f(*args, **kw)


def h_trunc(f, args, kw):
    x = args[0]
    return to_int(x) if isproxy(x) else f(*args, **kw)


def h_isfinite(f, args, kw):
    return True if isproxy(args[0]) else f(*args, **kw)


def h_isnan(f, args, kw):
    return False if isproxy(args[0]) else f(*args, **kw)


def h_fabs(f, args, kw):
    x = args[0]
    return abs(to_float(x)) if isproxy(x) else f(*args, **kw)


def h_unsupported(f, args, kw):
    if any(isproxy(a) for a in args):
        raise engine.Unsupported(getattr(f, "__name__", "native function"))
    return f(*args, **kw)


def h_sum(f, args, kw):
    return f(*args, **kw)


def h_isclose(f, args, kw):
    if not any(isproxy(a) for a in args):
        return f(*args, **kw)
    a, b = T.to_real(num_term(args[0])), T.to_real(num_term(args[1]))
    rel = T.realc(kw.get("rel_tol", 1e-9))
    ab = T.realc(kw.get("abs_tol", 0.0))

    def av(x):
        return T.ite(T.le(T.realc(0), x), x, T.neg(x))

    d = av(T.sub(a, b))
    return boolw(
        T.or_(T.le(d, T.mul(rel, av(a))), T.le(d, T.mul(rel, av(b))), T.le(d, ab))
    )


def h_format(f, args, kw):
    return f(*args, **kw)


HANDLERS = {
    int: h_int,
    float: h_float,
    str: h_str,
    bool: h_bool,
    type: h_type,
    min: h_min,
    max: h_max,
    round: h_round,
    ord: h_ord,
    range: h_range,
    math.cos: h_cos,
    math.floor: h_floor,
    math.ceil: h_ceil,
    math.trunc: h_trunc,
    math.isfinite: h_isfinite,
    math.isnan: h_isnan,
    math.isinf: h_isnan,
    math.fabs: h_fabs,
    math.isclose: h_isclose,
}
for _n in "sin tan acos asin atan atan2 exp log log10 log2 log1p expm1 sqrt pow fmod copysign ldexp modf frexp sinh cosh tanh hypot gcd".split():
    HANDLERS[getattr(math, _n)] = h_unsupported


def through(fn):
    "fn, as a native function should call it."
    if fn is None or type(fn) is _FUNCTION or not callable(fn):
        return fn
    return lambda *a, **k: call(fn, *a, **k)


_FUNCTION = type(through)


def h_first(f, args, kw):
    "A native function that calls its first argument."
    if args:
        args = (through(args[0]),) + args[1:]
    return f(*args, **kw)


def h_second(f, args, kw):
    if len(args) > 1:
        args = args[:1] + (through(args[1]),) + args[2:]
    for k in ("func", "key"):
        if k in kw:
            kw[k] = through(kw[k])
    return f(*args, **kw)


def h_iter(f, args, kw):
    return h_first(f, args, kw) if len(args) == 2 else f(*args, **kw)


for _f in (map, filter, functools.reduce, functools.partial):
    HANDLERS[_f] = h_first
for _n in "starmap takewhile dropwhile filterfalse".split():
    HANDLERS[getattr(itertools, _n)] = h_first
HANDLERS[itertools.accumulate] = HANDLERS[itertools.groupby] = h_second
HANDLERS[iter] = h_iter


def native_texts(f, args, kw):
    "Regular expressions see native text; complete if the path leaves only one."
    return f(
        *[a.concrete("matching") if type(a) is SymStr else a for a in args],
        **{k: a.concrete("matching") if type(a) is SymStr else a for k, a in kw.items()}
    )


for _n in "match search fullmatch split sub subn findall finditer escape".split():
    HANDLERS[getattr(re, _n)] = native_texts
PATTERN = type(re.compile(""))
KEYED = (min, max, sorted)
HANDLERS[operator.contains] = lambda f, args, kw: contains_hook(args[1], args[0])
HANDLERS[operator.is_] = lambda f, args, kw: is_hook(*args)
HANDLERS[operator.is_not] = lambda f, args, kw: is_not_hook(*args)
HANDLERS[operator.getitem] = lambda f, args, kw: getitem(*args)
HANDLERS[operator.mod] = lambda f, args, kw: binmod(*args)


def call(f, /, *args, **kw):
    if "key" in kw and (f in KEYED or getattr(f, "__name__", "") == "sort"):
        kw["key"] = through(kw["key"])
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(f, args, kw)
    if args:
        sym = False
        for a in args:
            if isproxy(a):
                sym = True
                break
        if sym:
            tf = type(f)
            if isinstance(f, enum.EnumMeta) and len(args) == 1:
                return enum_call(f, args[0])
            owner = getattr(f, "__self__", None)
            if owner is not None:
                to = type(owner)
                if to is str:
                    name = getattr(f, "__name__", None)
                    m = getattr(SymStr, name, None)
                    if m is not None and any(
                        type(a) is SymStr for a in args
                    ):
                        return m(SymStr(chars_of(owner)), *args, **kw)
                elif to is PATTERN:
                    return native_texts(f, args, kw)
                elif isinstance(owner, dict):
                    return dict_method(owner, f, args, kw)
                elif isinstance(owner, (list, tuple, set, frozenset)):
                    return seq_method(owner, f, args, kw)
            if f is getattr and type(args[1]) is SymStr:
                return sym_getattr(*args)
            if f is hasattr and type(args[1]) is SymStr:
                return sym_hasattr(*args)
        elif type(f).__name__ in ("method", "builtin_function_or_method"):
            owner = getattr(f, "__self__", None)
            if type(owner) is str and f.__name__ == "join":
                items = list(args[0])
                if any(type(x) is SymStr for x in items):
                    return SymStr(chars_of(owner)).join(items)
                return f(items)
            if type(owner) is str and f.__name__ == "format":
                return f(*args, **kw)
    return f(*args, **kw)


def enum_call(cls, x):
    for m in cls:
        v = m.value
        if isproxy(v) or isinstance(v, (int, float, str)):
            r = v == x if isproxy(v) else x == v
            if r is NotImplemented:
                continue
            if r:
                return m
    return cls._missing_(x) if False else _enum_missing(cls, x)


def _enum_missing(cls, x):
    r = cls._missing_(x)
    if r is None:
        raise ValueError("%r is not a valid %s" % (x, cls.__name__))
    return r


def find_key(d, k):
    for key in d:
        r = eq(key, k)
        if r:
            return True, key
    return False, None


def eq(a, b):
    if isproxy(b) and not isproxy(a):
        a, b = b, a
    r = a == b
    return False if r is NotImplemented else r


def dict_method(d, f, args, kw):
    name = f.__name__
    k = args[0]
    if isproxy(k):
        if name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            ok, key = find_key(d, k)
            if ok:
                return f(key, *args[1:], **kw)
            if name == "get":
                return args[1] if len(args) > 1 else kw.get("default")
            if name == "pop":
                if len(args) > 1:
                    return args[1]
                raise KeyError(str(k))
            if name == "__contains__":
                return False
            raise engine.Unsupported("symbolic dict key")
    return f(*args, **kw)


def seq_method(s, f, args, kw):
    name = f.__name__
    if name in ("index", "count", "remove", "append", "insert", "extend"):
        return f(*args, **kw)
    if isinstance(s, (set, frozenset)):
        if name == "__contains__":
            return contains_hook(args[0], s)
    return f(*args, **kw)


def sym_getattr(o, name, *default):
    for a in dir(o):
        if len(a) == len(name) and name == a:
            return getattr(o, a, *default)
    if default:
        return default[0]
    raise AttributeError(str(name))


def sym_hasattr(o, name):
    for a in dir(o):
        if len(a) == len(name) and name == a:
            return hasattr(o, a)
    return False


def contains_hook(x, s):
    "x in s"
    ts = type(s)
    if ts is SymStr or (ts is str and type(x) is SymStr):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return contains(s, x)
    if isproxy(x):
        if isinstance(s, dict) or isinstance(s, (set, frozenset)):
            items = list(s)
        elif isinstance(s, (list, tuple)):
            items = s
        elif ts.__name__ in ("dict_keys", "dict_values", "odict_keys", "mappingproxy"):
            items = list(s)
        else:
            return x in s
        terms = []
        for i in items:
            r = eq(i, x)
            if r is True:
                return True
            if r is False:
                continue
            if type(r) is SymBool:
                terms.append(r.t)
            elif r:
                return True
        return boolw(T.or_(*terms)) if terms else False
    if isinstance(s, (set, frozenset)) and any(isproxy(i) for i in s):
        return contains_hook(x, list(s))
    return x in s


def not_contains(x, s):
    r = contains_hook(x, s)
    if type(r) is SymBool:
        return boolw(T.not_(r.t))
    return not r


def is_hook(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return a == b
    if type(b) is SymBool and (a is True or a is False):
        return b == a
    if isproxy(a) and isproxy(b):
        return type(a) is type(b) and a.key() == b.key()
    return a is b


def is_not_hook(a, b):
    r = is_hook(a, b)
    if type(r) is SymBool:
        return boolw(T.not_(r.t))
    return not r


def getitem(o, k):
    if isproxy(k):
        if isinstance(o, dict):
            ok, key = find_key(o, k)
            if not ok:
                raise KeyError(str(k))
            return o[key]
        if isinstance(o, enum.EnumMeta) and type(k) is SymStr:
            for n in o.__members__:
                if k == n:
                    return o[n]
            raise KeyError(str(k))
        if isinstance(o, (list, tuple, str)) and type(k) is SymInt:
            return o[k.__index__()]
    elif isinstance(k, slice) and (
        isproxy(k.start) or isproxy(k.stop) or isproxy(k.step)
    ):
        k = slice(*[enumerate_values(v) if isproxy(v) else v for v in (k.start, k.stop, k.step)])
    return o[k]


def store_key(k):
    "Keys that are stored are native."
    if type(k) is SymStr:
        return k.concrete("key")
    return k


def fstring(*parts):
    if any(type(p) is tuple and type(p[0]) is SymStr and not p[2] and p[1] in (-1, 115) for p in parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if type(v) is SymStr and not spec and conv in (-1, 115):
                    out += v.c
                else:
                    out += chars_of(_fmt(v, conv, spec))
            else:
                out += chars_of(p)
        return mkstr(out)
    return "".join([_fmt(*p) if type(p) is tuple else p for p in parts])


def _fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def binmod(a, b):
    if type(a) is str and not isproxy(b):
        return a % b
    if type(a) is str:
        return a % (str(b) if type(b) is SymStr else b)
    return a % b
