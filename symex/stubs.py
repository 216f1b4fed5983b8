"""Native boundaries: pyron and msgpack see numerals and words that stand for
symbolic values, and the values are put back when the text is read."""
import sys
import types as pytypes

from . import engine
from .proxies import Proxy, SymBool, SymFloat, SymInt, SymStr


def lower(x):
    """Replaces proxies by sentinels (booleans by a complete case split)."""
    t = type(x)
    if isinstance(x, Proxy):
        if t is SymBool:
            return bool(x)
        return engine.CURRENT.sentinel(x)
    if t in (int, float, str, bool, bytes) or x is None:
        return x
    if isinstance(x, dict):
        return {lower(k): lower(v) for k, v in x.items()}
    if isinstance(x, list):
        return [lower(v) for v in x]
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            # rebuild under the same class name
            return type(x)(*[lower(v) for v in x])
        return tuple(lower(v) for v in x)
    d = getattr(x, "__dataclass_fields__", None)
    if d is not None and not isinstance(x, type):
        import copy

        if not has_sym(x):
            return x
        y = copy.copy(x)
        for f in d:
            object.__setattr__(y, f, lower(getattr(x, f)))
        return y
    return x


def has_sym(x):
    from .proxies import has_proxy

    return has_proxy(x, 12)


def lift(x):
    c = engine.CURRENT
    if c is None or not c.symbolic:
        return x
    return _lift(x, c.sentinels)


def _lift(x, table):
    t = type(x)
    if t is bool or x is None or t is bytes:
        return x
    if t is int:
        p = table.get(x)
        return x if p is None else p
    if t is float:
        p = table.get(x)
        return x if p is None else p
    if t is str:
        p = table.get(x)
        return x if p is None else p
    if isinstance(x, dict):
        return {_lift(k, table) if type(k) is not str or k in table else k: _lift(v, table) for k, v in x.items()}
    if isinstance(x, list):
        return [_lift(v, table) for v in x]
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            if len(x._fields) == 0:
                p = table.get(type(x).__name__)
                return x
            return type(x)(*[_lift(v, table) for v in x])
        return tuple(_lift(v, table) for v in x)
    return x


def text_arg(x):
    if type(x) is SymStr:
        return sym_text(x)
    return x


def sym_text(s):
    """A symbolic string handed to a native parser."""
    return s.concrete("native parser")


def make_pyron():
    import pyron as real

    m = pytypes.ModuleType("pyron")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def to_string(value, *a, **k):
        return real.to_string(lower(value), *a, **k)

    def loads(text, *a, **k):
        return lift(real.loads(text_arg(text), *a, **k))

    def load(path, *a, **k):
        return lift(real.load(path, *a, **k))

    m.to_string, m.loads, m.load = to_string, loads, load
    if hasattr(real, "dumps"):
        m.dumps = lambda v, *a, **k: real.dumps(lower(v), *a, **k)
    return m


def make_msgpack():
    import msgpack as real

    m = pytypes.ModuleType("msgpack")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def packb(o, **k):
        return real.packb(lower(o), **k)

    def pack(o, stream, **k):
        return real.pack(lower(o), stream, **k)

    def unpackb(b, **k):
        return lift(real.unpackb(b, **k))

    def unpack(f, **k):
        return lift(real.unpack(f, **k))

    m.packb = m.dumps = packb
    m.pack = m.dump = pack
    m.unpackb = m.loads = unpackb
    m.unpack = m.load = unpack
    return m


def install():
    import pyron
    import msgpack

    sys.modules["pyron"] = make_pyron()
    sys.modules["msgpack"] = make_msgpack()
