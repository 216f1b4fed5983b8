"""Pairs of an old and a new config class, and what old configs hold."""
import enum
from copy import deepcopy
from dataclasses import MISSING
import hyperstate
from hyperstate.schema import types as t
from hyperstate.schema.versioned import Versioned
from props.tool import dump_schema
from props.util import *


def fields_in_order(fields):
    return sorted(fields, key=lambda f: len(f) > 2)


def conf(fields, version=0, rules=None, name="Conf"):
    return make_dataclass(
        name,
        fields_in_order(fields),
        bases=(Versioned,),
        namespace={"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules or {})},
    )


def fld(name, typ, desc=None):
    "A field with the default of a description, or none."
    if desc is None:
        return (name, typ)
    v = build(desc)
    if isinstance(v, (list, dict)) or is_dataclass(v):
        return (name, typ, field(default_factory=lambda: build(desc)))
    return (name, typ, v)


PLACES = ["top", "plain", "optional", "deep", "list", "dict", "tuple", "defaulted", "optional list"]


def around(place, fields, extra=(), version=0, rules=None, pdefault=None):
    """A config class with some fields at a place; also a function that makes
    a config from the fields' values (None: nothing there)."""
    more = [("k", int, 7)] + list(extra)
    if place == "top":
        C = conf(fields + more, version, rules)
        return C, lambda vals, **kw: C(**dict(vals or {}, **kw))
    P = make_dataclass("P", fields_in_order(fields + [("s", int, 3)]))
    if place == "deep":
        Q = make_dataclass("Q", [("p", P)])
        C = conf([("q", Q)] + more, version, rules)
        return C, lambda vals, **kw: C(q=Q(P(**vals)), **kw)
    T = {
        "plain": P,
        "optional": Optional[P],
        "list": List[P],
        "dict": Dict[str, P],
        "tuple": Tuple[int, P],
        "defaulted": P,
        "optional list": Optional[List[P]],
    }[place]
    put = {"list": lambda p: [p], "dict": lambda p: {"key": p}, "tuple": lambda p: (4, p), "optional list": lambda p: [p]}.get(place, lambda p: p)
    empty = {"list": [], "dict": {}}.get(place)
    if place == "optional":
        f = ("p", T, None)
    elif place == "defaulted":
        f = ("p", T, field(default_factory=lambda: P(**pdefault)))
    else:
        f = ("p", T)
    C = conf([f] + more, version, rules)
    return C, lambda vals, **kw: C(p=(put(P(**vals)) if vals is not None else deepcopy(empty)), **kw)


def inside(obj, place):
    "The object at a place of a config, or None."
    if place == "top":
        return obj
    if place == "deep":
        return obj.q.p
    p = obj.p
    if place in ("list", "optional list"):
        return p[0] if p else None
    if place == "dict":
        return p.get("key")
    if place == "tuple":
        return p[1]
    return p


def can_be_missing(place):
    return place in ("optional", "list", "dict", "optional list")


def both(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return x & y


def kept(ctx, a, b):
    "Whether everything in a config is in another one as well, with its value."
    if isinstance(a, enum.Enum):
        return isinstance(b, enum.Enum) and a.value == b.value
    if is_dataclass(a):
        if not is_dataclass(b):
            return False
        r = True
        for n in a.__dataclass_fields__:
            if not hasattr(b, n):
                return False
            r = both(r, kept(ctx, getattr(a, n), getattr(b, n)))
        return r
    if isinstance(a, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = both(r, kept(ctx, x, y))
        return r
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        r = True
        for (k, x), (l, y) in zip(list(a.items()), list(b.items())):
            r = both(r, kept(ctx, k, l))
            r = both(r, kept(ctx, x, y))
        return r
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(b, (enum.Enum, list, tuple, dict)) or is_dataclass(b):
        return False
    return a == b


def schema_of(ctx, C, how):
    "The schema of a class, as it is or as it comes from its schema file."
    if how == "class":
        return t.materialize_type(C)
    d = ctx.tmp()
    dump_schema(d + "/schema.ron", C)
    return t.load_schema(d + "/schema.ron")
