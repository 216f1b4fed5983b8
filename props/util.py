"""Shared pieces of the harnesses: types and values of every supported kind,
and a writer of config text."""
import enum
import os
import typing
from dataclasses import dataclass, field, make_dataclass, is_dataclass
from typing import Dict, List, Literal, Optional, Tuple, Union


def write(path, text):
    with open(str(path), "w") as f:
        f.write(text)
    return path


def read(path):
    with open(str(path)) as f:
        return f.read()


# ------------------------------------------------------------------ text


class Obj(object):
    "A struct to be written as config text."

    def __init__(self, name, *fields, **kw):
        self.name = name
        self.fields = list(fields) + list(kw.items())


class Raw(object):
    def __init__(self, text):
        self.text = text


def ron(ctx, v):
    """Config text of a value (written independently of the code under test)."""
    if isinstance(v, Raw):
        return v.text
    if isinstance(v, Obj):
        return "%s(%s)" % (v.name, ", ".join("%s: %s" % (k, ron(ctx, x)) for k, x in v.fields))
    if v is None:
        return "None"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, enum.Enum):
        return ron(ctx, v.value)
    if isinstance(v, (int, float)):
        return ctx.numeral(v)
    if isinstance(v, str):
        return quoted(ctx, v)
    if isinstance(v, list):
        return "[%s]" % ", ".join(ron(ctx, x) for x in v)
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(ron(ctx, x) for x in v)
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (ron(ctx, k), ron(ctx, x)) for k, x in v.items())
    if is_dataclass(v):
        return "%s(%s)" % (
            type(v).__name__,
            ", ".join("%s: %s" % (f, ron(ctx, getattr(v, f))) for f in v.__dataclass_fields__),
        )
    raise TypeError(type(v))


def word(ctx, s):
    "Text that stands for a string (itself, or a word for a symbolic one)."
    if ctx.symbolic and type(s) is not str:
        return ctx.sentinel(s)
    return s


def quoted(ctx, s):
    if ctx.symbolic and type(s) is not str:
        return '"%s"' % ctx.sentinel(s)
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


# ------------------------------------------------------------------ types


class Color(enum.Enum):
    RED = "r"
    GREEN = "g g"


class Level(enum.Enum):
    LOW = 1
    HIGH = -2


class Rank(enum.IntEnum):
    LOW = 1
    TOP = 7


class Tone(str, enum.Enum):
    DARK = "d"
    LIGHT = "l l"


@dataclass
class Alpha:
    x: int = 1


@dataclass
class Beta:
    x: int
    s: str = "s"


LEAVES = ["int", "float", "bool", "str", "color", "level", "word", "num"]
UNIONS = ["int|str", "float|int", "bool|float|str", "list|obj|str", "dict|obj", "list|dict", "int|str|none"]
MIXED = ["rank", "tone"]
_UNION = {
    "int|str": Union[int, str],
    "float|int": Union[float, int],
    "bool|float|str": Union[bool, float, str],
    "list|obj|str": Union[List[int], Alpha, str],
    "dict|obj": Union[Dict[str, int], Beta],
    "list|dict": Union[List[str], Dict[str, Alpha]],
    "int|str|none": Union[int, str, None],
}
CONTAINERS = ["list", "tuple", "dict", "intdict", "opt", "obj"]
_types = {}


def choose_shape(ctx, name, depth, leaves=LEAVES, containers=CONTAINERS, alts=True):
    """A type, as a nested tuple; every type up to the depth is one choice."""
    kinds = list(leaves)
    if depth > 0:
        kinds += containers + (["alts"] if alts else [])
    k = ctx.choose(name, kinds)
    if k in containers:
        if k == "opt":
            inner = choose_shape(ctx, name + "i", depth - 1, leaves, [c for c in containers if c != "opt"], alts)
        else:
            inner = choose_shape(ctx, name + "i", depth - 1, leaves, containers, alts)
        return (k, inner)
    return (k,)


def to_type(shape):
    t = _types.get(shape)
    if t is None:
        t = _types[shape] = _to_type(shape)
    return t


def label(shape):
    return "_".join(_flat(shape)).replace("|", "_or_")


def _flat(shape):
    return [shape[0]] + [x for s in shape[1:] for x in _flat(s)]


def _to_type(shape):
    k = shape[0]
    if k in ("int", "float", "bool", "str"):
        return {"int": int, "float": float, "bool": bool, "str": str}[k]
    if k == "color":
        return Color
    if k == "level":
        return Level
    if k == "word":
        return Literal["on", "off", "o n"]
    if k == "num":
        return Literal[1, 2, -3]
    if k == "list":
        return List[to_type(shape[1])]
    if k == "tuple":
        return Tuple[to_type(shape[1]), int]
    if k == "single":
        return Tuple[to_type(shape[1])]
    if k == "dict":
        return Dict[str, to_type(shape[1])]
    if k == "intdict":
        return Dict[int, to_type(shape[1])]
    if k == "opt":
        return Optional[to_type(shape[1])]
    if k == "obj":
        return make_dataclass("Obj_" + label(shape[1]), [("v", to_type(shape[1])), ("n", int)])
    if k == "alts":
        return Union[Alpha, Beta]
    if k in _UNION:
        return _UNION[k]
    if k in MIXED:
        return {"rank": Rank, "tone": Tone}[k]
    raise KeyError(k)


def choose_value(ctx, name, shape, maxlen=2, strlen=2):
    """A description of a value: nested tuples whose leaves are symbols."""
    k = shape[0]
    if k == "int":
        return ("v", ctx.int(name))
    if k == "float":
        return ("v", ctx.real(name))
    if k == "bool":
        return ("v", ctx.flag(name))
    if k == "str":
        return ("v", ctx.str(name, strlen))
    if k == "color":
        return ("v", ctx.choose(name, list(Color)))
    if k == "level":
        return ("v", ctx.choose(name, list(Level)))
    if k == "word":
        return ("v", ctx.choose(name, ["on", "off", "o n"]))
    if k == "num":
        return ("v", ctx.choose(name, [1, 2, -3]))
    if k == "list":
        n = ctx.choose(name + "#", maxlen + 1)
        return ("list", [choose_value(ctx, "%s.%d" % (name, i), shape[1], maxlen, strlen) for i in range(n)])
    if k == "tuple":
        return ("tuple", [choose_value(ctx, name + ".0", shape[1], maxlen, strlen), ("v", ctx.int(name + ".1"))])
    if k == "single":
        return ("tuple", [choose_value(ctx, name + ".0", shape[1], maxlen, strlen)])
    if k in ("dict", "intdict"):
        n = ctx.choose(name + "#", maxlen + 1)
        keys = (["a", "b c"] if k == "dict" else [1, -7])[:n]
        return ("dict", [(key, choose_value(ctx, "%s.%s" % (name, key), shape[1], maxlen, strlen)) for key in keys])
    if k == "opt":
        if ctx.flag(name + "?"):
            return ("v", None)
        return choose_value(ctx, name, shape[1], maxlen, strlen)
    if k == "obj":
        return ("obj", to_type(shape), [("v", choose_value(ctx, name + ".v", shape[1], maxlen, strlen)), ("n", ("v", ctx.int(name + ".n")))])
    if k == "alts":
        if ctx.flag(name + ":Beta"):
            return ("obj", Beta, [("x", ("v", ctx.int(name + ".x"))), ("s", ("v", ctx.str(name + ".s", 1)))])
        return ("obj", Alpha, [("x", ("v", ctx.int(name + ".x")))])
    if k in MIXED:
        return ("v", ctx.choose(name, list(Rank if k == "rank" else Tone)))
    if k in _UNION:
        a = ctx.choose(name + " as", k.split("|"))
        if a == "none":
            return ("v", None)
        if a == "obj":
            return ("obj", Beta, [("x", ("v", ctx.int(name + ".x"))), ("s", ("v", "t"))]) if k == "dict|obj" else ("obj", Alpha, [("x", ("v", ctx.int(name + ".x")))])
        if a in ("list", "dict"):
            inner = {"list|obj|str": "int", "dict|obj": "int"}.get(k, "str" if a == "list" else "obj")
            if inner == "obj":
                return ("dict", [("k", ("obj", Alpha, [("x", ("v", ctx.int(name + ".x")))]))] if ctx.flag(name + "#") else [])
            return choose_value(ctx, name, (a, (inner,)), maxlen, strlen)
        if a == "str" and ctx.flag(name + " number"):
            return ("v", ctx.choose(name, ["12", "1.5", "true"]))
        return choose_value(ctx, name, (a,), maxlen, strlen)
    raise KeyError(k)


def build(d):
    "A fresh object from a description."
    k = d[0]
    if k == "v":
        return d[1]
    if k == "list":
        return [build(x) for x in d[1]]
    if k == "tuple":
        return tuple(build(x) for x in d[1])
    if k == "dict":
        return {key: build(x) for key, x in d[1]}
    if k == "obj":
        return d[1](**{n: build(x) for n, x in d[2]})
    raise KeyError(k)


def conforms(v, t):
    """Whether a value has the declared type at every depth (written
    independently of the code under test; symbolic values by their type)."""
    origin = typing.get_origin(t)
    if t is int:
        return isinstance(v, int)
    if t is float:
        return isinstance(v, float)
    if t is bool:
        return isinstance(v, bool)
    if t is str:
        return isinstance(v, str)
    if isinstance(t, enum.EnumMeta):
        return isinstance(v, t)
    if origin is Literal:
        r = False
        for a in typing.get_args(t):
            if isinstance(a, bool) == isinstance(v, bool) and isinstance(a, str) == isinstance(v, str) and isinstance(a, int) == isinstance(v, int):
                if a == v:
                    r = True
        return r
    if origin is list:
        return isinstance(v, list) and all(conforms(x, t.__args__[0]) for x in v)
    if origin is tuple:
        return isinstance(v, tuple) and len(v) == len(t.__args__) and all(conforms(x, a) for x, a in zip(v, t.__args__))
    if origin is dict:
        return isinstance(v, dict) and all(conforms(k, t.__args__[0]) and conforms(x, t.__args__[1]) for k, x in v.items())
    if origin is Union:
        return any(conforms(v, a) for a in t.__args__)
    if t is type(None):
        return v is None
    if is_dataclass(t):
        return type(v) is t and all(conforms(getattr(v, n), f.type) for n, f in t.__dataclass_fields__.items())
    raise TypeError(t)


# ------------------------------------------------------------------ kinds of dataclasses

KINDS = ["hidden", "uncompared", "metadata", "frozen", "ordered", "no equality", "hashed", "derived", "derived undecorated", "derived twice", "mixin", "post init", "slots", "class attributes", "members", "callable", "without repr"]


def kind_class(kind, default=None):
    """A dataclass with the fields a: int, b: str and c: List[int], declared in an unusual way.
    default: None or a triple of defaults for the fields."""
    def fields(**kw):
        if default is None:
            fs = [("a", int), ("b", str), ("c", List[int])]
            return [(n, t, field(**kw)) for n, t in fs] if kw else fs
        a, b, c = default
        return [("a", int, field(default=a, **kw)), ("b", str, field(default=b, **kw)), ("c", List[int], field(default_factory=lambda: list(c), **kw))]

    if kind == "hidden":
        return make_dataclass("K", fields(repr=False))
    if kind == "uncompared":
        return make_dataclass("K", fields(compare=False))
    if kind == "metadata":
        return make_dataclass("K", fields(metadata={"help": "text", "init": False, "default": 3}, hash=False))
    if kind == "frozen":
        return make_dataclass("K", fields(), frozen=True)
    if kind == "ordered":
        return make_dataclass("K", fields(), order=True)
    if kind == "no equality":
        return make_dataclass("K", fields(), eq=False)
    if kind == "hashed":
        return make_dataclass("K", fields(), unsafe_hash=True)
    if kind == "without repr":
        return make_dataclass("K", fields(), repr=False)
    fs = fields()
    if kind == "derived":
        return make_dataclass("K", fs[1:], bases=(make_dataclass("P", fs[:1]),))
    if kind == "derived undecorated":
        return type("K", (make_dataclass("P", fs),), {"__doc__": "Something else."})
    if kind == "derived twice":
        P = make_dataclass("P", fs[:1])
        return make_dataclass("K", fs[2:], bases=(make_dataclass("Q", fs[1:2], bases=(P,)),))
    if kind == "mixin":
        class Mixin(object):
            x = 3

            def get(self):
                return self.a

        return make_dataclass("K", fs, bases=(Mixin,))
    if kind == "post init":
        def post(self):
            self.derived = (self.a, self.b)
            self._private = 3

        return make_dataclass("K", fs, namespace={"__post_init__": post})
    if kind == "slots":
        return make_dataclass("K", [(n, t) for n, t, *_ in fields()], namespace={"__slots__": ("a", "b", "c")}) if default is None else make_dataclass("K", fs)
    if kind == "class attributes":
        return make_dataclass("K", fs, namespace={"limit": 5, "other": "x"})
    if kind == "members":
        return make_dataclass("K", fs, namespace={"double": property(lambda self: self.a * 2), "make": classmethod(lambda cls: cls), "__len__": lambda self: 0, "__bool__": lambda self: False, "__iter__": lambda self: iter(())})
    if kind == "callable":
        return make_dataclass("K", fs, namespace={"__call__": lambda self: self.a, "__getitem__": lambda self, i: self.a, "__contains__": lambda self, x: True})
    raise KeyError(kind)


PLACES = ["top", "object", "optional", "list", "dict", "tuple", "alternative"]


def placed(place, K):
    "A class that holds K objects at a place, and how to make it of two of them."
    if place == "top":
        return K, lambda mk, other, w: mk()
    T = {"object": K, "optional": Optional[K], "list": List[K], "dict": Dict[str, K], "tuple": Tuple[K, int], "alternative": Union[Alpha, K]}[place]
    R = make_dataclass("Root", [("f", T), ("w", int)])

    def make(mk, other, w):
        x = mk()
        return R({"object": x, "optional": x, "list": [x, other()], "dict": {"k": x, "l": other()}, "tuple": (x, w), "alternative": x}[place], w)

    return R, make


def parts(v):
    "The class and field values of every dataclass in a value, in plain lists."
    if is_dataclass(v):
        return [type(v).__name__] + [[n, parts(getattr(v, n))] for n in v.__dataclass_fields__]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [parts(x) for x in v]
    if isinstance(v, dict):
        return ["dict"] + [[k, parts(x)] for k, x in v.items()]
    return v


# Texts that look like something else
NOTABLE = ["", " ", "0", "-1", "1.5", "1e5", "inf", "nan", "true", "True", "none", "None", "null", "()", "[]", "{}", "(a: 1)", "Alpha(x: 1)", "['a']", "a=b", "a.b", "a b", ",", "\"", "'", "\\", "\n", "\t", "//", "/*", "#", "<BLOB>", "<blob:msgpack>", "<blob:pickle>", "!weak ref", "!__name__", "version", "5@0", "t: 1@0 lin 9@8", "\u00e9\u4e2d\U0001f600", "don't", "\\'", "\\u{5}", "\x01\x1b\x7f\x85\xa0", "\u0301\u2028\ufeff\ue000\uffff", "\r\n"]
TEXTS = {
    "str": (str, lambda s: s),
    "optional": (Optional[str], lambda s: s),
    "int|str": (Union[int, str], lambda s: s),
    "str|float|none": (Union[str, float, None], lambda s: s),
    "bool|str": (Union[bool, str], lambda s: s),
    "list|obj|str": (Union[List[int], Alpha, str], lambda s: s),
    "list": (List[str], lambda s: ["x", s]),
    "tuple": (Tuple[str, int], lambda s: (s, 1)),
    "value": (Dict[str, str], lambda s: {"k": s}),
    "key": (Dict[str, int], lambda s: {s: 1, "k": 2}),
    "object": (Beta, lambda s: Beta(1, s)),
}
