"""C14: a type accepted as a subtype accepts no value the other would refuse."""
import enum
import hyperstate
from dataclasses import MISSING
from hyperstate.schema import types as t
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "all pairs of types out of 27 leaf types (primitives, enums with the same or another name and other members, literals of strings, numbers, booleans and both, dataclasses with more, fewer, other, optional, defaulted, nested and versioned fields, unions of dataclasses) and of list, optional, tuples of one and two, dictionaries with string, int and enum keys of them (quick: containers of containers of 5 leaves); symbolic values",
    "outside": "ints beyond 2**53 as floats; fields left out of a value because they equal a default (C11); the schema-only type Nothing, which has no values",
    "functions": ["types.Primitive.is_subtype", "types.List.is_subtype", "types.Tuple.is_subtype", "types.Dict.is_subtype", "types.Union.is_subtype", "types.Enum.is_subtype", "types.Literal.is_subtype", "types.Struct.is_subtype", "types.Option.is_subtype", "types.materialize_type", "serde.from_dict", "serde.asdict"],
    "assumptions": [],
}


def _enum(**kw):
    return enum.Enum("Kind", list(kw.items()))


def _ver(name, fields, version):
    return make_dataclass(name, fields, bases=(Versioned,), namespace={"version": classmethod(lambda c: version)})


S = lambda *fields: make_dataclass("S", list(fields))
Sx = S(("x", int))
Sy = S(("x", int), ("y", int, 3))
LEAF = {
    "int": int,
    "float": float,
    "bool": bool,
    "str": str,
    "E A": _enum(A=1),
    "E AB": _enum(A=1, B=2),
    "E BA": _enum(A=2, B=1),
    "E str": _enum(A="1", B="b"),
    "F AB": enum.Enum("Other", [("A", 1), ("B", 2)]),
    "L a": Literal["a"],
    "L ab": Literal["a", "b"],
    "L 1": Literal[1],
    "L 12a": Literal[1, 2, "a"],
    "L '1'": Literal["1"],
    "L true": Literal[True],
    "L 01": Literal[0, 1],
    "S x": Sx,
    "S xf": S(("x", float)),
    "S xy=": Sy,
    "S xy": S(("x", int), ("y", int)),
    "S xo": S(("x", int), ("o", Optional[int])),
    "S xo=": S(("x", int), ("o", Optional[int], None)),
    "S xn": S(("x", int), ("n", S(("x", int, 5)))),
    "S xs": S(("x", int), ("n", Sx)),
    "S ": S(("w", int, 1)),
    "V1": _ver("S", [("x", int)], 1),
    "V2": _ver("S", [("x", int)], 2),
    "U": Union[Alpha, Beta],
    "U swapped": Union[Beta, Alpha],
    "U more": Union[Alpha, Beta, make_dataclass("Gamma", [("x", int)])],
    "U fewer": Union[make_dataclass("Alpha", [("x", int)]), make_dataclass("Beta", [("x", int)])],
    "U less": Union[Alpha, make_dataclass("Gamma", [("x", int)])],
}
WRAP = {
    "list": lambda T: List[T],
    "opt": lambda T: Optional[T],
    "tup1": lambda T: Tuple[T],
    "tup": lambda T: Tuple[T, int],
    "put": lambda T: Tuple[int, T],
    "dict": lambda T: Dict[str, T],
    "idict": lambda T: Dict[int, T],
    "edict": lambda T: Dict[LEAF["E A"], T],
    "fdict": lambda T: Dict[float, T],
}


def pick(ctx, name, depth, leaves, wraps):
    k = ctx.choose(name, list(leaves) + (list(wraps) if depth else []))
    if k in LEAF:
        return k, LEAF[k]
    w, T = pick(ctx, name + "i", depth - 1, leaves, wraps)
    if k == "opt" and w == "opt" or k == "opt" and w.startswith("opt "):
        k = "list"
    return k + " " + w, WRAP[k](T)


def val(ctx, name, T):
    "A symbolic value of a type."
    o, args = typing.get_origin(T), typing.get_args(T)
    if T is int:
        return ctx.int(name, -(2 ** 53), 2 ** 53)
    if T is float:
        return ctx.real(name)
    if T is bool:
        return ctx.flag(name)
    if T is str:
        return ctx.str(name, 1)
    if isinstance(T, enum.EnumMeta):
        return ctx.choose(name, list(T))
    if o is Literal:
        return ctx.choose(name, list(args))
    if o is list:
        n = ctx.choose(name + "#", 2)
        return [val(ctx, "%s.%d" % (name, i), args[0]) for i in range(n)]
    if o is tuple:
        return tuple(val(ctx, "%s.%d" % (name, i), a) for i, a in enumerate(args))
    if o is dict:
        n = ctx.choose(name + "#", 2)
        k = {str: "k", int: -4, float: 2.5}.get(args[0]) or list(args[0])[0]
        return {k: val(ctx, name + ".k", args[1])} if n else {}
    if o is Union:
        if type(None) in args:
            return None if ctx.flag(name + "?") else val(ctx, name, args[0])
        return val(ctx, name, ctx.choose(name + ":", list(args)))
    return T(**{n: val(ctx, name + "." + n, f.type) for n, f in T.__dataclass_fields__.items()})


def kept(ctx, a, b):
    "Whether a value loaded as another type is the same value."
    if isinstance(a, enum.Enum):
        return isinstance(b, enum.Enum) and a.value == b.value and a.name == b.name
    if is_dataclass(a):
        if not is_dataclass(b):
            return False
        r = True
        for n in a.__dataclass_fields__:
            if not hasattr(b, n):
                return False
            r = both(r, kept(ctx, getattr(a, n), getattr(b, n)))
        return r
    if isinstance(a, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = both(r, kept(ctx, x, y))
        return r
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        ka, kb = list(a.items()), list(b.items())
        r = True
        for (k, x), (l, y) in zip(ka, kb):
            r = both(r, kept(ctx, k, l))
            r = both(r, kept(ctx, x, y))
        return r
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(b, (enum.Enum, list, tuple, dict)) or is_dataclass(b):
        return False
    return a == b


def both(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return x & y


def pairs(ctx, depth_a, depth_b, leaves=None, wraps=None):
    leaves, wraps = leaves or list(LEAF), wraps or list(WRAP)
    na, A = pick(ctx, "a", depth_a, leaves, wraps)
    nb, B = pick(ctx, "b", depth_b, leaves, wraps)
    sa, sb = t.materialize_type(A), t.materialize_type(B)
    ok, sub = ctx.attempt(sa.is_subtype, sb)
    ctx.check(ok, "subtyping failed", a=na, b=nb, error=sub)
    if na == nb:
        ctx.check(sub, "a type is no subtype of itself", a=na)
        if not is_opt(A):
            ctx.check(sa.is_subtype(t.Option(sb)), "a type is no subtype of the optional of itself", a=na)
    ctx.observe("sub", bool(sub))
    if not sub:
        return
    ctx.reach("subtype")
    if na != nb:
        ctx.reach("proper subtype")
    R = make_dataclass("Root", [("v", A), ("n", int)])
    Q = make_dataclass("Root", [("v", B), ("n", int)])
    obj = R(val(ctx, "v", A), ctx.int("n"))
    text = hyperstate.dumps(obj)
    ok, r = ctx.attempt(hyperstate.loads, Q, text)
    ctx.check(ok, "a value of the subtype was refused", a=na, b=nb, text=text, error=r)
    ctx.check(conforms(r.v, B), "a value of the subtype loads as something else", a=na, b=nb, text=text, loaded=r)
    ctx.check(kept(ctx, obj.v, r.v), "a value of the subtype changed", a=na, b=nb, text=text, loaded=r)


def is_opt(T):
    return typing.get_origin(T) is Union and type(None) in typing.get_args(T)


def structs(ctx, n=2):
    "Every pair of dataclasses with up to n fields out of a family."
    kinds = ["none", "int", "int=", "float", "opt", "opt=", "list", "sub", "sub="]
    Sub = make_dataclass("Sub", [("k", int)])
    Def = make_dataclass("Sub", [("k", int, 8)])

    def fld(name, k, d):
        return {"int": (name, int), "int=": (name, int, d), "float": (name, float), "opt": (name, Optional[int]), "opt=": (name, Optional[int], None), "list": (name, List[int]), "sub": (name, Sub), "sub=": (name, Def)}[k]

    def cls(tag):
        fs = []
        for i in range(n):
            k = ctx.choose("%s%d" % (tag, i), kinds)
            if k != "none":
                fs.append(fld("f%d" % i, k, ctx.int("%sd%d" % (tag, i))))
        return make_dataclass("S", sorted(fs, key=lambda f: len(f) > 2))

    A, B = cls("a"), cls("b")
    place = ctx.choose("place", ["plain", "list"])
    if place == "list":
        A, B = List[A], List[B]
    sa, sb = t.materialize_type(A), t.materialize_type(B)
    sub = sa.is_subtype(sb)
    ctx.check(sa.is_subtype(sa), "a type is no subtype of itself")
    if not sub:
        return
    ctx.reach("subtype")
    R = make_dataclass("Root", [("v", A), ("n", int)])
    Q = make_dataclass("Root", [("v", B), ("n", int)])
    obj = R(val(ctx, "v", A), ctx.int("n"))
    text = hyperstate.dumps(obj)
    ok, r = ctx.attempt(hyperstate.loads, Q, text)
    ctx.check(ok, "a value of the subtype was refused", text=text, error=r, a=sa, b=sb)
    ctx.check(conforms(r.v, B), "a value of the subtype loads as something else", text=text, loaded=r)
    ctx.check(kept(ctx, obj.v, r.v), "a value of the subtype changed", text=text, loaded=r)


FEW = ["int", "float", "L 1", "S x", "S xy=", "E A"]
CASES = [
    {"name": "leaves", "fn": pairs, "params": {"depth_a": 0, "depth_b": 1}, "reach": ["subtype", "proper subtype"], "quick_s": 60, "shards": 8, "depth": 2, "max_witnesses": 300},
    {"name": "containers", "fn": pairs, "params": {"depth_a": 1, "depth_b": 1, "leaves": FEW + ["E AB", "L 12a", "U", "V1"]}, "reach": ["subtype", "proper subtype"], "quick_s": 60, "shards": 8, "depth": 3, "max_witnesses": 300},
    {"name": "optionals of containers", "fn": pairs, "params": {"depth_a": 1, "depth_b": 2, "leaves": ["int", "float", "S x"], "wraps": ["list", "opt", "tup1", "dict"]}, "reach": ["subtype", "proper subtype"], "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 100},
    {"name": "structs", "fn": structs, "params": {"n": 2}, "reach": ["subtype"], "quick_s": 60, "shards": 6, "depth": 3, "max_witnesses": 200},
    {"name": "containers of all", "fn": pairs, "params": {"depth_a": 1, "depth_b": 1}, "reach": ["proper subtype"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 3},
    {"name": "containers of containers", "fn": pairs, "params": {"depth_a": 2, "depth_b": 2, "leaves": FEW[:4], "wraps": ["list", "opt", "tup", "dict", "idict"]}, "reach": ["proper subtype"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4},
    {"name": "structs of three", "fn": structs, "params": {"n": 3}, "reach": ["subtype"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4},
]
