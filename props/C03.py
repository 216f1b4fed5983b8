"""C03: what load returns conforms to the declared types."""
from dataclasses import make_dataclass
from fractions import Fraction
import hyperstate
from props.util import *

META = {
    "bounds": "every field type of nesting depth at most 1 (thorough: 2), at the top or inside a nested dataclass, against every document value of nesting depth at most 1 (thorough: 2): null, integers, floats and booleans (symbolic), strings (symbolic of 0..2 characters, and texts of numbers), barewords, lists of 0..2, tuples of 1..3, dictionaries with string and integer keys, and structs with matching, other or unknown names; integers symbolic in 64 bits, those read as floats within 2^53",
    "outside": "schedules (C15..C17); integers outside 64 bits, nan and infinity; string-to-number texts other than the listed ones",
    "functions": ["serde.from_dict", "serde.loads", "hyperstate._typed_load"],
    "assumptions": ["pyron reads numbers and strings as written"],
}


class Word(object):
    def __init__(self, text):
        self.text = text


NUMBERS = ["12", "-3", "1.5", "1e3", "9007199254740993", "x", "", " 7", "0x10", "2.0", "true"]
LEAF = ["none", "int", "float", "flag", "str", "numstr", "word"]


def doc(ctx, name, depth, small=False):
    k = ctx.choose(name, LEAF + (["list", "tuple", "dict", "struct"] if depth else []))
    if k == "none":
        return None
    if k == "int":
        return ctx.int(name)
    if k == "float":
        return ctx.real(name, -10 ** 15, 10 ** 15)
    if k == "flag":
        return ctx.flag(name)
    if k == "str":
        return ctx.str(name, 2) if not small else ctx.choose(name, ["on", "g g", ""])
    if k == "numstr":
        return ctx.choose(name, NUMBERS[:4] + NUMBERS[5:6] if small else NUMBERS)
    if k == "word":
        return Word(ctx.choose(name, ["on", "r", "Alpha"]))
    if k == "list":
        return [doc(ctx, "%s.%d" % (name, i), depth - 1, True) for i in range(ctx.choose(name + "#", 3))]
    if k == "tuple":
        n = 1 + ctx.choose(name + "#", 3)
        # the parts after the first are plain integers
        return tuple([doc(ctx, name + ".0", depth - 1, True)] + [ctx.int("%s.%d" % (name, i)) for i in range(1, n)])
    if k == "dict":
        key = ctx.choose(name + "k", ["a", 4, "5"])
        return {key: doc(ctx, name + ".v", depth - 1, True)}
    name_ = ctx.choose(name + ":", ["Alpha", "Beta", "Other"])
    f = ctx.choose(name + "f", ["x", "v", "xs"])
    if f == "xs":
        return Obj(name_, ("x", doc(ctx, name + ".x", depth - 1, True)), ("s", "q"))
    if f == "v":
        return Obj(name_, ("v", doc(ctx, name + ".x", depth - 1, True)), ("n", ctx.int(name + ".n")))
    return Obj(name_, ("x", doc(ctx, name + ".x", depth - 1, True)))


def text(ctx, d):
    if isinstance(d, Word):
        return d.text
    if isinstance(d, Obj):
        return "%s(%s)" % (d.name, ", ".join("%s: %s" % (k, text(ctx, x)) for k, x in d.fields))
    if isinstance(d, list):
        return "[%s]" % ", ".join(text(ctx, x) for x in d)
    if isinstance(d, tuple):
        return "(%s)" % ", ".join(text(ctx, x) for x in d)
    if isinstance(d, dict):
        return "{%s}" % ", ".join("%s: %s" % (ron(ctx, k), text(ctx, x)) for k, x in d.items())
    return ron(ctx, d)


def number(d):
    if isinstance(d, Word) or d is None:
        return None
    if isinstance(d, (int, float)):
        return d
    if isinstance(d, str) and type(d) is str:
        try:
            f = Fraction(d)
        except (ValueError, ZeroDivisionError):
            return None
        return int(f) if f.denominator == 1 else float(f)
    return None


def stands_for(ctx, d, r, t):
    """Whether a result is what a document value means for a type."""
    origin = typing.get_origin(t)
    if isinstance(d, Word):
        d = d.text
    if t is bool:
        return isinstance(d, bool) and ctx.same(r, d)
    if t is int or t is float:
        if isinstance(d, str) and type(d) is not str:
            return True  # symbolic text, the listed ones are checked
        x = number(d)
        if x is None:
            return False
        if t is float and type(x) is int:
            return r == float(x)
        if t is float and isinstance(x, int):
            return (not -(2 ** 53) <= x <= 2 ** 53) or r == x
        return r == x
    if t is str:
        return isinstance(d, str) and r == d
    if isinstance(t, enum.EnumMeta):
        return r.value == d
    if origin is Literal:
        return r == d
    if origin is list:
        return isinstance(d, list) and len(d) == len(r) and all(stands_for(ctx, x, y, t.__args__[0]) for x, y in zip(d, r))
    if origin is tuple:
        return isinstance(d, tuple) and len(d) == len(r) and all(stands_for(ctx, x, y, a) for x, y, a in zip(d, r, t.__args__))
    if origin is dict:
        if not isinstance(d, dict) or len(d) != len(r):
            return False
        return all(
            stands_for(ctx, dk, rk, t.__args__[0]) and stands_for(ctx, dv, rv, t.__args__[1])
            for (dk, dv), (rk, rv) in zip(d.items(), r.items())
        )
    if origin is Union:
        if d is None or r is None:
            return d is None and r is None
        return any(stands_for(ctx, d, r, a) for a in t.__args__ if a is not type(None) and conforms(r, a))
    if is_dataclass(t):
        if isinstance(d, Obj):
            fields = dict(d.fields)
        elif isinstance(d, dict):
            fields = d
        else:
            # an empty struct or a bareword stands for an object of defaults
            return isinstance(d, str)
        for n, f in t.__dataclass_fields__.items():
            if n in fields and not stands_for(ctx, fields[n], getattr(r, n), f.type):
                return False
        return all(k in t.__dataclass_fields__ for k in fields)
    return False


_roots = {}


def root(shape, where):
    key = (shape, where)
    if key not in _roots:
        if where == "top":
            _roots[key] = make_dataclass("Root", [("v", to_type(shape)), ("w", int)])
        else:
            i = make_dataclass("Inner", [("v", to_type(shape))])
            _roots[key] = make_dataclass("Root", [("i", i), ("w", int)])
    return _roots[key]


def run(ctx, depth, docdepth, where="top", leaves=LEAVES, containers=CONTAINERS, small=False):
    shape = choose_shape(ctx, "t", depth, leaves, containers)
    T = to_type(shape)
    R = root(shape, where)
    d = doc(ctx, "d", docdepth, small)
    v = text(ctx, d)
    if where != "top":
        v = "Inner(v: %s)" % v
    name = "v" if where == "top" else "i"
    src = "Root(%s: %s, w: 1)" % (name, v)
    ok, r = ctx.attempt(hyperstate.loads, R, src)
    ctx.observe("loaded", ok)
    if not ok:
        ctx.reach("rejected")
        ctx.check(isinstance(r, Exception) or type(r).__name__ == "PanicException", "not an error", text=src)
        return
    ctx.reach("loaded")
    got = r.v if where == "top" else r.i.v
    ctx.observe("value", got)
    ctx.check(conforms(got, T), "a value of another type was stored", type=T, text=src, value=got)
    ctx.check(stands_for(ctx, d, got, T), "another value was stored", type=T, text=src, value=got)


ROOTS = ["3", "[1]", '"s"', "None", "(1, 2)", "true", "Other(v: 1, w: 2)", "{\"v\": 1, \"w\": 2}", "Root(v: 1)", "Root", ""]


def whole(ctx):
    R = root(("int",), "top")
    src = ctx.choose("doc", ROOTS)
    ok, r = ctx.attempt(hyperstate.loads, R, src)
    ctx.observe("loaded", ok)
    if ok:
        ctx.reach("loaded")
        ctx.check(type(r) is R and conforms(r, R) and r.v == 1 and r.w == 2, "loaded something else", text=src, value=r)


CASES = [
    {"name": "types", "fn": run, "params": {"depth": 1, "docdepth": 1, "small": True}, "reach": ["rejected", "loaded"], "quick_s": 120, "shards": 8, "depth": 3, "max_witnesses": 300},
    {"name": "unions", "fn": run, "params": {"depth": 0, "docdepth": 1, "leaves": UNIONS + MIXED}, "reach": ["rejected", "loaded"], "quick_s": 60, "shards": 3, "depth": 3},
    {"name": "unions in types", "fn": run, "params": {"depth": 1, "docdepth": 1, "leaves": ["int|str", "list|obj|str"], "small": True}, "reach": ["rejected", "loaded"], "quick_s": 60, "shards": 3, "depth": 3},
    {"name": "tuples of one", "fn": run, "params": {"depth": 1, "docdepth": 1, "containers": ["single"], "leaves": ["int", "float", "str", "color"], "small": True}, "reach": ["rejected", "loaded"], "quick_s": 60, "shards": 2, "depth": 2},
    {"name": "leaves", "fn": run, "params": {"depth": 0, "docdepth": 1}, "reach": ["rejected", "loaded"], "quick_s": 60, "shards": 3, "depth": 3},
    {"name": "nested", "fn": run, "params": {"depth": 1, "docdepth": 1, "where": "nested", "leaves": ["int", "float", "str"], "small": True}, "reach": ["rejected", "loaded"], "quick_s": 60, "shards": 4, "depth": 3},
    {"name": "documents", "fn": whole, "reach": ["loaded"]},
    {"name": "deep", "fn": run, "params": {"depth": 2, "docdepth": 2, "small": True, "leaves": ["int", "float", "num"]}, "reach": ["rejected", "loaded"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4},
]
