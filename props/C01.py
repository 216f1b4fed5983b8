"""C01: dumping a config and loading it back gives the same config."""
from dataclasses import make_dataclass
from pathlib import Path
import hyperstate
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "every type built from int, float, bool, str, string/int enums, string/int literals, alternative dataclasses (one level also: unions of numbers, strings, booleans, lists, dictionaries and dataclasses, and enums that are numbers or strings) and at most 2 (thorough: 3) levels of list, tuple, dict (string or int keys; one level with keys of every kind), optional and dataclass; containers of 0..2 elements; numbers symbolic (ints in 64 bits, floats as reals), strings of 0..2 symbolic printable characters, and 46 longer ones that look like something else; text and file; 17 unusual field names (leading underscores, names of methods, parameters and numbers) at 6 places; dataclasses declared in 17 ways (hidden or uncompared fields, metadata, frozen, ordered, derived, slots, __post_init__, class attributes, special methods ...) at 7 places",
    "outside": "IEEE rounding, nan and infinities; larger containers and deeper types; number and string syntax itself (pyron is trusted to read back what it writes); field names that are words of the syntax (true, false); tuples of any length; Optional written with None first; fields that are not arguments of __init__; ClassVar and InitVar annotations; annotations kept as text, or written list[int] instead of List[int]",
    "functions": ["serde.asdict", "serde.from_dict", "serde.dumps", "serde.dump", "serde.loads", "serde.load", "hyperstate._typed_dump", "hyperstate._typed_load"],
    "assumptions": ["pyron reads back the values it writes"],
}
_roots = {}


def root(shape):
    if shape not in _roots:
        _roots[shape] = make_dataclass("Root", [("v", to_type(shape)), ("w", int)])
    return _roots[shape]


def run(ctx, depth, maxlen=2, file=False, leaves=LEAVES, containers=CONTAINERS, alts=True):
    shape = choose_shape(ctx, "t", depth, leaves, containers, alts)
    R = root(shape)
    desc = choose_value(ctx, "v", shape, maxlen)
    w = ctx.int("w")
    obj = R(v=build(desc), w=w)
    expect = R(v=build(desc), w=w)
    if file:
        d = ctx.tmp()
        path = d + "/config.ron"
        if ctx.flag("path object"):
            path = Path(path)
        hyperstate.dump(obj, path)
        text = read(path)
        ctx.check(ctx.same(obj, expect), "dumping changed the object", obj=obj, expect=expect)
        back = hyperstate.load(R, path)
        ctx.check(read(path) == text, "loading changed the file")
    else:
        text = hyperstate.dumps(obj)
        ctx.check(ctx.same(obj, expect), "dumping changed the object", obj=obj, expect=expect)
        back = hyperstate.loads(R, text)
    ctx.observe("back", back)
    ctx.reach(shape[0])
    ctx.check(ctx.same(back, expect), "loaded object differs", text=text, expect=expect, back=back)
    ctx.check(conforms(back.v, to_type(shape)), "loaded object has other types", text=text, back=back)


KEYS = {
    "enum": (Color, list(Color)),
    "int enum": (Level, list(Level)),
    "word": (Literal["on", "off"], ["on", "off"]),
    "number": (Literal[1, -2], [1, -2]),
    "bool": (bool, [True, False]),
    "float": (float, [1.5, -2.0]),
    "tuple": (Tuple[int, str], [(1, "a"), (-2, "b c")]),
    "enum tuple": (Tuple[Color, int], [(Color.RED, 1), (Color.GREEN, 1)]),
    "str": (str, ["", "a.b"]),
    "int": (int, [7, -7]),
}


def keys(ctx):
    "Dictionaries with keys of every kind."
    name = ctx.choose("keys", list(KEYS))
    K, ks = KEYS[name]
    T = ctx.choose("values", ["int", "color", "list", "object", "optional"])
    V = {"int": int, "color": Color, "list": List[int], "object": Alpha, "optional": Optional[str]}[T]
    v = {"int": lambda n: ctx.int(n), "color": lambda n: ctx.choose(n, list(Color)), "list": lambda n: [ctx.int(n)], "object": lambda n: Alpha(ctx.int(n)), "optional": lambda n: ctx.str(n, 1, 1) if ctx.flag(n) else None}[T]
    vals = {k: v("v%d" % i) for i, k in enumerate(ks[: ctx.choose("#", 3)])}
    place = ctx.choose("place", ["top", "list", "object"])
    if place == "top":
        R = make_dataclass("Root", [("d", Dict[K, V])])
        mk = lambda: R(dict(vals))
    elif place == "list":
        R = make_dataclass("Root", [("d", List[Dict[K, V]])])
        mk = lambda: R([dict(vals), {}])
    else:
        O = make_dataclass("O", [("d", Dict[K, V]), ("x", int)])
        R = make_dataclass("Root", [("o", O)])
        mk = lambda: R(O(dict(vals), 3))
    obj = mk()
    text = hyperstate.dumps(obj)
    ctx.check(ctx.same(obj, mk()), "dumping changed the object", obj=obj)
    back = hyperstate.loads(R, text)
    ctx.observe("back", back)
    ctx.reach(name)
    ctx.check(ctx.same(back, mk()), "loaded object differs", text=text, expect=mk(), back=back)


NAMES = ["_x", "__v", "_", "_0", "count", "index", "self", "cls", "clz", "inf", "nan", "name", "value", "fields", "Some", "r", "a1"]


def names(ctx):
    "Fields of every name."
    name = ctx.choose("name", NAMES)
    X = make_dataclass(ctx.choose("class", ["Inner", "_Inner", "inner"]), [(name, int), ("b", str, "s")])
    place = ctx.choose("place", ["top", "object", "optional", "list", "dict", "alternative"])
    T = {"top": int, "object": X, "optional": Optional[X], "list": List[X], "dict": Dict[str, X], "alternative": Union[Alpha, X]}[place]
    R = make_dataclass("Root", [(name, T), ("w", int)])
    i = ctx.int("i")
    s = ctx.str("s", 1, 1)
    w = ctx.int("w")

    def mk():
        x = X(i, s)
        return R({"top": i, "object": x, "optional": x, "list": [x, X(w)], "dict": {"k": x, "_k": X(w)}, "alternative": x}[place], w)

    obj = mk()
    text = hyperstate.dumps(obj)
    back = hyperstate.loads(R, text)
    ctx.observe("back", back)
    ctx.reach(name)
    ctx.check(ctx.same(back, mk()), "loaded object differs", text=text, expect=mk(), back=back)
    small = hyperstate.loads(R, hyperstate.dumps(obj, elide_defaults=True))
    ctx.check(ctx.same(small, mk()), "loaded object differs without defaults", text=text, expect=mk(), back=small)
    ctx.check(ctx.same(obj, mk()), "dumping changed the object", obj=obj)


def kinds(ctx):
    "Dataclasses declared in every way."
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", PLACES)
    K = kind_class(kind, (1, "s", [2]) if ctx.flag("defaults") else None)
    R, make = placed(place, K)
    i, j, w = ctx.int("i"), ctx.int("j"), ctx.int("w")
    s = ctx.str("s", 1, 1)
    mk = lambda: make(lambda: K(i, s, [j]), lambda: K(j, "x", []), w)
    obj = mk()
    file = ctx.flag("file")
    if file:
        path = ctx.tmp() + "/c.ron"
        hyperstate.dump(obj, path)
        back = hyperstate.load(R, path)
        text = read(path)
    else:
        text = hyperstate.dumps(obj)
        back = hyperstate.loads(R, text)
    ctx.observe("back", parts(back))
    ctx.reach(kind)
    ctx.check(ctx.same(parts(back), parts(mk())), "loaded object differs", text=text, expect=parts(mk()), back=parts(back))
    ctx.check(ctx.same(parts(obj), parts(mk())), "dumping changed the object", obj=parts(obj))


def texts(ctx):
    "Texts that look like something else."
    name = ctx.choose("type", list(TEXTS))
    T, make = TEXTS[name]
    s = ctx.choose("text", NOTABLE)
    ctx.assume(name != "key" or s not in ("!__name__", "!weak ref"))  # reserved
    w = ctx.int("w")
    versioned = ctx.flag("versioned")
    R = make_dataclass("Root", [("v", T), ("w", int)], bases=(Versioned,) if versioned else (), namespace={"version": classmethod(lambda c: 1)})
    obj = R(make(s), w)
    if ctx.flag("file"):
        path = ctx.tmp() + "/c.ron"
        hyperstate.dump(obj, path)
        back = hyperstate.load(R, path)
    else:
        back = hyperstate.loads(R, hyperstate.dumps(obj))
    ctx.observe("back", back)
    ctx.reach(name)
    ctx.check(ctx.same(back, R(make(s), w)), "loaded object differs", text=hyperstate.dumps(obj), back=back)


ALL = LEAVES + CONTAINERS + ["alts"]
CASES = [
    {"name": "depth 1", "fn": run, "params": {"depth": 1}, "reach": ALL, "quick_s": 60},
    {"name": "depth 2", "fn": run, "params": {"depth": 2}, "reach": ALL, "quick_s": 120, "shards": 7, "depth": 3, "max_witnesses": 400},
    {"name": "files", "fn": run, "params": {"depth": 1, "file": True, "maxlen": 1}, "reach": ALL, "quick_s": 60, "shards": 2, "depth": 2},
    {"name": "unions", "fn": run, "params": {"depth": 1, "leaves": UNIONS, "alts": False}, "reach": UNIONS + CONTAINERS, "quick_s": 60, "shards": 2, "depth": 2, "max_witnesses": 200},
    {"name": "tuples of one", "fn": run, "params": {"depth": 1, "containers": ["single"]}, "reach": LEAVES + ["single"], "quick_s": 60},
    {"name": "mixed enums", "fn": run, "params": {"depth": 1, "leaves": MIXED, "alts": False}, "reach": MIXED + CONTAINERS, "quick_s": 60},
    {"name": "keys", "fn": keys, "params": {}, "reach": list(KEYS), "quick_s": 60, "max_witnesses": 200},
    {"name": "names", "fn": names, "params": {}, "reach": NAMES, "quick_s": 60, "max_witnesses": 200},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": KINDS, "quick_s": 60, "max_witnesses": 200},
    {"name": "texts", "fn": texts, "params": {}, "reach": list(TEXTS), "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "depth 3", "fn": run, "params": {"depth": 3, "maxlen": 1}, "reach": ALL, "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 4},
]
