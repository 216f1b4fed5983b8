"""C02: leaving defaults out of a dump never changes what it loads as."""
from copy import deepcopy
from dataclasses import field, make_dataclass
import pyron
import hyperstate
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "a class of one field of every type of nesting depth at most 1 (thorough: 2) with an arbitrary default (none, a value, or a factory for mutable ones), next to a field without default, a nested dataclass with defaults at its own level and as a whole, optional and inside a list; value and default are independent symbols, so every subset of fields equal to their default is covered; containers of 0..1 elements, strings of 0..1 characters; 13 types with defaults and values that look alike; plain and versioned classes; dataclasses declared in 17 ways (util.KINDS) at 7 places; text and file",
    "outside": "IEEE rounding, nan; defaults whose type differs from the declared one (an int as the default of a float); union fields whose default compares equal (True, 1, 1.0) to a value of another type",
    "functions": ["hyperstate.ElideDefaults", "serde.asdict", "serde.from_dict", "serde._try_create_defaults", "versioned.VersionedSerializer"],
    "assumptions": ["pyron reads back the values it writes"],
}


def mutable(shape):
    return shape[0] in ("list", "dict", "intdict", "obj", "alts", "list|obj|str", "dict|obj", "list|dict") or any(mutable(s) for s in shape[1:])


def spec(shape, desc):
    if desc is None:
        return field()
    if mutable(shape):
        return field(default_factory=lambda: build(desc))
    return field(default=build(desc))


def roundtrip(ctx, cls, obj, expect, file):
    if file:
        path = ctx.tmp() + "/c.ron"
        hyperstate.dump(obj, path, elide_defaults=True)
        text = read(path)
        back = hyperstate.load(cls, path)
    else:
        text = hyperstate.dumps(obj, elide_defaults=True)
        back = hyperstate.loads(cls, text)
        full = pyron.loads(hyperstate.dumps(obj), preserve_class_names=True)
        ctx.check(all(n in full for n in cls.__dataclass_fields__), "a field was left out unasked", text=full)
    ctx.observe("back", back)
    ctx.check(ctx.same(back, expect), "loaded object differs", text=text, expect=expect, back=back)
    ctx.check(ctx.same(obj, expect), "dumping changed the object")
    return pyron.loads(text, preserve_class_names=True)


def flat(ctx, depth, file=False, leaves=LEAVES):
    shape = choose_shape(ctx, "t", depth, leaves)
    T = to_type(shape)
    d = None
    if ctx.flag("has default"):
        d = choose_value(ctx, "d", shape, 1, 1)
    v = choose_value(ctx, "v", shape, 1, 1)
    k = ctx.int("k")
    m, w = ctx.int("m"), ctx.int("w")
    ns = {}
    bases = ()
    if file:
        bases = (Versioned,)
        ns = {"version": classmethod(lambda cls: 3)}
    R = make_dataclass("Root", [("w", int), ("v", T, spec(shape, d))] + ([("m", int, k)] if d is not None else [("m", int)]), bases=bases, namespace=ns)
    text = roundtrip(ctx, R, R(w=w, v=build(v), m=m), R(w=w, v=build(v), m=m), file)
    ctx.check("w" in text, "a field without default was left out", text=text)
    if d is None:
        ctx.reach("no default")
        ctx.check("v" in text and "m" in text, "a field without default was left out", text=text)
    else:
        if not bool(ctx.same(build(v), build(d))):
            ctx.check("v" in text, "a field that differs from its default was left out", text=text, default=build(d))
        if m != k:
            ctx.check("m" in text, "a field that differs from its default was left out", text=text)
        if "v" not in text:
            ctx.reach("elided")


INNER = [("int",), ("str",), ("list", ("int",)), ("opt", ("int",)), ("color",), ("tuple", ("float",))]


def nested(ctx, place, versioned=False):
    shape = ctx.choose("t", INNER)
    T = to_type(shape)
    d = choose_value(ctx, "d", shape, 1, 1)
    k = ctx.int("k")
    bases = (Versioned,) if versioned else ()
    ns = {"version": classmethod(lambda cls: 2)} if versioned else {}
    I = make_dataclass("Inner", [("n", int, field(default=k)), ("v", T, spec(shape, d))], bases=bases, namespace=ns)

    def value(name):
        n = ctx.int(name + "n")
        x = choose_value(ctx, name + "v", shape, 1, 1)
        return lambda: I(n=n, v=build(x))

    whole = ctx.choose("default of the field", ["none", "factory", "instance"])
    dv = value("dd")
    if place == "plain":
        F, wrap, mk = I, (lambda x: x), value("x")
    elif place == "optional":
        F, wrap = Optional[I], (lambda x: x)
        null = ctx.flag("null")
        mk = (lambda: None) if null else value("x")
        if ctx.flag("null default"):
            dv = lambda: None
    elif place == "list":
        F, wrap = List[I], (lambda x: [x])
        mk = value("x")
    elif place == "dict":
        F, wrap = Dict[str, I], (lambda x: {"a": x})
        mk = value("x")
    elif place == "deep":
        a, b = ctx.int("a"), ctx.int("b")
        M = make_dataclass("Mid", [("i", I, field(default_factory=dv)), ("b", int, a)])
        F, wrap = M, (lambda x: M(i=x, b=b))
        mk = value("x")
        c = ctx.int("c")
        dv0 = value("y")
        dv = lambda: M(i=dv0(), b=c).i
    if whole == "none":
        f = field()
    elif whole == "factory" or place in ("list", "dict"):
        f = field(default_factory=lambda: wrap(dv()))
    else:
        f = field(default=wrap(dv()))
    w = ctx.int("w")
    R = make_dataclass("Root", [("w", int), ("f", F, f)], bases=bases, namespace=ns)
    text = roundtrip(ctx, R, R(w=w, f=wrap(mk())), R(w=w, f=wrap(mk())), False)
    ctx.reach(whole)
    if whole == "none":
        ctx.check("f" in text, "a field without default was left out", text=text)


def kinds(ctx):
    "Dataclasses declared in every way."
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", PLACES)
    da = ctx.int("da")
    K = kind_class(kind, (da, "s", [2]) if ctx.flag("defaults") else None)
    R, make = placed(place, K)
    whole = place in ("object", "optional") and ctx.flag("default as a whole")
    if whole:
        dw = ctx.int("dw")
        R = make_dataclass("Root", [("w", int), ("f", R.__dataclass_fields__["f"].type, field(default_factory=lambda: K(dw, "s", [2])))])
    i, j, w = ctx.int("i"), ctx.int("j"), ctx.int("w")
    s = "s" if ctx.flag("same") else ctx.str("s", 1, 1)
    c = [ctx.int("c")]
    make1 = lambda: make(lambda: K(i, s, list(c)), lambda: K(j, "s", []), w)
    mk = (lambda: R(w=w, f=K(i, s, list(c)))) if whole else make1
    obj = mk()
    text = hyperstate.dumps(obj, elide_defaults=True)
    back = hyperstate.loads(R, text)
    ctx.observe("back", parts(back))
    ctx.reach(kind)
    ctx.check(ctx.same(parts(back), parts(mk())), "loaded object differs", text=text, expect=parts(mk()), back=parts(back))
    ctx.check(ctx.same(parts(obj), parts(mk())), "dumping changed the object", obj=parts(obj))


# Values that look alike
ALIKE = {
    "int|str": (Union[int, str], [1, "1", "", 0, "0", "None"]),
    "str|float|none": (Union[str, float, None], ["1.5", 1.5, None, "None", "", "null", 0.0, "0.0"]),
    "bool|str": (Union[bool, str], [True, "True", "true", False, "False", ""]),
    "optional": (Optional[str], [None, "None", "null", "", "()"]),
    "optional int": (Optional[int], [None, 0, 1]),
    "optional bool": (Optional[bool], [None, False, True]),
    "optional list": (Optional[List[int]], [None, [], [0], [1]]),
    "optional enum": (Optional[Color], [None, Color.RED, Color.GREEN]),
    "list": (List[str], [[], [""], ["a", "b"], ["a, b"], ["ab"], ["b", "a"]]),
    "list|obj|str": (Union[List[int], Alpha, str], [[1], "[1]", Alpha(1), "Alpha(x=1)", "", []]),
    "dict": (Dict[str, int], [{}, {"a": 1}, {"a": 1, "b": 2}, {"b": 1}, {"": 0}]),
    "str": (str, ["a", "A", " a", "a ", ""]),
    "tuple": (Tuple[int, str], [(1, "1"), (1, ""), (0, "1")]),
}


def alike(ctx):
    "A value and a default that look alike, in a class that also has other defaults."
    name = ctx.choose("type", list(ALIKE))
    T, values = ALIKE[name]
    d, v = ctx.choose("default", values), ctx.choose("value", values)
    made = isinstance(d, (list, dict, Alpha)) or ctx.flag("factory")
    f = field(default_factory=lambda: deepcopy(d)) if made else field(default=d)
    nest = ctx.flag("nested")
    I = make_dataclass("Inner", [("v", T, f), ("n", int, 1)])
    R = make_dataclass("Root", [("i", I), ("w", int)]) if nest else I
    w = ctx.int("w")
    mk = lambda: R(I(deepcopy(v), w), w) if nest else R(deepcopy(v), w)
    text = roundtrip(ctx, R, mk(), mk(), ctx.flag("file"))
    ctx.reach(name)
    inner = text["i"] if nest else text
    if inner is not None and d == v:
        ctx.reach("left out")
    if d != v:
        ctx.check("v" in inner, "a field that differs from its default was left out", text=text)


W = ["none", "factory", "instance"]
CASES = [
    {"name": "flat depth 1", "fn": flat, "params": {"depth": 1}, "reach": ["no default", "elided"], "quick_s": 90, "shards": 8, "depth": 3},
    {"name": "flat unions", "fn": flat, "params": {"depth": 0, "leaves": [u for u in UNIONS if u not in ("float|int", "bool|float|str")] + MIXED}, "reach": ["no default", "elided"], "quick_s": 60, "shards": 2, "depth": 3},
    {"name": "flat file versioned", "fn": flat, "params": {"depth": 1, "file": True, "leaves": ["int", "float", "str", "color"]}, "reach": ["no default", "elided"], "quick_s": 60, "shards": 3, "depth": 3},
    {"name": "nested plain", "fn": nested, "params": {"place": "plain"}, "reach": W, "quick_s": 60, "shards": 2},
    {"name": "nested optional", "fn": nested, "params": {"place": "optional"}, "reach": W, "quick_s": 60, "shards": 2},
    {"name": "nested list", "fn": nested, "params": {"place": "list"}, "reach": W, "quick_s": 60},
    {"name": "nested dict", "fn": nested, "params": {"place": "dict"}, "reach": W, "quick_s": 60},
    {"name": "nested deep", "fn": nested, "params": {"place": "deep"}, "reach": W, "quick_s": 60, "shards": 3},
    {"name": "nested versioned", "fn": nested, "params": {"place": "plain", "versioned": True}, "reach": W, "quick_s": 60, "shards": 2},
    {"name": "alike", "fn": alike, "params": {}, "reach": list(ALIKE) + ["left out"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": KINDS, "quick_s": 60, "shards": 2, "max_witnesses": 200},
    {"name": "flat depth 2", "fn": flat, "params": {"depth": 2}, "reach": ["no default", "elided"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 4},
]
