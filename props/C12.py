"""C12: an unchanged class is always reported compatible with its own schema."""
from contextlib import redirect_stdout
from copy import deepcopy
from dataclasses import MISSING
import io
import click
from hyperstate.schema import schema_checker, types as t
from hyperstate.schema.rewrite_rule import ChangeDefault, MapFieldValue, RenameField
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.schema_checker import SchemaChecker
from props.tool import dump_schema, upgrade_schema
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "classes with one or two fields of every supported type up to depth 2 (quick: 1, containers of containers sampled by kind at depth 2), with no default, a default value, a default factory or a null default, symbolic numbers, texts and lengths in defaults; nested plain, optional, defaulted, listed and versioned dataclasses; versions with rules of the past; docstrings; 46 texts that look like something else as defaults, docs and members of enums and literals; dataclasses declared in 17 ways (util.KINDS); the checker given the schema directly, after a dump and load, through upgrade-schema and check-schema",
    "outside": "infinite and not-a-number defaults, integers outside 64 bits (schema files cannot hold them)",
    "functions": ["types.materialize_type", "types.schema_from_namedtuple", "types.load_schema", "types.same_default", "schema_checker._dump_schema", "schema_checker._upgrade_schema", "schema_checker.SchemaChecker", "serde.asdict"],
    "assumptions": [],
}


def versioned(name, fields, version=1, rules=None, doc=None):
    ns = {"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules or {})}
    if doc:
        ns["__doc__"] = doc
    return make_dataclass(name, sorted(fields, key=lambda f: len(f) > 2), bases=(Versioned,), namespace=ns)


def judge(ctx, C):
    same_schema = t.materialize_type(C)
    ch = SchemaChecker(t.materialize_type(C), C)
    ctx.check(ch.changes == [] and ch.severity() is Severity.INFO, "a class differs from its own schema", changes=ch.changes)
    ctx.check(not ch.proposed_fixes, "a fix for an unchanged class", fixes=ch.proposed_fixes)
    d = ctx.tmp()
    path = d + "/s.ron"
    ok, e = ctx.attempt(dump_schema, path, C)
    ctx.check(ok, "the schema could not be dumped", error=e)
    text = read(path)
    ok, loaded = ctx.attempt(t.load_schema, path)
    ctx.check(ok, "a dumped schema could not be loaded", text=text, error=loaded)
    ctx.check(same_type(ctx, loaded, same_schema), "a dumped schema comes back as another", text=text, loaded=loaded, schema=same_schema)
    ok, ch = ctx.attempt(SchemaChecker, loaded, C)
    ctx.check(ok, "the checker failed on a dumped schema", text=text, error=ch)
    ctx.check(ch.changes == [] and ch.severity() is Severity.INFO, "a class differs from its dumped schema", changes=ch.changes, text=text)
    ok, out = ctx.attempt(upgrade_schema, path, C)
    ctx.check(ok, "upgrade-schema failed", error=out)
    ctx.check(read(path) == text, "upgrade-schema changed the file of an unchanged class", before=text, after=read(path))
    ctx.check("ncompatible" not in out, "upgrade-schema complains", out=out)
    out = io.StringIO()
    with redirect_stdout(out):
        SchemaChecker(t.load_schema(path), C).print_report()
    o = out.getvalue()
    ctx.check("compatible" in o and "ncompatible" not in o and "warn" not in o, "check-schema complains", out=o)


def same_type(ctx, a, b):
    "Whether two schemas are the same, the defaults by value."
    if type(a) is not type(b):
        return False
    if isinstance(a, t.Primitive):
        return a.type == b.type
    if isinstance(a, t.List):
        return same_type(ctx, a.inner, b.inner)
    if isinstance(a, t.Option):
        return same_type(ctx, a.type, b.type)
    if isinstance(a, t.Tuple):
        return len(a.inner) == len(b.inner) and all(same_type(ctx, x, y) for x, y in zip(a.inner, b.inner))
    if isinstance(a, t.Dict):
        return same_type(ctx, a.key, b.key) and same_type(ctx, a.val, b.val)
    if isinstance(a, t.Union):
        return len(a.types) == len(b.types) and all(same_type(ctx, x, y) for x, y in zip(a.types, b.types))
    if isinstance(a, t.Enum):
        return a.name == b.name and list(a.variants.items()) == list(b.variants.items())
    if isinstance(a, t.Literal):
        return [(type(x), x) for x in a.allowed_values] == [(type(x), x) for x in b.allowed_values]
    if isinstance(a, t.Struct):
        if a.name != b.name or a.version != b.version or list(a.fields) != list(b.fields):
            return False
        for k in a.fields:
            f, g = a.fields[k], b.fields[k]
            if f.name != g.name or f.has_default is not g.has_default or f.docstring != g.docstring:
                return False
            if not same_type(ctx, f.type, g.type) or not same_value(ctx, f.default, g.default):
                return False
        return True
    raise TypeError(type(a))


def same_value(ctx, a, b):
    return ctx.same(plain(a), plain(b))


def plain(v):
    "Values by their contents: how objects and enums are represented is free."
    if isinstance(v, enum.Enum):
        return v.value
    if is_dataclass(v):
        return (type(v).__name__, {k: plain(getattr(v, k)) for k in v.__dataclass_fields__})
    if isinstance(v, tuple) and hasattr(v, "_asdict"):
        return (type(v).__name__, {k: plain(x) for k, x in v._asdict().items()})
    if isinstance(v, (list, tuple)):
        return type(v)([plain(x) for x in v]) if type(v) in (list, tuple) else v
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    return v


def fld(ctx, name, typ, desc, how):
    if how == "none":
        return (name, typ)
    if how == "null":
        return (name, Optional[typ] if not is_optional(typ) else typ, None)
    v = build(desc)
    if how == "value" and not isinstance(v, (list, dict)):
        return (name, typ, v)
    return (name, typ, field(default_factory=lambda: build(desc)))


def is_optional(x):
    return typing.get_origin(x) is Union and type(None) in typing.get_args(x)


def shapes(ctx, depth, containers=CONTAINERS, leaves=LEAVES, hows=("none", "value", "null")):
    shape = choose_shape(ctx, "t", depth, leaves, containers)
    typ = to_type(shape)
    how = ctx.choose("default", list(hows))
    desc = choose_value(ctx, "d", shape, maxlen=1, strlen=1) if how == "value" else None
    C = versioned("Conf", [fld(ctx, "f", typ, desc, how), ("n", int, ctx.int("dn"))])
    ctx.reach(label(shape).split("_")[0])
    judge(ctx, C)


def nested(ctx):
    "Nested dataclasses, plain, optional, defaulted, listed, versioned, docs."
    P = [("a", int, ctx.int("a")), ("l", List[int], field(default_factory=lambda: [1, 2])), ("c", Color, Color.GREEN), ("o", Optional[str], None)]
    inner = ctx.choose("inner", ["plain", "versioned"])
    if inner == "plain":
        I = make_dataclass("Inner", P)
    else:
        I = versioned("Inner", P, ctx.choose("inner version", [0, 3]))
    Q = make_dataclass("Q", [("i", I), ("z", int, 4)])
    kind = ctx.choose("kind", ["plain", "optional", "object", "instance", "list", "dict", "tuple", "alts", "deep", "deep object", "list of objects", "two"])
    v = ctx.int("v")
    fields = {
        "plain": [("p", I)],
        "optional": [("p", Optional[I], None)],
        "object": [("p", I, field(default_factory=lambda: I(a=v, l=[])))],
        "instance": [("p", Optional[I], I(a=v))],
        "list": [("p", List[I])],
        "dict": [("p", Dict[str, I], field(default_factory=lambda: {"k": I(a=v)}))],
        "tuple": [("p", Tuple[I, int], (I(a=v), 3))],
        "alts": [("p", Union[I, Beta], Beta(v))],
        "deep": [("p", Q)],
        "deep object": [("p", Optional[Q], field(default_factory=lambda: Q(i=I(a=v))))],
        "list of objects": [("p", List[I], field(default_factory=lambda: [I(a=v), I()]))],
        "two": [("p", I), ("q", I, field(default_factory=lambda: I(a=v)))],
    }[kind]
    doc = ctx.choose("doc", [None, "Config.\n\n:param p: The p \"quoted\".\n:param x: Line one\n    and two.", ":param x:"])
    version = ctx.choose("version", [0, 2])
    rules = {0: [RenameField(("y",), ("x",)), ChangeDefault(("x",), 1, 2)], 1: [MapFieldValue(("x",), lambda x: x + 1)]} if version and ctx.flag("rules") else {}
    C = versioned("Conf", fields + [("x", int, ctx.int("x"))], version, rules, doc)
    ctx.reach(kind)
    judge(ctx, C)


def enums(ctx):
    "Enums and literals of all kinds of values, also as defaults inside others."
    mk = lambda *vals: enum.Enum("Kind", [("A%d" % i, v) for i, v in enumerate(vals)])
    E = ctx.choose("enum", [mk(1, 2), mk("a", "b"), mk("a b", 3), mk(-1), mk(1, 1, 2), mk("", "true"), mk(1.5, 2), mk("x", "None")])
    L = ctx.choose("literal", [Literal["a"], Literal["a", 1, True], Literal[1, 2], Literal["1", 1], Literal["a b", "None", ""], Literal[True], Literal[0, False]])
    place = ctx.choose("place", ["plain", "optional", "list", "dict", "key", "tuple", "object"])
    e = list(E)[ctx.choose("e", len(list(E)))]
    l = typing.get_args(L)[-1]
    O = make_dataclass("O", [("e", E), ("l", L)])
    fs = {
        "plain": [("e", E, e), ("l", L, l)],
        "optional": [("e", Optional[E], e), ("l", Optional[L], l)],
        "list": [("e", List[E], field(default_factory=lambda: [e])), ("l", List[L], field(default_factory=lambda: [l, l]))],
        "dict": [("e", Dict[str, E], field(default_factory=lambda: {"k": e})), ("l", Dict[str, L], field(default_factory=lambda: {"k": l}))],
        "key": [("e", Dict[E, int], field(default_factory=lambda: {e: 3}))],
        "tuple": [("e", Tuple[E, L], (e, l))],
        "object": [("e", O, field(default_factory=lambda: O(e, l)))],
    }[place]
    ctx.reach(place)
    judge(ctx, versioned("Conf", fs))


def kinds(ctx):
    "Dataclasses declared in every way."
    kind = ctx.choose("kind", KINDS)
    K = kind_class(kind, (ctx.int("a"), "s", [2]) if ctx.flag("defaults") else None)
    place = ctx.choose("place", ["object", "optional", "list", "dict", "tuple", "alternative"])
    T = placed(place, K)[0].__dataclass_fields__["f"].type
    k = lambda: K(ctx_i, "d", [])
    ctx_i = ctx.int("i")
    if ctx.flag("default as a whole"):
        f = ("f", T, field(default_factory=lambda: {"object": k(), "optional": k(), "list": [k()], "dict": {"x": k()}, "tuple": (k(), 1), "alternative": k()}[place]))
    else:
        f = ("f", T)
    ctx.reach(kind)
    judge(ctx, versioned("Conf", [f, ("n", int)]))


def texts(ctx):
    "Texts that look like something else, as defaults, in docs and as members."
    s = ctx.choose("text", NOTABLE)
    place = ctx.choose("place", list(TEXTS) + ["doc", "enum", "literal"])
    doc = None
    if place == "doc":
        f, doc = ("v", int), "Config.\n\n:param v: The %s thing." % s.strip().replace("\r", "").replace("\n", "")
    elif place == "enum":
        ctx.assume(s != "" and not s.startswith("!"))
        E = enum.Enum("Kind", [("A", s), ("B", "b"), ("C", 3)])
        f = ("v", List[E], field(default_factory=lambda: [E.A, E.C]))
    elif place == "literal":
        f = ("v", Literal[s, "b", 3], s)
    else:
        ctx.assume(place != "key" or s not in ("!__name__", "!weak ref"))  # reserved
        T, make = TEXTS[place]
        f = ("v", T, field(default_factory=lambda: make(s)))
    ctx.reach(place)
    judge(ctx, versioned("Conf", [f, ("n", int, ctx.int("n"))], doc=doc))


CASES = (
    [{"name": "one type deep", "fn": shapes, "params": {"depth": 1}, "reach": LEAVES[:4] + ["list", "opt", "obj", "alts"], "quick_s": 60, "shards": 2, "depth": 2, "max_witnesses": 200}]
    + [{"name": "unions", "fn": shapes, "params": {"depth": 1, "leaves": UNIONS + MIXED, "containers": ["list", "opt", "obj"], "hows": ["none", "value"]}, "reach": ["list"], "quick_s": 60, "max_witnesses": 100}]
    + [{"name": "two deep, " + c, "fn": shapes, "params": {"depth": 2, "containers": [c, "list"] if c != "list" else ["list", "dict"], "leaves": ["int", "str", "color"], "hows": ["none", "value"]}, "quick_s": 60, "max_witnesses": 80, "reach": [c]} for c in CONTAINERS]
    + [{"name": "nested", "fn": nested, "reach": ["plain", "deep object", "alts"], "quick_s": 60, "shards": 2, "max_witnesses": 100}]
    + [{"name": "enums", "fn": enums, "reach": ["plain", "key", "object"], "quick_s": 60, "shards": 2, "max_witnesses": 100}]
    + [{"name": "texts", "fn": texts, "reach": list(TEXTS) + ["doc", "enum", "literal"], "quick_s": 60, "shards": 2, "max_witnesses": 60}]
    + [{"name": "kinds", "fn": kinds, "reach": KINDS, "quick_s": 60, "shards": 2, "max_witnesses": 100}]
    + [{"name": "all two deep", "fn": shapes, "params": {"depth": 2}, "reach": ["list"], "thorough_only": True, "thorough_s": 800, "shards": 16, "depth": 3}]
)
