"""C32: equal configs have the same text, in the order of the class."""
from dataclasses import MISSING
from pathlib import Path
import hyperstate
import pyron
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "every type of C01 up to 1 level of containers (thorough: 2), at the top and inside a nested object, with fields whose names are not in alphabetical order, fields with symbolic defaults and values, plain and versioned classes at both levels, unions and alternatives; dataclasses declared in 17 ways; in full and with defaults left out; dumped twice, from another equal object, after loading, as text and to a file given as text or path, also over an existing file that is longer, shorter or of the same length",
    "outside": "as C01; objects that are equal but list the entries of a dictionary in another order, and numbers that are not of their field's type",
    "functions": ["serde.asdict", "serde.to_namedtuple", "serde.dumps", "serde.dump", "hyperstate._typed_dump", "hyperstate.ElideDefaults", "versioned.VersionedSerializer.modify_dataclass_attrs"],
    "assumptions": ["pyron writes equal trees as equal texts and reads them back in their order"],
}


def made(name, fields, version):
    if version is None:
        return make_dataclass(name, fields)
    return make_dataclass(name, fields, bases=(Versioned,), namespace={"version": classmethod(lambda c: version)})


def default_of(f):
    if f.default is not MISSING:
        return True, f.default
    if f.default_factory is not MISSING:
        return True, f.default_factory()
    return False, None


def follows(ctx, doc, v, elide):
    "What is wrong with the order or the names in a document, if anything."
    if is_dataclass(v):
        names = ["version"] if isinstance(v, Versioned) else []
        for n, f in type(v).__dataclass_fields__.items():
            has, d = default_of(f)
            if not (elide and has and ctx.same(getattr(v, n), d)):
                names.append(n)
        if not names:
            return None
        if list(getattr(doc, "_fields", ["?"])) != names:
            return "the fields are not those of the class in their order"
        if type(doc).__name__ != type(v).__name__:
            return "an object is not named after its class"
        for n in names:
            r = None if n == "version" else follows(ctx, getattr(doc, n), getattr(v, n), elide)
            if r:
                return r
        if names[0] == "version" and doc.version != type(v).version():
            return "the version is not that of the class"
    elif isinstance(v, dict):
        if not ctx.same(list(doc), [k.value if isinstance(k, enum.Enum) else k for k in v]):
            return "the entries of a dictionary are not in their order"
        for a, b in zip(doc.values(), v.values()):
            r = follows(ctx, a, b, elide)
            if r:
                return r
    elif isinstance(v, (list, tuple)):
        for a, b in zip(doc, v):
            r = follows(ctx, a, b, elide)
            if r:
                return r
    return None


def judge(ctx, R, mk, file=True):
    elide = ctx.flag("elide")
    obj = mk()
    text = hyperstate.dumps(obj, elide_defaults=elide)
    ctx.check(hyperstate.dumps(obj, elide_defaults=elide) == text, "a second dump differs", first=text)
    ctx.check(hyperstate.dumps(mk(), elide_defaults=elide) == text, "the dump of an equal object differs", first=text)
    bad = follows(ctx, pyron.loads(text, preserve_structs=True), obj, elide)
    ctx.check(bad is None, bad or "", text=text)
    back = hyperstate.loads(R, text)
    again = hyperstate.dumps(back, elide_defaults=elide)
    ctx.check(again == text, "the dump of the loaded object differs", first=text, second=again)
    if file:
        path = ctx.tmp() + "/c.ron"
        old = ctx.choose("file", ["new", "longer", "shorter", "of this length"])
        if old != "new":
            write(path, text + "\n" * 3 + "junk)" if old == "longer" else text[:5] if old == "shorter" else "x" * len(text))
        hyperstate.dump(obj, Path(path) if ctx.flag("path object") else path, elide_defaults=elide)
        ctx.check(read(path) == text, "the file is not the text of the dump", text=text, file=read(path))
        ctx.check(os.listdir(os.path.dirname(path)) == ["c.ron"], "other files were written")
    ctx.reach("left out" if elide else "full")


def types(ctx, depth, leaves=LEAVES, containers=CONTAINERS, file=False, free=False):
    shape = choose_shape(ctx, "t", depth, leaves, containers)
    desc = choose_value(ctx, "v", shape, 2)
    T = to_type(shape)
    outer, inner = ctx.choose("versions", [(None, None), (3, None), (None, 2), (0, 5)])
    d, e = (ctx.int("d"), ctx.str("e", 1, 1)) if free else (5, "s")
    In = made("In", [("q", int), ("c", T), ("b", str, e)], inner)
    R = made("Root", [("z", T), ("m", In), ("y", int, d), ("k", Optional[In], None), ("a", int, 3)], outer)
    y, q, b = ctx.int("y"), ctx.int("q") if free else 3, ctx.str("b", 1, 1) if free else "t"
    some = ctx.flag("some")
    judge(ctx, R, lambda: R(build(desc), In(q, build(desc)), y, In(y, build(desc), b) if some else None, q), file)


def kinds(ctx):
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", PLACES)
    K = kind_class(kind, (1, "s", [2]) if ctx.flag("defaults") else None)
    R, make = placed(place, K)
    i, j, w = ctx.int("i"), ctx.int("j"), ctx.int("w")
    s = ctx.str("s", 1, 1)
    ctx.reach(kind)
    judge(ctx, R, lambda: make(lambda: K(i, s, [j]), lambda: K(j, "x", []), w), False)


CASES = [
    {"name": "leaves", "fn": types, "params": {"depth": 0, "leaves": LEAVES + UNIONS + MIXED}, "reach": ["left out", "full"], "quick_s": 90, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "containers", "fn": types, "params": {"depth": 1, "leaves": ["int", "str", "color"]}, "reach": ["left out", "full"], "quick_s": 90, "shards": 4, "depth": 3, "max_witnesses": 80},
    {"name": "defaults", "fn": types, "params": {"depth": 0, "leaves": ["int", "str", "level"], "free": True}, "reach": ["left out", "full"], "quick_s": 60, "shards": 2, "depth": 2, "max_witnesses": 60},
    {"name": "files", "fn": types, "params": {"depth": 0, "leaves": ["int", "word"], "file": True}, "reach": ["left out", "full"], "quick_s": 60, "max_witnesses": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": KINDS, "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 60},
    {"name": "deep", "fn": types, "params": {"depth": 2, "leaves": ["int", "color"]}, "reach": ["left out", "full"], "thorough_only": True, "thorough_s": 700, "shards": 32, "depth": 4},
    {"name": "free", "fn": types, "params": {"depth": 1, "leaves": LEAVES, "free": True, "file": True}, "reach": ["left out", "full"], "thorough_only": True, "thorough_s": 700, "shards": 32, "depth": 4},
]
