"""C11: a schema reported compatible really loads every old config."""
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.schema_checker import SchemaChecker
from props.evolve import *
from props.C14 import FEW, LEAF, WRAP, pick, val

META = {
    "bounds": "pairs of an old and a new class that differ in the type, the default (symbolic, present or not), the presence of one or two fields (19 kinds of field: numbers, optional, list, string, enum, literal, nested objects, plain or optional or defaulted), at the top or inside plain, optional, defaulted, listed, dictionary, tuple and optional-list objects, which may change kind as well; all enum edits (members added, removed, renamed, re-valued, symbolic choice of values) and literal edits at every container depth up to 1; old configs with symbolic values in full or elided; the old schema from the class or from its schema file",
    "outside": "more than two changed fields; versioned objects nested in configs; integers beyond 2**53 in fields that become floats; classes with upgrade rules (C13)",
    "functions": ["schema_checker.SchemaChecker", "schema_checker.SchemaChecker._find_changes", "schema_change.*.severity", "types.*.is_subtype", "types.same_default", "types.materialize_type", "types.load_schema", "serde.from_dict"],
    "assumptions": [],
}


def verdict(ctx, Old, New, objs, how="class", what=""):
    """If the checker reports INFO, the old configs must load."""
    ch = SchemaChecker(schema_of(ctx, Old, how), New)
    sev = ch.severity()
    ctx.observe("severity", sev.name)
    if sev is not Severity.INFO:
        ctx.reach("reported")
        return
    ctx.reach("compatible")
    obj = objs()
    for elide in (False, True):
        text = hyperstate.dumps(obj, elide_defaults=elide)
        ok, r = ctx.attempt(hyperstate.loads, New, text)
        ctx.check(ok, "a config of a compatible schema was refused", what=what, text=text, error=r, changes=ch.changes)
        ctx.check(kept(ctx, obj, r), "a config of a compatible schema changed", what=what, text=text, loaded=r, changes=ch.changes)


def types(ctx, place, depth_a, depth_b, leaves, wraps, defaults=("none", "same"), how="class"):
    "The type of a field changes to another."
    na, A = pick(ctx, "a", depth_a, leaves, wraps)
    nb, B = pick(ctx, "b", depth_b, leaves, wraps)
    d = ctx.choose("default", list(defaults))
    v = val(ctx, "v", A)
    da = db = []
    if d != "none":
        dv = val(ctx, "d", A)
        da = db = [("v", dv)]
    pd = {"f": v}
    Old, mk = around(place, [fld("f", A, *da)], pdefault=pd)
    New, _ = around(place, [fld("f", B, *db)], pdefault=pd)
    verdict(ctx, Old, New, lambda: mk({"f": v}), how, (na, nb))


KINDS = ["none", "int", "int=", "float", "float=", "bool=", "str=", "opt", "opt=", "opt=int", "list", "list=", "enum=", "word=", "sub", "sub=", "opt sub", "sub=obj", "opt sub=obj"]


def variant(ctx, name, kind, tag):
    "A field of a kind: its declaration and a symbolic value."
    Sub = make_dataclass("Sub", [("k", int)])
    d = lambda: ctx.int(tag + "default " + name, -(2 ** 53), 2 ** 53)
    Def = lambda: make_dataclass("Sub", [("k", int, d())])
    if kind == "none":
        return None
    return {
        "int": lambda: (name, int),
        "int=": lambda: (name, int, d()),
        "float": lambda: (name, float),
        "float=": lambda: (name, float, ctx.real(tag + "default " + name)),
        "bool=": lambda: (name, bool, ctx.flag(tag + "default " + name)),
        "str=": lambda: (name, str, ctx.str(tag + "default " + name, 1)),
        "opt": lambda: (name, Optional[int]),
        "opt=": lambda: (name, Optional[int], None),
        "opt=int": lambda: (name, Optional[int], d()),
        "list": lambda: (name, List[int]),
        "list=": lambda: lst(name, d(), ctx.flag(tag + "empty " + name)),
        "enum=": lambda: (name, Color, ctx.choose(tag + "default " + name, list(Color))),
        "word=": lambda: (name, Literal["on", "off"], ctx.choose(tag + "default " + name, ["on", "off"])),
        "sub": lambda: (name, Sub),
        "sub=": lambda: (name, Def()),
        "opt sub": lambda: (name, Optional[Sub], None),
        "sub=obj": lambda: obj(name, Sub, Sub, d()),
        "opt sub=obj": lambda: obj(name, Optional[Sub], Sub, d()),
    }[kind]()


def lst(name, d, empty):
    return (name, List[int], field(default_factory=lambda: [] if empty else [d]))


def obj(name, T, C, d):
    return (name, T, field(default_factory=lambda: C(d)))


def vary(ctx, place, kinds, n=1, how="class", kinds2=None):
    "Fields come, go, change type and default."
    olds, news, values = [], [], {}
    for i in range(n):
        ks = kinds if i == 0 or not kinds2 else kinds2
        name = ["alpha", "alpha_b"][i]
        a, b = ctx.choose("old %d" % i, ks), ctx.choose("new %d" % i, ks)
        fa, fb = variant(ctx, name, a, "old "), variant(ctx, name, b, "new ")
        if fa:
            olds.append(fa)
            if len(fa) > 2 and ctx.flag("default value %d" % i):
                values[name] = default(fa)
            else:
                values[name] = val(ctx, "v%d" % i, fa[1])
        if fb:
            news.append(fb)
    pd = dict(values)
    Old, mk = around(place, olds, pdefault=pd)
    missing_new = [f[0] for f in news if len(f) < 3 and f[0] not in values]
    if place == "defaulted":
        if missing_new:
            return
        pn = {f[0]: values[f[0]] for f in news if f[0] in values}
        if any(f[0] in values and not ctx_conforms(values[f[0]], f[1]) for f in news):
            return
    else:
        pn = None
    New, _ = around(place, news, pdefault=pn)
    there = not (can_be_missing(place) and ctx.flag("nothing there"))
    verdict(ctx, Old, New, lambda: mk(values if there else None), how)


def ctx_conforms(v, t_):
    try:
        return conforms(v, t_)
    except TypeError:
        return False


def default(f):
    d = f[2]
    if hasattr(d, "default_factory"):
        return d.default_factory()
    return d


def places(ctx, kinds, old_places=None, how="class"):
    "The object holding a field changes its kind as well."
    ps = [p for p in PLACES if p not in ("top", "deep")]
    a, b = ctx.choose("old place", old_places or ps), ctx.choose("new place", ps)
    ka, kb = ctx.choose("old", kinds), ctx.choose("new", kinds)
    fa, fb = variant(ctx, "alpha", ka, "old "), variant(ctx, "alpha", kb, "new ")
    values = {}
    if fa:
        values["alpha"] = default(fa) if len(fa) > 2 and ctx.flag("default value") else val(ctx, "v", fa[1])
    news = [fb] if fb else []
    if b == "defaulted" and fb and not ("alpha" in values and ctx_conforms(values["alpha"], fb[1]) or len(fb) > 2):
        return
    Old, mk = around(a, [fa] if fa else [], pdefault=dict(values))
    New, _ = around(b, news, pdefault=dict(values) if fb and "alpha" in values and ctx_conforms(values["alpha"], fb[1]) else {})
    there = not (can_be_missing(a) and ctx.flag("nothing there"))
    verdict(ctx, Old, New, lambda: mk(values if there else None), how, (a, b))


WRAPPERS = {
    "plain": (lambda E: E, lambda e: e),
    "optional": (lambda E: Optional[E], lambda e: e),
    "list": (lambda E: List[E], lambda e: [e]),
    "dict": (lambda E: Dict[str, E], lambda e: {"k": e}),
    "key": (lambda E: Dict[E, int], lambda e: {e: 1}),
    "tuple": (lambda E: Tuple[int, E], lambda e: (2, e)),
    "object": (lambda E: make_dataclass("O", [("e", E)]), None),
    "optional list": (lambda E: Optional[List[E]], lambda e: [e]),
}


def enums(ctx, how="class", members=(0, 1, 2)):
    "Members added, removed, renamed, re-valued."
    vals = ["a", "b", 3]
    old, new = [], []
    for i in members:
        v = ctx.choose("old member%d" % i, [None] + vals)
        if v is not None and v not in [x for _, x in old]:
            old.append(("M%d" % i, v))
        v = ctx.choose("new member%d" % i, [None] + vals)
        if v is not None and v not in [x for _, x in new]:
            new.append(("M%d" % i, v))
    if not old or not new:
        return
    A, B = enum.Enum("Kind", old), enum.Enum("Kind", new)
    w = ctx.choose("wrap", list(WRAPPERS))
    T, put = WRAPPERS[w]
    TA, TB = T(A), T(B)
    put = put or (lambda e: TA(e))
    e = ctx.choose("e", list(A))
    with_default = ctx.flag("default") and w in ("plain", "optional")
    fa = ("e", TA, list(A)[0]) if with_default else ("e", TA)
    fb = ("e", TB, list(B)[0]) if with_default else ("e", TB)
    Old, New = conf([fa, ("k", int, 7)]), conf([fb, ("k", int, 7)])
    verdict(ctx, Old, New, lambda: Old(e=put(e)), how, (old, new, w))


def literals(ctx, how="class"):
    vals = ["a", "b", 1, True]
    old = [v for i, v in enumerate(vals) if ctx.flag("old%d" % i)]
    new = [v for i, v in enumerate(vals) if ctx.flag("new%d" % i)]
    if not old or not new:
        return
    A, B = Literal[tuple(old)], Literal[tuple(new)]
    w = ctx.choose("wrap", list(WRAPPERS))
    T, put = WRAPPERS[w]
    TA, TB = T(A), T(B)
    put = put or (lambda e: TA(e))
    e = ctx.choose("e", old)
    d = ctx.choose("default", ["none", "first", "last"]) if w in ("plain", "optional") else "none"
    at = {"first": 0, "last": -1}
    fa = ("e", TA, old[at[d]]) if d != "none" else ("e", TA)
    fb = ("e", TB, new[at[d]]) if d != "none" else ("e", TB)
    Old, New = conf([fa, ("k", int, 7)]), conf([fb, ("k", int, 7)])
    verdict(ctx, Old, New, lambda: Old(e=put(e)), how, (old, new, w))


SIMPLE = ["none", "int", "int=", "opt="]
ALLP = [p for p in PLACES]
RR = ["compatible", "reported"]
CASES = (
    [{"name": "types", "fn": types, "params": {"place": "top", "depth_a": 0, "depth_b": 1, "leaves": list(LEAF), "wraps": list(WRAP)}, "reach": RR, "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 150}]
    + [{"name": "container types", "fn": types, "params": {"place": "top", "depth_a": 1, "depth_b": 1, "leaves": ["int", "float", "L 1", "S x", "S xy="], "wraps": list(WRAP), "defaults": ["none"]}, "reach": RR, "quick_s": 60, "shards": 2, "depth": 2, "max_witnesses": 100}]
    + [{"name": "fields, " + p, "fn": vary, "params": {"place": p, "kinds": KINDS if p in ("top", "plain") else ["none", "int", "int=", "float", "opt=", "opt=int", "sub=", "opt sub"]}, "reach": RR, "quick_s": 60, "shards": 2 if p in ("top", "plain") else 1, "max_witnesses": 60} for p in PLACES]
    + [{"name": "two fields", "fn": vary, "params": {"place": "top", "kinds": ["none", "int", "int=", "opt="], "n": 2}, "reach": RR, "quick_s": 60, "max_witnesses": 60}]
    + [{"name": "places", "fn": places, "params": {"kinds": SIMPLE}, "reach": RR, "quick_s": 60, "shards": 2, "max_witnesses": 60}]
    + [{"name": "from a file", "fn": vary, "params": {"place": "plain", "kinds": ["none", "int=", "list=", "enum=", "word=", "sub=obj", "opt sub=obj"], "how": "file"}, "reach": RR, "quick_s": 60, "shards": 2, "max_witnesses": 60}]
    + [{"name": "enums", "fn": enums, "params": {"members": [0, 1]}, "reach": RR, "quick_s": 60, "shards": 2, "max_witnesses": 60}]
    + [{"name": "literals", "fn": literals, "params": {}, "reach": RR, "quick_s": 60, "shards": 2, "max_witnesses": 60}]
    + [{"name": "more types, " + p, "fn": types, "params": {"place": p, "depth_a": 1, "depth_b": 1, "leaves": list(LEAF), "wraps": ["list", "opt", "tup", "dict"]}, "reach": RR, "thorough_only": True, "thorough_s": 300, "shards": 6, "depth": 2} for p in ("top", "optional", "list")]
    + [{"name": "all fields, " + p, "fn": vary, "params": {"place": p, "kinds": KINDS}, "reach": RR, "thorough_only": True, "thorough_s": 200, "shards": 2} for p in PLACES[2:]]
    + [{"name": "two fields of all kinds", "fn": vary, "params": {"place": p, "kinds": KINDS, "kinds2": ["none", "int", "int=", "opt="], "n": 2}, "reach": RR, "thorough_only": True, "thorough_s": 300, "shards": 6, "depth": 3} for p in ("top", "optional")]
    + [{"name": "places of all kinds", "fn": places, "params": {"kinds": KINDS}, "reach": RR, "thorough_only": True, "thorough_s": 300, "shards": 6, "depth": 3}]
    + [{"name": "enums of three", "fn": enums, "params": {"members": [0, 1, 2]}, "reach": RR, "thorough_only": True, "thorough_s": 300, "shards": 4, "depth": 4}]
)
