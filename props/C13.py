"""C13: the upgrade rules proposed for a change do migrate old configs."""
from hyperstate.schema.rewrite_rule import MapFieldValue
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.schema_checker import SchemaChecker
from props.evolve import *
from props.C11 import default, variant
from props.C14 import val

META = {
    "bounds": "one change at a time (a rename or move may be of an object of up to 2 fields): fields of 16 kinds with and without symbolic defaults, renamed to similar and abbreviated names, moved between the top, plain, optional and doubly nested objects, existing or new; defaults changed or removed; values of plain and optional enums changed or swapped with new ones, with and without defaults; values of plain, optional and listed literal types dropped or swapped with new ones; optional and list fields added; fields and objects deleted; values turned into lists; old configs with symbolic values in full or elided; the old schema from the class or its file; a sibling in every object",
    "outside": "several changes at once; elements of lists and dictionaries; objects with default instances of their own when something moves; moving out of an object that is null into a place without default; integers beyond 2**53 in fields that become floats",
    "functions": ["schema_checker.SchemaChecker", "schema_change.*.proposed_fix", "rewrite_rule.*", "versioned.Versioned._apply_upgrades", "versioned.Versioned._apply_schema_upgrades", "serde.from_dict"],
    "assumptions": [],
}


def judge(ctx, Old, New, obj, expect, how="class", check_passes=True, what=""):
    """Old and New are classes, New a function of version and rules; `expect`
    makes the object an old config should load as."""
    ch = SchemaChecker(schema_of(ctx, Old, how), New(1, {}))
    rules = ch.proposed_fixes
    N = New(1, {0: rules})
    ctx.observe("rules", [type(r).__name__ for r in rules])
    if check_passes:
        ok, again = ctx.attempt(SchemaChecker, schema_of(ctx, Old, how), N)
        ctx.check(ok, "the proposed rules fail on the schema", what=what, rules=rules, error=again)
        ctx.check(again.severity() is Severity.INFO, "the schema check does not pass with the proposed rules", what=what, rules=rules, changes=again.changes, before=ch.changes)
    for elide in (False, True):
        text = hyperstate.dumps(obj, elide_defaults=elide)
        ok, r = ctx.attempt(hyperstate.loads, N, text)
        ctx.check(ok, "an old config was refused", what=what, text=text, rules=rules, error=r)
        e = expect(N)
        ctx.check(both(kept(ctx, e, r), kept(ctx, r, e)), "an old config lost a value", what=what, text=text, rules=rules, loaded=r, expect=e)
    for r in rules:
        if isinstance(r, MapFieldValue):
            ctx.check(bool(r.rendered), "a proposed map cannot be written down", rule=r)


KINDS = ["int", "int=", "float=", "bool=", "str=", "opt", "opt=", "opt=int", "list", "list=", "enum=", "word=", "sub", "sub=", "opt sub", "opt sub=obj"]


def value(ctx, f, name="v"):
    if len(f) > 2 and ctx.flag(name + " is default"):
        return default(f)
    return val(ctx, name, f[1])


def world(place, fields, parent_fields=None, null=False):
    "The function from version and rules to a class with fields at a place."
    s = [("s", int, 3)]

    def make(version=0, rules=None):
        k = [("k", int, 7)]
        if place == "top":
            return conf(fields + k, version, rules)
        P = make_dataclass("P", fields_in_order(fields + s))
        if place == "deep":
            return conf([("q", make_dataclass("Q", [("p", P)]))] + k, version, rules)
        return conf([("p", P) if place == "plain" else ("p", Optional[P], None)] + k, version, rules)

    return make


def put(C, place, vals, **kw):
    "A config with values at a place (None: a null object)."
    f = C.__dataclass_fields__
    if place == "top":
        return C(**dict(vals, **kw))
    if place == "deep":
        Q = f["q"].type
        return C(q=Q(Q.__dataclass_fields__["p"].type(**vals)), **kw)
    P = f["p"].type
    if place == "optional":
        P = typing.get_args(P)[0]
    return C(p=P(**vals) if vals is not None else None, **kw)


NAMES = [("alpha", "alpha_b"), ("learning_rate", "lr"), ("lr", "learning_rate"), ("stepsize", "step_size"), ("width", "Width"), ("batch", "batches")]


def siblings(ctx, place):
    given = ctx.flag("siblings given")
    kw = {"k": ctx.int("k")} if given else {}
    s = {"s": ctx.int("s")} if place != "top" and given else {}
    return s, kw


def rename(ctx, place, kinds, names=NAMES, how="class"):
    a, b = ctx.choose("names", names)
    f = variant(ctx, a, ctx.choose("kind", kinds), "")
    v = value(ctx, f)
    g = (b,) + f[1:]
    Old, New = world(place, [f]), world(place, [g])
    if place == "optional" and ctx.flag("null"):
        kw = siblings(ctx, "top")[1]
        judge(ctx, Old(), New, put(Old(), place, None, **kw), lambda N: put(N, place, None, **kw), how)
        return
    s, kw = siblings(ctx, place)
    ctx.reach("renamed")
    O = Old()
    judge(ctx, O, New, put(O, place, dict(s, **{a: v}), **kw), lambda N: put(N, place, dict(s, **{b: v}), **kw), how, what=(place, f[1]))


MOVES = ["top to p", "p to top", "p to n", "top to new", "p to new", "p renamed", "optional p renamed", "top to optional", "optional to top", "top to new optional", "deep to top", "deep to p", "q renamed", "new parent", "parent dropped"]


def move(ctx, kinds, moves=MOVES, how="class"):
    m = ctx.choose("move", moves)
    kind = ctx.choose("kind", kinds)
    f = variant(ctx, "alpha", kind, "")
    v = value(ctx, f)
    w, z = ctx.int("w"), ctx.int("z")
    P = lambda fs, name="P": make_dataclass(name, fields_in_order(fs))
    s, n, k = ("s", int, 3), ("num", int, 4), ("k", int, 7)
    given = ctx.flag("siblings given")
    sv = {"s": w} if given else {}
    kv = {"k": z} if given else {}
    has = len(f) > 2
    if m == "top to p":
        A, B = P([s]), P([s, f])
        Old, New = (lambda v=0, r=None: conf([f, ("p", A), k], v, r)), (lambda v=0, r=None: conf([("p", B), k], v, r))
        o, e = (lambda C: C(alpha=v, p=A(**sv), **kv)), (lambda C: C(p=B(alpha=v, **sv), **kv))
    elif m == "p to top":
        A, B = P([s, f]), P([s])
        Old, New = (lambda v=0, r=None: conf([("p", A), k], v, r)), (lambda v=0, r=None: conf([f, ("p", B), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), **kv)), (lambda C: C(alpha=v, p=B(**sv), **kv))
    elif m == "p to n":
        A, B, A2, B2 = P([s, f]), P([n], "N"), P([s]), P([n, f], "N")
        Old, New = (lambda v=0, r=None: conf([("p", A), ("n", B), k], v, r)), (lambda v=0, r=None: conf([("p", A2), ("n", B2), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), n=B(**{"num": z}), **kv)), (lambda C: C(p=A2(**sv), n=B2(alpha=v, **{"num": z}), **kv))
    elif m == "top to new":
        B = P([f], "N")
        Old, New = (lambda v=0, r=None: conf([f, k], v, r)), (lambda v=0, r=None: conf([("n", B), k], v, r))
        o, e = (lambda C: C(alpha=v, **kv)), (lambda C: C(n=B(v), **kv))
    elif m == "p to new":
        A, A2, B = P([s, f]), P([s]), P([f], "N")
        Old, New = (lambda v=0, r=None: conf([("p", A), k], v, r)), (lambda v=0, r=None: conf([("p", A2), ("n", B), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), **kv)), (lambda C: C(p=A2(**sv), n=B(v), **kv))
    elif m == "p renamed":
        A = P([s, f])
        Old, New = (lambda v=0, r=None: conf([("p", A), k], v, r)), (lambda v=0, r=None: conf([("r", A), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), **kv)), (lambda C: C(r=A(alpha=v, **sv), **kv))
    elif m == "optional p renamed":
        A = P([s, f])
        d = () if ctx.flag("no default") else (None,)
        Old, New = (lambda v=0, r=None: conf([("part", Optional[A]) + d, k], v, r)), (lambda v=0, r=None: conf([("parts", Optional[A]) + d, k], v, r))
        null = ctx.flag("null")
        x = lambda: None if null else A(alpha=v, **sv)
        o, e = (lambda C: C(part=x(), **kv)), (lambda C: C(parts=x(), **kv))
    elif m == "top to optional":
        A, B = P([s]), P([s, f])
        Old, New = (lambda v=0, r=None: conf([f, ("p", Optional[A], None), k], v, r)), (lambda v=0, r=None: conf([("p", Optional[B], None), k], v, r))
        # the value has no place to go when the object is null
        o, e = (lambda C: C(alpha=v, p=A(**dict({"s": w}, **sv)), **kv)), (lambda C: C(p=B(alpha=v, **dict({"s": w}, **sv)), **kv))
    elif m == "optional to top":
        A, B = P([s, f]), P([s])
        Old, New = (lambda v=0, r=None: conf([("p", Optional[A], None), k], v, r)), (lambda v=0, r=None: conf([f, ("p", Optional[B], None), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), **kv)), (lambda C: C(alpha=v, p=B(**sv), **kv))
    elif m == "top to new optional":
        # a new optional object: the field it used to be is gone, by design
        return
    elif m in ("deep to top", "deep to p"):
        A, A2 = P([s, f]), P([s])
        Q, Q2 = make_dataclass("Q", [("p", A), ("c", int, 1)]), make_dataclass("Q", [("p", A2), ("c", int, 1)])
        if m == "deep to top":
            Old, New = (lambda v=0, r=None: conf([("q", Q), k], v, r)), (lambda v=0, r=None: conf([f, ("q", Q2), k], v, r))
            o, e = (lambda C: C(q=Q(A(alpha=v, **sv)), **kv)), (lambda C: C(alpha=v, q=Q2(A2(**sv)), **kv))
        else:
            Q2 = make_dataclass("Q", fields_in_order([("p", A2), ("c", int, 1), f]))
            Old, New = (lambda v=0, r=None: conf([("q", Q), k], v, r)), (lambda v=0, r=None: conf([("q", Q2), k], v, r))
            o, e = (lambda C: C(q=Q(A(alpha=v, **sv)), **kv)), (lambda C: C(q=Q2(p=A2(**sv), alpha=v), **kv))
    elif m == "q renamed":
        A = P([s, f])
        Q = make_dataclass("Q", [("p", A), ("c", int, 1)])
        Old, New = (lambda v=0, r=None: conf([("q", Q), k], v, r)), (lambda v=0, r=None: conf([("u", Q), k], v, r))
        o, e = (lambda C: C(q=Q(A(alpha=v, **sv), z), **kv)), (lambda C: C(u=Q(A(alpha=v, **sv), z), **kv))
    elif m == "new parent":
        A = P([s, f])
        Q = make_dataclass("Q", [("p", A)])
        Old, New = (lambda v=0, r=None: conf([("p", A), k], v, r)), (lambda v=0, r=None: conf([("q", Q), k], v, r))
        o, e = (lambda C: C(p=A(alpha=v, **sv), **kv)), (lambda C: C(q=Q(A(alpha=v, **sv)), **kv))
    elif m == "parent dropped":
        A = P([s, f])
        Q = make_dataclass("Q", [("p", A)])
        Old, New = (lambda v=0, r=None: conf([("q", Q), k], v, r)), (lambda v=0, r=None: conf([("p", A), k], v, r))
        o, e = (lambda C: C(q=Q(A(alpha=v, **sv)), **kv)), (lambda C: C(p=A(alpha=v, **sv), **kv))
    else:
        raise KeyError(m)
    ctx.reach(m)
    O = Old()
    judge(ctx, O, New, o(O), e, how, what=(m, kind))


def defaults(ctx, place, kinds, how="class"):
    "A default changes or goes away."
    kind = ctx.choose("kind", kinds)
    f = variant(ctx, "alpha", kind, "old ")
    removed = ctx.flag("removed")
    g = f[:2] if removed else variant(ctx, "alpha", kind, "new ")
    v = value(ctx, f)
    Old, New = world(place, [f]), world(place, [g])
    s, kw = siblings(ctx, place)
    vals = None if place == "optional" and ctx.flag("null") else dict(s, alpha=v)
    ctx.reach("removed" if removed else "changed")
    O = Old()
    judge(ctx, O, New, put(O, place, vals, **kw), lambda N: put(N, place, vals, **kw), how, what=(place, kind))


def object_default(ctx, how="class"):
    "The default of a whole object changes, is added, or goes away."
    A = make_dataclass("A", [("x", int), ("y", int, 2)])
    a, b = ctx.int("a"), ctx.int("b")
    T = ctx.choose("type", ["plain", "optional"])
    T = A if T == "plain" else Optional[A]
    change = ctx.choose("change", ["value", "removed", "to null", "from null"])
    if T is A and "null" in change:
        return
    da = None if change == "from null" else A(a)
    fa = ("p", T, field(default_factory=lambda: deepcopy(da)))
    if change == "removed":
        fb = ("p", T)
    else:
        db = None if change == "to null" else A(b)
        fb = ("p", T, field(default_factory=lambda: deepcopy(db)))
    place = ctx.choose("place", ["top", "deep"])
    Old, New = world(place, [fa]), world(place, [fb])
    v = da if ctx.flag("default") else A(ctx.int("x"), ctx.int("y"))
    s, kw = siblings(ctx, place)
    O = Old()
    ctx.reach(change)
    judge(ctx, O, New, put(O, place, dict(s, p=deepcopy(v)), **kw), lambda N: put(N, place, dict(s, p=deepcopy(v)), **kw), how)


def enums(ctx, place, how="class", few=False):
    "The value of an enum member changes."
    x, y = ctx.choose("x", ["a", 3]), "b b"
    new = ctx.choose("new", ["c", 7] if few else ["c", "", 7, True, "it's"])
    A = enum.Enum("Kind", [("X", x), ("Y", y)])
    B = enum.Enum("Kind", [("X", new), ("Y", y)])
    T = ctx.choose("type", ["plain", "optional"])
    d = ctx.choose("default", ["none", "X", "Y", "null"] if T == "optional" else ["none", "X", "Y"])
    wrap = (lambda E: E) if T == "plain" else (lambda E: Optional[E])
    fld_ = lambda E: ("alpha", wrap(E)) + (() if d == "none" else (None,) if d == "null" else (E[d],))
    m = ctx.choose("m", ["X", "Y", None] if T == "optional" else ["X", "Y"])
    Old, New = world(place, [fld_(A)]), world(place, [fld_(B)])
    s, kw = siblings(ctx, place)
    null = place == "optional" and ctx.flag("null")
    O = Old()
    ctx.reach(T)
    vals_ = lambda E: None if null else dict(s, alpha=E[m] if m else None)
    judge(ctx, O, New, put(O, place, vals_(A), **kw), lambda N: put(N, place, vals_(B), **kw), how, what=(x, y, new, T, d))


def added(ctx, place, how="class"):
    "An optional or list field is added."
    kind = ctx.choose("kind", ["opt", "list", "opt enum", "opt sub", "list sub", "opt list"])
    T = {"opt": Optional[int], "list": List[int], "opt enum": Optional[Color], "opt sub": Optional[Alpha], "list sub": List[Alpha], "opt list": Optional[List[int]]}[kind]
    b = ("beta", int) if ctx.flag("required sibling") else ("beta", int, ctx.int("d"))
    Old, New = world(place, [b]), world(place, [b, ("gamma", T)])
    s, kw = siblings(ctx, place)
    null = place == "optional" and ctx.flag("null")
    v = value(ctx, b)
    O = Old()
    ctx.reach(kind)
    new = [] if kind.startswith("list") else None
    judge(ctx, O, New, put(O, place, None if null else dict(s, beta=v), **kw), lambda N: put(N, place, None if null else dict(s, beta=v, gamma=deepcopy(new)), **kw), how, what=kind)


def deleted(ctx, place, kinds, how="class"):
    "A field is deleted."
    kind = ctx.choose("kind", kinds)
    f = variant(ctx, "alpha", kind, "")
    Old, New = world(place, [f]), world(place, [])
    s, kw = siblings(ctx, place)
    null = place == "optional" and ctx.flag("null")
    v = value(ctx, f)
    O = Old()
    ctx.reach("deleted")
    judge(ctx, O, New, put(O, place, None if null else dict(s, alpha=v), **kw), lambda N: put(N, place, None if null else dict(s), **kw), how, what=kind)


def deleted_object(ctx, how="class"):
    "A nested object is deleted."
    f = variant(ctx, "alpha", ctx.choose("kind", ["int", "int=", "sub", "opt"]), "")
    P = make_dataclass("P", fields_in_order([f, ("s", int, 3)]))
    T = ctx.choose("type", ["plain", "optional", "list"])
    T = {"plain": P, "optional": Optional[P], "list": List[P]}[T]
    where = ctx.choose("where", ["top", "nested"])
    v = value(ctx, f)
    null = T is not P and ctx.flag("nothing")
    x = (lambda: [] if null else [P(alpha=v)]) if T == List[P] else (lambda: None if null else P(alpha=v))
    k = ("k", int, 7)
    z = ctx.int("z")
    if where == "top":
        Old, New = (lambda v=0, r=None: conf([("p", T), k], v, r)), (lambda v=0, r=None: conf([k], v, r))
        o, e = (lambda C: C(p=x(), k=z)), (lambda C: C(k=z))
    else:
        Q, Q2 = make_dataclass("Q", [("p", T), ("c", int, 4)]), make_dataclass("Q", [("c", int, 4)])
        Old, New = (lambda v=0, r=None: conf([("q", Q), k], v, r)), (lambda v=0, r=None: conf([("q", Q2), k], v, r))
        o, e = (lambda C: C(q=Q(x(), z))), (lambda C: C(q=Q2(z)))
    O = Old()
    ctx.reach(where)
    judge(ctx, O, New, o(O), e, how)


def to_list(ctx, place, how="class"):
    "A value becomes a list of values."
    kind = ctx.choose("kind", ["int", "str", "enum", "opt", "sub", "float", "tuple"])
    T = {"int": int, "str": str, "enum": Color, "opt": Optional[int], "sub": Alpha, "float": float, "tuple": Tuple[int, int]}[kind]
    v = val(ctx, "v", T)
    if kind == "sub" and how == "class":
        pass
    Old, New = world(place, [("alpha", T)]), world(place, [("alpha", List[T])])
    s, kw = siblings(ctx, place)
    null = place == "optional" and ctx.flag("null")
    O = Old()
    ctx.reach(kind)
    judge(ctx, O, New, put(O, place, None if null else dict(s, alpha=v), **kw), lambda N: put(N, place, None if null else dict(s, alpha=[v]), **kw), how, check_passes=False, what=kind)


def literals(ctx, place, how="class"):
    "Values of a literal field are no longer allowed (and others are)."
    old = ["p", "q", 3]
    new = ctx.choose("new", [["p", 3], ["3", "p"], ["p", "r", 3, "s"]])
    kind = ctx.choose("kind", ["plain", "optional", "list", "optional list"])
    wrap = {"plain": lambda L: L, "optional": lambda L: Optional[L], "list": lambda L: List[L], "optional list": lambda L: Optional[List[L]]}[kind]
    f = lambda vs: ("alpha", wrap(Literal[tuple(vs)])) + (("p",) if d else ())
    d = "list" not in kind and ctx.flag("default")
    if kind.startswith("optional") and ctx.flag("no value"):
        v, values = None, []
    elif "list" in kind:
        v = values = [ctx.choose("v%d" % i, old) for i in range(ctx.choose("#", 3))]
    else:
        v = ctx.choose("v", old)
        values = [v]
    Old, New = world(place, [f(old)]), world(place, [f(new)])
    s, kw = siblings(ctx, place)
    null = place == "optional" and ctx.flag("null")
    O = Old()
    obj = put(O, place, None if null else dict(s, alpha=v), **kw)
    if null or all(x in new for x in values):
        ctx.reach(kind)
        judge(ctx, O, New, obj, lambda N: put(N, place, None if null else dict(s, alpha=deepcopy(v)), **kw), how, what=(kind, new))
        return
    rules = SchemaChecker(schema_of(ctx, O, how), New(1, {})).proposed_fixes
    N = New(1, {0: rules})
    for elide in (False, True):
        text = hyperstate.dumps(obj, elide_defaults=elide)
        ok, r = ctx.attempt(hyperstate.loads, N, text)
        ctx.check(not ok, "a value that is no longer allowed was loaded", text=text, rules=rules, loaded=r)
    ctx.reach("refused")


P4 = ["top", "plain", "optional", "deep"]
DK = [k for k in KINDS if "=" in k]
CASES = (
    [{"name": "rename, " + p, "fn": rename, "params": {"place": p, "kinds": KINDS if p in ("top", "plain") else ["int", "int=", "opt", "list=", "sub", "opt sub=obj"], "names": NAMES if p == "top" else NAMES[:2] if p == "plain" else NAMES[:1]}, "reach": ["renamed"], "quick_s": 60, "max_witnesses": 60} for p in P4]
    + [{"name": "move", "fn": move, "params": {"kinds": ["int", "int=", "opt=int", "sub", "sub=", "list="]}, "reach": [m for m in MOVES if m != "top to new optional"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 120}]
    + [{"name": "default, " + p, "fn": defaults, "params": {"place": p, "kinds": DK if p in ("top", "plain") else ["int=", "opt=int", "list=", "enum=", "sub=", "opt sub=obj"]}, "reach": ["changed", "removed"], "quick_s": 60, "max_witnesses": 60} for p in P4]
    + [{"name": "default of an object", "fn": object_default, "params": {}, "reach": ["value", "removed", "to null", "from null"], "quick_s": 60, "max_witnesses": 60}]
    + [{"name": "enum, " + p, "fn": enums, "params": {"place": p, "few": p != "top"}, "reach": ["plain", "optional"], "quick_s": 60, "max_witnesses": 60} for p in P4]
    + [{"name": "added, " + p, "fn": added, "params": {"place": p}, "reach": ["opt", "list"], "quick_s": 60, "max_witnesses": 30} for p in P4]
    + [{"name": "deleted, " + p, "fn": deleted, "params": {"place": p, "kinds": KINDS if p in ("top", "plain") else ["int", "int=", "sub", "opt sub=obj"]}, "reach": ["deleted"], "quick_s": 60, "max_witnesses": 30} for p in P4]
    + [{"name": "deleted object", "fn": deleted_object, "params": {}, "reach": ["top", "nested"], "quick_s": 60, "max_witnesses": 30}]
    + [{"name": "to list, " + p, "fn": to_list, "params": {"place": p}, "reach": ["int", "enum"], "quick_s": 60, "max_witnesses": 30} for p in P4]
    + [{"name": "literal, " + p, "fn": literals, "params": {"place": p}, "reach": ["plain", "optional", "list", "optional list", "refused"], "quick_s": 60, "max_witnesses": 40} for p in P4]
    + [{"name": n + ", from a file", "fn": f, "params": dict(kw, how="file"), "reach": [], "quick_s": 60, "max_witnesses": 40} for n, f, kw in [
        ("rename", rename, {"place": "plain", "kinds": ["int=", "list=", "enum=", "opt sub=obj"], "names": NAMES[:1]}),
        ("default", defaults, {"place": "top", "kinds": DK}),
        ("default of an object", object_default, {}),
        ("enum", enums, {"place": "top", "few": True}),
        ("literal", literals, {"place": "plain"}),
    ]]
    + [{"name": "moves of all kinds", "fn": move, "params": {"kinds": KINDS, "how": h}, "reach": [m for m in MOVES if m != "top to new optional"], "thorough_only": True, "thorough_s": 400, "shards": 8, "depth": 2} for h in ("class", "file")]
    + [{"name": "default from a file, " + p, "fn": defaults, "params": {"place": p, "kinds": DK, "how": "file"}, "reach": ["changed"], "thorough_only": True, "thorough_s": 300, "shards": 2} for p in P4]
    + [{"name": "rename from a file, " + p, "fn": rename, "params": {"place": p, "kinds": KINDS, "how": "file"}, "reach": ["renamed"], "thorough_only": True, "thorough_s": 300, "shards": 2} for p in P4]
)
