"""C08: each rewrite rule does its one edit and leaves the rest alone."""
from copy import deepcopy
from dataclasses import field, make_dataclass
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField
from hyperstate.schema.versioned import Versioned
from props.tree import Node, meaning
from props.util import *

META = {
    "bounds": "one rule (also two in a row) on a field at depth 0..2, every ancestor absent, null or present with or without siblings, values int, str, bool, null, list, object, dictionary with symbolic contents, moves between every pair of depths and into objects that are absent, null, present; plain, optional and defaulted parents; contents handed to the rule directly and through a versioned class",
    "outside": "paths into list, tuple and dictionary elements (rules do not reach into them); moves onto a field that has a value; moves into absent objects that have a default of their own",
    "functions": ["rewrite_rule.RenameField.apply", "rewrite_rule.DeleteField.apply", "rewrite_rule.MapFieldValue.apply", "rewrite_rule.ChangeDefault.apply", "rewrite_rule.AddDefault.apply", "rewrite_rule.CheckValue.apply", "rewrite_rule.RejectValues.apply", "rewrite_rule._remove", "rewrite_rule._insert", "rewrite_rule._get", "versioned.Versioned._apply_upgrades"],
    "assumptions": ["the function of a mapping accepts null if the field can be null"],
}

KINDS = ["int", "str", "bool", "null", "list", "object", "dict"]
PATHS = ["a", "p.a", "p.q.a"]
MISSING = object()


def value(ctx, name, kind):
    "A value as contents of a config file, and its object."
    if kind == "int":
        v = ctx.int(name)
        return v, v
    if kind == "str":
        v = ctx.str(name, 2)
        return v, v
    if kind == "bool":
        v = ctx.flag(name)
        return v, v
    if kind == "null":
        return None, None
    if kind == "list":
        v = [ctx.int(name + "0"), ctx.int(name + "1")][: ctx.choose(name + "#", 3)]
        return v, list(v)
    if kind == "dict":
        v = {"k": ctx.int(name + "k")}
        return v, dict(v)
    v = ctx.int(name + ".x")
    return {"x": v}, Alpha(v)


def type_of(kind):
    return {"int": int, "str": str, "bool": bool, "null": Optional[int], "list": List[int], "object": Alpha, "dict": Dict[str, int]}[kind]


def absent(kind):
    "What a field of the kind holds when it is not in the file."
    return {"int": -77, "str": "default", "bool": True, "null": -77, "list": [-77], "object": Alpha(-77), "dict": {"d": -77}}[kind]


def fld(name, kind, t=None):
    d = absent(kind)
    t = t or type_of(kind)
    if isinstance(d, (list, dict)):
        return (name, t, field(default_factory=lambda: deepcopy(d)))
    return (name, t, d)


def get(d, path):
    for s in path:
        if not isinstance(d, dict) or s not in d:
            return MISSING
        d = d[s]
    return d


def without(d, path):
    "The contents with a field taken out."
    if not isinstance(d, dict) or path[0] not in d:
        return d
    if len(path) == 1:
        return {k: v for k, v in d.items() if k != path[0]}
    return {k: (without(v, path[1:]) if k == path[0] else v) for k, v in d.items()}


def having(d, path, v, create):
    "The contents with a field set; absent objects are created on demand."
    if not isinstance(d, dict):
        return d
    if len(path) == 1:
        r = {k: x for k, x in d.items() if k != path[0]}
        r[path[0]] = v
        return r
    if path[0] not in d and not create:
        return d
    r = dict(d)
    r[path[0]] = having(d.get(path[0], {}), path[1:], v, create)
    return r


def contents(ctx, path, val, tag=""):
    "Contents of a file: the objects on the way to a field, with or without it."
    d = {}
    if ctx.flag(tag + "b%d" % len(path)):
        d["b"] = ctx.int(tag + "vb%d" % len(path))
    if len(path) == 1:
        if val is not MISSING:
            d[path[0]] = val
        return d
    how = ctx.choose(tag + path[0], ["object", "absent", "null"])
    if how == "object":
        d[path[0]] = contents(ctx, path[1:], val, tag)
    elif how == "null":
        d[path[0]] = None
    return d


def text(ctx, d, top=True):
    if isinstance(d, dict):
        if "k" in d:
            return {k: x for k, x in d.items()}
        fs = [(k, text(ctx, x, False)) for k, x in d.items()]
        return Obj("Conf" if top else "X", *([("version", 0)] if top else []) + fs)
    if isinstance(d, list):
        return [text(ctx, x, False) for x in d]
    return d


def classes(kind, parent, names=("a", "c"), optional=True):
    "The current class, with the fields a and c everywhere."
    def fields():
        return [fld(n, kind, Optional[type_of(kind)] if optional else None) for n in names] + [("b", int, -5)]

    def obj(name, cls):
        if parent == "plain":
            return (name, cls)
        if parent == "optional":
            return (name, Optional[cls], None)
        return (name, Optional[cls], field(default_factory=lambda: cls(b=-9)))

    Q = make_dataclass("Q", fields())
    P = make_dataclass("P", [obj("q", Q)] + fields() if parent == "plain" else fields() + [obj("q", Q)])
    N = make_dataclass("N", fields())
    return Q, P, N, (lambda rules: make_dataclass(
        "Conf",
        [obj("p", P), obj("n", N)] + fields() if parent == "plain" else fields() + [obj("p", P), obj("n", N)],
        bases=(Versioned,),
        namespace={"version": classmethod(lambda cls: 1), "upgrade_rules": classmethod(lambda cls: {0: rules})},
    ))


def node(d, cls):
    "The tree of some contents."
    fs = {}
    for k, v in d.items():
        t = cls.__dataclass_fields__[k].type
        if typing.get_origin(t) is Union:
            t = typing.get_args(t)[0]
        fs[k] = node(v, t) if isinstance(v, dict) and is_dataclass(t) else v
    return Node(cls, **fs)


def filled(obj, path, v):
    "An object with one field set, unless an object on the way is null."
    for s in path[:-1]:
        obj = getattr(obj, s)
        if obj is None:
            return
    setattr(obj, path[-1], v)


def null_ok(d, parent):
    "Whether a file of this kind of parents can have these nulls."
    return parent != "plain" or not any(k in ("p", "q", "n") and (v is None or not null_ok(v, parent)) for k, v in d.items() if k in ("p", "q", "n"))


def compare(ctx, rules, before, expect, fill, parents, kind, error=False, direct=True):
    """Applies rules to contents; `expect` are the contents afterwards and
    `fill` the (path, value) that is filled in on top of the defaults."""
    if direct and fill is None:
        d = deepcopy(before)
        ok, r = True, d
        for rule in rules:
            ok, r = ctx.attempt(rule.apply, r)
            if not ok:
                break
        if error:
            ctx.check(not ok, "a disallowed value was let through", before=before, after=r)
        else:
            ctx.check(ok, "the rule failed", before=before, error=r)
            ctx.check(ctx.same(r, expect), "the rule did something else", before=before, after=r, expect=expect)
    parent = ctx.choose("parents", parents)
    if not null_ok(before, parent):
        return
    if parent == "default" and fill is None and not error and any(len(getattr(r, "new_field", ())) > 1 for r in rules):
        return
    Q, P, N, make = classes(kind, parent)
    C = make(rules)
    src = ron(ctx, text(ctx, before))
    ok, r = ctx.attempt(hyperstate.loads, C, src)
    ctx.observe("loaded", r if ok else "error")
    if error:
        ctx.check(not ok, "a disallowed value was let through", text=src, loaded=r)
        return
    ctx.check(ok, "an old config was refused", text=src, error=r)
    e = deepcopy(meaning(node(expect, C)))
    if fill is not None and parent == "plain":  # other objects are defaulted as a whole
        filled(e, *fill)
    ctx.check(ctx.same(r, e), "the config is another", text=src, loaded=r, expect=e)


def setup(ctx, kinds, path=None):
    path = (path or ctx.choose("path", PATHS)).split(".")
    kind = ctx.choose("kind", kinds)
    present = ctx.flag("present")
    if present:
        v, o = value(ctx, "v", kind)
    else:
        v = o = MISSING
    return path, kind, v, o


def objects(kind, v):
    "Contents to objects."
    if kind == "object" and isinstance(v, dict):
        return Alpha(**v)
    return v


ALL = ["plain", "optional", "default"]


def rename(ctx, kinds, parents=ALL):
    path, kind, v, o = setup(ctx, kinds)
    to = ctx.choose("to", ["c", "p.c", "p.q.c", "n.c"]).split(".")
    before = contents(ctx, path, v)
    if len(to) > 1 and to[: len(to) - 1] != path[: len(to) - 1]:
        # the objects on the way to the new place
        if to[0] == "n" or path[0] != "p":
            before.update({k: x for k, x in contents(ctx, to, MISSING, "to ").items() if k in ("p", "n")})
        elif isinstance(before.get("p"), dict):
            before["p"].update({k: x for k, x in contents(ctx, to[1:], MISSING, "to ").items() if k == "q"})
    rule = RenameField(tuple(path), tuple(to))
    found = get(before, path) is not MISSING
    expect = without(before, path)
    if found:
        expect = having(expect, to, v, True)
    ctx.reach("%s, %s" % (kind, "found" if found else "absent"))
    compare(ctx, [rule], before, expect, None, parents, kind)


def delete(ctx, kinds, parents=ALL):
    path, kind, v, o = setup(ctx, kinds)
    before = contents(ctx, path, v)
    ctx.reach(kind)
    compare(ctx, [DeleteField(path)], before, without(before, path), None, parents, kind)


def delete_object(ctx, parents=("optional", "default")):
    path, kind, v, o = setup(ctx, ["int"], "p.q.a")
    before = contents(ctx, path, v)
    what = ctx.choose("object", ["p", "p.q"]).split(".")
    ctx.reach("object")
    compare(ctx, [DeleteField(what)], before, without(before, what), None, parents, kind)


def mapping(kind):
    def f(x):
        if x is None:
            return None
        if kind == "int" or kind == "null":
            return 3 * x + 1
        if kind == "str":
            return x + "!"
        if kind == "bool":
            return not x
        if kind == "list":
            return x + [5]
        if kind == "dict":
            return dict(x, z=9)
        return dict(x, x=x["x"] + 1)

    return f


def map_value(ctx, kinds, parents=ALL):
    path, kind, v, o = setup(ctx, kinds)
    before = contents(ctx, path, v)
    f = mapping(kind)
    calls = []

    def g(x):
        calls.append(1)
        return f(x)

    found = get(before, path) is not MISSING
    ctx.reach("%s, %s" % (kind, "found" if found else "absent"))
    compare(ctx, [MapFieldValue(path, g)], before, having(before, path, f(v), False) if found else before, None, parents, kind)
    ctx.check(found or not calls, "the function was called without a value")


def fill(ctx, kinds, parents=ALL):
    path, kind, v, o = setup(ctx, kinds)
    before = contents(ctx, path, v)
    dflt, dobj = value(ctx, "d", kind)
    keep = deepcopy(dflt)
    if ctx.flag("change"):
        rule = ChangeDefault(path, dflt, absent(kind))
    else:
        rule = AddDefault(path, dflt)
    found = get(before, path) is not MISSING
    whole = isinstance(get(before, path[:-1]), dict)
    ctx.reach("%s, %s" % (kind, "found" if found else "absent"))
    if found:
        compare(ctx, [rule], before, before, None, parents, kind)
    elif whole:
        compare(ctx, [rule], before, having(before, path, dflt, False), None, parents, kind)
    else:
        compare(ctx, [rule], before, before, (path, dobj), parents, kind)
    ctx.check(ctx.same(dflt, keep), "the rule changed its own default")


ALLOWED = {"int": {1, 2, -3}, "str": {"on", "x"}, "bool": {True}, "null": {None, 4}}


def check_value(ctx, kinds, reject, parents=ALL):
    path, kind, v, o = setup(ctx, kinds)
    before = contents(ctx, path, v)
    found = get(before, path) is not MISSING
    vals = ALLOWED.get(kind, {7, 8})
    if kind == "null" and ctx.flag("null in the set"):
        vals = {4, 5}
    elements = v if isinstance(v, list) and reject else [v]
    if reject:
        bad = False
        for x in elements:
            for y in vals:
                if found and type(x) is not type(None) and y is not None and x == y or found and x is None and y is None:
                    bad = True
        rule = RejectValues(path, set(vals))
    else:
        bad = found
        for y in vals:
            if found and v is not None and y is not None and v == y or found and v is None and y is None:
                bad = False
        rule = CheckValue(path, set(vals))
    ctx.reach("bad" if bad else "good")
    compare(ctx, [rule], before, before, None, parents, kind, error=bad)


def two(ctx, parents=ALL):
    "Two rules in a row."
    kind = "int"
    path, kind, v, o = setup(ctx, ["int"])
    before = contents(ctx, path, v)
    first = ctx.choose("first", ["rename", "map"])
    if first == "rename":
        to = ctx.choose("to", ["c", "p.c", "n.c"]).split(".")
        rules = [RenameField(path, to)]
        expect = without(before, path)
        if get(before, path) is not MISSING:
            expect = having(expect, to, v, True)
    else:
        to = path
        rules = [MapFieldValue(path, lambda x: x * 2)]
        expect = before
        if get(before, path) is not MISSING:
            expect = having(before, path, v * 2, False)
    second = ctx.choose("second", ["map", "back", "delete", "check"])
    now = get(expect, to)
    bad = False
    if second == "map":
        rules.append(MapFieldValue(to, lambda x: x - 5))
        if now is not MISSING:
            expect = having(expect, to, now - 5, False)
    elif second == "back":
        end = path[:-1] + ["c" if path[-1] == "a" and to == path else "a"]
        rules.append(RenameField(to, end))
        expect = without(expect, to)
        if now is not MISSING:
            expect = having(expect, end, now, True)
    elif second == "delete":
        rules.append(DeleteField(to))
        expect = without(expect, to)
    else:
        rules.append(CheckValue(to, {4, 6}))
        bad = now is not MISSING and not (now == 4 or now == 6)
    ctx.reach(second)
    compare(ctx, rules, before, expect, None, parents, kind, error=bad)


FOUND = ["int, found", "int, absent", "null, found", "object, found"]
CASES = [
    {"name": "rename", "fn": rename, "params": {"kinds": KINDS}, "reach": FOUND, "quick_s": 90, "shards": 4, "depth": 4, "max_witnesses": 200},
    {"name": "delete", "fn": delete, "params": {"kinds": KINDS}, "reach": KINDS, "quick_s": 60, "max_witnesses": 100},
    {"name": "delete object", "fn": delete_object, "params": {}, "reach": ["object"], "quick_s": 60, "max_witnesses": 100},
    {"name": "map", "fn": map_value, "params": {"kinds": KINDS}, "reach": FOUND, "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "fill", "fn": fill, "params": {"kinds": KINDS}, "reach": FOUND, "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 200},
    {"name": "check", "fn": check_value, "params": {"kinds": ["int", "str", "bool", "null"], "reject": False}, "reach": ["bad", "good"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "reject", "fn": check_value, "params": {"kinds": ["int", "str", "bool", "null", "list"], "reject": True}, "reach": ["bad", "good"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "two", "fn": two, "params": {}, "reach": ["map", "back", "delete", "check"], "quick_s": 60, "shards": 3, "max_witnesses": 100},
]
