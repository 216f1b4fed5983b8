"""C09: old configs keep the default values they were written under."""
from copy import deepcopy
from dataclasses import MISSING, field, make_dataclass
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, MapFieldValue, RenameField
from hyperstate.schema.versioned import Versioned
from props.tree import Node, copy, doc, meaning
from props.util import *

META = {
    "bounds": "a field at depth 0..2 whose default changes (once, twice, three times) or goes away, parents without default, optional or with a default object of their own, values int, str, optional, list, enum, dictionary, object with symbolic contents, followed or preceded by a rename of the field or of its parent, a move, a value map, a deletion, a change of the parent's own default; files of every version mentioning the field, its siblings, its parent or nothing, null parents; text, file, manager",
    "outside": "fields inside list and dictionary elements (rules do not reach into them); nested versioned objects that the file does not mention (nothing records their version)",
    "functions": ["rewrite_rule.ChangeDefault.apply", "rewrite_rule.AddDefault.apply", "rewrite_rule._insert", "rewrite_rule.RenameField.apply", "versioned.Versioned._apply_upgrades", "serde._try_create_defaults", "serde.WeakRef handling of from_dict"],
    "assumptions": [],
}

NONE = object()  # a field without default


def fld(name, t, d):
    if d is NONE:
        return (name, t)
    if isinstance(d, (list, dict)):
        return (name, t, field(default_factory=lambda: deepcopy(d)))
    if is_dataclass(d):
        return (name, t, field(default_factory=lambda: deepcopy(d)))
    return (name, t, d)


def cls(name, fields, rules=None, version=None):
    fields = sorted(fields, key=lambda f: len(f) > 2)
    if version is None:
        return make_dataclass(name, fields)
    return make_dataclass(
        name,
        fields,
        bases=(Versioned,),
        namespace={"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules or {})},
    )


KINDS = {"int": int, "str": str, "opt": Optional[int], "list": List[int], "enum": Color, "dict": Dict[str, int], "object": Alpha}


def value(ctx, name, kind):
    if kind == "int":
        return ctx.int(name)
    if kind == "str":
        return ctx.str(name, 1, 1)
    if kind == "opt":
        return ctx.int(name) if ctx.flag(name + "?") else None
    if kind == "list":
        return [ctx.int(name + "0")] if ctx.flag(name + "?") else []
    if kind == "enum":
        return ctx.choose(name, list(Color))
    if kind == "dict":
        return {"k": ctx.int(name)}
    return Alpha(ctx.int(name))


PARENTS = ["plain", "optional", "object"]


def world(ctx, path, kind, default, parent, names=("p", "q", "a"), extra=(), rules=None, version=0, pdef=None):
    """The classes of one version: the field at its path, with its default;
    every object has a sibling field b as well."""
    t = KINDS[kind]
    p, q, a = names
    depth = len(path) - 1

    def obj(name, c, i):
        if parent == "plain":
            return (name, c)
        if parent == "optional":
            return (name, Optional[c], None)
        # a default object of its own, with its own value of the field
        return (name, Optional[c], field(default_factory=lambda: c(**pdef(c, i))))

    Q = P = None
    own = [fld(a, t, default)] + [fld(n, t, default) for n in ()]
    b = ("b", int, 8)
    if depth == 0:
        fs = own + [b]
    elif depth == 1:
        P = cls("P", own + [b])
        fs = [obj(p, P, 1), b]
    else:
        Q = cls("Q", own + [b])
        P = cls("P", [obj(q, Q, 1), b])
        fs = [obj(p, P, 2), b]
    return cls("Conf", fs + list(extra), rules, version)


def documents(ctx, C, path, kind):
    "A file for a class: the field, its siblings or its parents given or not."
    def go(c, path):
        n = Node(c)
        if ctx.flag("b%d" % len(path)):
            n.fields["b"] = ctx.int("b%d" % len(path))
        f = c.__dataclass_fields__[path[0]]
        if len(path) == 1:
            # a field without default is always there
            if f.default is MISSING and f.default_factory is MISSING or ctx.flag("given"):
                n.fields[path[0]] = value(ctx, "v", kind)
            return n
        t, how = f.type, ["given", "absent"]
        if typing.get_origin(t) is Union:
            t, how = t.__args__[0], ["given", "absent", "null"]
        if not buildable(f):
            how = ["given"]
        h = ctx.choose(path[0], how)
        if h == "given":
            n.fields[path[0]] = go(t, path[1:])
        elif h == "null":
            n.fields[path[0]] = None
        return n

    return go(C, path)


def buildable(f):
    if f.default is not MISSING or f.default_factory is not MISSING:
        return True
    return is_dataclass(f.type) and all(buildable(g) for g in f.type.__dataclass_fields__.values())


def read_field(o, path):
    for s in path:
        if o is None:
            return NONE
        o = getattr(o, s)
    return o


def convert(old, C, rename=lambda path, name: name, path=(), drop=()):
    "The object of another class with the same fields, maybe renamed."
    kw = {}
    if old is None:
        return None
    for n in old.__dataclass_fields__:
        new = rename(path, n)
        if new is None:
            continue
        v = getattr(old, n)
        t = C.__dataclass_fields__[new].type
        if typing.get_origin(t) is Union and is_dataclass(t.__args__[0]):
            t = t.__args__[0]
        if is_dataclass(t) and t is not type(v):
            v = convert(v, t, rename, path + (n,))
        kw[new] = v
    return C(**kw)


def load(ctx, how, C, src):
    if how == "text":
        return hyperstate.loads(C, src)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    if how == "file":
        return hyperstate.load(C, d + "/c.ron")
    S = make_dataclass("State", [("step", int)])
    return hyperstate.StateManager(C, S, lambda c, x: S(0), init_path=d + "/c.ron").config


def verdict(ctx, C, tree, version, expect, how="text"):
    src = ron(ctx, doc(tree, lambda c: version if issubclass(c, Versioned) else None))
    ok, r = ctx.attempt(load, ctx, how, C, src)
    ctx.observe("loaded", r if ok else "error")
    ctx.check(ok, "an old config was refused", text=src, error=r)
    ctx.check(ctx.same(r, expect), "an old config lost its values", text=src, loaded=r, expect=expect)
    # the defaults of the class are as before
    ctx.check(ctx.same(load(ctx, how, C, src), expect), "a second load differs", text=src)


def change(ctx, path, kinds, parents, times=(1, 2), how="text"):
    "The default of the field changes, or goes away."
    path = path.split(".")
    kind = ctx.choose("kind", kinds)
    parent = ctx.choose("parent", parents) if len(path) > 1 else "plain"
    n = ctx.choose("times", list(times) if kind == "int" or len(times) > 2 else [1])
    defaults = [value(ctx, "d%d" % i, kind) for i in range(n + 1)]
    last = ctx.choose("last", ["changed", "removed"])
    rules = {}
    for i in range(n):
        final = i == n - 1
        if final and last == "removed":
            rules[i] = [AddDefault(path, defaults[i])]
        else:
            rules[i] = [ChangeDefault(path, defaults[i], defaults[i + 1])]
    at = ctx.choose("version", n)
    own = value(ctx, "own", kind) if parent == "object" else None

    def pdef(c, i):
        if i == 2:
            q = c.__dataclass_fields__["q"].type.__args__[0]
            return {"b": 12, "q": q(a=deepcopy(own), b=11)}
        return {"a": deepcopy(own), "b": 11}

    Old = world(ctx, path, kind, defaults[at], parent, version=at, pdef=pdef)
    New = world(ctx, path, kind, NONE if last == "removed" else defaults[n], parent, rules=rules, version=n, pdef=pdef)
    tree = documents(ctx, Old, path, kind)
    keep = [deepcopy(d) for d in defaults]
    expect = convert(meaning(tree), New)
    ctx.reach(last)
    verdict(ctx, New, tree, at, expect, how)
    ctx.check(ctx.same(defaults, keep), "the declared defaults changed")


def combined(ctx, path, parents):
    "A change of the default next to another rule."
    path = path.split(".")
    parent = ctx.choose("parent", parents) if len(path) > 1 else "plain"
    other = ctx.choose("other", ["rename after", "rename before", "parent renamed after", "parent renamed before", "map", "sibling deleted", "same version, rename", "move out", "move out renamed"])
    kind = "int"
    d0, d1 = ctx.int("d0"), ctx.int("d1")
    own = ctx.int("own")

    def pdef(q, a):
        def f(c, i):
            if i == 2:
                qq = c.__dataclass_fields__[q].type.__args__[0]
                return {"b": 12, q: qq(**{a: own, "b": 11})}
            return {a: own, "b": 11}

        return f

    names = ("p", "q", "a")
    new_path, new_names = list(path), names
    rename = lambda p, n: n
    f = lambda x: x
    extra = []
    if other in ("rename after", "rename before", "same version, rename"):
        new_path = path[:-1] + ["z"]
        new_names = ("p", "q", "z")
        rename = lambda p, n: "z" if n == "a" else n
        if other == "rename before":
            rules = {0: [RenameField(path, new_path)], 1: [ChangeDefault(new_path, d0, d1)]}
        elif other == "rename after":
            rules = {0: [ChangeDefault(path, d0, d1)], 1: [RenameField(path, new_path)]}
        else:
            rules = {0: [RenameField(path, new_path), ChangeDefault(new_path, d0, d1)]}
    elif other in ("parent renamed after", "parent renamed before"):
        if len(path) == 1:
            return
        which = len(path) - 2
        old_parent = path[: which + 1]
        new_parent = path[:which] + ["r"]
        new_path = new_parent + path[which + 1 :]
        new_names = ("r", "q", "a") if which == 0 else ("p", "r", "a")
        rename = lambda p, n: "r" if list(p) + [n] == old_parent else n
        if other == "parent renamed after":
            rules = {0: [ChangeDefault(path, d0, d1)], 1: [RenameField(old_parent, new_parent)]}
        else:
            rules = {0: [RenameField(old_parent, new_parent)], 1: [ChangeDefault(new_path, d0, d1)]}
    elif other == "map":
        f = lambda x: x * 3 + 2
        rules = {0: [ChangeDefault(path, d0, d1)], 1: [MapFieldValue(path, f)]}
    elif other == "sibling deleted":
        gone = path[:-1] + ["b"]
        rules = {0: [ChangeDefault(path, d0, d1)], 1: [DeleteField(gone)]}
    else:
        if len(path) == 1:
            return
        to = ["m"]
        rules = {0: [ChangeDefault(path, d0, d1)], 1: [RenameField(path, to)]}
        if other == "move out renamed":
            rules[2] = [RenameField(to, ["k"])]
            to = ["k"]
    version = max(rules) + 1
    Old = world(ctx, path, kind, d0, parent, version=0, pdef=pdef("q", "a"))
    tree = documents(ctx, Old, path, kind)
    old = meaning(tree)
    if other.startswith("move out"):
        New = world(ctx, path, kind, d1, parent, names=names, extra=[(to[0], int, 999)], rules=rules, version=version, pdef=pdef("q", "a"))
        # the place it moved from is still there, for comparison only
        D = moved_class(ctx, New, path, parent, rules, version, to, own)
        value_ = read_field(old, path)
        expect = moved_object(old, D, path, to, value_)
        # of an object that was defaulted as a whole, the file says nothing
        if parent != "plain" and not mentioned(tree, path):
            return
        ctx.reach(other)
        verdict(ctx, D, tree, 0, expect)
        return
    New = world(ctx, new_path, kind, d1, parent, names=new_names, rules=rules, version=version, pdef=pdef(new_names[1], new_names[2]))
    if other == "sibling deleted":
        # keep b elsewhere only
        New = without_b(ctx, path, d1, parent, rules, version, own)
        expect = convert(old, New, lambda p, n: None if list(p) + [n] == gone else n)
    else:
        expect = convert(old, New, rename)
    if other == "map":
        o = expect
        for s in path[:-1]:
            o = getattr(o, s) if o is not None else None
        defaulted = parent == "object" and not mentioned(tree, path)
        if o is not None and not defaulted:
            setattr(o, path[-1], f(getattr(o, path[-1])))
    ctx.reach(other)
    verdict(ctx, New, tree, 0, expect)


def mentioned(tree, path):
    for s in path[:-1]:
        if s not in tree.fields:
            return False
        tree = tree.fields[s]
        if tree is None:
            return True
    return True


def moved_class(ctx, New, path, parent, rules, version, to, own):
    b = ("b", int, 8)
    depth = len(path) - 1

    def obj(name, c, i):
        if parent == "plain":
            return (name, c)
        if parent == "optional":
            return (name, Optional[c], None)
        if i == 2:
            qq = c.__dataclass_fields__["q"].type.__args__[0]
            return (name, Optional[c], field(default_factory=lambda: c(b=12, q=qq(b=11))))
        return (name, Optional[c], field(default_factory=lambda: c(b=11)))

    if depth == 1:
        P = cls("P", [b])
        fs = [obj("p", P, 1), b]
    else:
        P = cls("P", [obj("q", cls("Q", [b]), 1), b])
        fs = [obj("p", P, 2), b]
    return cls("Conf", fs + [(to[0], int, 999)], rules, version)


def moved_object(old, D, path, to, v):
    o = convert(old, D, lambda p, n: None if list(p) + [n] == path else n)
    setattr(o, to[0], 999 if v is NONE else v)
    return o


def without_b(ctx, path, d1, parent, rules, version, own):
    b = ("b", int, 8)
    a = ("a", int, d1)
    depth = len(path) - 1

    def obj(name, c, i):
        if parent == "plain":
            return (name, c)
        if parent == "optional":
            return (name, Optional[c], None)
        if i == 2:
            qq = c.__dataclass_fields__["q"].type.__args__[0]
            return (name, Optional[c], field(default_factory=lambda: c(b=12, q=qq(a=own))))
        return (name, Optional[c], field(default_factory=lambda: c(a=own)))

    if depth == 0:
        return cls("Conf", [a], rules, version)
    if depth == 1:
        return cls("Conf", [obj("p", cls("P", [a]), 1), b], rules, version)
    return cls("Conf", [obj("p", cls("P", [obj("q", cls("Q", [a]), 1), b]), 2), b], rules, version)


def whole(ctx, how="text"):
    "The default of a whole object changes, maybe with that of its field."
    d0, d1 = ctx.int("d0"), ctx.int("d1")
    P0 = cls("P", [("a", int, d0), ("b", int, 8)])
    P1 = cls("P", [("a", int, d1), ("b", int, 8)])
    kind = ctx.choose("default", ["object", "null to object", "object to null", "empty object", "object removed"])
    o0, o1 = ctx.int("o0"), ctx.int("o1")
    before = {"object": lambda: P0(o0, 3), "null to object": lambda: None, "object to null": lambda: P0(o0, 3), "empty object": lambda: P0(), "object removed": lambda: P0(o0, 3)}[kind]
    after = {"object": lambda: P1(o1, 4), "null to object": lambda: P1(o1, 4), "object to null": lambda: None, "empty object": lambda: P1(), "object removed": None}[kind]
    new = lambda o: None if o is None else P1(o.a, o.b)
    inner = ctx.flag("field too") or kind == "empty object"
    outer = ChangeDefault(("p",), new(before()), after()) if after else AddDefault(("p",), new(before()))
    rs = [ChangeDefault(("p", "a"), d0, d1), outer] if inner else [outer]
    if not inner:
        P1 = P0
    order = ctx.choose("order", ["inner first", "outer first", "two versions"])
    if order == "outer first":
        rs.reverse()
    rules = {0: rs} if order != "two versions" else {i: [r] for i, r in enumerate(rs)}
    version = max(rules) + 1
    Old = cls("Conf", [("p", Optional[P0], field(default_factory=before)), ("b", int, 8)])
    t = [("p", Optional[P1], field(default_factory=after))] if after else [("p", Optional[P1])]
    New = cls("Conf", t + [("b", int, 8)], rules, version)
    tree = Node(Old)
    if ctx.flag("b"):
        tree.fields["b"] = ctx.int("b")
    g = ctx.choose("p", ["absent", "null", "given", "given in part", "empty"])
    if g == "null":
        tree.fields["p"] = None
    elif g != "absent":
        tree.fields["p"] = Node(P0)
        if g == "given":
            tree.fields["p"].fields["a"] = ctx.int("a")
        if g != "empty":
            tree.fields["p"].fields["b"] = ctx.int("pb")
    old = meaning(tree)
    src = ron(ctx, Obj("Conf", ("version", 0), *doc(tree).fields))
    ok, r = ctx.attempt(load, ctx, how, New, src)
    ctx.observe("loaded", r if ok else "error")
    ctx.reach(kind)
    ctx.check(ok, "an old config was refused", text=src, error=r)
    expect = New(p=new(old.p), b=old.b)
    ctx.check(ctx.same(r, expect), "an old config lost its values", text=src, loaded=r, expect=expect)
    if r.p is not None:
        r.p.a = 12345
        ctx.check(ctx.same(load(ctx, how, New, src), expect), "a modified config changed the next one", text=src)


def two_fields(ctx):
    "Defaults of two fields change, in the same object or in different ones."
    pa, pb = ctx.choose("fields", [("p.a", "p.c"), ("p.a", "x"), ("p.a", "p.q.a"), ("p.q.a", "p.a"), ("p.q.a", "r.a")])
    parent = ctx.choose("parent", ["plain", "optional"])
    d = [ctx.int("d%d" % i) for i in range(4)]

    def world(vals, rules, version):
        def get(p):
            return vals.get(p, 8)

        def obj(name, c):
            return (name, c) if parent == "plain" else (name, Optional[c], None)

        Q = cls("Q", [("a", int, get("p.q.a")), ("b", int, 7)])
        P = cls("P", [("a", int, get("p.a")), ("c", int, get("p.c")), obj("q", Q)])
        R = cls("R", [("a", int, get("r.a"))])
        return cls("Conf", [("x", int, get("x")), obj("p", P), obj("r", R)], rules, version)

    rs = [ChangeDefault(pa.split("."), d[0], d[1]), ChangeDefault(pb.split("."), d[2], d[3])]
    rules = {0: rs} if ctx.flag("same version") else {0: rs[:1], 1: rs[1:]}
    Old = world({pa: d[0], pb: d[2]}, {}, 0)
    New = world({pa: d[1], pb: d[3]}, rules, max(rules) + 1)

    def go(c, name):
        n = Node(c)
        for f in c.__dataclass_fields__.values():
            t = f.type
            opts = ["absent", "given"]
            if typing.get_origin(t) is Union:
                t = t.__args__[0]
                opts.append("null")
            h = ctx.choose(name + f.name, opts)
            if h == "given":
                n.fields[f.name] = go(t, name + f.name + ".") if is_dataclass(t) else ctx.int(name + f.name)
            elif h == "null":
                n.fields[f.name] = None
        return n

    tree = go(Old, "")
    ctx.reach("two")
    verdict(ctx, New, tree, 0, convert(meaning(tree), New))


ALLK = list(KINDS)
CASES = (
    [{"name": "change " + p, "fn": change, "params": {"path": p, "kinds": ALLK if len(p) < 5 else ["int", "opt", "object"], "parents": PARENTS}, "reach": ["changed", "removed"], "quick_s": 60, "shards": 2, "depth": 3, "max_witnesses": 120} for p in ("a", "p.a", "p.q.a")]
    + [{"name": "change, " + h, "fn": change, "params": {"path": "p.a", "kinds": ["int", "object"], "parents": PARENTS, "how": h}, "reach": ["changed", "removed"], "quick_s": 60, "max_witnesses": 60} for h in ("file", "manager")]
    + [{"name": "combined " + p, "fn": combined, "params": {"path": p, "parents": PARENTS}, "reach": ["rename after", "rename before", "map", "sibling deleted"], "quick_s": 60, "max_witnesses": 120} for p in ("a", "p.a", "p.q.a")]
    + [{"name": "whole object", "fn": whole, "params": {}, "reach": ["object", "null to object", "object to null", "empty object", "object removed"], "quick_s": 60, "max_witnesses": 120}]
    + [{"name": "two fields", "fn": two_fields, "params": {}, "reach": ["two"], "quick_s": 60, "shards": 4, "depth": 4, "max_witnesses": 120}]
    + [{"name": "change three times " + p, "fn": change, "params": {"path": p, "kinds": ALLK, "parents": PARENTS, "times": (1, 2, 3)}, "reach": ["changed"], "thorough_only": True, "thorough_s": 400, "shards": 8, "depth": 4} for p in ("a", "p.a", "p.q.a")]
)
