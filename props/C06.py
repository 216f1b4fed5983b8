"""C06: overrides win whatever version the config file was written at."""
from dataclasses import field, make_dataclass
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField
from hyperstate.schema.versioned import Versioned
from props.tree import Node, Reject, copy, meaning, set_field, tree_of
from props.util import *

META = {
    "bounds": "a versioned class with a plain, a nested (no default, default object, optional) and a versioned nested field, files of every version with every one of 9 rules on the overridden field or its sibling, object mentioned in the file or not, 1..2 overrides (thorough: 3) with symbolic values, also structs; text, file, manager",
    "outside": "whether a disallowed value of a nested versioned object is still refused when an override replaces that whole object; rules on fields inside containers (the library does not apply them there)",
    "functions": ["hyperstate.OverridesDeserializer", "versioned.VersionedDeserializer", "versioned.Versioned._apply_upgrades", "serde._try_create_defaults"],
    "assumptions": [],
}

RULES = ["map", "rename", "rename away", "delete", "check", "reject", "change default", "add default", "none"]


def rule(kind, path, ctx, tag):
    "Rules on a field, and the name it had before (None: not in the file)."
    path = tuple(path)
    old = path[:-1] + ("old",)
    if kind == "map":
        return [MapFieldValue(path, lambda x: 2 * x + 1)], path[-1]
    if kind == "rename":
        return [RenameField(old, path)], "old"
    if kind == "rename away":
        return [RenameField(path, path[:-1] + ("away",))], path[-1]
    if kind == "delete":
        return [DeleteField(path)], path[-1]
    if kind == "check":
        return [CheckValue(path, {1, 2})], path[-1]
    if kind == "reject":
        return [RejectValues(path, {1, 2})], path[-1]
    if kind == "change default":
        return [ChangeDefault(path, ctx.int(tag + "old default"), None)], path[-1]
    if kind == "add default":
        return [AddDefault(path, ctx.int(tag + "old default"))], path[-1]
    return [], path[-1]


def classes(ctx, parent, rules, nversion):
    dy, dz, dn = ctx.int("default y"), ctx.int("default z"), ctx.int("default n")
    fields = [("y", int, dy), ("z", int, dz), ("away", int, -5)]
    if nversion is None:
        I = make_dataclass("Inner", fields)
    else:
        I = make_dataclass(
            "Inner",
            fields,
            bases=(Versioned,),
            namespace={"version": classmethod(lambda cls: 1), "upgrade_rules": classmethod(lambda cls: nversion)},
        )
    n = {
        "none": ("n", I),
        "object": ("n", I, field(default_factory=lambda: I(y=dn, z=dn))),
        "instance": ("n", I, I(y=dn, z=dn)),
        "optional": ("n", Optional[I], None),
        "optional object": ("n", Optional[I], field(default_factory=lambda: I(y=dn, z=dn))),
    }[parent]
    R = make_dataclass(
        "Root",
        ([n, ("x", int, 3)] if parent == "none" else [("x", int, 3), n]) + [("away", int, -5), ("w", int, 4)],
        bases=(Versioned,),
        namespace={"version": classmethod(lambda cls: 2), "upgrade_rules": classmethod(lambda cls: rules)},
    )
    return R, I


PARENTS = ["none", "object", "instance", "optional", "optional object"]
TARGETS = ["x", "n.y", "n.z", "n", "w"]


def load(ctx, how, cls, src, overrides):
    if how == "text":
        return hyperstate.loads(cls, src, overrides=overrides)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    if how == "file":
        return hyperstate.load(cls, d + "/c.ron", overrides=overrides)
    S = make_dataclass("State", [("step", int)])
    return hyperstate.StateManager(cls, S, lambda c, x: S(0), init_path=d + "/c.ron", overrides=overrides).config


def run(ctx, field, kinds, parents, targets, n=1, how="text", inner=False):
    kind = ctx.choose("rule", kinds)
    path = field.split(".")
    parent = ctx.choose("parent", parents)
    if inner:
        rs, old = rule(kind, path[1:], ctx, "")
        R, I = classes(ctx, parent, {}, {0: rs})
    else:
        rs, old = rule(kind, path, ctx, "")
        at = ctx.choose("rule of version", 2)
        R, I = classes(ctx, parent, {at: rs}, None)
    version = ctx.choose("version", 3 if not inner else 2)
    nver = ctx.choose("inner version", 2) if inner else None
    upgraded = (version <= at) if not inner else nver == 0
    name = old if upgraded else path[-1]
    doc = [("version", version)]
    given = ctx.choose("given", ["value", "other", "nothing"])
    value = ctx.int("value")
    other = ctx.int("other")
    if len(path) == 1:
        if given == "value":
            doc.append((name, value))
        if ctx.flag("n given"):
            doc.append(("n", Obj("Inner", ("z", other))))
    else:
        fs = [("version", nver)] if inner else []
        if given == "value":
            fs += [(name, value)]
            if ctx.flag("z given"):
                fs.append(("z", other))
        elif given == "other":
            fs += [("z", other)]
        if given != "nothing":
            doc.append(("n", Obj("Inner", *fs)))
        elif "optional" in parent and ctx.flag("null"):
            doc.append(("n", None))
    src = ron(ctx, Obj("Root", *doc))
    overrides = []
    sets = []
    for i in range(n):
        t = ctx.choose("override%d" % i, targets)
        if t == "n":
            y = ctx.int("oy%d" % i)
            ver = [("version", 1)] if inner else []
            if ctx.flag("partial%d" % i):
                v, text = Node(I, y=y), Obj("Inner", *(ver + [("y", y)]))
            else:
                z = ctx.int("oz%d" % i)
                v, text = Node(I, y=y, z=z), Obj("Inner", *(ver + [("y", y), ("z", z)]))
        else:
            v = text = ctx.int("o%d" % i)
        overrides.append(t + "=" + ron(ctx, text))
        sets.append((t.split("."), v))
    before = list(overrides)
    ok0, base = ctx.attempt(load, ctx, how, R, src, [])
    ok, r = ctx.attempt(load, ctx, how, R, src, overrides)
    ctx.observe("loaded", r if ok else "error")
    ctx.check(overrides == before, "the caller's overrides changed")
    if not ok0:
        ctx.reach("refused")
        whole = inner and any(p == ["n"] for p, v in sets)  # replaces the object before its own rules see it
        if kind in ("check", "reject") and not whole:
            ctx.check(not ok, "an override hides a disallowed value in the file", text=src, overrides=overrides, loaded=r)
        return
    ctx.reach(kind)
    expect = tree_of(base)
    for p, v in sets:
        set_field(expect, p, copy(v))
    expect = meaning(expect)
    ctx.check(ok, "an override of an upgraded file was refused", text=src, overrides=overrides, error=r)
    ctx.check(ctx.same(r, expect), "another object", text=src, overrides=overrides, loaded=r, expect=expect, without=base)


ALLR = [k for k in RULES]
CASES = (
    [{"name": "top", "fn": run, "params": {"field": "x", "kinds": RULES, "parents": ["none", "object", "optional"], "targets": ["x", "n.y", "n", "w"]}, "reach": ALLR + ["refused"], "quick_s": 60, "shards": 2, "max_witnesses": 100}]
    + [{"name": "nested", "fn": run, "params": {"field": "n.y", "kinds": RULES, "parents": PARENTS, "targets": TARGETS}, "reach": ALLR + ["refused"], "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 200}]
    + [{"name": "nested versioned", "fn": run, "params": {"field": "n.y", "kinds": RULES, "parents": PARENTS, "targets": TARGETS, "inner": True}, "reach": ALLR + ["refused"], "quick_s": 60, "shards": 2, "max_witnesses": 200}]
    + [{"name": "two", "fn": run, "params": {"field": "n.y", "kinds": ["rename", "change default", "delete"], "parents": ["none", "object", "optional"], "targets": ["n.y", "n.z", "n"], "n": 2}, "reach": ["rename"], "quick_s": 60, "shards": 3, "max_witnesses": 100}]
    + [{"name": "two versioned", "fn": run, "params": {"field": "n.y", "kinds": ["map", "rename"], "parents": ["none", "optional"], "targets": ["n.y", "n.z", "n"], "n": 2, "inner": True}, "reach": ["rename"], "quick_s": 60, "max_witnesses": 100}]
    + [{"name": h, "fn": run, "params": {"field": "n.y", "kinds": RULES, "parents": ["none", "object"], "targets": ["n.y", "n"], "how": h}, "reach": ALLR, "quick_s": 60, "max_witnesses": 60} for h in ("file", "manager")]
    + [{"name": "three", "fn": run, "params": {"field": "n.y", "kinds": RULES, "parents": PARENTS, "targets": TARGETS, "n": 3}, "reach": ALLR, "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4}]
    + [{"name": "three versioned", "fn": run, "params": {"field": "n.y", "kinds": RULES, "parents": PARENTS, "targets": TARGETS, "n": 3, "inner": True}, "reach": ALLR, "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4}]
)
