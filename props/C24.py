"""C24: upgrade-config preserves what a config means."""
from contextlib import redirect_stderr, redirect_stdout
import io
import os
import sys
import pyron
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField
from hyperstate.schema.schema_checker import schema_evolution_cli
from hyperstate.schema.versioned import Versioned
from props.C06 import PARENTS, RULES, classes, rule
from props.util import *

META = {
    "bounds": "a versioned class with a plain, a nested (5 kinds) and a nested versioned object, files of every version, 9 kinds of rule on a top level or nested field, every presence pattern, symbolic values that may equal the defaults, schedules in 3 fields; upgrade-config through its command line, with and without including defaults, dry or not, on one file twice and on two files; 10 ways in which a file cannot be upgraded; sequences of two rules, class shapes with lists, dictionaries, enums, tuples, alternatives and text",
    "outside": "failures of the file system while the file is written, comments in the file, non-ASCII text under locales that cannot write it; union fields whose default compares equal (True, 1, 1.0) to a value of another type",
    "functions": ["schema_checker.upgrade_config", "schema_checker._upgrade_config", "schema_checker.schema_evolution_cli", "hyperstate._typed_load", "hyperstate._typed_dump", "hyperstate.ElideDefaults", "versioned.VersionedSerializer", "hyperstate.ScheduleSerializer"],
    "assumptions": ["pyron reads and writes its texts correctly; click parses its options correctly"],
}


@dataclass
class State:
    s: float


def cli(ctx, C, *args):
    "Runs the command line; returns whether it succeeded."
    argv = sys.argv
    sys.argv = ["config"] + list(args)
    out = io.StringIO()
    try:
        with redirect_stdout(out), redirect_stderr(out):
            schema_evolution_cli(C)
    except SystemExit as e:
        return e.code in (None, 0), out.getvalue()
    finally:
        sys.argv = argv
    return True, out.getvalue()


def meaning_of(ctx, C, path):
    "The config and its schedules, as the config at several states."
    sm = hyperstate.StateManager(C, State, lambda c, x: State(0.0), path)
    configs = []
    for s in (0, 10):
        sm.state.s = s
        sm.step()
        configs.append(util_copy(sm.config))
    return configs


def util_copy(v):
    if is_dataclass(v):
        return ("obj", type(v), [(n, util_copy(getattr(v, n))) for n in v.__dataclass_fields__])
    if isinstance(v, list):
        return [util_copy(x) for x in v]
    if isinstance(v, tuple):
        return tuple(util_copy(x) for x in v)
    if isinstance(v, dict):
        return {k: util_copy(x) for k, x in v.items()}
    return v


def listing(d):
    return sorted(os.listdir(d))


def judge(ctx, C, src, versions):
    d = ctx.tmp()
    path = d + "/c.ron"
    write(path, src)
    ok, before = ctx.attempt(meaning_of, ctx, C, path)
    mode = ctx.choose("mode", ["elide", "include", "dry"])
    flags = ["--include-defaults"] if mode == "include" else []
    dry = mode == "dry"
    ok2, r = ctx.attempt(cli, ctx, C, "upgrade-config", *(flags + (["--dry-run"] if dry else []) + [path]))
    ctx.check(listing(d) == ["c.ron"], "other files were left", files=listing(d))
    text = read(path)
    if not ok:
        ctx.reach("refused")
        ctx.check(not (ok2 and r[0]), "a file that does not load was upgraded", text=src, after=text)
        ctx.check(text == src, "a file that cannot be upgraded was changed", text=src, after=text, error=r)
        return
    ctx.check(ok2 and r[0], "a file that loads was not upgraded", text=src, error=r)
    if dry:
        ctx.reach("dry")
        ctx.check(text == src, "a dry run changed the file", text=src, after=text)
        return
    doc = pyron.loads(text, preserve_class_names=True)
    for p, v in versions:
        o = doc
        for k in p:
            o = o.get(k) if isinstance(o, dict) else None
        if o is not None:
            ctx.check(ctx.same(o.get("version"), v), "another version is recorded", text=text, where=p)
    ok, after = ctx.attempt(meaning_of, ctx, C, path)
    ctx.check(ok, "an upgraded file does not load", text=src, after=text, error=after)
    ctx.check(ctx.same(after, before), "an upgraded file loads as another config", text=src, after=text, before=before, got=after)
    ok, r = ctx.attempt(cli, ctx, C, "upgrade-config", *(flags + [path]))
    ctx.check(ok and r[0], "an upgraded file cannot be upgraded", after=text, error=r)
    ctx.check(ctx.same(read(path), text), "upgrading again changes the file", text=src, after=text, again=read(path))
    ctx.reach("elided" if not flags else "full")


def value(ctx, name, sched=True):
    "Text of a field, by value or as a schedule."
    v = ctx.int(name, -10 ** 9, 10 ** 9)
    if sched and ctx.flag(name + " scheduled"):
        return Raw('"s: %s@0 lin 7@8"' % ctx.numeral(v))
    return v


def rules(ctx, field, kinds, parents, inner=False):
    kind = ctx.choose("rule", kinds)
    path = field.split(".")
    parent = ctx.choose("parent", parents)
    if inner:
        rs, old = rule(kind, path[1:], ctx, "")
        R, I = classes(ctx, parent, {}, {0: rs})
        at = 0
    else:
        rs, old = rule(kind, path, ctx, "")
        at = 1
        R, I = classes(ctx, parent, {at: rs}, None)
    version = ctx.choose("version", [0, 2] if not inner else [2])
    nver = ctx.choose("inner version", 2) if inner else None
    upgraded = (version <= at) if not inner else nver == 0
    name = old if upgraded else path[-1]
    sched = kind not in ("map", "check", "reject")
    doc = [("version", version)]
    given = ctx.choose("given", ["value", "other", "nothing"])
    if len(path) == 1:
        if given == "value":
            doc.append((name, value(ctx, "value", sched)))
        if given == "other":
            doc.append(("n", Obj("Inner", ("z", value(ctx, "other")))))
        elif parent == "none" and given == "nothing":
            doc.append(("n", Obj("Inner")))
    else:
        fs = [("version", nver)] if inner else []
        if given == "value":
            fs += [(name, value(ctx, "value", sched)), ("z", ctx.int("z"))]
        elif given == "other":
            fs += [("z", value(ctx, "other", kind in ("none", "rename", "delete")))]
        if given != "nothing":
            doc.append(("n", Obj("Inner", *fs)))
        elif "optional" in parent and ctx.flag("null"):
            doc.append(("n", None))
    judge(ctx, R, ron(ctx, Obj("Root", *doc)), [([], 2)] + ([(["n"], 1)] if inner else []))


def versioned(name, fields, version, rs):
    return make_dataclass(name, fields, bases=(Versioned,), namespace={"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rs)})


BROKEN = ["text", "unknown", "unknown nested", "missing", "kind", "kind nested", "disallowed", "rule", "no version", "schedule", "directory", "absent"]


def broken(ctx):
    "Files that cannot be upgraded, also next to one that can."
    In = make_dataclass("In", [("a", int), ("b", str, "b")])
    C = versioned("C", [("x", int), ("n", In), ("y", float, 1.5)], 2, {1: [RejectValues(("x",), {13}), MapFieldValue(("y",), lambda v: v + 1)], 0: [RenameField(("w",), ("x",))]})
    how = ctx.choose("how", BROKEN)
    first = ctx.flag("first")
    x = ctx.int("x")
    if how == "disallowed":
        x = 13
    else:
        ctx.assume(x != 13)
    doc = {"version": 1, "x": x, "n": Obj("In", ("a", 1)), "y": ctx.real("y")}
    if how == "unknown":
        doc["z"] = 1
    elif how == "unknown nested":
        doc["n"] = Obj("In", ("a", 1), ("z", 3))
    elif how == "missing":
        del doc["x"]
    elif how == "kind":
        doc["x"] = Raw("[1]")
    elif how == "kind nested":
        doc["n"] = Obj("In", ("a", "one"))
    elif how == "rule":
        doc["y"] = "one"
    elif how == "no version":
        del doc["version"]
    elif how == "schedule":
        doc["x"] = Raw('"s: 1@x"')
    src = ron(ctx, Obj("C", *doc.items()))
    if how == "text":
        src = src[:-1]
    d = ctx.tmp()
    bad, good = d + "/bad.ron", d + "/good.ron"
    w = ctx.int("w")
    ctx.assume(w != 13)
    ok_src = ron(ctx, Obj("C", ("version", 0), ("w", w), ("n", Obj("In", ("a", 4)))))
    write(good, ok_src)
    if how == "directory":
        os.mkdir(bad)
    elif how != "absent":
        write(bad, src)
    files = [bad, good] if first else [good, bad]
    before = meaning_of(ctx, C, good)
    ok, r = ctx.attempt(cli, ctx, C, "upgrade-config", *files)
    ctx.check(not (ok and r[0]), "a failure is not reported", how=how, out=r)
    if how == "directory":
        ctx.check(os.path.isdir(bad) and not os.listdir(bad), "a directory was changed")
    elif how == "absent":
        ctx.check(not os.path.exists(bad), "a file was made")
    else:
        ctx.check(read(bad) == src, "a file that cannot be upgraded was changed", text=src, after=read(bad))
    ctx.check(listing(d) == (["good.ron"] if how == "absent" else ["bad.ron", "good.ron"]), "other files were left", files=listing(d))
    ctx.check(read(good) == ok_src or not first, "a file after a failure was changed")
    ctx.check(ctx.same(meaning_of(ctx, C, good), before), "another file has another meaning")
    ctx.reach(how)


def shapes(ctx, depth, leaves=LEAVES):
    "One field of any type, renamed by a rule."
    shape = choose_shape(ctx, "T", depth, leaves)
    T = to_type(shape)
    desc = choose_value(ctx, "v", shape, 1, 1)
    default = ctx.choose("default", ["none", "same", "other"])
    spec = [("f", T), ("a", int, 1)]
    if default != "none":
        base = desc if default == "same" else choose_value(ctx, "d", shape, 1, 1)
        made = util_build(base)
        spec = [("a", int, 1), ("f", T, field(default_factory=lambda: util_build(base))) if made.__class__.__hash__ is None else ("f", T, made)]
    C = versioned("C", spec, 1, {0: [RenameField(("g",), ("f",))]})
    old = ctx.flag("old")
    src = ron(ctx, Obj("C", ("version", 0 if old else 1), ("g" if old else "f", util_build(desc))))
    judge(ctx, C, src, [([], 1)])


def util_build(d):
    return build(d)


def two(ctx, moves):
    "Two rules in a row, on fields that may hold schedules."
    In = make_dataclass("In", [("a", float, 2.0), ("b", int, 5)])
    where = ctx.choose("move", moves)
    rs = {
        "in": [RenameField(("w",), ("n", "a"))],
        "out": [RenameField(("n", "c"), ("x",))],
        "swap": [RenameField(("x",), ("t",)), RenameField(("n", "b"), ("x",)), RenameField(("t",), ("n", "b"))],
    }[where]
    opt = ctx.flag("optional")
    one = ctx.choose("scheduled", ["nothing", "inner", "outer"])

    def val(name):
        v = ctx.int(name, -10 ** 9, 10 ** 9)
        if one == ("outer" if name in "xwl" else "inner"):
            return Raw('"s: %s@0 lin 7@8"' % ctx.numeral(v))
        return v

    C = versioned("C", [("x", int, 5)] + [("n", Optional[In] if opt else In, None) if opt else ("n", In, field(default_factory=In))] + [("l", List[float], field(default_factory=list))], 2, {0: rs, 1: [ChangeDefault(("n", "b"), 5, 6)]})
    doc = [("version", ctx.choose("version", 2))]
    old = doc[0][1] == 0
    if where == "in" and old:
        doc.append(("w", val("w")))
    n = ctx.choose("n", ["absent", "empty", "a", "b"])
    if n in ("absent", "empty") and not (old and where == "out"):
        doc.append(("x", val("x")))
    if n != "absent":
        fs = []
        if where == "out" and old and n != "b":
            fs.append(("c", val("c")))
        if n == "a" and not (where == "in" and old):
            fs.append(("a", val("a")))
        if n == "b":
            fs.append(("b", val("b")))
        doc.append(("n", Obj("In", *fs)))
    elif where == "in" and old and opt:
        return
    if n == "absent":
        doc.append(("l", Raw("[1.5, %s]" % ron(ctx, val("l")))))
    judge(ctx, C, ron(ctx, Obj("C", *doc)), [([], 2)])


ENDS = ["dry", "elided", "full"]
CASES = [
    {"name": "top", "fn": rules, "params": {"field": "x", "kinds": RULES, "parents": ["none"]}, "reach": ENDS + ["refused"], "quick_s": 60, "max_witnesses": 100},
    {"name": "nested", "fn": rules, "params": {"field": "n.y", "kinds": RULES, "parents": PARENTS}, "reach": ENDS + ["refused"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 100},
    {"name": "nested versioned", "fn": rules, "params": {"field": "n.y", "kinds": RULES, "parents": ["none", "object", "optional"], "inner": True}, "reach": ENDS + ["refused"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "broken", "fn": broken, "params": {}, "reach": BROKEN, "quick_s": 60, "max_witnesses": 60},
    {"name": "shapes", "fn": shapes, "params": {"depth": 1}, "reach": ENDS, "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 60},
    {"name": "unions", "fn": shapes, "params": {"depth": 0, "leaves": [u for u in UNIONS if u not in ("float|int", "bool|float|str")] + MIXED}, "quick_s": 60, "max_witnesses": 60},
    {"name": "two", "fn": two, "params": {"moves": ["in", "out", "swap"]}, "reach": ENDS, "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 60},
    {"name": "deep shapes", "fn": shapes, "params": {"depth": 2}, "reach": ENDS, "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2, "max_witnesses": 60},
    {"name": "all parents", "fn": rules, "params": {"field": "n.z", "kinds": RULES, "parents": PARENTS, "inner": True}, "reach": ENDS, "thorough_only": True, "thorough_s": 700, "shards": 4, "depth": 2, "max_witnesses": 60},
]
