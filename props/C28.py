"""C28: the schema commands write exactly what they say."""
from dataclasses import MISSING
import hyperstate
from props import tool as tl
from props.C29 import *
from props.C29 import E, I, W

META = {
    "bounds": "the classes and differences of C29 (up to 2 differences at once), old schema files written by dump-schema; dump-schema, check-schema and upgrade-schema with and without a file name; once and again; with the proposed rules declared in a next version; files that are missing, broken or hold another schema",
    "outside": "file-system failures while writing; comments and formatting of schema files",
    "functions": ["schema_checker.dump_schema", "schema_checker.upgrade_schema", "schema_checker.check_schema", "schema_checker._upgrade_schema", "schema_checker._dump_schema", "types.load_schema"],
    "assumptions": ["pyron and click are trusted"],
}


def run(ctx, cls, *args):
    ok, r = ctx.attempt(tl.tool, cls, *args)
    return ok, unstyle(tl.tool.output).splitlines()


def mirrors(ctx, schema, cls):
    "Whether a schema read from a file describes a class."
    if schema.name != cls.__name__ or list(schema.fields) != list(cls.__dataclass_fields__):
        return False
    if schema.version != (cls.version() if issubclass(cls, Versioned) else None):
        return False
    for n, f in cls.__dataclass_fields__.items():
        g = schema.fields[n]
        has = f.default is not MISSING or f.default_factory is not MISSING
        if bool(g.has_default) != has:
            return False
        d = f.default if f.default is not MISSING else f.default_factory() if has else None
        if not ctx.same(g.default, d, types=False):
            return False
        if not mirrors_type(ctx, g.type, f.type):
            return False
    return True


def mirrors_type(ctx, s, T):
    o = typing.get_origin(T)
    if T in (int, float, str, bool):
        return s == t.Primitive(T.__name__)
    if o is list:
        return isinstance(s, t.List) and mirrors_type(ctx, s.inner, T.__args__[0])
    if o is tuple:
        return isinstance(s, t.Tuple) and len(s.inner) == len(T.__args__) and all(mirrors_type(ctx, x, y) for x, y in zip(s.inner, T.__args__))
    if o is dict:
        return isinstance(s, t.Dict) and mirrors_type(ctx, s.key, T.__args__[0]) and mirrors_type(ctx, s.val, T.__args__[1])
    if o is Literal:
        return isinstance(s, t.Literal) and sorted(s.allowed_values, key=str) == sorted(typing.get_args(T), key=str)
    if o is Union:
        return isinstance(s, t.Option) and mirrors_type(ctx, s.type, T.__args__[0])
    if isinstance(T, enum.EnumMeta):
        return isinstance(s, t.Enum) and s.name == T.__name__ and dict(s.variants) == {k: v.value for k, v in T.__members__.items()}
    return isinstance(s, t.Struct) and mirrors(ctx, s, T)


def commands(ctx, edits, count, wraps, whole):
    wrap = ctx.choose("wrap", wraps)
    old, new, reports = pair(ctx, edits, count, wrap, whole)
    d = ctx.tmp()
    f = d + "/s.ron"
    ok, _ = run(ctx, old, "dump-schema", f)
    ctx.check(ok, "dump-schema failed")
    ctx.check(mirrors(ctx, t.load_schema(f), old), "the file is not the schema of the class", schema=t.load_schema(f))
    before = read(f)
    compatible = worst(reports) == I
    cmd = ctx.choose("command", ["check", "upgrade"])
    if cmd == "check":
        ok, lines = run(ctx, new, "check-schema", f)
        ctx.check(ok and ("Schema compatible" in lines) == compatible, "check-schema gives the wrong verdict", output=lines)
        ctx.check(read(f) == before, "check-schema changed the file")
        ctx.reach("compatible" if compatible else "incompatible")
        return
    ok, lines = run(ctx, new, "upgrade-schema", f)
    ctx.check(ok, "upgrade-schema failed", output=lines)
    if compatible:
        ctx.check(mirrors(ctx, t.load_schema(f), new), "the file is not the schema of the new class", schema=t.load_schema(f), output=lines)
        ctx.check("Schema incompatible" not in lines, "upgrade-schema gives the wrong verdict", output=lines)
        after = read(f)
        ok, lines = run(ctx, new, "upgrade-schema", f)
        ctx.check(ok and read(f) == after, "a second upgrade changed the file", output=lines)
        ok, lines = run(ctx, new, "check-schema", f)
        ctx.check(ok and lines == ["Schema compatible"], "an upgraded schema has differences", output=lines)
        ctx.reach("upgraded")
    else:
        ctx.check(read(f) == before, "a schema was replaced by an incompatible one", output=lines)
        ctx.check("Schema incompatible" in lines, "upgrade-schema gives the wrong verdict", output=lines)
        ctx.reach("kept")


MENDED = ["default changed", "default lost", "added optional", "added list", "removed", "renamed", "enum member re-valued", "literal value removed", "literal values swapped"]


def declared(ctx, edits, count, wraps):
    "With the proposed rules declared, the schema is upgraded."
    wrap = ctx.choose("wrap", wraps)
    rules = {}
    old, new, reports = pair(ctx, edits, count, wrap, False, 1, rules)
    f = ctx.tmp() + "/s.ron"
    tl.dump_schema(f, old)
    before = read(f)
    fixes = SchemaChecker(t.load_schema(f), new).proposed_fixes
    give = ctx.flag("declare")
    if give:
        rules[0] = list(fixes)
    compatible = give or worst(reports) == I
    ok, lines = run(ctx, new, "upgrade-schema", f)
    ctx.check(ok, "upgrade-schema failed", output=lines)
    if compatible:
        ctx.check(mirrors(ctx, t.load_schema(f), new), "the file is not the schema of the new class", schema=t.load_schema(f), output=lines)
        ctx.reach("upgraded")
    else:
        ctx.check(read(f) == before, "a schema was replaced by an incompatible one", output=lines)
        ctx.reach("kept")


def files(ctx):
    "Missing and broken files, and the default file name."
    C = cls("Conf", [("a", int, ctx.int("d")), ("b", Optional[str], None)], 2)
    d = ctx.tmp()
    cmd = ctx.choose("command", ["dump-schema", "check-schema", "upgrade-schema"])
    kind = ctx.choose("file", ["missing", "broken", "empty", "other", "named", "default"])
    f = d + ("/config-schema.ron" if kind == "default" else "/s.ron")
    if kind == "broken":
        write(f, "Struct(name: ")
    elif kind == "empty":
        write(f, "")
    elif kind == "other":
        write(f, "List(inner: Primitive(type: \"int\"))")
    elif kind != "missing":
        tl.dump_schema(f, C)
    before = read(f) if kind != "missing" else None
    cwd = os.getcwd()
    os.chdir(d)
    try:
        ok, lines = run(ctx, C, cmd, *([] if kind == "default" else [f]))
    finally:
        os.chdir(cwd)
    ctx.reach(cmd)
    if cmd == "dump-schema":
        ctx.check(ok and mirrors(ctx, t.load_schema(f), C), "the file is not the schema of the class")
    elif kind in ("named", "default"):
        ctx.check(ok and mirrors(ctx, t.load_schema(f), C), "an unchanged schema was changed")
        ctx.check(cmd == "upgrade-schema" or read(f) == before, "check-schema changed the file")
    else:
        ctx.check(not ok, "a file that is no schema was accepted", output=lines)
        if kind == "missing":
            ctx.check(not os.path.exists(f), "a file came from nowhere")
        else:
            ctx.check(read(f) == before, "a file that is no schema was changed")
    ctx.check(sorted(os.listdir(d)) in ([os.path.basename(f)], []), "another file was written", files=os.listdir(d))


CASES = [
    {"name": "commands", "fn": commands, "params": {"edits": EDITS, "count": 1, "wraps": ["plain", "optional", "list"], "whole": False}, "reach": ["compatible", "incompatible", "upgraded", "kept"], "quick_s": 90, "shards": 4, "depth": 3, "max_witnesses": 80},
    {"name": "commands, two", "fn": commands, "params": {"edits": ["default changed", "added with default", "removed", "to float"], "count": 2, "wraps": ["plain"], "whole": False}, "reach": ["compatible", "incompatible", "upgraded", "kept"], "quick_s": 90, "shards": 4, "depth": 3, "max_witnesses": 60},
    {"name": "whole objects", "fn": commands, "params": {"edits": ["same", "default changed"], "count": 1, "wraps": ["plain", "deep"], "whole": True}, "reach": ["compatible", "incompatible", "upgraded", "kept"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "declared", "fn": declared, "params": {"edits": MENDED, "count": 1, "wraps": ["plain"]}, "reach": ["upgraded", "kept"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "files", "fn": files, "params": {}, "reach": ["dump-schema", "check-schema", "upgrade-schema"], "quick_s": 60},
    {"name": "commands, two, all", "fn": commands, "params": {"edits": EDITS, "count": 2, "wraps": sorted(WRAP), "whole": True}, "reach": ["upgraded", "kept"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 5},
]
