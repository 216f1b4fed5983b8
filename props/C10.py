"""C10: upgrade rules act the same way on schemas and on configs."""
from copy import deepcopy
from dataclasses import make_dataclass
import hyperstate
import pyron
from hyperstate.schema import types as t
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "schemas nested two deep through plain and optional structs with 10 field types (int, float, bool, string, enum, literal, list, tuple, dictionary, object), each optional or not, with or without a symbolic default; configs with symbolic values, every field with a default left out or not, null parents; each of the 7 rules on every path, one rule, two in a row, and rules spread over up to 3 versions; schemas built directly or loaded from a dumped file",
    "outside": "fields of the elements of lists and dictionaries (configs are not rewritten there); value maps that change the type of a field that is not an enum",
    "functions": ["rewrite_rule.*.apply", "rewrite_rule.*.apply_to_schema", "rewrite_rule._remove_schema", "rewrite_rule._insert_schema", "versioned.Versioned._apply_upgrades", "versioned.Versioned._apply_schema_upgrades", "types.load_schema", "schema_checker._dump_schema"],
    "assumptions": [],
}

KINDS = ["int", "float", "str", "bool", "enum", "literal", "list", "tuple", "dict", "struct"]


def make_type(ctx, kind):
    P = t.Primitive
    if kind in ("int", "float", "str", "bool"):
        return P(kind)
    if kind == "enum":
        a, b = ctx.int("variant A"), ctx.int("variant B")
        ctx.assume(a != b)
        return t.Enum("Kind", {"A": a, "B": b})
    if kind == "literal":
        return t.Literal(["on", "off", 3])
    if kind == "list":
        return t.List(P("int"))
    if kind == "tuple":
        return t.Tuple([P("int"), P("bool")])
    if kind == "dict":
        return t.Dict(P("str"), P("int"))
    return t.Struct("Sub", {"x": t.Field("x", P("int"), None, False), "y": t.Field("y", P("int"), 4, True)}, None)


def make_value(ctx, name, ty):
    if isinstance(ty, t.Option):
        return None if ctx.flag(name + " null") else make_value(ctx, name, ty.type)
    if isinstance(ty, t.Primitive):
        return {"int": lambda: ctx.int(name), "float": lambda: ctx.real(name), "str": lambda: ctx.str(name, 1, 1), "bool": lambda: ctx.flag(name)}[ty.type]()
    if isinstance(ty, t.Enum):
        return ctx.choose(name, list(ty.variants.values()))
    if isinstance(ty, t.Literal):
        return ctx.choose(name, list(ty.allowed_values))
    if isinstance(ty, t.List):
        return [make_value(ctx, name + "0", ty.inner)] * ctx.choose(name + "#", 2)
    if isinstance(ty, t.Tuple):
        return tuple(make_value(ctx, name + str(i), x) for i, x in enumerate(ty.inner))
    if isinstance(ty, t.Dict):
        return {"k": make_value(ctx, name + "k", ty.val)}
    d = {"x": ctx.int(name + "x")}
    if ctx.flag(name + "y given"):
        d["y"] = ctx.int(name + "y")
    return d


def absentable(f):
    return f.has_default or isinstance(f.type, t.Struct) and all(absentable(g) for g in f.type.fields.values())


def fits(v, ty, missing=(), path=()):
    "Whether some contents conform to a schema type."
    if isinstance(ty, t.Nothing):
        return True
    if isinstance(ty, t.Option):
        return v is None or fits(v, ty.type, missing, path)
    if isinstance(ty, t.Primitive):
        if isinstance(v, bool):
            return ty.type == "bool"
        return isinstance(v, {"int": int, "float": (int, float), "str": str, "bool": bool}[ty.type])
    if isinstance(ty, t.Enum):
        return any(v == x for x in ty.variants.values())
    if isinstance(ty, t.Literal):
        return any(type(v) == type(x) and v == x or isinstance(v, int) and isinstance(x, int) and v == x for x in ty.allowed_values)
    if isinstance(ty, t.List):
        return isinstance(v, list) and all(fits(x, ty.inner) for x in v)
    if isinstance(ty, t.Tuple):
        return isinstance(v, tuple) and len(v) == len(ty.inner) and all(fits(x, i) for x, i in zip(v, ty.inner))
    if isinstance(ty, t.Dict):
        return isinstance(v, dict) and all(fits(k, ty.key) and fits(x, ty.val) for k, x in v.items())
    if isinstance(ty, t.Struct):
        if not isinstance(v, dict):
            return False
        # an object holding only filled in fields stands for an absent one
        weak = "!weak ref" in v
        for k in v:
            if k != "!weak ref" and k not in ty.fields:
                return False
        for k, f in ty.fields.items():
            if k not in v:
                if not weak and not absentable(f) and path + (k,) not in missing:
                    return False
            elif not fits(v[k], f.type, missing, path + (k,)):
                return False
        return True
    return False


def paths(v, ty, prefix=()):
    "The paths of all fields of a config (through objects that are there)."
    out = set()
    if isinstance(ty, t.Option):
        ty = ty.type
    if isinstance(ty, t.Struct) and isinstance(v, dict):
        for k in v:
            if k in ty.fields:
                out.add(prefix + (k,))
                out |= paths(v[k], ty.fields[k].type, prefix + (k,))
    return out


def world(ctx, path, kind, parents, default, elide=True, sibling_default=False):
    """A schema with a field of a kind at a path, and a config of it."""
    ty = make_type(ctx, kind)
    if ctx.flag("optional"):
        ty = t.Option(ty)
    f = t.Field("a", ty, None, False)
    if default:
        f = t.Field("a", ty, make_value(ctx, "default", ty), True)
    given = not (default and elide and ctx.flag("left out"))
    b = t.Field("b", t.Primitive("int"), 6, True)
    schema = t.Struct("Conf", {}, 0)
    conf = {}
    s, d = schema, conf
    for seg in path[:-1]:
        inner = t.Struct(seg.upper(), {}, None)
        parent = ctx.choose("parent " + seg, parents)
        s.fields["b"] = b
        if d is not None and ctx.flag("b given " + seg):
            d["b"] = ctx.int("b " + seg)
        if parent == "plain":
            s.fields[seg] = t.Field(seg, inner, None, False)
        else:
            s.fields[seg] = t.Field(seg, t.Option(inner), None, True)
        there = "there"
        if d is not None:
            if parent == "optional":
                there = ctx.choose(seg, ["there", "null", "absent"])
            elif not given and elide:
                there = ctx.choose(seg, ["there", "absent"])
            if there == "there":
                d[seg] = {}
                d = d[seg]
            else:
                if there == "null":
                    d[seg] = None
                d = None
        s = inner
    s.fields["a"] = f
    s.fields["b"] = b
    if d is not None:
        if given:
            d["a"] = make_value(ctx, "v", ty)
        if ctx.flag("b given"):
            d["b"] = ctx.int("b")
    return schema, conf, f


def reloaded(ctx, schema):
    "The schema as it comes back from a schema file."
    d = ctx.tmp()
    import hyperstate.serde as serde

    write(d + "/s.ron", pyron.to_string(serde.asdict(schema, named_tuples=True)))
    return t.load_schema(d + "/s.ron")


def get(d, path):
    for s in path:
        if not isinstance(d, dict) or s not in d:
            return None, False
        d = d[s]
    return d, True


def check_pair(ctx, rules, schema, conf, old_paths, new_path=None, field_path=None, complete=True):
    before = deepcopy(conf)
    for r in rules:
        ok, e = ctx.attempt(r.apply_to_schema, schema)
        ctx.check(ok, "a rule failed on a schema", rule=r, schema=schema, error=e)
    out = conf
    for r in rules:
        ok, out = ctx.attempt(r.apply, out)
        ctx.check(ok, "a rule failed on a config", rule=r, config=before, error=out)
    missing = ()
    if new_path is not None:
        # nothing to move out of an object that is null or absent
        missing = tuple(tuple(new_path[:i]) for i in range(1, len(new_path) + 1))
    ctx.check(fits(out, schema, missing), "the upgraded config does not conform to the upgraded schema", rules=rules, before=before, config=out, schema=schema)
    return out


PATHS = ["a", "p.a", "p.q.a"]


def rule_on(ctx, name, path, f, schema, conf):
    """A rule the field can have, and whether the config passes it; None if
    there is no such rule for the field."""
    v, present = get(conf, path)
    if name == "delete":
        return DeleteField(path)
    if name == "map":
        ty = f.type.type if isinstance(f.type, t.Option) else f.type
        if isinstance(ty, t.Enum):
            old, new = ty.variants["A"], ctx.int("new value")
            ctx.assume(new != ty.variants["B"])
            return MapFieldValue(path, lambda x: x if x != old else new)
        if isinstance(ty, t.Primitive) and ty.type in ("int", "float"):
            return MapFieldValue(path, lambda x: x if x is None else x + 1)
        return MapFieldValue(path, lambda x: x)
    if name == "change default":
        if not f.has_default:
            return None
        return ChangeDefault(path, f.default, make_value(ctx, "new default", f.type))
    if name == "add default":
        return AddDefault(path, f.default if f.has_default else make_value(ctx, "new default", f.type))
    if name == "check":
        allowed = {"on", 3, None} if not isinstance(f.type, t.Primitive) or f.type.type != "int" else {3, 5}
        if present:
            if not (v is None or isinstance(v, (int, str)) and not isinstance(v, bool)):
                return None
            if not any(type(v) is type(x) and v == x or isinstance(x, int) and isinstance(v, int) and v == x for x in allowed):
                raise Skip()
        return CheckValue(path, allowed)
    if name == "reject":
        ty = f.type.type if isinstance(f.type, t.Option) else f.type
        if not isinstance(ty, t.Literal):
            return None
        if present and v == "off":
            raise Skip()
        return RejectValues(path, {"off"})
    raise KeyError(name)


class Skip(Exception):
    pass


RULES = ["delete", "map", "change default", "add default", "check", "reject"]


def single(ctx, path, kinds, rules, reload=False, parents=("plain", "optional")):
    path = path.split(".")
    name = ctx.choose("rule", rules)
    kind = ctx.choose("kind", kinds)
    default = ctx.flag("default")
    schema, conf, f = world(ctx, path, kind, list(parents), default, elide=not reload)
    ctx.check(fits(conf, schema), "harness")
    try:
        rule = rule_on(ctx, name, path, f, schema, conf)
    except Skip:
        return
    if rule is None:
        return
    if reload:
        schema = reloaded(ctx, schema)
    before = paths(conf, schema)
    v, present = get(conf, path)
    whole = isinstance(get(conf, path[:-1])[0], dict)
    ctx.reach(name)
    out = check_pair(ctx, [rule], schema, conf, before)
    after = paths(out, schema)
    field = schema.find_field(path)
    if name == "delete":
        ctx.check(field is None, "the schema still has the field")
        ctx.check(after == before - {p for p in before if list(p[: len(path)]) == list(path)}, "other fields", config=out)
    else:
        ctx.check(field is not None, "the schema lost the field")
        expect = set(before)
        if name in ("change default", "add default") and whole:
            expect.add(tuple(path))
        if whole:
            ctx.check({p[: len(path)] for p in after} == {p[: len(path)] for p in expect}, "other fields", config=out)
        if name == "change default":
            ctx.check(field.has_default and ctx.same(plain(field.default), plain(rule.new_default)), "the schema has another default", default=field.default)
        elif f.has_default and name != "add default":
            ctx.check(field.has_default, "the schema lost the default")
        if name in ("check", "reject"):
            # the schema says which values are left
            for x in ("on", "off", 3, 5, None):
                left = x in rule.allowed_values if name == "check" else x != "off" and fits(x, f.type)
                ctx.check(fits(x, field.type) == left, "the schema does not have the values that the rule leaves", value=x, type=field.type)
    rest = schema.find_field(path[:-1] + ["b"])
    ctx.check(rest is not None and rest.has_default and rest.default == 6, "the schema changed a sibling")


def plain(v):
    "Struct literals of a schema file as dictionaries."
    if isinstance(v, tuple) and hasattr(v, "_asdict"):
        return {k: plain(x) for k, x in v._asdict().items()}
    return v


TARGETS = ["z", "p.z", "p.q.z", "n.z", "n.m.z", "o.z"]


def rename(ctx, path, kinds, reload=False, targets=TARGETS):
    path = path.split(".")
    to = ctx.choose("to", targets).split(".")
    kind = ctx.choose("kind", kinds)
    default = ctx.flag("default")
    schema, conf, f = world(ctx, path, kind, ["plain", "optional"], default)
    if to[0] == "o":
        # into an object that has been there all along
        schema.fields["o"] = t.Field("o", t.Option(t.Struct("O", {"c": t.Field("c", t.Primitive("int"), 5, True)}, None)), None, True)
        o = ctx.choose("o", ["there", "null", "absent"])
        if o == "there":
            conf["o"] = {"c": ctx.int("o.c")} if ctx.flag("o.c given") else {}
        elif o == "null":
            conf["o"] = None
    if to[0] == "p" and (len(path) < 2 or len(to) == 3 and len(path) < 3):
        to[0] = "n"  # the schema has no such object
    ctx.check(fits(conf, schema), "harness")
    if reload:
        schema = reloaded(ctx, schema)
    before = paths(conf, schema)
    v, present = get(conf, path)
    v = deepcopy(v)
    ctx.reach("moved" if present else "absent")
    out = check_pair(ctx, [RenameField(path, to)], schema, conf, before, new_path=None if present else to)
    now, there = get(out, to)
    if present:
        parent, p_there = get(out, to[:-1])
        if p_there and parent is None:
            ctx.check(not there, "a value in a null object")
        else:
            ctx.check(there and ctx.same(now, v), "the value is not at its new place", config=out)
    else:
        ctx.check(not there, "a value out of nowhere", config=out)
    ctx.check(schema.find_field(path) is None, "the schema still has the old field")
    g = schema.find_field(to)
    ctx.check(g is not None, "the schema does not have the field at its new place", schema=schema)
    ctx.check(g.has_default == f.has_default and ctx.same(plain(g.default), plain(f.default)) and type(g.type) is type(f.type), "the field changed on its way", field=g)


def twice(ctx, path):
    "Two rules in a row."
    path = path.split(".")
    schema, conf, f = world(ctx, path, ctx.choose("kind", ["int", "enum", "literal"]), ["plain", "optional"], True)
    first = ctx.choose("first", ["rename", "map", "change default"])
    rules = []
    to = path
    default = f.default
    if first == "rename":
        to = ctx.choose("to", ["z", "n.z"]).split(".")
        rules.append(RenameField(path, to))
    elif first == "map":
        ty = f.type.type if isinstance(f.type, t.Option) else f.type
        if isinstance(ty, t.Enum):
            old, new = ty.variants["A"], ctx.int("new value")
            ctx.assume(new != ty.variants["B"])
            if f.default is not None and f.default == old:
                return
            rules.append(MapFieldValue(path, lambda x: x if x != old else new))
            f = t.Field("a", ty, default, True)
        else:
            rules.append(MapFieldValue(path, lambda x: x))
    else:
        default = make_value(ctx, "d2", f.type)
        rules.append(ChangeDefault(path, f.default, default))
    second = ctx.choose("second", ["rename", "delete", "change default", "add default"])
    new = None
    if second == "rename":
        end = ctx.choose("end", ["y", "n.y"]).split(".")
        rules.append(RenameField(to, end))
        new = end
    elif second == "delete":
        rules.append(DeleteField(to))
    elif second == "change default":
        rules.append(ChangeDefault(to, default, make_value(ctx, "d3", f.type)))
    else:
        rules.append(AddDefault(to, default))
    ctx.reach(second)
    check_pair(ctx, rules, schema, conf, paths(conf, schema), new_path=new or to)


def versions(ctx, maxn):
    "A class upgrades schema and config through the same versions."
    n = ctx.choose("class version", maxn + 1)
    rules = {}
    name = "v0"
    names = [name]
    for k in range(n):
        kind = ctx.choose("rules%d" % k, ["gap", "rename", "two", "nested", "delete"])
        if kind == "rename":
            rules[k] = [RenameField((name,), ("v%d" % (k + 1),))]
            name = "v%d" % (k + 1)
        elif kind == "two":
            rules[k] = [RenameField((name,), ("tmp",)), RenameField(("tmp",), ("v%d" % (k + 1),))]
            name = "v%d" % (k + 1)
        elif kind == "nested":
            rules[k] = [RenameField(("p", "u"), ("p", "w%d" % k)), RenameField(("p", "w%d" % k), ("p", "u"))]
        elif kind == "delete":
            rules[k] = [DeleteField(("b%d" % k,))]
        names.append(name)
    at = ctx.choose("version", n + 1)
    I = t.Primitive("int")
    gone = {k for k in range(at) if isinstance(rules.get(k, [None])[0], DeleteField)}
    bs = [k for k in range(n) if k not in gone]
    left = [k for k in range(n) if not isinstance(rules.get(k, [None])[0], DeleteField)]
    P = make_dataclass("P", [("u", int), ("c", int, 4)])
    C = make_dataclass(
        "Conf",
        [(name, int), ("p", P)] + [("b%d" % k, int, 1) for k in left],
        bases=(Versioned,),
        namespace={"version": classmethod(lambda c: n), "upgrade_rules": classmethod(lambda c: rules)},
    )
    p = t.Struct("P", {"u": t.Field("u", I, None, False), "c": t.Field("c", I, 4, True)}, None)
    fields = {names[at]: t.Field(names[at], I, None, False), "p": t.Field("p", p, None, False)}
    for k in bs:
        fields["b%d" % k] = t.Field("b%d" % k, I, 1, True)
    schema = t.Struct("Conf", fields, at)
    v, pv = ctx.int("v"), ctx.int("pv")
    bv = {k: ctx.int("b%d" % k) for k in bs}
    text = "Conf(version: %d, %s: %s, p: P(u: %s)%s)" % (at, names[at], v, pv, "".join(", b%d: %s" % (k, bv[k]) for k in bs))
    ok, out = ctx.attempt(hyperstate.loads, C, text)
    ctx.check(ok, "the config was upgraded through other versions", text=text, error=out)
    ctx.check(ctx.same(out, C(v, P(pv), *[bv[k] for k in left])), "the config was upgraded to another one", text=text, config=out)
    ok, ck = ctx.attempt(SchemaChecker, schema, C)
    ctx.reach("%d to %d" % (at, n))
    ctx.check(ok, "the schema could not be upgraded", error=ck)
    ctx.check(ck.changes == [], "the schema was upgraded through other versions", changes=[type(c).__name__ for c in ck.changes])


CASES = (
    [{"name": "one " + p, "fn": single, "params": {"path": p, "kinds": KINDS if p == "a" else ["int", "enum", "literal", "struct"], "rules": RULES}, "reach": RULES, "quick_s": 60, "shards": {"a": 1, "p.a": 2, "p.q.a": 4}[p], "depth": 3, "max_witnesses": 150} for p in PATHS if p != "p.q.a"]
    + [{"name": "one p.q.a", "fn": single, "params": {"path": "p.q.a", "kinds": ["int", "enum", "literal"], "rules": RULES}, "reach": RULES, "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 150}]
    + [{"name": "one, from a file", "fn": single, "params": {"path": "p.a", "kinds": KINDS, "rules": ["change default", "check", "reject"], "reload": True, "parents": ["plain"]}, "reach": ["change default", "check", "reject"], "quick_s": 60, "max_witnesses": 60}]
    + [{"name": "rename " + p, "fn": rename, "params": {"path": p, "kinds": ["int", "enum"] if p != "p.q.a" else ["int"]}, "reach": ["moved", "absent"], "quick_s": 60, "max_witnesses": 80} for p in PATHS]
    + [{"name": "rename, from a file", "fn": rename, "params": {"path": "a", "kinds": KINDS, "reload": True, "targets": ["n.z"]}, "reach": ["moved", "absent"], "quick_s": 60, "max_witnesses": 80}]
    + [{"name": "two " + p, "fn": twice, "params": {"path": p}, "reach": ["rename", "delete", "change default", "add default"], "quick_s": 60, "max_witnesses": 80} for p in PATHS[:2]]
    + [{"name": "versions", "fn": versions, "params": {"maxn": 3}, "reach": ["0 to 3", "1 to 3", "3 to 3"], "quick_s": 60, "max_witnesses": 80}]
    + [{"name": "one deep", "fn": single, "params": {"path": "p.q.a", "kinds": KINDS, "rules": RULES}, "reach": RULES, "thorough_only": True, "thorough_s": 400, "shards": 8, "depth": 4}]
    + [{"name": "rename deep " + p, "fn": rename, "params": {"path": p, "kinds": KINDS}, "reach": ["moved", "absent"], "thorough_only": True, "thorough_s": 400, "shards": 4, "depth": 3} for p in PATHS]
    + [{"name": "two deep", "fn": twice, "params": {"path": "p.q.a"}, "reach": ["rename"], "thorough_only": True, "thorough_s": 400, "shards": 8, "depth": 3}]
    + [{"name": "versions deep", "fn": versions, "params": {"maxn": 4}, "reach": ["0 to 4"], "thorough_only": True, "thorough_s": 400, "shards": 4, "depth": 3}]
)
