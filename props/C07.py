"""C07: a config is upgraded through exactly the versions it has missed."""
from dataclasses import make_dataclass
import pyron
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, MapFieldValue, RenameField, RewriteRule
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "classes at version 0..3 (thorough: 4), every table of rules with or without gaps, 0..2 rules per version (value maps, renames, fills, a rule that returns a new dictionary), files recorded at every version up to the class's (symbolic number), symbolic contents; a versioned object inside another, a plain object, a list, tuple, dictionary or optional, each with its own version and table; overrides; text, file, manager; classes with a minimum version 0..3",
    "outside": "files recorded at versions later than the class's; negative versions",
    "functions": ["versioned.Versioned._apply_upgrades", "versioned.VersionedDeserializer", "versioned.VersionedSerializer", "hyperstate.load", "hyperstate.loads", "hyperstate.StateManager._load_config"],
    "assumptions": [],
}


class Fresh(RewriteRule):
    "A rule of the user's that returns a new dictionary."

    def __init__(self, name, f):
        self.name, self.f = name, f

    def apply(self, d):
        out = dict(d)
        if self.name in out:
            out[self.name] = self.f(out[self.name])
        return out

    def apply_to_schema(self, schema):
        pass


KINDS = ["gap", "empty", "map", "two", "rename", "fresh", "fill"]


def table(ctx, tag, n, kinds, log):
    """Rules for versions 0..n-1, and what each version's rules do to the
    contents, as functions on {field: value}."""
    rules, effects = {}, []
    name = "v0"
    for k in range(n):
        kind = ctx.choose("%srules%d" % (tag, k), kinds)
        f = (lambda k: lambda x: (log.append((tag, k)), 2 * x + k + 1)[1])(k)
        pure = (lambda k: lambda x: 2 * x + k + 1)(k)
        if kind == "gap":
            effects.append(lambda d: d)
        elif kind == "empty":
            rules[k] = []
            effects.append(lambda d: d)
        elif kind == "map":
            rules[k] = [MapFieldValue((name,), f)]
            effects.append((lambda nm, p: lambda d: {x: p(y) if x == nm else y for x, y in d.items()})(name, pure))
        elif kind == "two":
            g = (lambda k: lambda x: x + 100 * (k + 1))(k)
            rules[k] = [MapFieldValue((name,), f), MapFieldValue((name,), g)]
            effects.append((lambda nm, p, g: lambda d: {x: g(p(y)) if x == nm else y for x, y in d.items()})(name, pure, g))
        elif kind == "rename":
            new = "v%d" % (k + 1)
            rules[k] = [RenameField((name,), (new,))]
            effects.append((lambda a, b: lambda d: {(b if x == a else x): y for x, y in d.items()})(name, new))
            name = new
        elif kind == "fresh":
            rules[k] = [Fresh(name, f)]
            effects.append((lambda nm, p: lambda d: {x: p(y) if x == nm else y for x, y in d.items()})(name, pure))
        else:
            rules[k] = [AddDefault(("extra",), k + 50)]
            effects.append((lambda k: lambda d: d if "extra" in d else dict(d, extra=k + 50))(k))
    names = ["v0"]
    for k in range(n):
        names.append("v%d" % (k + 1) if any(isinstance(r, RenameField) for r in rules.get(k, [])) else names[-1])
    return rules, effects, names


def versioned(name, n, rules, fields):
    return make_dataclass(
        name,
        fields,
        bases=(Versioned,),
        namespace={"version": classmethod(lambda cls: n), "upgrade_rules": classmethod(lambda cls: rules)},
    )


def contents(ctx, tag, names, effects, at, n):
    "A file's contents at a version, and what they become."
    d = {names[at]: ctx.int(tag + "v"), "other": ctx.int(tag + "other")}
    if ctx.flag(tag + "extra given"):
        d["extra"] = ctx.int(tag + "extra")
    e = dict(d)
    for k in range(at, n):
        e = effects[k](e)
    e.setdefault("extra", -1)
    return d, e


def load(ctx, how, cls, src):
    if how == "text":
        return hyperstate.loads(cls, src)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    if how == "file":
        return hyperstate.load(cls, d + "/c.ron")
    S = make_dataclass("State", [("step", int)])
    return hyperstate.StateManager(cls, S, lambda c, x: S(0), init_path=d + "/c.ron").config


def single(ctx, maxn, kinds=KINDS, how="text"):
    n = ctx.choose("class version", maxn + 1)
    log = []
    rules, effects, names = table(ctx, "", n, kinds, log)
    C = versioned("Conf", n, rules, [(names[n], int), ("other", int), ("extra", int, -1)])
    version = ctx.int("version", 0, n)
    at = None
    for k in range(n + 1):
        if version == k:
            at = k
    d, e = contents(ctx, "", names, effects, at, n)
    where = ctx.choose("version last", 2)
    fields = list(d.items())
    fields.insert(0 if not where else len(fields), ("version", version))
    src = ron(ctx, Obj("Conf", *fields))
    before = len(log)
    ok, r = ctx.attempt(load, ctx, how, C, src)
    ctx.observe("loaded", r if ok else "error")
    ctx.reach("version %d to %d" % (at, n))
    ctx.check(ok, "an old file was refused", text=src, error=r)
    ctx.check(ctx.same(r, C(**e)), "upgraded to something else", text=src, rules=sorted(rules), loaded=r, expect=C(**e))
    # and the dump of it is at the current version
    log[:] = []
    text = hyperstate.dumps(r)
    p = pyron.loads(text, preserve_class_names=True)
    ctx.check(p.get("version") == n, "the dump records another version", text=text)
    again = hyperstate.loads(C, text)
    ctx.check(not log, "loading a dump applied a rule", text=text)
    ctx.check(ctx.same(again, r), "a dump loads as something else", text=text, loaded=again)


PLACES = ["plain", "opt", "list", "tuple", "dict", "alts"]


def nested(ctx, place, outer, maxn, kinds, okinds=("map", "rename")):
    log = []
    n = ctx.choose("inner version", maxn + 1)
    rules, effects, names = table(ctx, "i", n, kinds, log)
    I = versioned("Inner", n, rules, [(names[n], int), ("other", int), ("extra", int, -1)])
    T = {"plain": I, "opt": Optional[I], "list": List[I], "tuple": Tuple[int, I], "dict": Dict[str, I], "alts": Union[Alpha, I]}[place]
    count = 2 if place == "list" else 1
    objs, inner = [], []
    for i in range(count):
        at = ctx.choose("inner at%d" % i, n + 1)
        d, e = contents(ctx, "i%d" % i, names, effects, at, n)
        objs.append(Obj("Inner", ("version", at), *d.items()))
        inner.append(I(**e))
    put = {"list": lambda l: l, "tuple": lambda l: (4, l[0]), "dict": lambda l: {"a": l[0]}}.get(place, lambda l: l[0])
    if outer:
        m = 2
        orules, oeffects, onames = table(ctx, "o", m, list(okinds), log)
        O = versioned("Outer", m, orules, [(onames[m], int), ("child", T), ("extra", int, -1)])
        oat = ctx.choose("outer at", m + 1)
        od = {onames[oat]: ctx.int("ov")}
        oe = dict(od)
        for k in range(oat, m):
            oe = oeffects[k](oe)
        src = ron(ctx, Obj("Outer", ("version", oat), *(list(od.items()) + [("child", put(objs))])))
        expect = O(child=put(inner), extra=-1, **oe)
    else:
        O = make_dataclass("Outer", [("child", T), ("q", int)])
        q = ctx.int("q")
        src = ron(ctx, Obj("Outer", ("child", put(objs)), ("q", q)))
        expect = O(child=put(inner), q=q)
    ok, r = ctx.attempt(hyperstate.loads, O, src)
    ctx.observe("loaded", r if ok else "error")
    ctx.reach("loaded")
    ctx.check(ok, "an old file was refused", text=src, error=r)
    ctx.check(ctx.same(r, expect), "upgraded to something else", text=src, loaded=r, expect=expect)
    log[:] = []
    text = hyperstate.dumps(r, elide_defaults=ctx.flag("elide"))
    p = pyron.loads(text, preserve_class_names=True)
    c = p["child"]
    for x in {"list": lambda c: c, "tuple": lambda c: [c[1]], "dict": lambda c: [c["a"]]}.get(place, lambda c: [c])(c):
        ctx.check(x.get("version") == n, "the dump of a nested object records another version", text=text)
    if outer:
        ctx.check(p.get("version") == 2, "the dump records another version", text=text)
    again = hyperstate.loads(O, text)
    ctx.check(not log and ctx.same(again, r), "a dump loads as something else", text=text, loaded=again)


def missing(ctx, how):
    "No version: never taken for the current one."
    n = ctx.choose("class version", 3)
    log = []
    where = ctx.choose("missing in", ["top", "inner", "list", "opt", "both", "default top"])
    rules = {k: [MapFieldValue(("x",), lambda x: x + 1)] for k in range(n)} if ctx.flag("rules") else {}
    I = versioned("Inner", n, rules, [("x", int)])
    fields = [("x", int), ("i", Optional[I], None), ("l", List[I], field(default_factory=list))]
    if where == "default top":
        fields[0] = ("x", int, 3)
    O = versioned("Outer", n, rules, fields)
    x = ctx.int("x")
    o = Obj("Outer", ("x", x)) if where != "default top" else Obj("Outer")
    ver = ("version", n)
    if where not in ("top", "both", "default top"):
        o.fields.insert(0, ver)
    if where != "opt":
        o.fields.append(("i", Obj("Inner", *([ver] if where not in ("inner", "both") else []), x=1)) )
    else:
        o.fields.append(("i", Obj("Inner", x=1)))
    if where == "list":
        o.fields.append(("l", [Obj("Inner", ver, x=1), Obj("Inner", x=2)]))
    src = ron(ctx, o)
    ok, r = ctx.attempt(load, ctx, how, O, src)
    ctx.observe("loaded", ok)
    ctx.reach(where)
    ctx.check(not ok, "a file without a version was taken for a current one", text=src, loaded=r)


def nofile(ctx):
    n = ctx.choose("class version", 3)
    d = ctx.int("d")
    rules = {k: [MapFieldValue(("x",), lambda x: x + 1), ChangeDefault(("x",), 77, d)] for k in range(n)}
    O = versioned("Outer", n, rules, [("x", int, d)])
    r = hyperstate.load(O, None)
    ctx.reach("loaded")
    ctx.check(ctx.same(r, O(d)), "rules were applied without a file", loaded=r)
    S = make_dataclass("State", [("step", int)])
    r = hyperstate.StateManager(O, S, lambda c, x: S(0)).config
    ctx.check(ctx.same(r, O(d)), "rules were applied without a file", loaded=r)


def minimum(ctx, inner):
    "A class may say which versions it no longer upgrades: it then refuses them, or upgrades them in full."
    n = 3
    log = []
    rules, effects, names = table(ctx, "", n, ["gap", "map", "rename"], log)
    C = versioned("Conf", n, rules, [(names[n], int), ("other", int), ("extra", int, -1)])
    low = ctx.choose("minimum", n + 1)
    C.minimum_version = classmethod(lambda cls: low)
    at = ctx.choose("version", n + 1)
    d, e = contents(ctx, "", names, effects, at, n)
    o, want = Obj("Conf", ("version", at), *d.items()), C(**e)
    T = C
    if inner:
        T = make_dataclass("Top", [("c", C)])
        o, want = Obj("Top", ("c", o)), T(want)
    src = ron(ctx, o)
    ok, r = ctx.attempt(hyperstate.loads, T, src)
    ctx.observe("loaded", r if ok else "error")
    ctx.reach("older" if at < low else "supported")
    ctx.check(ok or at < low, "an old file was refused", text=src, error=r)
    if ok:
        ctx.check(ctx.same(r, want), "upgraded to something else", text=src, rules=sorted(rules), loaded=r, expect=want)


from dataclasses import field

CASES = (
    [{"name": "single", "fn": single, "params": {"maxn": 3}, "reach": ["version 0 to 3", "version 3 to 3", "version 1 to 2"], "quick_s": 90, "shards": 8, "depth": 3, "max_witnesses": 250}]
    + [{"name": "single " + h, "fn": single, "params": {"maxn": 2, "kinds": ["gap", "map", "rename"], "how": h}, "reach": ["version 0 to 2"], "quick_s": 60, "max_witnesses": 60} for h in ("file", "manager")]
    + [{"name": "inside plain, " + p, "fn": nested, "params": {"place": p, "outer": False, "maxn": 2, "kinds": ["gap", "map", "rename"] if p != "list" else ["map"]}, "reach": ["loaded"], "quick_s": 60, "max_witnesses": 40} for p in PLACES]
    + [{"name": "inside versioned, " + p, "fn": nested, "params": {"place": p, "outer": True, "maxn": 2, "kinds": ["gap", "map"] if p != "list" else ["map"]}, "reach": ["loaded"], "quick_s": 60, "max_witnesses": 40, "shards": 1} for p in PLACES]
    + [{"name": "no version, " + h, "fn": missing, "params": {"how": h}, "reach": ["top", "inner", "list", "opt", "both", "default top"], "quick_s": 60} for h in ("text", "file", "manager")]
    + [{"name": "minimum" + (", inner" if i else ""), "fn": minimum, "params": {"inner": i}, "reach": ["older", "supported"], "quick_s": 60, "max_witnesses": 60} for i in (False, True)]
    + [{"name": "no file", "fn": nofile, "reach": ["loaded"]}]
    + [{"name": "single deep", "fn": single, "params": {"maxn": 4}, "reach": ["version 0 to 4"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 4}]
    + [{"name": "nested deep, " + p, "fn": nested, "params": {"place": p, "outer": True, "maxn": 3, "kinds": KINDS[:-1], "okinds": ["gap", "map", "rename"]}, "reach": ["loaded"], "thorough_only": True, "thorough_s": 500, "shards": 4, "depth": 4} for p in PLACES]
)
