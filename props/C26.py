"""C26: loading is independent of what was loaded or dumped before."""
import hyperstate
from hyperstate.schema import types as t
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, MapFieldValue, RenameField
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.versioned import Versioned
from props.tool import upgrade_config
from props.util import *

META = {
    "bounds": "a versioned class with lists, dictionaries, tuples, optional, alternative, nested, defaulted and nested versioned objects and rules whose defaults are lists, dictionaries and objects; 3 presence patterns, files of both versions, symbolic values, schedules; histories of 2 operations (thorough: 3) of 15 kinds between two loads of the same text (loads of the same and of other classes of the same name, overrides, upgrades, failures, dumps, checks, steps, in place changes of everything mutable), by text, file or manager",
    "outside": "objects that the class itself shares between instances as its defaults, and what user-written map functions return",
    "functions": ["hyperstate.loads", "hyperstate.load", "hyperstate._typed_load", "serde.from_dict", "serde._try_create_defaults", "rewrite_rule.AddDefault.apply", "rewrite_rule.ChangeDefault.apply", "rewrite_rule._insert", "hyperstate.OverridesDeserializer", "hyperstate.ScheduleDeserializer"],
    "assumptions": [],
}


def versioned(name, fields, version, rs):
    return make_dataclass(name, fields, bases=(Versioned,), namespace={"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rs)})


def classes(dx=3, dl=(1, 2)):
    In = make_dataclass("In", [("a", int, 1), ("ls", List[int], field(default_factory=lambda: list(dl)))])
    Ver = versioned("Ver", [("b", int, 5), ("ls", List[int], field(default_factory=list))], 1, {0: [AddDefault(("ls",), [8, 9]), RenameField(("c",), ("b",))]})
    shared = In(7, [7])
    rs = {0: [
        AddDefault(("l",), [3, 4]),
        ChangeDefault(("n", "ls"), [5], list(dl)),
        AddDefault(("e",), {"k": [6]}),
        AddDefault(("g",), {"a": 9, "ls": [0]}),
        ChangeDefault(("h",), {"a": 4, "ls": [1]}, In()),
        RenameField(("w",), ("x",)),
    ], 1: [MapFieldValue(("g", "a"), lambda v: v + 1), MapFieldValue(("h", "a"), lambda v: v * 2), MapFieldValue(("e",), lambda v: v)]}
    C = versioned("C", [
        ("n", In), ("x", int, dx), ("l", List[int], field(default_factory=lambda: [1])),
        ("d", Dict[str, List[int]], field(default_factory=dict)), ("e", Dict[str, List[int]], field(default_factory=lambda: {"q": [1]})),
        ("f", In, field(default_factory=lambda: In(2, [2]))), ("g", Optional[In], None), ("i", In, shared), ("o", Optional[In], None),
        ("t", Tuple[List[int], int], field(default_factory=lambda: ([1], 2))), ("u", Union[Alpha, In], field(default_factory=Alpha)),
        ("v", Ver, field(default_factory=Ver)), ("y", float, 1.5), ("h", In, field(default_factory=In)),
    ], 2, rs)
    return C, In, Ver, rs, shared


def text(ctx, pattern, version, y, vals):
    a, b = vals
    doc = [("version", 2 * version)]
    if pattern != "nothing":
        doc += [("w" if version == 0 else "x", a), ("n", Obj("In", ("a", b)))]
        doc += [("v", Obj("Ver", ("version", version), ("c" if version == 0 else "b", b)))]
    if pattern == "everything":
        inn = Obj("In", ("a", a), ("ls", [a, b]))
        doc = [d for d in doc if d[0] != "n"] + [("n", inn), ("l", [b]), ("d", {"p": [a]}), ("e", {}), ("f", inn), ("g", inn), ("i", inn), ("o", Obj("In")), ("t", ([b], 1)), ("u", inn)]
        doc += [("y", y)]
    return ron(ctx, Obj("C", *doc))


def picture(v):
    "What an object holds, sharing nothing with it."
    if is_dataclass(v):
        return ("obj", type(v), [(n, picture(getattr(v, n))) for n in v.__dataclass_fields__])
    if isinstance(v, list):
        return ["list"] + [picture(x) for x in v]
    if isinstance(v, tuple):
        return ("tuple",) + tuple(picture(x) for x in v)
    if isinstance(v, dict):
        return {k: picture(x) for k, x in v.items()}
    return v


def mutable(v, out=None):
    "Everything in an object that can be changed in place."
    out = {} if out is None else out
    if is_dataclass(v):
        out[id(v)] = v
        for n in v.__dataclass_fields__:
            mutable(getattr(v, n), out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            mutable(x, out)
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mutable(x, out)
    return out


def scribble(v, keep):
    "Changes everything in place, except what the class shares."
    for o in list(mutable(v).values()):
        if id(o) in keep:
            continue
        if isinstance(o, list):
            o.append(99)
        elif isinstance(o, dict):
            o["scribble"] = [99]
        else:
            for n in o.__dataclass_fields__:
                if isinstance(getattr(o, n), int):
                    setattr(o, n, -1)


def rule_values(rs):
    return [getattr(r, a) for rules in rs.values() for r in rules for a in ("default", "old_default", "new_default") if hasattr(r, a)]


@dataclass
class State:
    s: float
    step: int


def get(ctx, how, C, src, over):
    if how == "text":
        return hyperstate.loads(C, src, overrides=over)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    if how == "file":
        return hyperstate.load(C, d + "/c.ron", overrides=over)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(1.0, 1), d + "/c.ron", overrides=over)
    return (sm.state, sm.config)[1]


OPS = ["change", "same", "other values", "overrides", "elided dump", "dump", "failure", "other class", "schema", "step", "upgrade", "no text", "failing override", "fresh object", "checkpoint"]


def act(ctx, op, w, i, made):
    "One operation of the history."
    C, In, Ver, rs, shared = w
    keep = mutable(shared)
    v = ctx.int("h%d" % i)
    if op == "change":
        for m in made:
            scribble(m, keep)
        return
    if op == "same":
        m = hyperstate.loads(C, w_src[0])
        made.append(m)
        scribble(m, keep)
        return
    if op == "other values":
        for version in (0, 1):
            m = hyperstate.loads(C, text(ctx, "everything", version, 2.5, (v, v + 1)))
            scribble(m, keep)
        return
    if op == "overrides":
        over = ["n.ls=[%s]" % ctx.numeral(v), "i.a=%s" % ctx.numeral(v), "o.a=3", "g.ls=[4]", "f.a=6"]
        for src in ("C(version: 0, n: In(), o: In(), g: In())", "C(version: 2, n: In(), o: In(), g: In())"):
            m = hyperstate.loads(C, src, overrides=over)
            scribble(m, keep)
        ctx.check(over[2:] == ["o.a=3", "g.ls=[4]", "f.a=6"] and len(over) == 5, "the caller's overrides changed")
        return
    if op in ("dump", "elided dump"):
        for m in made + [hyperstate.loads(C, w_src[0])]:
            before = picture(m)
            hyperstate.dumps(m, elide_defaults=op == "elided dump")
            ctx.check(ctx.same(picture(m), before), "a dump changed the object", before=before, after=m)
        return
    if op == "failure":
        for src in ("C(version: 0, n: In(a: [1]))", "C(version: 0, n: In(), q: 1)", "C(version: 0, v: Ver(c: 3))", "C(version: 7)", "C("):
            ok, e = ctx.attempt(hyperstate.loads, C, src)
        return
    if op == "other class":
        D = classes(44, (5, 6))[0]
        for version in (0, 1):
            scribble(hyperstate.loads(D, "C(version: %d, n: In())" % (2 * version)), ())
        P = make_dataclass("C", [("x", int, 17), ("n", List[int], field(default_factory=list))])
        scribble(hyperstate.loads(P, "C(n: [1])"), ())
        return
    if op == "schema":
        ch = SchemaChecker(t.materialize_type(C), C)
        scribble([f.default for f in t.materialize_type(C).fields.values() if f.default is not shared], keep)
        old = make_dataclass("C", [("x", int, 5)], bases=(Versioned,), namespace={"version": classmethod(lambda c: 0), "upgrade_rules": classmethod(lambda c: {})})
        ok, ch = ctx.attempt(SchemaChecker, t.materialize_type(old), C)
        return
    if op in ("step", "checkpoint"):
        d = ctx.tmp()
        write(d + "/c.ron", 'C(version: 2, n: In(a: "s: 1@0 lin 9@8"), y: "s: 1@0 step 9@8", l: ["s: 4@1"])')
        sm = hyperstate.StateManager(C, State, lambda c, x: State(1.0, 1), d + "/c.ron", d + "/k" if op == "checkpoint" else None)
        sm.state.s, sm.state.step = 9.0, 2
        sm.step()
        scribble(sm.config, keep)
        return
    if op == "upgrade":
        d = ctx.tmp()
        write(d + "/c.ron", w_src[0])
        upgrade_config(d + "/c.ron", C, True)
        return
    if op == "no text":
        scribble(hyperstate.loads(C, "C(version: 0, n: In(ls: []))"), keep)
        scribble(hyperstate.load(C, None, ["n.a=3", "v.b=1"]), keep)
        return
    if op == "failing override":
        for over in (["n.a=3", "i.a=zz"], ["i.ls=3"], ["q=1"], ["f.a"]):
            ok, e = ctx.attempt(hyperstate.loads, C, "C(version: 0, n: In())", over)
        return
    m = C(n=In())
    scribble(m, keep)


w_src = [None]


def history(ctx, ops, n, patterns, hows, over=False, versions=(0, 1)):
    w = C, In, Ver, rs, shared = classes()
    pattern = ctx.choose("pattern", patterns)
    version = ctx.choose("version", list(versions))
    how = ctx.choose("how", hows)
    a, b = ctx.int("a", -10 ** 6, 10 ** 6), ctx.int("b", -10 ** 6, 10 ** 6)
    y = ctx.real("y")
    if how == "manager":
        y = Raw('"s: %s@0 lin %s@2"' % (ctx.numeral(ctx.real("y0", -100, 100)), ctx.numeral(ctx.real("y1", -100, 100))))
    src = w_src[0] = text(ctx, pattern, version, y, (a, b))
    overs = ["n.a=%s" % ctx.numeral(b), "f.ls=[1]"] if over and ctx.flag("overrides") else []
    before_rules = picture(rule_values(rs))
    before_shared = picture(shared)
    first = get(ctx, how, C, src, overs)
    expect = picture(first)
    made = [first]
    history = []
    for i in range(n):
        op = ctx.choose("operation %d" % i, ops)
        history.append(op)
        act(ctx, op, w, i, made)
    ctx.check(ctx.same(picture(rule_values(rs)), before_rules), "an upgrade rule was changed", history=history, rules=rs)
    ctx.check(ctx.same(picture(shared), before_shared), "a default of the class was changed", history=history, default=shared)
    again = get(ctx, how, C, src, overs)
    ctx.check(ctx.same(picture(again), expect), "the same text loads as another object", history=history, first=expect, again=again, text=src)
    known = dict(mutable(shared))
    for m in [first] + rule_values(rs):
        for k, o in mutable(m).items():
            ctx.check(k in known or k not in mutable(again), "two objects share a part", part=o, history=history)
    mine = list(mutable(again).values())
    # no part is twice in one object
    count = {}
    walk(again, count)
    for k, c in count.items():
        ctx.check(c == 1 or k in known, "a part is twice in an object", object=again)
    ctx.reach("done")


def walk(v, count):
    if is_dataclass(v) or isinstance(v, (list, dict)):
        count[id(v)] = count.get(id(v), 0) + 1
    if is_dataclass(v):
        for n in v.__dataclass_fields__:
            walk(getattr(v, n), count)
    elif isinstance(v, (list, tuple)):
        for x in v:
            walk(x, count)
    elif isinstance(v, dict):
        for x in v.values():
            walk(x, count)


OPS2 = ["change", "same", "overrides", "elided dump", "other class", "schema", "step", "no text", "failing override"]
PATTERNS = ["nothing", "some", "everything"]
CASES = [
    {"name": "one operation", "fn": history, "params": {"ops": OPS, "n": 1, "patterns": ["some", "everything"], "hows": ["text", "manager"], "over": True}, "reach": ["done"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "two operations", "fn": history, "params": {"ops": OPS2, "n": 2, "patterns": ["some"], "hows": ["file"], "versions": [0]}, "reach": ["done"], "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 80},
    {"name": "three operations", "fn": history, "params": {"ops": OPS, "n": 3, "patterns": ["some", "everything"], "hows": ["text", "manager"]}, "reach": ["done"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 4},
]
