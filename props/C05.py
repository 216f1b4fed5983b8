"""C05: an override sets exactly the field it names, and nothing else."""
from dataclasses import field, make_dataclass
import hyperstate
from hyperstate.hyperstate import FieldNotFoundError, FieldsNotFoundError
from props.tree import Node, Reject, copy, doc, meaning, set_field
from props.util import *

META = {
    "bounds": "a class with a field of every kind, nested dataclasses two levels deep (without default, with a default object, optional), each present in the file or not, symbolic values and defaults; 1..2 overrides (thorough: 3) of any fields or nested fields in any order, values of every kind with symbolic numbers, strings of 0..3 arbitrary characters; override texts that are arbitrary strings of up to 5 characters; dataclasses declared in 17 ways (util.KINDS); from text, file, no file and state manager",
    "outside": "fields whose type the library does not support; versioned classes (C06); schedules given as overrides",
    "functions": ["hyperstate.OverridesDeserializer", "types.Struct.find_field", "types.materialize_type", "serde.from_dict"],
    "assumptions": ["pyron reads the text of numbers, strings and structs"],
}

TRUE = ["True", "true", "1", "t", "T"]
FALSE = ["False", "false", "0", "f", "F"]


@dataclass
class Alt:
    q: int
    r: str = "r"


def classes(ctx):
    dy, dm, dq = ctx.int("default y"), ctx.int("default m"), ctx.int("default q")
    L = make_dataclass("Leaf", [("x", int), ("y", int, dy), ("s", str, "z")])
    M = make_dataclass("Mid", [("l", L), ("q", int, dq), ("o", Optional[L], None)])
    R = make_dataclass(
        "Root",
        [
            ("a", int),
            ("n", L),
            ("deep", M),
            ("f", float, 0.5),
            ("b", bool, False),
            ("s", str, "s"),
            ("c", Color, Color.RED),
            ("w", Literal["on", "off", "o n"], "on"),
            ("k", Literal[1, 2, -3], 2),
            ("l", List[int], field(default_factory=lambda: [1])),
            ("d", Dict[str, float], field(default_factory=dict)),
            ("t", Tuple[int, float], (1, 2.5)),
            ("o", Optional[int], None),
            ("os", Optional[str], None),
            ("m", L, field(default_factory=lambda: L(x=dm, y=dm))),
            ("p", Optional[L], None),
            ("u", Union[Alpha, Alt], field(default_factory=Alpha)),
            ("ls", List[L], field(default_factory=lambda: [L(1)])),
        ],
    )
    return R, M, L


def leafnode(ctx, L, name, full=False):
    fs = {"x": ctx.int(name + "x")}
    if full:
        fs["y"] = ctx.int(name + "y")
        fs["s"] = ctx.str(name + "s", 1)
    return Node(L, **fs)


def value(ctx, cls, path, name, rich=True):
    "An override value: (text, meaning)."
    R, M, L = cls
    last = path[-1]
    num = lambda t, n: (ctx.numeral(t, ctx.choose(n + "style", ["plain", "neg"]) if rich else "plain"), t)
    if path in (["a"], ["n", "x"], ["n", "y"], ["deep", "q"], ["deep", "l", "x"], ["deep", "l", "y"], ["deep", "o", "x"], ["deep", "o", "y"], ["m", "x"], ["m", "y"], ["p", "x"], ["p", "y"]):
        return num(ctx.int(name), name)
    if last == "f":
        x = ctx.real(name, -10 ** 9, 10 ** 9)
        return (ctx.numeral(x, ctx.choose(name + "style", ["plain", "neg", "int", "exp"]) if rich else "plain"), x)
    if last == "b":
        t = ctx.choose(name, TRUE + FALSE)
        return t, t in TRUE
    if last == "s":
        x = ctx.str(name, 3 if rich else 1)
        return x, x
    if last == "c":
        c = ctx.choose(name, list(Color))
        return ron(ctx, c), c
    if last == "w":
        x = ctx.choose(name, ["on", "off", "o n"])
        return quoted(ctx, x), x
    if last == "k":
        x = ctx.choose(name, [1, 2, -3])
        return str(x), x
    if last == "o" and len(path) == 1:
        x = None if ctx.flag(name + "?") else ctx.int(name)
        return ron(ctx, x), x
    if last == "os":
        x = None if ctx.flag(name + "?") else ctx.str(name, 2)
        return ron(ctx, x), x
    if last == "l":
        if len(path) == 1:
            x = [ctx.int("%s.%d" % (name, i)) for i in range(ctx.choose(name + "#", 3))]
            return ron(ctx, x), x
        v = leafnode(ctx, L, name, ctx.flag(name + "full"))
    elif last == "d":
        x = {"a": ctx.real(name, -10 ** 9, 10 ** 9)} if ctx.flag(name + "#") else {}
        return ron(ctx, x), x
    elif last == "t":
        x = (ctx.int(name + ".0"), ctx.real(name + ".1", -10 ** 9, 10 ** 9))
        return ron(ctx, x), x
    elif last in ("n", "m"):
        v = leafnode(ctx, L, name, ctx.flag(name + "full"))
    elif last in ("p", "o"):
        v = None if ctx.flag(name + "?") else leafnode(ctx, L, name, ctx.flag(name + "full"))
    elif last == "u":
        v = Node(Alpha, x=ctx.int(name + "x")) if ctx.flag(name + "Alpha") else Node(Alt, q=ctx.int(name + "q"))
    elif last == "ls":
        v = [leafnode(ctx, L, "%s.%d" % (name, i)) for i in range(ctx.choose(name + "#", 3))]
    elif last == "deep":
        v = Node(M, l=leafnode(ctx, L, name + "l"))
        if ctx.flag(name + "q"):
            v.fields["q"] = ctx.int(name + "q")
    else:
        raise KeyError(path)
    return ron(ctx, doc(v)), v


TOP = ["a", "f", "b", "s", "c", "w", "k", "l", "d", "t", "o", "os", "n", "m", "p", "u", "ls", "deep"]
SHORT = ["a", "s", "n", "n.x", "p", "p.x", "deep.l", "deep.q"]
SUB = ["n.x", "n.y", "n.s", "m.x", "m.y", "p.x", "p.y", "p.s", "deep.q", "deep.l", "deep.l.x", "deep.l.y", "deep.o", "deep.o.x", "deep.o.y"]
STRUCT = ["a", "s", "n", "n.x", "m.y", "p", "p.x", "p.y", "deep.l", "deep.l.x", "deep.q", "l"]


def document(ctx, cls, full):
    R, M, L = cls
    root = Node(R)
    absent = lambda n: ctx.flag("no " + n)
    if full or not absent("a"):
        root.fields["a"] = ctx.int("a")
    if full or not absent("n"):
        root.fields["n"] = leafnode(ctx, L, "n", full)
    if full or not absent("deep"):
        root.fields["deep"] = Node(M, l=leafnode(ctx, L, "deep.l"))
        if full:
            root.fields["deep"].fields["o"] = leafnode(ctx, L, "deep.o")
    if not absent("rest"):
        root.fields["m"] = leafnode(ctx, L, "m", full)
        root.fields["p"] = leafnode(ctx, L, "p", full)
        root.fields["s"] = "given"
        root.fields["l"] = [ctx.int("l0")]
        root.fields["o"] = ctx.int("o")
        root.fields["f"] = ctx.real("f", -1000, 1000)
        root.fields["ls"] = []
    else:
        root.fields["p"] = None
    return root


def load(ctx, how, R, src, overrides):
    if how == "text":
        return hyperstate.loads(R, src, overrides=overrides)
    if how == "none":
        return hyperstate.load(R, None, overrides=overrides)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    if how == "file":
        return hyperstate.load(R, d + "/c.ron", overrides=overrides)
    S = make_dataclass("State", [("step", int)])
    return hyperstate.StateManager(R, S, lambda c, x: S(0), init_path=d + "/c.ron", overrides=overrides).config


def run(ctx, targets, n, full, how="text", rich=True):
    cls = classes(ctx)
    root = document(ctx, cls, full) if how != "none" else Node(cls[0])
    src = ron(ctx, doc(root))
    overrides = []
    expect = root.copy()
    for i in range(n):
        key = ctx.choose("field%d" % i, targets)
        text, v = value(ctx, cls, key.split("."), "v%d" % i, rich)
        overrides.append(key + "=" + text)
        set_field(expect, key.split("."), copy(v))
    try:
        expect = meaning(expect)
    except Reject:
        expect = None
    ok, r = ctx.attempt(load, ctx, how, cls[0], src, overrides)
    ctx.observe("loaded", r if ok else "error")
    if expect is None:
        ctx.reach("incomplete")
        ctx.check(not ok, "loaded without a required field", text=src, overrides=overrides, loaded=r)
        return
    ctx.reach("loaded")
    ctx.check(ok, "override refused", text=src, overrides=overrides, error=r)
    ctx.check(ctx.same(r, expect), "another object", text=src, overrides=overrides, expect=expect, loaded=r)


def kinds(ctx):
    "Dataclasses declared in every way, as a whole default, in the file, or built from their own defaults."
    kind = ctx.choose("kind", KINDS)
    K = kind_class(kind, (1, "s", [2]) if ctx.flag("defaults") else None)
    place = ctx.choose("place", ["object", "optional", "deep"])
    i, j, w = ctx.int("i"), ctx.int("j"), ctx.int("w")
    whole = ctx.flag("default as a whole")
    F = Optional[K] if place == "optional" else K
    D = lambda: K(i, "d", [3])
    f = field(default_factory=D) if whole else field()
    I = make_dataclass("I", [("f", F, f), ("z", int, 4)] if place == "deep" else [("z", int, 4)])
    R = make_dataclass("Root", [("w", int), ("i", I)] if place == "deep" else [("w", int), ("f", F, f)])
    infile = not whole or ctx.flag("in the file")
    k = Obj("K", ("a", j), ("b", "t"), ("c", [5]))
    old = [j, "t", [5]] if infile else [i, "d", [3]]
    fs = [("f", k)] if infile else []
    src = ron(ctx, Obj("Root", ("w", w), *([("i", Obj("I", *fs))] if place == "deep" and (fs or ctx.flag("i")) else fs if place != "deep" else [])))
    new = ctx.int("new")
    what = ctx.choose("override", ["a", "b", "c"])
    old[["a", "b", "c"].index(what)] = {"a": new, "b": "u v", "c": [new, 1]}[what]
    ov = "%sf.%s=%s" % ("i." if place == "deep" else "", what, {"a": ctx.numeral(new), "b": "u v", "c": "[%s, 1]" % ctx.numeral(new)}[what])
    ok, r = ctx.attempt(hyperstate.loads, R, src, overrides=[ov])
    ctx.observe("loaded", parts(r) if ok else "error")
    ctx.reach(kind)
    ctx.check(ok, "override refused", text=src, overrides=ov, error=r)
    x = K(*old)
    e = R(w, I(x)) if place == "deep" else R(w, x)
    ctx.check(ctx.same(parts(r), parts(e)), "another object", text=src, overrides=ov, expect=parts(e), loaded=parts(r))
    ctx.check(ctx.same(parts(D()), parts(K(i, "d", [3]))), "the default changed")


BAD = {
    "a": ["abc", "1.5", "[1]", "None", '"x"', "", "(1, 2)", "Leaf(x: 1)"],
    "f": ["abc", "None", "[1.0]", '"x"', "", "1.0.0"],
    "b": ["2", "yes", "", "None", "tr", "truefalse", "[true]", "01", "1.0", "-1", "on"],
    "c": ["None", "1", "[1]", '"RED"', '"R"', '""', ""],
    "w": ["None", "1", '"ON"', '"on "', '""', "maybe", ""],
    "k": ["None", "3", '"1"', "1.5", "true", "one", ""],
    "l": ["1", "None", "[1, 2.5]", '["a"]', "(1, 2)", "[None]", "abc", "[1", ""],
    "d": ["1", "None", "[1]", '{"a": "x"}', "{1: 1.0}", "Leaf(x: 1)"],
    "t": ["1", "None", "(1, 2.0, 3)", '("a", 1.0)', "[1, 2.0]", "(1.5, 2.0)"],
    "o": ["1.5", "abc", "[1]", '"x"'],
    "os": ["1", "[]", "1.5", "true"],
    "n": ["1", "None", "[1]", "Leaf(y: 1)", "Leaf(x: 1, zz: 2)", 'Leaf(x: "a")', '"x"'],
    "n.x": ["abc", "1.5", "None", ""],
    "p": ["1", "Leaf(y: 1)", "[1]", "Leaf(x: None)"],
    "p.x": ["abc", "None"],
    "u": ["1", "None", "Leaf(x: 1)", "Alpha(q: 1)", "Alt()", "[1]"],
    "ls": ["Leaf(x: 1)", "[1]", "[Leaf()]", "None"],
    "deep.l.x": ["abc", "None", "2.5"],
}


def bad(ctx):
    cls = classes(ctx)
    root = document(ctx, cls, True)
    src = ron(ctx, doc(root))
    key = ctx.choose("field", sorted(BAD))
    v = ctx.choose("value", BAD[key])
    overrides = [key + "=" + v]
    other = ctx.choose("with another", 3)
    if other:
        overrides.insert(other - 1, "s=fine")
    ok, r = ctx.attempt(hyperstate.loads, cls[0], src, overrides)
    ctx.observe("loaded", ok)
    ctx.reach("tried")
    ctx.check(not ok, "a value that does not fit was accepted", overrides=overrides, loaded=r)


NAMES = ["zz", "A", "n.zz", "zz.x", "a.x", "s.x", "l.0", "p.zz", "n.x.y", "deep.l.zz", "u.x", "ls.x", "", "n.", ".a", "n..x", " a", "a ", "deep.l", "n.x"]
KNOWN = ["deep.l", "n.x", "a"]


def unknown(ctx, n):
    cls = classes(ctx)
    root = document(ctx, cls, True)
    src = ron(ctx, doc(root))
    overrides, missing = [], []
    for i in range(n):
        name = ctx.choose("name%d" % i, (NAMES if n == 1 else NAMES[:8] + NAMES[-3:] if n == 2 else NAMES[:4]) + ["a"])
        if name in KNOWN:
            overrides.append(name + "=" + ("Leaf(x: 1)" if name == "deep.l" else "3"))
        else:
            overrides.append(name + "=" + ctx.choose("value%d" % i, ["3", "Leaf(x: 1)"] if n == 1 else ["3"]))
            missing.append(name)
    ctx.assume(bool(missing))
    ok, e = ctx.attempt(hyperstate.loads, cls[0], src, overrides)
    ctx.check(not ok, "an unknown field was ignored", overrides=overrides, loaded=e)
    if len(missing) == 1:
        ctx.reach("one")
        ctx.check(isinstance(e, FieldNotFoundError) and e.fpath == missing[0], "not reported as unknown", overrides=overrides, error=e)
    else:
        ctx.reach("several")
        ctx.check(isinstance(e, FieldsNotFoundError) and sorted(x.fpath for x in e.not_found_errors) == sorted(missing), "not all unknown names were reported", overrides=overrides, error=e)
        for name in missing:
            ctx.check(repr(name) in str(e), "an unknown name is not in the message", name=name, error=str(e))


def texts(ctx, alphabet, maxlen, minlen=0):
    "Any text at all as an override: an error, or the field it names."
    I = make_dataclass("Inner", [("t", str), ("s", str, "k")])
    R = make_dataclass("Root", [("s", str), ("n", I), ("st", str, "d")])
    src = 'Root(s: "S", n: Inner(t: "T"))'
    text = ctx.str("override", maxlen, minlen, alphabet)
    ok, r = ctx.attempt(hyperstate.loads, R, src, [text])
    ctx.observe("loaded", r if ok else "error")
    e = R("S", I("T", "k"), "d")
    if text.startswith("s="):
        e.s = text[2:]
    elif text.startswith("st="):
        e.st = text[3:]
    elif text.startswith("n.t="):
        e.n.t = text[4:]
    elif text.startswith("n.s="):
        e.n.s = text[4:]
    else:
        ctx.reach("refused")
        if not text.startswith("n="):
            ctx.check(not ok, "accepted", override=text, loaded=r)
        return
    ctx.reach("set")
    ctx.check(ok and ctx.same(r, e), "not set verbatim", override=text, loaded=r, expect=e)


def booleans(ctx, maxlen):
    R = make_dataclass("Root", [("b", bool), ("n", int)])
    text = ctx.str("value", maxlen)
    ok, r = ctx.attempt(hyperstate.loads, R, "Root(b: %s, n: 3)" % ("true" if ctx.flag("file") else "false"), ["b=" + text])
    ctx.observe("loaded", r if ok else "error")
    if any(text == x for x in TRUE):
        ctx.reach("true")
        ctx.check(ok and r.b is True and r.n == 3, "not true", text=text, loaded=r)
    elif any(text == x for x in FALSE):
        ctx.reach("false")
        ctx.check(ok and r.b is False and r.n == 3, "not false", text=text, loaded=r)
    else:
        ctx.reach("refused")
        ctx.check(not ok, "accepted", text=text, loaded=r)


CASES = [
    {"name": "one", "fn": run, "params": {"targets": TOP + SUB, "n": 1, "full": False}, "reach": ["loaded", "incomplete"], "quick_s": 60, "shards": 4, "depth": 4, "max_witnesses": 200},
    {"name": "one full", "fn": run, "params": {"targets": TOP + SUB, "n": 1, "full": True}, "reach": ["loaded"], "quick_s": 60, "max_witnesses": 200},
    {"name": "two", "fn": run, "params": {"targets": SHORT, "n": 2, "full": False, "rich": False}, "reach": ["loaded", "incomplete"], "quick_s": 90, "shards": 8, "depth": 5, "max_witnesses": 200},
    {"name": "two full", "fn": run, "params": {"targets": ["a", "n", "n.x", "m.y", "p.y", "deep.l.x", "l"], "n": 2, "full": True, "rich": False}, "reach": ["loaded"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "no file", "fn": run, "params": {"targets": ["a", "n", "n.x", "p.x", "deep.l"], "n": 3, "full": False, "how": "none", "rich": False}, "reach": ["loaded", "incomplete"], "quick_s": 60, "shards": 4, "max_witnesses": 100},
    {"name": "from a file", "fn": run, "params": {"targets": STRUCT, "n": 1, "full": True, "how": "file"}, "reach": ["loaded"], "quick_s": 60, "max_witnesses": 60},
    {"name": "state manager", "fn": run, "params": {"targets": STRUCT, "n": 1, "full": False, "how": "manager"}, "reach": ["loaded", "incomplete"], "quick_s": 60, "max_witnesses": 60},
    {"name": "bad values", "fn": bad, "reach": ["tried"], "quick_s": 60, "max_witnesses": 400},
    {"name": "unknown one", "fn": unknown, "params": {"n": 1}, "reach": ["one"], "quick_s": 60},
    {"name": "unknown several", "fn": unknown, "params": {"n": 2}, "reach": ["one", "several"], "quick_s": 60},
    {"name": "unknown three", "fn": unknown, "params": {"n": 3}, "reach": ["one", "several"], "quick_s": 60},
    {"name": "any text", "fn": texts, "params": {"alphabet": "snt.= x", "maxlen": 6}, "reach": ["refused", "set"], "quick_s": 60, "shards": 1},
    {"name": "any boolean text", "fn": booleans, "params": {"maxlen": 6}, "reach": ["true", "false", "refused"], "quick_s": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": KINDS, "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "two all", "fn": run, "params": {"targets": TOP + SUB, "n": 2, "full": False}, "reach": ["loaded", "incomplete"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 5},
    {"name": "three", "fn": run, "params": {"targets": STRUCT, "n": 3, "full": False, "rich": False}, "reach": ["loaded", "incomplete"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 5},
]
