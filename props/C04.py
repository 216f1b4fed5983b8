"""C04: unknown fields are never silently dropped, missing ones never invented."""
from dataclasses import MISSING, field, make_dataclass
import hyperstate
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "documents for a class three levels deep (plain, optional, list, tuple, dictionary, union and versioned places), every subset of its fields present, symbolic values and defaults; up to 2 unknown fields at any position with values of every kind, and one of %d names (words of every shape, names of methods, parameters and fields elsewhere); dataclasses declared in 17 ways (util.KINDS); text, file, and state manager (config and state)" % 56,
    "outside": "the field names '!weak ref' and '!__name__' that the library reserves",
    "functions": ["serde.from_dict", "serde._try_create_defaults", "hyperstate._typed_load", "hyperstate.StateManager"],
    "assumptions": [],
}

PLACES = ["plain", "opt", "list", "tuple", "dict", "alts", "versioned"]


@dataclass
class Alt:
    x: int
    other: str = "o"


def wrap(place, T):
    return {
        "plain": T,
        "versioned": T,
        "opt": Optional[T],
        "list": List[T],
        "tuple": Tuple[int, T],
        "dict": Dict[str, T],
        "alts": Union[Alt, T],
    }[place]


def put(place, v):
    if place == "list":
        return [v]
    if place == "tuple":
        return (5, v)
    if place == "dict":
        return {"a": v}
    return v


class Node(object):
    "A struct of the document: the fields given (None: left out) and the extra ones."

    def __init__(self, cls, place, **fields):
        self.cls, self.place, self.fields, self.extra = cls, place, fields, []

    def doc(self, extras):
        fs = [(k, v.doc(extras) if isinstance(v, Node) else v) for k, v in self.fields.items() if v is not None]
        if self.place == "versioned":
            fs.insert(0, ("version", 1))
        if extras:
            for at, k, v in self.extra:
                fs.insert(at if at == 0 else len(fs), (k, v))
        o = Obj(self.cls.__name__, *fs)
        return put(self.place, o)


class Reject(Exception):
    pass


def meaning(node):
    "What the document stands for, by the declared fields alone."
    kw = {}
    for n, f in node.cls.__dataclass_fields__.items():
        v = node.fields.get(n)
        if isinstance(v, Node):
            kw[n] = meaning(v)
        elif v is not None:
            kw[n] = v
        elif f.default is not MISSING:
            kw[n] = f.default
        elif f.default_factory is not MISSING:
            kw[n] = f.default_factory()
        elif is_dataclass(f.type):
            kw[n] = meaning(Node(f.type, "plain"))
        else:
            raise Reject(n)
    return put(node.place, node.cls(**kw))


def classes(ctx, place):
    dy, dp, dk, dz, dt = [ctx.int("default " + n) for n in ("y", "p", "k", "z", "t")]
    b = (Versioned,) if place == "versioned" else ()
    ns = {"version": classmethod(lambda cls: 1)} if b else {}
    L = make_dataclass("Leaf", [("x", int), ("y", int, dy)], bases=b, namespace=ns)
    M = make_dataclass("Mid", [("l", wrap(place, L)), ("p", int, dp), ("q", Optional[L], None)])
    AI = make_dataclass("AllInner", [("t", int, dt)])
    A = make_dataclass("All", [("o", AI), ("z", int, dz), ("g", List[int], field(default_factory=lambda: [dz]))])
    R = make_dataclass("Root", [("m", M), ("n", int), ("al", A), ("k", int, dk)])
    return R, M, L, A, AI


def tree(ctx, cls, place, absent):
    R, M, L, A, AI = cls

    def given(n, v):
        return v() if n not in absent or not ctx.flag("no " + n) else None

    def val(n):
        return given(n, lambda: ctx.int(n))

    lp = place if place in ("versioned",) else "plain"
    leaf = lambda n, p: Node(L, p, x=val(n + "x"), y=val(n + "y"))
    m = given("m", lambda: Node(M, "plain", l=given("l", lambda: leaf("", place)), p=val("p"), q=given("q", lambda: leaf("q", lp))))
    al = given("al", lambda: Node(A, "plain", o=given("o", lambda: Node(AI, "plain", t=val("t"))), z=val("z"), g=given("g", lambda: [ctx.int("g")])))
    return Node(R, "plain", m=m, n=val("n"), al=al, k=val("k"))


def nodes(node):
    out = [node]
    for v in node.fields.values():
        if isinstance(v, Node):
            out += nodes(v)
    return out


def load(ctx, how, R, src, ignore):
    if how == "text":
        return hyperstate.loads(R, src, ignore_extra_fields=ignore)
    d = ctx.tmp()
    if how == "config":
        write(d + "/c.ron", src)
        S = make_dataclass("State", [("step", int)])
        sm = hyperstate.StateManager(R, S, lambda c, x: S(0), init_path=d + "/c.ron", ignore_extra_fields=ignore)
        return sm.config
    if how == "state":
        C = make_dataclass("Conf", [("c", int)])
        write(d + "/config.ron", "Conf(c: 1)")
        write(d + "/state.ron", src)
        sm = hyperstate.StateManager(C, R, None, init_path=d, ignore_extra_fields=ignore)
        return sm.state
    write(d + "/c.ron", src)
    return hyperstate.load(R, d + "/c.ron")


def judge(ctx, how, R, root, extra, ignore):
    src = ron(ctx, root.doc(True))
    try:
        expect = meaning(root)
    except Reject:
        expect = None
    if extra and not ignore:
        expect = None
    ok, r = ctx.attempt(load, ctx, how, R, src, ignore)
    ctx.observe("loaded", r if ok else "error")
    if expect is None:
        ctx.reach("rejected")
        what = "an unknown field was dropped" if extra and not ignore else "a missing field was invented"
        ctx.check(not ok, what, text=src, loaded=r)
    else:
        ctx.reach("loaded")
        ctx.check(ok, "rejected", text=src, error=r)
        ctx.check(ctx.same(r, expect), "loaded another object", text=src, expect=expect, loaded=r)


def missing(ctx, place, absent, how="text"):
    cls = classes(ctx, place)
    root = tree(ctx, cls, place, absent)
    judge(ctx, how, cls[0], root, False, ctx.flag("ignore") if how != "file" else False)


NAMES = [
    "_", "__", "_y", "_zz", "__x", "__class__", "__dict__", "__name__", "__version__", "__doc__", "_fields", "_asdict",
    "version", "version_", "Version", "Y", "X", "x_", "xx", "y1", "a", "l", "m", "name", "type", "field", "fields", "default",
    "Leaf", "Root", "config", "cls", "clz", "self", "value", "kwargs", "args", "copy", "items", "keys", "get", "pop", "step",
    "comment", "description", "extra", "ignore", "tmp", "x2", "y_old", "old_y", "x_max", "num_x", "maxlen", "include", "inf",
]


def names(ctx, place, how="text"):
    "Unknown fields of every name."
    cls = classes(ctx, place)
    root = tree(ctx, cls, place, ())
    all = nodes(root)
    ignore = ctx.flag("ignore") if how != "file" else False
    n = ctx.choose("where", len(all))
    name = ctx.choose("name", NAMES)
    if name in all[n].cls.__dataclass_fields__ or name == "version" and all[n].place == "versioned":
        ctx.assume(False)
    all[n].extra.append((ctx.choose("at", 2), name, ctx.int("extra") if ctx.flag("number") else Raw("None")))
    judge(ctx, how, cls[0], root, True, ignore)


def extra(ctx, place, how="text", absent=(), two=False):
    cls = classes(ctx, place)
    root = tree(ctx, cls, place, absent)
    all = nodes(root)
    ignore = ctx.flag("ignore") if how != "file" else False
    for i in range(2 if two else 1):
        n = ctx.choose("where%d" % i, len(all))
        name = ctx.choose("name%d" % i, ["zz", "y", "k"])
        if name in all[n].cls.__dataclass_fields__ or any(name == e[1] for e in all[n].extra):
            ctx.assume(False)
        kind = ctx.choose("kind%d" % i, ["int", "null", "word", "struct", "list", "text"] if not two else ["int", "null"])
        v = {
            "int": lambda: ctx.int("extra%d" % i),
            "null": lambda: Raw("None"),
            "word": lambda: Raw("abc"),
            "struct": lambda: Obj("Leaf", ("x", ctx.int("extra%d" % i))),
            "list": lambda: [1, 2],
            "text": lambda: ctx.str("extra%d" % i, 1),
        }[kind]()
        all[n].extra.append((ctx.choose("at%d" % i, 2), name, v))
    judge(ctx, how, cls[0], root, True, ignore)


def kinds(ctx):
    "Dataclasses declared in every way."
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", ["top", "object", "list", "alternative"])
    defaults = ctx.flag("defaults")
    da = ctx.int("da")
    K = kind_class(kind, (da, "s", [2]) if defaults else None)
    R, make = placed(place, K)
    given = {}
    for n, v in (("a", ctx.int("a")), ("b", ctx.str("b", 1, 1)), ("c", [ctx.int("c")])):
        if not ctx.flag("no " + n):
            given[n] = v
    extra = ctx.choose("extra", [None, "d", "derived", "limit", "double"])
    ignore = ctx.flag("ignore")
    o = Obj("K", *([("zz" + extra if extra == "d" else extra, 1)] if extra else []) + list(given.items()))
    src = ron(ctx, o if place == "top" else Obj("Root", f=[o] if place == "list" else o, w=3))
    ok, r = ctx.attempt(hyperstate.loads, R, src, ignore_extra_fields=ignore)
    ctx.observe("loaded", parts(r) if ok else "error")
    if (extra and not ignore) or (len(given) < 3 and not defaults):
        ctx.reach("rejected")
        ctx.check(not ok, "an unknown field was dropped" if extra and not ignore else "a missing field was invented", text=src, loaded=parts(r))
        return
    ctx.reach("loaded")
    ctx.check(ok, "rejected", text=src, error=r)
    x = K(given.get("a", da), given.get("b", "s"), given.get("c", [2]))
    e = x if place == "top" else R([x] if place == "list" else x, 3)
    ctx.check(ctx.same(parts(r), parts(e)), "loaded another object", text=src, expect=parts(e), loaded=parts(r))


BOTH = ["rejected", "loaded"]
ABS = ["m", "l", "p", "q", "x", "y", "n", "al", "o", "t", "z", "g", "k"]
CASES = (
    [{"name": "missing " + p, "fn": missing, "params": {"place": p, "absent": ["m", "l", "p", "x", "y", "n", "al", "o", "t", "g"] if p == "plain" else ["m", "l", "x", "y", "q", "qx"]}, "reach": BOTH, "quick_s": 90, "shards": 3 if p == "plain" else 1, "max_witnesses": 90} for p in PLACES]
    + [{"name": "extra " + p, "fn": extra, "params": {"place": p, "absent": ["y", "k"]}, "reach": BOTH, "quick_s": 90, "max_witnesses": 60, "shards": 2, "depth": 3} for p in PLACES]
    + [{"name": "missing via " + h, "fn": missing, "params": {"place": "list", "absent": ["m", "l", "x", "y", "q", "o"], "how": h}, "reach": BOTH, "quick_s": 60, "max_witnesses": 40} for h in ("file", "config", "state")]
    + [{"name": "extra via " + h, "fn": extra, "params": {"place": "opt", "how": h}, "reach": ["rejected"] if h == "file" else BOTH, "quick_s": 60, "max_witnesses": 40} for h in ("file", "config", "state")]
    + [{"name": "names " + p, "fn": names, "params": {"place": p}, "reach": BOTH, "quick_s": 60, "max_witnesses": 80, "shards": 2, "depth": 3} for p in ("plain", "versioned", "alts")]
    + [{"name": "kinds", "fn": kinds, "params": {}, "reach": BOTH, "quick_s": 60, "shards": 2, "max_witnesses": 100}]
    + [{"name": "two extra", "fn": extra, "params": {"place": "dict", "two": True}, "reach": BOTH, "quick_s": 60, "max_witnesses": 60, "shards": 4, "depth": 3}]
    + [{"name": "missing all " + p, "fn": missing, "params": {"place": p, "absent": ABS + ["qx", "qy"]}, "reach": BOTH, "thorough_only": True, "thorough_s": 600, "shards": 4, "depth": 4} for p in PLACES[1:]]
    + [{"name": "two extra " + p, "fn": extra, "params": {"place": p, "two": True, "absent": ABS[1:7]}, "reach": BOTH, "thorough_only": True, "thorough_s": 600, "shards": 4, "depth": 4} for p in PLACES]
)
