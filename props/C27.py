"""C27: files never run code unless unpickling was asked for."""
import pickle
import msgpack
import hyperstate
from hyperstate import blob
from hyperstate.lazy import Lazy, Serializable
from props.util import *

META = {
    "bounds": "1 or 2 serializable objects in lazy and plain states: fields of the state, of a lazy or plain object inside it, of list elements and dictionary values, listed directly, optional; each in one of the three formats, with files that hold a pickle, packed data or nothing, and with the file of another format beside it; the variable set or not, or changed between loading and the first use; loaded by a manager, by load, from an initial checkpoint; then read, assigned, saved and loaded again, with symbolic contents",
    "outside": "other ways of getting code into the process (the files of the program itself)",
    "functions": ["lazy._load_blob", "lazy.LazyDeserializer.deserialize", "lazy.Lazy.__getattribute__", "hyperstate._attach_blobs", "msgpack_torch.decode"],
    "assumptions": ["pickle and msgpack themselves are trusted"],
}

VAR = "UNSAFE_DESERIALIZE_PICKLE"
RAN = []
PARTS = {}


def run_code(n):
    "What a pickle in a file makes the process do."
    RAN.append(n)
    return PARTS[n]


class Code(object):
    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        return run_code, (self.n,)


class Thing(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        return cls(d["v"])


@dataclass
class Config:
    a: float = 1.5


@dataclass
class LazyInner(Lazy):
    g: Thing
    n: int = 3


@dataclass
class PlainInner:
    g: Thing
    n: int = 4


MARK = {"blob": "<BLOB>", "pickle": "<blob:pickle>", "msgpack": "<blob:msgpack>"}

# place: type, document, path of the object, access, and where each format keeps it
PLACES = {
    "field": (Thing, lambda m: m, lambda s: s.x, "x", "state.x.pickle", "state.x.msgpack"),
    "optional": (Optional[Thing], lambda m: m, lambda s: s.x, "x", "state.x.pickle", "state.x.msgpack"),
    "lazy": (LazyInner, lambda m: Obj("LazyInner", g=m, n=7), lambda s: s.x.g, "x/g", "state.x.g.pickle", "state.x.g.msgpack"),
    "plain": (PlainInner, lambda m: Obj("PlainInner", g=m, n=7), lambda s: s.x.g, "x/g", "state.x.g.pickle", "state.x.g.msgpack"),
    "list": (List[Thing], lambda m: [m], lambda s: s.x[0], "x/0", "state.x_0.pickle", "state.x.0.msgpack"),
    "lazy list": (List[LazyInner], lambda m: [Obj("LazyInner", g=m)], lambda s: s.x[0].g, "x/0/g", "state.x_0.g.pickle", "state.x.0.g.msgpack"),
    "dict": (Dict[str, Thing], lambda m: {"k": m}, lambda s: s.x["k"], "x/k", "state.x.k.pickle", "state.x.k.msgpack"),
}


def data(ctx, n, contents):
    "The bytes of a file."
    if contents == "pickle":
        return pickle.dumps(Code(n))
    if contents == "nested pickle":
        return pickle.dumps({"v": [1, Code(n)]})
    if contents == "packed":
        return msgpack.packb(PARTS[n])
    return msgpack.packb({"v": [1, {b"__tensor__": "numpy", b"dtype": "|O", b"shape": [0], b"data": pickle.dumps(Code(n))}]})


def put(root, name, b):
    os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
    with open(os.path.join(root, name), "wb") as f:
        f.write(b)


def case(ctx, how, places, formats, contents, decoys, later):
    saved = os.environ.pop(VAR, None)
    del RAN[:]
    try:
        inner(ctx, how, places, formats, contents, decoys, later)
    finally:
        os.environ.pop(VAR, None)
        if saved is not None:
            os.environ[VAR] = saved


def inner(ctx, how, places, formats, contents, decoys, later):
    place = ctx.choose("place", places)
    T, doc, get, legacy, pickled, packed = PLACES[place]
    fmt = ctx.choose("format", formats)
    file = {"blob": legacy, "pickle": pickled, "msgpack": packed}[fmt]
    holds = ctx.choose("file holds", contents)
    value = [ctx.int("a"), ctx.real("b")]
    PARTS.clear()
    PARTS[1] = {"v": value}
    PARTS[2] = {"v": [ctx.int("decoy")]}
    lazy = ctx.flag("lazy")
    S = make_dataclass("S", [("t", int), ("x", T), ("w", Thing)], bases=(Lazy,) if lazy else ())
    root = ctx.tmp() + "/latest-t%012d" % 1
    os.mkdir(root)
    write(root + "/config.ron", "Config(a: 2.5)")
    write(root + "/state.ron", ron(ctx, Obj("S", t=1, x=doc(MARK[fmt]), w=MARK["msgpack"])))
    other = ctx.int("other")
    put(root, "state.w.msgpack", msgpack.packb({"v": other}))
    if decoys:
        # objects of the other formats at their own places
        for name in (legacy, pickled, packed):
            if name != file:
                put(root, name, pickle.dumps(Code(2)) if name != packed else msgpack.packb(PARTS[2]))
    if holds != "nothing":
        put(root, file, data(ctx, 1, holds))
    allowed = ctx.flag("allowed")
    if allowed:
        os.environ[VAR] = "1"
    deferred = lazy and place in ("field", "optional") or place in ("lazy", "lazy list")

    def load():
        if how == "manager":
            return hyperstate.StateManager(Config, S, lambda c, x: ctx.fail("started afresh"), None, os.path.dirname(root), checkpoint_key="t").state
        if how == "initial":
            return hyperstate.StateManager(Config, S, lambda c, x: ctx.fail("started afresh"), root, checkpoint_key="t").state
        return hyperstate.load(S, root + "/state.ron")

    def use():
        s = load()
        if deferred:
            ctx.check(not RAN, "a file was read before its first use")
            if later and ctx.flag("changed later"):
                toggle()
        return s, get(s)

    state = {"allowed": allowed}

    def toggle():
        state["allowed"] = not state["allowed"]
        if state["allowed"]:
            os.environ[VAR] = "1"
        else:
            del os.environ[VAR]

    ok, r = ctx.attempt(use)
    legacy_format = fmt != "msgpack"
    if not state["allowed"]:
        ctx.check(not RAN, "a file ran code that was not asked for", format=fmt, ran=list(RAN))
    ctx.check(legacy_format or not RAN, "a file of another format was unpickled", format=fmt)
    ctx.check(2 not in RAN, "a file at another place was read", format=fmt)
    if legacy_format and not state["allowed"]:
        ctx.check(not ok, "a pickled object came from somewhere", format=fmt)
        ctx.reach("refused")
        if deferred:
            # the rest of the state can be used, and the object can be replaced
            s = load()
            ctx.check(s.t == 1 and ctx.same(s.w.v, other), "another field suffers")
            new = ctx.int("new")
            if place in ("field", "optional"):
                s.x = Thing([new])
            else:
                (s.x if place == "lazy" else s.x[0]).g = Thing([new])
            d = ctx.tmp() + "/s.ron"
            hyperstate.dump(s, d)
            s = hyperstate.load(S, d)
            ctx.check(ctx.same(get(s).v, [new]), "an assigned object was not saved", got=get(s).v)
            ctx.check(not RAN, "a file ran code that was not asked for")
        return
    good = holds == ("pickle" if legacy_format else "packed")
    if holds == "nothing":
        ctx.check(not ok, "an object without a file came from somewhere", got=r)
        return
    if holds == "hostile" and not legacy_format:
        # No element is looked at here: with any the process might die
        ctx.check(not ok, "bytes were taken for addresses of objects", got=r)
    if not good:
        # Whatever else comes out, it is not what unpickling gives
        return
    ctx.check(ok, "an object cannot be loaded", format=fmt, error=r)
    s, x = r
    ctx.check(isinstance(x, Thing) and ctx.same(x.v, value), "an object came back differently", got=getattr(x, "v", x), expect=value)
    ctx.check(RAN == ([1] if legacy_format else []), "read from disk more or less than once", ran=list(RAN))
    ctx.check(get(s) is x and len(RAN) == legacy_format, "another object on a later access")
    ctx.check(ctx.same(s.w.v, other), "another field suffers")
    ctx.reach("loaded " + fmt)
    # from now on it is kept in the format that needs no permission
    d = ctx.tmp() + "/s.ron"
    hyperstate.dump(s, d)
    os.environ.pop(VAR, None)
    del RAN[:]
    s = hyperstate.load(S, d)
    ctx.check(ctx.same(get(s).v, value), "an object came back differently", got=get(s).v, expect=value)
    ctx.check(not RAN, "a saved object was unpickled")


ALL = sorted(PLACES)
BASE = {"places": ALL, "formats": ["blob", "pickle", "msgpack"], "contents": ["pickle", "packed", "nothing"], "decoys": True, "later": False}
CASES = [
    {"name": h, "fn": case, "params": dict(BASE, how=h), "reach": ["refused", "loaded blob", "loaded pickle", "loaded msgpack"], "quick_s": 60, "max_witnesses": 60}
    for h in ("manager", "load", "initial")
] + [
    {"name": "no decoys", "fn": case, "params": dict(BASE, how="manager", decoys=False, contents=["pickle", "nested pickle", "hostile", "packed"]), "reach": ["refused", "loaded msgpack"], "quick_s": 60, "max_witnesses": 60},
    {"name": "later", "fn": case, "params": dict(BASE, how="manager", later=True, places=["field", "optional", "lazy", "lazy list"], contents=["pickle", "packed"]), "reach": ["refused", "loaded pickle"], "quick_s": 60, "max_witnesses": 60},
]
