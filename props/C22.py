"""C22: binary objects come back from a checkpoint exactly as they were saved."""
import math
import numpy as np
import hyperstate
from hyperstate.lazy import Lazy, Serializable
from props.util import *

META = {
    "bounds": "structures up to 2 levels deep (thorough: 3) of symbolic integers, floats, booleans, strings and null, bytes, lists, dictionaries with string, integer, bytes, boolean and null keys, and arrays; arrays of 24 numeric element types in either byte order and 6 types of text, bytes and records, 12 shapes of 0 to 3 dimensions with sizes 0 to 3, 9 memory layouts; the elements of int64 and float64 arrays symbolic, of other types extreme and distinct values; in lazy and other states, by manager and by dump, 1 or 2 generations, changes in place after each load",
    "outside": "masked arrays and other subclasses, tuples (they come back as lists), integers beyond 64 bits, dictionaries with the key b'__tensor__', torch tensors (torch is not installed here)",
    "functions": ["msgpack_torch.encode", "msgpack_torch.decode", "lazy.LazySerializer", "lazy._load_blob"],
    "assumptions": ["msgpack is trusted; numpy copies memory without looking at it, so distinct elements stand for all"],
}

DTYPES = ["<i8", "<f8", "|b1", "|i1", "|u1", "<i2", "<u2", "<i4", "<u4", "<u8", "<f2", "<f4", "<f16", "<c8", "<c16", "<c32", ">i2", ">i4", ">i8", ">f4", ">f8", ">c8", "<m8[s]", "<M8[ns]"]
RECORDS = ["|S3", "<U2", "|V5", (("a", "<i4"), ("b", ">f8")), (("p", (("x", "<i2"), ("y", "|S3"))), ("q", "<f4", (2,))), ((("long name", "n"), "<i8"),)]
SHAPES = [(), (0,), (1,), (3,), (0, 2), (2, 0), (1, 1), (2, 3), (3, 2), (2, 1, 3), (2, 2, 2), (1, 0, 2)]
LAYOUTS = ["C", "F", "every other", "reversed", "transposed", "part", "read only", "repeated", "unaligned"]


class Thing(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return self.v

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        return cls(d)


@dataclass
class Config:
    a: int = 1


@dataclass
class LazyState(Lazy):
    t: int
    w: Thing


@dataclass
class State:
    t: int
    w: Thing


def lists(dtype):
    "A type of array as numpy takes it."
    if isinstance(dtype, str):
        return dtype
    return [(f[0], lists(f[1])) + f[2:] for f in dtype]


def elements(ctx, dtype, n, name):
    "n elements of a type, and the symbols that two of the types stand for."
    dt = np.dtype(lists(dtype))
    if dt.kind in "SUV":
        if dt.kind == "U":
            return np.array((["\u00e9x", "\U0001f600", ""] * n)[:n], dtype=dt), None
        raw = bytes((17 * i + 1) % 126 for i in range(n * dt.itemsize))
        return np.frombuffer(raw, dtype=dt).copy(), None
    if dtype in ("<i8", "<f8"):
        if dtype == "<i8":
            sym = [ctx.int("%s%d" % (name, i)) for i in range(n)]
        else:
            sym = [ctx.real("%s%d" % (name, i)) for i in range(n)]
        return np.array([native(ctx, s) for s in sym], dtype=dt), sym
    if dt.kind == "b":
        v = [(i * 5) % 3 != 0 for i in range(n)]
    elif dt.kind in "iu":
        info = np.iinfo(dt)
        v = [info.min, info.max] + [37 * i + 1 if dt.itemsize > 1 else i + 2 for i in range(n)]
    elif dt.kind in "mM":
        v = [0, 10 ** 9] + [-(7 ** i) for i in range(n)]
    elif dt.kind == "f":
        v = [float("nan"), float("-inf"), -0.0, float(np.finfo(dt).tiny)] + [i + 0.25 for i in range(n)]
    else:
        v = [complex(float("nan"), 1), complex(-0.0, float("inf"))] + [complex(i, -i) for i in range(n)]
    return np.array(v[:n], dtype="<i8" if dt.kind in "mM" else None).astype(dt), None


def native(ctx, s):
    return ctx.sentinel(s) if ctx.symbolic else s


def lifted(ctx, x):
    "The symbol an element stands for."
    x = x.item()
    if not ctx.symbolic:
        return x
    return ctx.sentinels.get(x, x)


def array(ctx, name, dtypes, shapes, layouts):
    dtype = ctx.choose(name + " type", dtypes)
    shape = ctx.choose(name + " shape", shapes)
    layout = ctx.choose(name + " layout", layouts)
    n = int(np.prod(shape)) if shape else 1
    flat, sym = elements(ctx, dtype, n, name)
    base = flat.reshape(shape)
    if layout == "C" or not shape:
        a = base.copy()
    elif layout == "F":
        a = np.asfortranarray(base)
    elif layout == "every other":
        big = np.zeros(tuple(2 * s for s in shape), dtype=flat.dtype)
        a = big[tuple(slice(None, None, 2) for _ in shape)]
        a[...] = base
    elif layout == "reversed":
        a = base[tuple(slice(None, None, -1) for _ in shape)].copy()[tuple(slice(None, None, -1) for _ in shape)]
    elif layout == "transposed":
        a = base.T.copy().T
    elif layout == "part":
        big = np.zeros(tuple(s + 2 for s in shape), dtype=flat.dtype)
        a = big[tuple(slice(1, s + 1) for s in shape)]
        a[...] = base
    elif layout == "read only":
        a = base.copy()
        a.setflags(write=False)
    elif layout == "repeated":
        a = np.broadcast_to(base[:1] if shape[0] else base, shape)
    else:
        raw = np.zeros(n * flat.dtype.itemsize + 1, dtype="u1")
        a = raw[1:].view(flat.dtype).reshape(shape)
        a[...] = base
    return a


class Array(object):
    "An array as it should come back."

    def __init__(self, a):
        self.copy = np.array(a, copy=True, order="C")
        self.bytes = self.copy.tobytes()


def expect_of(v):
    "What a structure is before it is saved."
    if isinstance(v, np.ndarray):
        return Array(v)
    if isinstance(v, list):
        return [expect_of(x) for x in v]
    if isinstance(v, dict):
        return {k: expect_of(x) for k, x in v.items()}
    return v


def check_same(ctx, got, e, path, found):
    if isinstance(e, Array):
        ctx.check(type(got) is np.ndarray, "an array came back as something else", where=path, got=type(got))
        ctx.check(got.dtype.str == e.copy.dtype.str, "another element type", where=path, got=got.dtype.str, expect=e.copy.dtype.str)
        ctx.check(got.dtype == e.copy.dtype, "another element type", where=path, got=got.dtype, expect=e.copy.dtype)
        ctx.check(got.shape == e.copy.shape, "another shape", where=path, got=got.shape, expect=e.copy.shape)
        if e.copy.dtype.str in ("<i8", "<f8"):
            for i in np.ndindex(*e.copy.shape):
                ctx.check(ctx.same(lifted(ctx, got[i]), lifted(ctx, e.copy[i])), "another element", where=path, index=i)
        ctx.check(np.array(got, copy=True, order="C").tobytes() == e.bytes, "other elements", where=path, got=got.tolist(), expect=e.copy.tolist())
        ctx.check(got.flags.writeable, "an array came back read only", where=path)
        found.append(got)
    elif isinstance(e, list):
        ctx.check(type(got) is list and len(got) == len(e), "another structure", where=path, got=got)
        for i, x in enumerate(e):
            check_same(ctx, got[i], x, path + [i], found)
    elif isinstance(e, dict):
        ctx.check(type(got) is dict and len(got) == len(e), "another structure", where=path, got=got)
        for (k, x), (gk, gx) in zip(e.items(), got.items()):
            ctx.check(type(gk) is type(k) and ctx.same(gk, k), "another key", where=path, key=gk, expect=k)
            check_same(ctx, gx, x, path + [k], found)
    elif isinstance(e, float) and not ctx.symbolic and math.isnan(e):
        ctx.check(isinstance(got, float) and math.isnan(got), "another value", where=path, got=got)
    elif type(e) in (float, bytes):
        ctx.check(type(got) is type(e) and (repr(got) == repr(e)), "another value", where=path, got=got, expect=e)
    else:
        ctx.check(ctx.same(got, e), "another value", where=path, got=got, expect=e)


def scribble(a):
    "Changes an array in place."
    if a.size and a.dtype.kind in "SUV":
        a[(0,) * a.ndim] = np.zeros((), dtype=a.dtype)
    elif a.size:
        a[(0,) * a.ndim] = 1 if a.dtype.kind != "b" else not a[(0,) * a.ndim]


def judge(ctx, make, how, generations=1):
    root = ctx.tmp()
    value = make()
    e = expect_of(value)
    S = LazyState if how == "manager" or ctx.flag("lazy") else State
    if how == "manager":
        sm = hyperstate.StateManager(Config, S, lambda c, x: S(1, Thing(value)), None, root, checkpoint_key="t")
        sm.step()
    else:
        hyperstate.dump(S(1, Thing(value)), root + "/s.ron")
    check_unchanged(ctx, value, e)
    for g in range(generations):
        if how == "manager":
            sm = hyperstate.StateManager(Config, S, lambda c, x: ctx.fail("starts from scratch"), None, root, checkpoint_key="t")
            st = sm.state
        else:
            st = hyperstate.load(S, root + "/s.ron")
        found = []
        check_same(ctx, st.w.v, e, [], found)
        # each array is its own
        for i, a in enumerate(found):
            before = [b.tobytes() for b in found]
            scribble(a)
            for j, b in enumerate(found):
                ctx.check(i == j or b.tobytes() == before[j], "arrays share their memory")
        e = expect_of(st.w.v)
        st.t += 1
        if how == "manager":
            sm.step()
        else:
            hyperstate.dump(st, root + "/s.ron")
    ctx.reach("done")


def check_unchanged(ctx, value, e):
    if isinstance(e, Array):
        ctx.check(np.array(value, order="C").tobytes() == e.bytes, "saving changed an array")
    elif isinstance(e, list):
        for a, b in zip(value, e):
            check_unchanged(ctx, a, b)
    elif isinstance(e, dict):
        for k in e:
            check_unchanged(ctx, value[k], e[k])


def arrays(ctx, dtypes, shapes, layouts, how="dump"):
    a = array(ctx, "a", dtypes, shapes, layouts)
    where = ctx.choose("where", ["itself", "list", "dict", "twice"]) if len(dtypes) == 1 else "itself"
    judge(ctx, lambda: {"itself": a, "list": [a, 3, a[..., None]], "dict": {"x": a, 7: {"y": a}}, "twice": [a, a]}[where], how)


LEAVES_ = ["int", "uint", "float", "special", "bool", "none", "str", "bytes", "array"]


INNER = ["int", "str", "array"]


def structure(ctx, name, depth, leaves=LEAVES_):
    k = ctx.choose(name, leaves + (["list", "dict", "odd dict"] if depth else []))
    if k == "int":
        return ctx.int(name + " value")
    if k == "uint":
        return ctx.int(name + " value", 2 ** 63, 2 ** 64 - 1)
    if k == "float":
        return ctx.real(name + " value")
    if k == "special":
        return ctx.choose(name + " value", [float("inf"), -0.0, 5e-324, 1.7976931348623157e308])
    if k == "bool":
        return ctx.flag(name + " value")
    if k == "none":
        return None
    if k == "str":
        return ctx.str(name + " value", 2) if leaves is INNER or ctx.flag(name + " any") else "\u00e9\u4e16\x00\U0001f600"
    if k == "bytes":
        return ctx.choose(name + " value", [b"", b"\x00\xff__tensor__"])
    if k == "array":
        if leaves is INNER:
            return array(ctx, name, ["<i8"], [(2, 2)], ["C", "F"])
        return array(ctx, name, ["<i8", "<f4"], [(2,), (2, 2), ()], ["C", "F"])
    if k == "list":
        n = ctx.choose(name + "#", 3)
        return [structure(ctx, "%s.%d" % (name, i), depth - 1 if i == 0 else 0, leaves if i == 0 else INNER) for i in range(n)]
    if k == "dict":
        n = ctx.choose(name + "#", 3)
        keys = ["b", "__tensor__"]
        return {keys[i]: structure(ctx, "%s.%d" % (name, i), depth - 1 if i == 0 else 0, leaves if i == 0 else INNER) for i in range(n)}
    n = ctx.choose(name + "#", 5) if leaves is not INNER else 0
    key = [ctx.int(name + " key"), b"k", True, None, 2.5][n if leaves is not INNER else 0]
    return {key: structure(ctx, name + ".0", 0, INNER), "z": 1}


def structures(ctx, depth, how, leaves=LEAVES_):
    v = structure(ctx, "v", depth, leaves)
    judge(ctx, lambda: v, how, 2)


def addresses(ctx):
    "Arrays of Python objects would be saved as addresses: they are refused, and what was saved before stays."
    root = ctx.tmp()
    lazy = ctx.flag("lazy")
    S = LazyState if lazy else State
    x = ctx.int("x")

    def manager():
        return hyperstate.StateManager(Config, S, lambda c, y: S(1, Thing(x)), None, root, checkpoint_key="t")

    sm = manager()
    sm.step()
    kind = ctx.choose("kind", ["objects", "empty", "records", "nested", "numbers"])
    a = {
        "objects": lambda: np.array([None, "x", 3], dtype=object),
        "empty": lambda: np.zeros((0, 2), dtype=object),
        "records": lambda: np.zeros(2, dtype=[("a", "<i4"), ("b", object)]),
        "nested": lambda: np.zeros(1, dtype=[("a", [("c", object)])]),
        "numbers": lambda: np.zeros(2, dtype=[("a", "<i4"), ("b", "<f4")]),
    }[kind]()
    where = ctx.choose("where", ["itself", "list", "dict"])
    sm.state.w = Thing({"itself": a, "list": [1, a], "dict": {"k": {"l": a}}}[where])
    sm.state.t = 2
    ok, e = ctx.attempt(sm.step)
    ctx.check(ok == (kind == "numbers"), "an array of objects was saved" if ok else "an array cannot be saved", error=e)
    st = manager().state
    if ok:
        ctx.reach("harmless")
        ctx.check(st.t == 2, "another checkpoint")
        return
    ctx.check(st.t == 1 and ctx.same(st.w.v, x), "a refused array leaves another checkpoint", t=st.t)
    ctx.reach("refused")


CASES = [
    {"name": "types", "fn": arrays, "params": {"dtypes": DTYPES, "shapes": [(3,), (2, 3), ()], "layouts": ["C", "F", "every other"]}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "records", "fn": arrays, "params": {"dtypes": RECORDS, "shapes": [(3,), (2, 3), (), (0, 2)], "layouts": ["C", "F", "every other"]}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "records in states", "fn": arrays, "params": {"dtypes": RECORDS[2:5], "shapes": [(2,)], "layouts": ["C"], "how": "manager"}, "reach": ["done"], "quick_s": 60},
    {"name": "addresses", "fn": addresses, "params": {}, "reach": ["refused", "harmless"], "quick_s": 60},
    {"name": "layouts", "fn": arrays, "params": {"dtypes": ["<i8", "<f4"], "shapes": SHAPES, "layouts": LAYOUTS}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "places", "fn": arrays, "params": {"dtypes": ["<f8"], "shapes": [(), (2,), (2, 2), (0, 2)], "layouts": ["C", "F", "transposed", "read only"], "how": "manager"}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "structures", "fn": structures, "params": {"depth": 2, "how": "dump", "leaves": INNER}, "reach": ["done"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "structures, manager", "fn": structures, "params": {"depth": 1, "how": "manager"}, "reach": ["done"], "quick_s": 60, "max_witnesses": 80},
    {"name": "all arrays", "fn": arrays, "params": {"dtypes": DTYPES, "shapes": SHAPES, "layouts": LAYOUTS}, "reach": ["done"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2},
    {"name": "deep structures", "fn": structures, "params": {"depth": 3, "how": "dump"}, "reach": ["done"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2},
]
