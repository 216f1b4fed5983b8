"""C21: lazy fields load once on first use, and assignments to them stick."""
import copy
import dataclasses
import hyperstate
from hyperstate import blob
from hyperstate.lazy import Lazy, Serializable
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, MapFieldValue, RenameField
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "sequences of 4 events (thorough: 5) among reads, assignments, in-place changes, losing a file, saving, reloading, copying, over two lazy fields; lazy states holding lazy, plain, listed and mixed-in objects; loaded by a manager, by load, in a second generation; symbolic contents; objects that use the config, the context or each other when they load; versioned states whose objects upgrades rename, move, swap and delete, in one or two versions; up to 4 context values set on the manager and the state",
    "outside": "objects that need themselves to load; threads",
    "functions": ["lazy.Lazy.__getattribute__", "lazy.Lazy.__setattr__", "lazy._load_blob", "lazy.LazySerializer", "lazy.LazyDeserializer", "lazy.BlobLocator", "hyperstate._attach_blobs", "hyperstate._typed_dump"],
    "assumptions": ["msgpack is trusted"],
}

LOADS = []


class Thing(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        LOADS.append(d["v"][0])
        r = cls(d["v"])
        r.seen = (config, state, ctx)
        return r


class Needy(Thing):
    "Uses another field of the state to load."

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        r = cls(d["v"] + [state.w.v[0]])
        LOADS.append(d["v"][0])
        return r

    def serialize(self):
        return {"v": self.v[:2]}


@dataclass
class Config:
    a: float = 1.5


@dataclass
class State(Lazy):
    t: int
    w: Thing
    u: Thing


def tag(ctx, name, n):
    "A value that is recognisable, and symbolic."
    return [n, ctx.int(name, -1000, 1000)]


class Mem(object):
    "What the program holds of a field: not loaded yet, or an object."

    def __init__(self, value=None, obj=None):
        self.value = value
        self.obj = obj
        self.loaded = value is not None


EVENTS = ["read w", "read u", "assign w", "assign u", "change w", "lose u", "save", "reload"]


class Run(object):
    def __init__(self, ctx, S=State, make=None, config=Config):
        self.ctx = ctx
        self.S = S
        self.config = config
        self.root = ctx.tmp()
        self.disk = {"w": tag(ctx, "w", 1), "u": tag(ctx, "u", 2)}
        self.lost = False
        self.make = make or (lambda: S(1, Thing(list(self.disk["w"])), Thing(list(self.disk["u"]))))
        self.fresh = 10
        self.sm = self.manager()
        self.sm.step()
        self.t = 1

    def manager(self):
        return hyperstate.StateManager(self.config, self.S, lambda c, x: self.make(), None, self.root, checkpoint_key="t")

    def reload(self):
        del LOADS[:]
        self.sm = self.manager()
        self.st = self.sm.state
        self.ctx.check(self.st.t == self.t, "another checkpoint", t=self.st.t, expect=self.t)
        self.loads([], "a field was read before its first use")
        self.mem = {"w": Mem(), "u": Mem()}

    def loads(self, expect, label="read from disk more or less than once"):
        got = list(LOADS)
        del LOADS[:]
        self.ctx.check(got == expect, label, loads=got, expect=expect)

    def read(self, name, st=None):
        "One access, judged."
        ctx, m = self.ctx, self.mem[name]
        st = st or self.st
        if name == "u" and self.lost and not m.loaded:
            ok, v = ctx.attempt(getattr, st, name)
            ctx.check(not ok, "a missing file was ignored", value=v)
            self.loads([])
            ctx.reach("missing")
            return None
        v = getattr(st, name)
        expect = m.value if m.loaded else self.disk[name]
        self.loads([] if m.loaded else expect[:1])
        ctx.check(isinstance(v, Thing), "an object came back as something else", value=v)
        ctx.check(ctx.same(v.v, expect), "an object came back differently", value=v.v, expect=expect)
        ctx.check(m.obj is None or v is m.obj, "another object on a later access")
        self.mem[name] = Mem(list(expect), v)
        return v

    def event(self, e, i):
        ctx, st, name = self.ctx, self.st, e[-1]
        if e.startswith("read"):
            self.read(name)
            ctx.reach("read")
        elif e.startswith("assign"):
            self.fresh += 1
            v = tag(ctx, "new%d" % i, self.fresh)
            new = Thing(list(v))
            setattr(st, name, new)
            self.mem[name] = Mem(v, new)
            self.loads([])
            self.read(name)
        elif e == "change w":
            v = self.read("w")
            v.v[1] = ctx.int("changed%d" % i, -1000, 1000)
            self.mem["w"] = Mem(list(v.v), v)
        elif e == "lose u":
            for p, _, files in os.walk(self.root):
                for x in files:
                    if x == "state.u.msgpack":
                        os.unlink(os.path.join(p, x))
            self.lost = True
        elif e == "save":
            st.t += 1
            bad = self.lost and not self.mem["u"].loaded
            ok, x = ctx.attempt(self.sm.step)
            if bad:
                ctx.check(not ok, "saved without its object")
                st.t -= 1
                st.w
                del LOADS[:]
                if not self.mem["w"].loaded:
                    self.mem["w"] = Mem(list(self.disk["w"]), st.w)
                return
            ctx.check(ok, "cannot save", error=x)
            self.t += 1
            self.loads([self.disk[m][0] for m in ("w", "u") if not self.mem[m].loaded])
            for m in ("w", "u"):
                k = self.mem[m]
                if k.loaded:
                    self.disk[m] = list(k.value)
                self.mem[m] = Mem(list(self.disk[m]), k.obj)
            self.lost = False
            ctx.reach("saved")
        elif e == "reload":
            self.reload()
        else:
            raise KeyError(e)


def events(ctx, n, kinds):
    r = Run(ctx)
    r.reload()
    for i in range(n):
        r.event(ctx.choose("event %d" % i, kinds), i)
    for m in ("u", "w", "u", "w"):
        r.read(m)


def copies(ctx):
    "Copies of a lazy state are states of their own."
    r = Run(ctx)
    r.reload()
    how = ctx.choose("how", ["copy", "deepcopy", "replace"])
    before = ctx.choose("before", ["nothing", "read w", "assign w"])
    if before != "nothing":
        r.event(before, 0)
    first = r.mem
    if how == "copy":
        c = copy.copy(r.st)
    elif how == "deepcopy":
        c = copy.deepcopy(r.st)
    else:
        c = dataclasses.replace(r.st, t=99)
        ctx.check(c.t == 99, "not the value given")
    del LOADS[:]
    after = ctx.choose("after", ["nothing", "read w", "assign w", "read u", "assign u"])
    second = {m: first[m].value if first[m].loaded else r.disk[m] for m in first}
    if how == "replace":
        r.mem = {m: Mem(list(second[m]), None) for m in first}
    if after != "nothing":
        r.event(after, 1)
    for m in ("w", "u"):
        v = getattr(c, m)
        ctx.check(isinstance(v, Thing), "an object of a copy came back as something else", value=v)
        ctx.check(ctx.same(v.v, second[m]), "an object of a copy came back differently", value=v.v, expect=second[m])
        ctx.check(getattr(c, m) is v, "another object on a later access of a copy")
    del LOADS[:]
    for m in ("w", "u"):
        r.read(m)
    ctx.reach(how)


def dict_of(obj):
    return object.__getattribute__(obj, "__dict__")


class Box(object):
    pass


class BoxMixin(Thing):
    pass


Boxed = blob(Box, BoxMixin)


@dataclass
class Inner(Lazy):
    g: Thing
    n: int = 3


@dataclass
class Outer:
    g: Thing
    n: int = 4


PLACES = ["lazy", "plain", "list", "dict", "lazy list", "lazy dict", "optional", "optional null", "blob", "needy", "needy plain", "plain in lazy", "odd keys", "odd lazy keys", "enum keys", "number keys", "tuple", "lazy tuple", "tuples in lists"]


def places(ctx, how):
    "Objects in every place, whatever the state around them."
    where = ctx.choose("place", PLACES)
    a, b = tag(ctx, "a", 5), tag(ctx, "b", 6)
    w = [1, 7]
    T, make, get = {
        "lazy": (Inner, lambda: Inner(Thing(a)), lambda x: [x.g]),
        "plain": (Outer, lambda: Outer(Thing(a)), lambda x: [x.g]),
        "list": (List[Thing], lambda: [Thing(a), Thing(b)], lambda x: x),
        "dict": (Dict[str, Thing], lambda: {"p q": Thing(a), "r": Thing(b)}, lambda x: [x["p q"], x["r"]]),
        "lazy list": (List[Inner], lambda: [Inner(Thing(a)), Inner(Thing(b))], lambda x: [y.g for y in x]),
        "lazy dict": (Dict[str, Inner], lambda: {"k": Inner(Thing(a)), "l": Inner(Thing(b))}, lambda x: [x["k"].g, x["l"].g]),
        "optional": (Optional[Thing], lambda: Thing(a), lambda x: [x]),
        "optional null": (Optional[Thing], lambda: None, lambda x: [] if x is None else None),
        "blob": (Boxed, lambda: Boxed(a), lambda x: [x]),
        "needy": (Needy, lambda: Needy(a), lambda x: [x]),
        "needy plain": (List[Needy], lambda: [Needy(a)], lambda x: x),
        "odd keys": (Dict[str, Thing], lambda: {"a.b": Thing(a), "x/y[0]": Thing(b)}, lambda x: [x["a.b"], x["x/y[0]"]]),
        "odd lazy keys": (Dict[str, Inner], lambda: {"a[0]": Inner(Thing(a)), "../a": Inner(Thing(b))}, lambda x: [x["a[0]"].g, x["../a"].g]),
        "enum keys": (Dict[Color, Thing], lambda: {Color.RED: Thing(a), Color.GREEN: Thing(b)}, lambda x: [x[Color.RED], x[Color.GREEN]]),
        "number keys": (Dict[int, Thing], lambda: {0: Thing(a), -1: Thing(b)}, lambda x: [x[0], x[-1]]),
        "tuple": (Tuple[Thing, int, Thing], lambda: (Thing(a), 3, Thing(b)), lambda x: [x[0], x[2]]),
        "lazy tuple": (Tuple[int, Inner, Inner], lambda: (2, Inner(Thing(a)), Inner(Thing(b))), lambda x: [x[1].g, x[2].g]),
        "tuples in lists": (List[Tuple[Thing, Tuple[Thing]]], lambda: [(Thing(a), (Thing(b),))], lambda x: [x[0][0], x[0][1][0]]),
        "plain in lazy": (Outer, lambda: Outer(Thing(a)), lambda x: [x.g]),
    }[where]
    lazy = True if where in ("plain in lazy", "needy", "needy plain") else ctx.flag("lazy")
    S = make_dataclass("S", [("t", int), ("x", T), ("w", Thing)], bases=(Lazy,) if lazy else ())
    want = [v for v in (a, b)]
    root = ctx.tmp()
    token = object()
    if how == "manager":
        def manager():
            sm = hyperstate.StateManager(Config, S, lambda c, x: S(1, make(), Thing(w)), None, root, checkpoint_key="t")
            sm.set_deserialize_ctx("token", token)
            return sm

        sm = manager()
        sm.config.a = 7.5
        sm.step()
        sm = manager()
        st = sm.state
        save = sm.step
    else:
        hyperstate.dump(S(1, make(), Thing(w)), root + "/s.ron")
        st = hyperstate.load(S, root + "/s.ron")
        save = lambda: hyperstate.dump(st, root + "/s.ron")
    ctx.reach(where)

    def judge(st, label):
        vs = get(st.x)
        ctx.check(vs is not None, label + ": null came back as something else")
        for v, e in zip(vs, want):
            ctx.check(isinstance(v, Thing), label + ": an object came back as something else", value=v)
            if where.startswith("needy"):
                e = e + [1]
            ctx.check(ctx.same(v.v, e), label + ": an object came back differently", value=v.v, expect=e)
            if where == "blob":
                ctx.check(type(v) is Boxed, label + ": not of its class")
        again = get(st.x)
        ctx.check(all(p is q for p, q in zip(vs, again)), label + ": another object on a later access")
        ctx.check(isinstance(st.w, Thing) and ctx.same(st.w.v, w), label + ": another field is wrong")
        if how == "manager":
            if not hasattr(st.w, "seen"):
                return
            ctx.check(st.w.seen[0] is not None and st.w.seen[0].a == 7.5, label + ": the config is missing", seen=st.w.seen[0])
            ctx.check(st.w.seen[1] is st, label + ": the state is missing")
            ctx.check(st.w.seen[2].get("token") is token, label + ": the context is missing")

    first = ctx.flag("read first")
    if first:
        judge(st, "loaded")
    if where != "optional null" and ctx.flag("change"):
        # What was saved before must not come back
        for i, v in enumerate(get(st.x)):
            v.v[1] = ctx.int("changed%d" % i, -1000, 1000)
            want[i] = [want[i][0], v.v[1]]
        w = [1, 8]
        st.w = Thing(w)
    st.t = 2
    save()
    if how == "manager":
        sm = manager()
        st = sm.state
    else:
        st = hyperstate.load(S, root + "/s.ron")
    judge(st, "loaded again")


@dataclass
class Pair:
    g: Thing
    n: int = 4


# fields before, rules, fields after, where each object is afterwards
OBJECTS = {
    "rename": (["u", "w"], [RenameField(("u",), ("x",))], {"x": "u", "w": "w"}),
    "take over": (["u", "w"], [DeleteField(("w",)), RenameField(("u",), ("w",))], {"w": "u"}),
    "swap": (["u", "w"], [RenameField(("u",), ("x",)), RenameField(("w",), ("u",)), RenameField(("x",), ("w",))], {"u": "w", "w": "u"}),
    "delete": (["u", "w"], [DeleteField(("u",))], {"w": "w"}),
    "others": (["u", "w"], [AddDefault(("k",), 3), ChangeDefault(("k",), 3, 4)], {"u": "u", "w": "w"}),
    "move in": (["u", "w", "p"], [DeleteField(("p", "g")), RenameField(("u",), ("p", "g"))], {"w": "w", "p.g": "u"}),
    "move out": (["w", "p"], [RenameField(("p", "g"), ("x",)), RenameField(("w",), ("p", "g"))], {"x": "p.g", "p.g": "w"}),
    "rename group": (["p", "q"], [DeleteField(("p",)), RenameField(("q",), ("p",))], {"p.g": "q.g"}),
    "rename list": (["l", "m"], [DeleteField(("l",)), RenameField(("m",), ("l",))], {"l": "m"}),
    "map group": (["p", "w"], [MapFieldValue(("p", "n"), lambda x: x + 1)], {"p.g": "p.g", "w": "w"}),
}


def upgraded(ctx):
    "States of an earlier version, whose objects upgrades move about."
    what = ctx.choose("rules", list(OBJECTS))
    before, rules, after = OBJECTS[what]
    bases = (Lazy, Versioned) if ctx.flag("lazy") else (Versioned,)
    late = ctx.flag("two steps")
    steps = {0: rules[:1], 1: rules[1:]} if late else {0: rules}
    now = 2 if late else 1
    types = {"p": Pair, "q": Pair, "l": List[Thing], "m": List[Thing]}
    values = {}

    def thing(path):
        values[path] = tag(ctx, path, len(values))
        return Thing(list(values[path]))

    def make(f):
        if f in ("p", "q"):
            return Pair(thing(f + ".g"), 5)
        if f in ("l", "m"):
            return [thing(f + "[0]"), thing(f + "[1]")]
        return thing(f)

    def clazz(names, version, rules):
        names = sorted(set(n.split(".")[0] for n in names))
        ns = {"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules)}
        return make_dataclass("S", [("t", int)] + [(n, types.get(n, Thing)) for n in names] + [("s", str, "<BLOB>"), ("k", int, 4)], bases=bases, namespace=ns)

    text = ctx.choose("text", ["x", "<BLOB>", "<blob:msgpack>"])
    old = clazz(before, 0, {})
    state = old(t=1, s=text, **{f: make(f) for f in before})
    root = ctx.tmp()
    manager = lambda S: hyperstate.StateManager(Config, S, lambda c, x: state, None, root, checkpoint_key="t")
    sm = manager(old)
    sm.step()
    S = clazz(list(after), now, steps)
    sm = manager(S)
    st = sm.state

    def judge(st, label):
        for path, origin in after.items():
            v = st
            for part in path.split("."):
                v = getattr(v, part)
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                e = values[origin + "[%d]" % i if isinstance(v, list) else origin]
                ctx.check(isinstance(x, Thing), label + ": an object came back as something else", value=x, field=path)
                ctx.check(ctx.same(x.v, e), label + ": an object came back differently", value=x.v, expect=e, field=path)
        ctx.check(type(st.s) is str and st.s == text, label + ": a text changed", value=st.s)

    ctx.reach(what)
    if ctx.flag("read first"):
        judge(st, "upgraded")
    st.t = 2
    sm.step()
    judge(st, "saved again")
    judge(manager(S).state, "loaded again")


SEEN = []


class Looker(Thing):
    "Remembers what it was given to load with."

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        SEEN.append((d["v"][0], config, state, dict(ctx)))
        return cls(d["v"])


@dataclass
class LookState(Lazy):
    t: int
    w: Looker
    u: Looker


@dataclass
class EagerState:
    t: int
    w: Looker
    u: Looker


def context(ctx):
    "What objects are given when they load: the config, the state, and the context values set so far."
    del SEEN[:]
    lazy = ctx.flag("lazy")
    S = LookState if lazy else EagerState
    a = ctx.int("a")
    root = ctx.tmp()
    how = ctx.choose("how", ["manager", "load"])
    make = lambda: S(1, Looker([1, a]), Looker([2, a]))
    expect = {}
    if how == "manager":
        sm = hyperstate.StateManager(Config, S, lambda c, x: make(), None, root, checkpoint_key="t")
        sm.config.a = 2.5
        sm.step()
        other = hyperstate.StateManager(Config, S, None, None, root, checkpoint_key="t")
        other.set_deserialize_ctx("other", 1)
        sm = hyperstate.StateManager(Config, S, None, None, root, checkpoint_key="t")
        for k in ("x", "y")[: ctx.choose("values", [0, 1, 2])]:
            expect[k] = ctx.int(k)
            sm.set_deserialize_ctx(k, expect[k])
        if ctx.flag("other first"):
            other.state
        config, st = sm.config, sm.state
    else:
        hyperstate.dump(make(), root + "/s.ron")
        config, st = None, hyperstate.load(S, root + "/s.ron")
        other = None
    got = lambda n: [x for x in SEEN if x[0] == n and x[2] is st]
    if lazy:
        ctx.check(SEEN == [], "read before its first use")
        for i, name in enumerate(["w", "u"]):
            if ctx.flag("set before " + name):
                key = ctx.choose("key " + name, ["x", "z"])
                expect[key] = ctx.int("set" + name)
                st.set_deserialize_ctx(key, expect[key])
            getattr(st, name)
            judge_seen(ctx, got(i + 1), config, expect, how)
    else:
        judge_seen(ctx, got(1), config, expect, how)
        judge_seen(ctx, got(2), config, expect, how)
    if other is not None:
        del SEEN[:]
        o = other.state
        o.w
        if SEEN:
            ctx.check(ctx.same(SEEN[0][3], {"other": 1}), "values of another state", values=SEEN[0][3])
    ctx.reach(how)


def judge_seen(ctx, seen, config, expect, how):
    ctx.check(len(seen) == 1, "not loaded once with its state", times=len(seen))
    ctx.check(seen[0][1] is config, "loaded with another config")
    ctx.check(ctx.same(seen[0][3], expect), "not the context values set so far", values=seen[0][3], expect=expect)


CASES = [
    {"name": "events", "fn": events, "params": {"n": 4, "kinds": EVENTS}, "reach": ["read", "saved", "missing"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "copies", "fn": copies, "params": {}, "reach": ["copy", "deepcopy", "replace"], "quick_s": 60, "max_witnesses": 60},
    {"name": "places", "fn": places, "params": {"how": "manager"}, "reach": PLACES, "quick_s": 60, "max_witnesses": 60},
    {"name": "places, dump", "fn": places, "params": {"how": "dump"}, "reach": PLACES, "quick_s": 60, "max_witnesses": 60},
    {"name": "context", "fn": context, "params": {}, "reach": ["manager", "load"], "quick_s": 60, "max_witnesses": 60},
    {"name": "upgraded", "fn": upgraded, "params": {}, "reach": list(OBJECTS), "quick_s": 60, "max_witnesses": 60},
    {"name": "more events", "fn": events, "params": {"n": 5, "kinds": EVENTS}, "reach": ["read", "saved", "missing"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2},
]
