"""C30: config_dict is the config in effect, as plain values."""
import copy
import pyron
import hyperstate
from hyperstate.schema.rewrite_rule import RenameField
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "every type of C01 up to 1 level (thorough: 2) of containers in a plain or versioned config, with a nested versioned object; dataclasses declared in 17 ways (util.KINDS); symbolic values; loaded from a file, defaults, an initial checkpoint, with overrides and an upgrade; asked for before or after the state, after 0..2 steps with schedules (top, nested, in a list and a dictionary) and after the user's assignments; changing the result or the config afterwards",
    "outside": "as C01",
    "functions": ["hyperstate.StateManager.config_dict", "serde.asdict", "versioned.VersionedSerializer.modify_dataclass_attrs"],
    "assumptions": [],
}


@dataclass
class State:
    s: float
    t: int


@dataclass
class Part(Versioned):
    x: int = 1
    c: Color = Color.RED

    @classmethod
    def version(cls):
        return 4


def plain(v):
    "A value as plain dictionaries, lists and tuples."
    if is_dataclass(v):
        d = {n: plain(getattr(v, n)) for n in v.__dataclass_fields__}
        if isinstance(v, Versioned):
            d["version"] = type(v).version()
        return d
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, enum.Enum):
        return v.value
    return v


def only_plain(v):
    if isinstance(v, dict):
        return type(v) is dict and all(only_plain(k) and only_plain(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v) in (list, tuple) and all(only_plain(x) for x in v)
    return v is None or isinstance(v, (int, float, str)) and not isinstance(v, enum.Enum)


def scramble(v):
    "Changes everything inside that can be changed."
    if isinstance(v, dict):
        for k in list(v):
            scramble(v[k])
            if not isinstance(v[k], (dict, list, tuple)):
                v[k] = "changed"
        v["added"] = 1
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.append("changed")
    elif isinstance(v, tuple):
        for x in v:
            scramble(x)


def judge(ctx, sm, what):
    before = copy.deepcopy(sm.config) if not ctx.symbolic else rebuilt(sm.config)
    d = sm.config_dict()
    e = plain(sm.config)
    ctx.observe("dict", d)
    ctx.check(only_plain(d), "the dictionary holds something else than plain values", when=what, got=d)
    ctx.check(ctx.same(d, e), "the dictionary is not the config in effect", when=what, got=d, expect=e)
    if isinstance(sm.config, Versioned):
        ctx.check(list(d)[:1] == ["version"], "the version does not come first", got=list(d))
    scramble(d)
    ctx.check(ctx.same(sm.config, before), "changing the dictionary changed the config", when=what, config=sm.config, expect=before)
    ctx.check(ctx.same(sm.config_dict(), e), "asking again gives something else", when=what)
    return e


def rebuilt(v):
    if is_dataclass(v):
        return type(v)(**{n: rebuilt(getattr(v, n)) for n in v.__dataclass_fields__})
    if isinstance(v, dict):
        return {k: rebuilt(x) for k, x in v.items()}
    if isinstance(v, list):
        return [rebuilt(x) for x in v]
    if isinstance(v, tuple):
        return tuple(rebuilt(x) for x in v)
    return v


def types(ctx, depth, maxlen=1, leaves=LEAVES):
    shape = choose_shape(ctx, "t", depth, leaves)
    versioned = ctx.flag("versioned")
    ns = {"version": classmethod(lambda cls: 2)}
    R = make_dataclass("Root", [("v", to_type(shape)), ("p", Part), ("w", int)], bases=(Versioned,) if versioned else (), namespace=ns if versioned else {})
    desc = choose_value(ctx, "v", shape, maxlen)
    obj = R(v=build(desc), p=Part(ctx.int("x"), ctx.choose("c", list(Color))), w=ctx.int("w"))
    expect = R(v=build(desc), p=Part(obj.p.x, obj.p.c), w=obj.w)
    d = ctx.tmp()
    hyperstate.dump(obj, d + "/c.ron")
    sm = hyperstate.StateManager(R, State, lambda c, x: State(0.0, 0), d + "/c.ron")
    e = judge(ctx, sm, "loaded")
    ctx.check(ctx.same(e, plain(expect)), "not the config of the file", got=e, expect=plain(expect))
    # what it says is what a checkpoint records
    ctx.reach(shape[0])
    sm.config.w = ctx.int("w2")
    if sm.config.p.c is Color.RED:
        sm.config.p = Part(ctx.int("x2"), Color.GREEN)
    judge(ctx, sm, "assigned")


@dataclass
class Opt:
    lr: float = 0.5
    n: int = 3


@dataclass
class Config(Versioned):
    k: float
    o: Opt
    l: List[Opt] = field(default_factory=list)
    m: Dict[str, float] = field(default_factory=dict)
    z: Optional[Opt] = None

    @classmethod
    def version(cls):
        return 1

    @classmethod
    def upgrade_rules(cls):
        return {0: [RenameField(("old",), ("k",))]}


def running(ctx):
    "The current values of scheduled fields, at every point of a run."
    d = ctx.tmp()
    where = ctx.choose("scheduled", ["k", "o.lr", "o.n", "l", "m", "z.lr", "none"])
    key = "t" if where == "o.n" else "s"
    sched = Raw('"%s: 2@0 lin 18@16"' % key)
    v = {n: ctx.real(n) for n in ("k", "o.lr", "l", "m", "z.lr")}
    v["o.n"] = ctx.int("o.n", -10 ** 9, 10 ** 9)
    src = {n: sched if n == where else v[n] for n in v}
    old = ctx.flag("old")
    fields = [("version", 0 if old else 1), ("old" if old else "k", src["k"]), ("o", Obj("Opt", lr=src["o.lr"], n=src["o.n"])), ("l", [Obj("Opt", lr=src["l"])]), ("m", {"a": src["m"]}), ("z", Obj("Opt", lr=src["z.lr"]))]
    write(d + "/c.ron", ron(ctx, Obj("Config", *fields)))
    over = ctx.flag("override")
    if over:
        v["k"] = ctx.real("kk")
    sm = hyperstate.StateManager(Config, State, lambda c, x: State(ctx.real("s0", 1, 15), ctx.int("t0", 1, 15)), d + "/c.ron", overrides=["k=" + ctx.numeral(v["k"])] if over else None)

    def expect(x):
        x = getattr(x, key)
        r = dict(v)
        if where in r and not (where == "k" and over):
            r[where] = x + 2
        return {"version": 1, "k": r["k"], "o": {"lr": r["o.lr"], "n": r["o.n"]}, "l": [{"lr": r["l"], "n": 3}], "m": {"a": r["m"]}, "z": {"lr": r["z.lr"], "n": 3}}

    if ctx.flag("before the state"):
        sm.config_dict()
    st = sm.state
    e = judge(ctx, sm, "loaded")
    ctx.check(ctx.same(e, expect(st)), "not the values in effect", got=e, expect=expect(st))
    for i in range(2):
        if key == "s":
            st.s = ctx.real("s%d" % (i + 1), 1, 15)
        else:
            st.t = ctx.int("t%d" % (i + 1), 1, 15)
        sm.step()
        if i == 1 and where != "o.lr":
            v["o.lr"] = sm.config.o.lr = ctx.real("new")
        e = judge(ctx, sm, "step %d" % i)
        ctx.check(ctx.same(e, expect(st)), "not the values in effect", got=e, expect=expect(st))
    ctx.reach(where)


def kinds(ctx):
    "Dataclasses declared in every way."
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", PLACES)
    K = kind_class(kind, (1, "s", [2]) if ctx.flag("defaults") else None)
    R, make = placed(place, K)
    i = ctx.int("i")
    s = ctx.str("s", 1, 1)
    mk = lambda: make(lambda: K(i, s, [i]), lambda: K(3, "x", []), 4)
    d = ctx.tmp()
    hyperstate.dump(mk(), d + "/c.ron")
    sm = hyperstate.StateManager(R, State, lambda c, x: State(0.0, 0), d + "/c.ron")
    got = sm.config_dict()
    ctx.observe("dict", got)
    ctx.check(ctx.same(got, plain(mk())), "the dictionary is not the config in effect", got=got, expect=plain(mk()))
    ctx.check(only_plain(got), "the dictionary holds something else than plain values", got=got)
    scramble(got)
    ctx.check(ctx.same(parts(sm.config), parts(mk())), "changing the dictionary changed the config", config=parts(sm.config))
    ctx.reach(kind)


CASES = [
    {"name": "types", "fn": types, "params": {"depth": 1}, "reach": LEAVES + CONTAINERS + ["alts"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "unions", "fn": types, "params": {"depth": 0, "leaves": UNIONS + MIXED}, "reach": UNIONS + MIXED, "quick_s": 60, "max_witnesses": 60},
    {"name": "running", "fn": running, "params": {}, "reach": ["k", "o.lr", "o.n", "l", "m", "z.lr", "none"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": KINDS, "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "deep types", "fn": types, "params": {"depth": 2}, "reach": LEAVES + CONTAINERS + ["alts"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 3},
]
