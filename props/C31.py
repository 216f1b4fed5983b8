"""C31: a manager makes its config and its state once and keeps them."""
import hyperstate
from props.util import *

META = {
    "bounds": "histories of 3 operations (thorough: 4) of 10 kinds on a manager: reading the config, the state or config_dict, step, checkpoint, assigning symbolic values to fields of either (also nested), rewriting the source file, giving the deserialization context a value, using another manager of the same source; configs from defaults, a file, an initial checkpoint or a checkpoint directory; plain classes, classes whose objects count as false, classes whose objects are all equal; with a scheduled field",
    "outside": "initial states that use the manager; a checkpoint directory that is given after the config was read; operations that fail",
    "functions": ["hyperstate.StateManager.config", "hyperstate.StateManager.state", "hyperstate.StateManager.step", "hyperstate.StateManager.checkpoint", "hyperstate.StateManager.config_dict", "hyperstate.StateManager._load_config", "hyperstate.StateManager._load_state", "hyperstate._apply_schedules"],
    "assumptions": [],
}

SOURCES = ["defaults", "file", "initial checkpoint", "directory"]
OPS = ["config", "state", "dict", "step", "checkpoint", "assign config", "assign state", "rewrite", "context", "another"]
WAYS = ["plain", "false", "equal"]


@dataclass
class In:
    b: int = 7


def classes(way):
    ns = {}
    if way == "false":
        ns = {"__len__": lambda self: 0}
    elif way == "equal":
        ns = {"__eq__": lambda self, o: True, "__hash__": lambda self: 1}
    C = make_dataclass("C", [("a", float, 1.5), ("k", float, 0.5), ("n", In, field(default_factory=In)), ("l", List[int], field(default_factory=list))], namespace=dict(ns), eq=way != "equal")
    S = make_dataclass("S", [("t", int), ("x", float), ("m", List[int])], namespace=dict(ns), eq=way != "equal")
    return C, S


def line(t):
    "The schedule of the field k, which goes from 1 at 0 to 9 at 8."
    if t <= 0:
        return 1.0
    if t >= 8:
        return 9.0
    return 1.0 + t


def history(ctx, n, sources, ways, ops, scheduled=True):
    C, S = classes(ctx.choose("class", ways))
    source = ctx.choose("source", sources)
    sched = scheduled and source == "file" and ctx.flag("scheduled")
    root = ctx.tmp()
    path = dir = file = None
    values = {"a": 1.5, "k": 0.5, "b": 7, "l": []}

    def text(a):
        return "C(a: %s, k: %s)" % (ctx.numeral(a), '"t: 1@0 lin 9@8"' if sched else "0.5")

    if source == "file":
        path = file = root + "/c.ron"
        values["a"] = ctx.real("a")
        write(file, text(values["a"]))
    elif source != "defaults":
        sm = hyperstate.StateManager(C, S, lambda c, x: S(3, 2.5, [1, 2]), None, root + "/d" if source == "directory" else None, checkpoint_key="t")
        values["a"] = ctx.real("a")
        sm.config.a = values["a"]
        if source == "directory":
            dir = root + "/d"
            sm.step()
            (made,) = os.listdir(dir)
            file = dir + "/" + made + "/config.ron"
        else:
            path = root + "/start"
            sm.checkpoint(path)
            file = path + "/config.ron"
    resumed = source in ("initial checkpoint", "directory")
    made = []

    def start(c, x):
        made.append((c, dict(x), x))
        return S(3, 2.5, [1, 2])

    sm = hyperstate.StateManager(C, S, start, path, dir, checkpoint_key="t")
    ctx.check(not made, "the state was made before it was used")
    config = state = None
    at = {"t": 3, "x": 2.5, "m": [1, 2]}
    context = {}
    given = {}

    def look_config(what):
        nonlocal config
        c = sm.config
        ctx.check(type(c) is C, "not a config")
        if config is None:
            config = c
        ctx.check(c is config, "another config than before", after=what)
        ctx.check(ctx.same((c.a, c.n.b, c.l), (values["a"], values["b"], values["l"])), "the config has changed", after=what, config=(c.a, c.n.b, c.l), expect=values)
        if sched:
            ctx.check(values["k"] is None or ctx.same(c.k, values["k"]), "the scheduled field is not what it was", after=what, value=c.k, expect=values["k"])
        else:
            ctx.check(ctx.same(c.k, values["k"]), "the config has changed", after=what)

    def look_state(what):
        nonlocal state, given
        fresh = state is None
        if fresh:
            given = dict(context)
        s = sm.state
        ctx.check(type(s) is S, "not a state")
        if fresh:
            state = s
            if sched:
                values["k"] = line(at["t"])
        ctx.check(s is state, "another state than before", after=what)
        ctx.check(ctx.same((s.t, s.x, s.m), (at["t"], at["x"], at["m"])), "the state has changed", after=what, state=(s.t, s.x, s.m), expect=at)
        ctx.check(len(made) == (0 if resumed else 1), "the state was made again, or in spite of a checkpoint", after=what, times=len(made))
        if made:
            ctx.check(made[0][0] is sm.config, "the state was made from another config")
            ctx.check(ctx.same(made[0][1], given), "the state was made with another context", context=made[0][1], expect=given)
        look_config(what)

    if sched:
        values["k"] = 1.0  # before there is a state
    for i in range(n):
        op = ctx.choose("op%d" % i, ops)
        ctx.reach(op)
        if op == "config":
            look_config(op)
        elif op == "state":
            look_state(op)
        elif op == "dict":
            d = sm.config_dict()
            look_config(op)
            ctx.check(ctx.same((d["a"], d["n"], d["l"]), (values["a"], {"b": values["b"]}, values["l"])), "config_dict is not the config", result=d)
        elif op == "step":
            if state is None:
                look_state("state")
            sm.step()
            if sched:
                values["k"] = line(at["t"])
            look_state(op)
        elif op == "checkpoint":
            if state is None:
                look_state("state")
            sm.checkpoint(root + "/own%d" % i)
            look_state(op)
        elif op == "assign config":
            if config is None:
                look_config("config")
            values["a"], values["b"] = ctx.real("a%d" % i), ctx.int("b%d" % i)
            values["l"] = values["l"] + [values["b"]]
            sm.config.a = values["a"]
            sm.config.n.b = values["b"]
            sm.config.l.append(values["b"])
            look_config(op)
        elif op == "assign state":
            if state is None:
                look_state("state")
            at["t"], at["x"] = ctx.int("t%d" % i, 0, 20), ctx.real("x%d" % i)
            at["m"] = at["m"] + [at["t"]]
            sm.state.t = at["t"]
            sm.state.x = at["x"]
            sm.state.m.append(at["t"])
            look_state(op)
        elif op == "rewrite":
            if file is None or not os.path.exists(file):
                return
            new = ctx.real("r%d" % i)
            write(file, text(new))
            if config is None:
                values["a"] = new
        elif op == "context":
            context["k%d" % i] = ctx.int("c%d" % i)
            sm.set_deserialize_ctx("k%d" % i, context["k%d" % i])
        elif op == "another":
            if source == "directory":
                return
            other = hyperstate.StateManager(C, S, lambda c, x: S(30, 20.5, [10]), path, None, checkpoint_key="t")
            other.config.a, other.config.n.b = 99.5, 99
            other.config.l.append(99)
            other.state.m.append(99)
            other.step()
    look_config("the end")
    look_state("the end")


CASES = [
    {"name": s, "fn": history, "params": {"n": 3, "sources": [s], "ways": ["plain", "false"], "ops": OPS}, "reach": [o for o in OPS if (o != "rewrite" or s != "defaults")], "quick_s": 90, "shards": 4 if s == "file" else 2, "depth": 3, "max_witnesses": 100}
    for s in SOURCES
] + [
    {"name": "equal objects", "fn": history, "params": {"n": 2, "sources": SOURCES, "ways": ["equal"], "ops": OPS}, "reach": OPS, "quick_s": 60, "max_witnesses": 60},
    {"name": "long", "fn": history, "params": {"n": 4, "sources": SOURCES, "ways": WAYS, "ops": OPS}, "reach": OPS, "thorough_only": True, "thorough_s": 700, "shards": 32, "depth": 5},
]
