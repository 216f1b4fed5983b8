"""C16: scheduled fields follow their schedules wherever they are."""
from dataclasses import field, make_dataclass
import math
import hyperstate
from hyperstate.schema.rewrite_rule import RenameField
from hyperstate.schema.versioned import Versioned
from props.util import *

META = {
    "bounds": "int and float fields at the top and at every placement up to 2 levels deep (thorough: 3) of lists, dictionaries with string (also with '.', '[', '/'), integer and float keys, tuples, optional, plain, versioned and alternative objects; any subset of first/last/all fields scheduled, 4 forms of schedule on 2 state fields (real and int) with symbolic values; 1 load and up to 2 steps (thorough: 3) with symbolic state values; the user assigning to scheduled and unscheduled fields and replacing nested objects in between; schedules from files, from overrides and moved by a rename rule; dataclasses declared in 16 ways (util.KINDS without frozen)",
    "outside": "schedules in frozen dataclasses; schedules in classes with fields of type str holding '@'; IEEE rounding (floats are reals)",
    "functions": ["hyperstate.StateManager.state", "hyperstate.StateManager.step", "hyperstate._apply_schedules", "hyperstate._get_child", "hyperstate._set_child", "hyperstate.ScheduleDeserializer", "schedule._parse_schedule", "schedule.PiecewiseFunction.get_value"],
    "assumptions": ["pyron is trusted to read strings"],
}


@dataclass
class State:
    s: float
    t: int


class Sched(object):
    "A schedule: its text and what it means."

    def __init__(self, ctx, form, name):
        self.form = form
        self.x = "t" if form.endswith("t") else "s"
        y0 = self.y0 = ctx.real(name + "0", -10 ** 6, 10 ** 6)
        n = ctx.numeral
        if form.startswith("lin"):
            self.text = "%s: 2@0 lin 18@16" % self.x
        elif form.startswith("const"):
            self.text = "%s: %s@3" % (self.x, n(y0))
        else:
            y1 = self.y1 = ctx.real(name + "1", -10 ** 6, 10 ** 6)
            self.text = "%s: %s@-5 step %s@10" % (self.x, n(y0), n(y1))

    def at(self, state, clz, inside):
        x = getattr(state, self.x)
        if self.form.startswith("lin"):
            if not inside and x < 0:
                v = 2.0
            elif not inside and x >= 16:
                v = 18.0
            else:
                v = x + 2
        elif self.form.startswith("const"):
            v = self.y0
        else:
            v = self.y0 if x < 10 else self.y1
        return math.trunc(v) if clz is int else v * 1.0


FORMS = ["step", "lin t", "const", "step t", "lin"]
LEAF = ["float", "int"]
NEST = ["list", "tuple", "dict", "intdict", "floatdict", "opt", "obj", "ver", "alts"]




@dataclass
class Left:
    u: float
    w: int = 4


@dataclass
class Right:
    u: int
    v: float


_made = {}


def shape(ctx, name, depth, leaf=LEAF, nests=NEST, outer=""):
    kinds = list(leaf)
    if depth > 0:
        kinds += [k for k in nests if not (outer == "opt" and k in ("opt", "alts"))]
    if outer == "tuple":
        kinds.append("pair")
    k = ctx.choose(name, kinds)
    if k in LEAF or k in ("alts", "pair"):
        return (k,)
    return (k, shape(ctx, name + "/", depth - 1, leaf, nests, k))


def type_of(sh):
    if sh not in _made:
        k = sh[0]
        inner = type_of(sh[1]) if len(sh) > 1 else None
        if k in LEAF:
            t = {"int": int, "float": float}[k]
        elif k == "pair":
            t = make_dataclass("Pair", [("u", float), ("v", int)])
        elif k == "alts":
            t = Union[Left, Right]
        elif k == "list":
            t = List[inner]
        elif k == "tuple":
            t = Tuple[inner, int]
        elif k == "dict":
            t = Dict[str, inner]
        elif k == "intdict":
            t = Dict[int, inner]
        elif k == "floatdict":
            t = Dict[float, inner]
        elif k == "opt":
            t = Optional[inner]
        elif k == "obj":
            t = make_dataclass("O" + label(sh[1]), [("a", inner), ("b", float), ("c", int, 11)])
        else:
            t = make_dataclass("V" + label(sh[1]), [("a", inner), ("b", int)], bases=(Versioned,), namespace={"version": classmethod(lambda cls: 3), "upgrade_rules": classmethod(lambda cls: {})})
        _made[sh] = t
    return _made[sh]


class Leaf(object):
    def __init__(self, clz, path, fixed=False):
        self.clz = clz
        self.path = path
        self.fixed = fixed
        self.sched = None


def leaves(ctx, sh, path, name, many):
    """The tree of a value: its leaves carry their paths; `many` elements in containers."""
    k = sh[0]
    if k in LEAF:
        return Leaf({"int": int, "float": float}[k], path)
    if k == "pair":
        return ("obj", type_of(sh), [("u", Leaf(float, path + [".u"])), ("v", Leaf(int, path + [".v"]))])
    if k == "alts":
        if ctx.flag(name + "?right"):
            return ("obj", Right, [("u", Leaf(int, path + [".u"])), ("v", Leaf(float, path + [".v"]))])
        return ("obj", Left, [("u", Leaf(float, path + [".u"])), ("w", Leaf(int, path + [".w"]))])
    if k == "list":
        return ("list", [leaves(ctx, sh[1], path + [i], "%s%d" % (name, i), many) for i in range(many)])
    if k == "tuple":
        return ("tuple", [leaves(ctx, sh[1], path + [0], name + "0", many), Leaf(int, path + [1])])
    if k in ("dict", "intdict", "floatdict"):
        keys = {"dict": ["k.1/[0]", "k 2", "3"], "intdict": [12, -1, 0], "floatdict": [1.5, -20.0, 0.25]}[k][:many]
        return ("dict", [(key, leaves(ctx, sh[1], path + [key], "%s%s" % (name, key), many)) for key in keys])
    if k == "opt":
        return leaves(ctx, sh[1], path, name, many)
    t = type_of(sh)
    if k == "obj":
        return ("obj", t, [("a", leaves(ctx, sh[1], path + [".a"], name + "a", many)), ("b", Leaf(float, path + [".b"])), ("c", Leaf(int, path + [".c"]))])
    return ("obj", t, [("a", leaves(ctx, sh[1], path + [".a"], name + "a", many)), ("b", Leaf(int, path + [".b"]))])


def flat(tree):
    if isinstance(tree, Leaf):
        return [tree]
    if tree[0] == "obj":
        return [x for _, v in tree[2] for x in flat(v)]
    if tree[0] == "dict":
        return [x for _, v in tree[1] for x in flat(v)]
    return [x for v in tree[1] for x in flat(v)]


def text(ctx, tree):
    if isinstance(tree, Leaf):
        return Raw('"%s"' % tree.sched.text) if tree.sched else tree.value
    if tree[0] == "obj":
        o = Obj(tree[1].__name__, *[(n, text(ctx, v)) for n, v in tree[2]])
        if issubclass(tree[1], Versioned):
            o.fields.insert(0, ("version", 3))
        return o
    if tree[0] == "dict":
        return {k: text(ctx, v) for k, v in tree[1]}
    if tree[0] == "tuple":
        return tuple(text(ctx, v) for v in tree[1])
    return [text(ctx, v) for v in tree[1]]


def get(obj, path):
    for p in path:
        obj = getattr(obj, p[1:]) if isinstance(p, str) and p.startswith(".") else obj[p]
    return obj


def put(obj, path, v):
    o = get(obj, path[:-1])
    p = path[-1]
    if isinstance(o, tuple):
        put(obj, path[:-1], o[:p] + (v,) + o[p + 1 :])
    elif isinstance(p, str) and p.startswith("."):
        setattr(o, p[1:], v)
    else:
        o[p] = v


def judge(ctx, cfg, all_, state, what, inside=False):
    for l in all_:
        v = get(cfg, l.path)
        e = l.sched.at(state, l.clz, inside) if l.sched else l.value
        ctx.check(ctx.same(v, e), "a scheduled field does not follow its schedule" if l.sched else "an unscheduled field changed", where=l.path, when=what, value=v, expect=e, state=(state.s, state.t))
        ctx.check(isinstance(v, l.clz) and isinstance(v, bool) is False, "a field has the wrong type", where=l.path, value=v)


def begin(ctx, depth, many, forms, which, nest, rotate, leaf, nests):
    sh = shape(ctx, "shape", depth, leaf, nests) if nest is None else nest
    tree = leaves(ctx, sh, [".c"], "", many)
    ls = flat(tree)
    free = [l for l in ls if not l.fixed]
    w = ctx.choose("which", which)
    if w == "first":
        chosen = free[:1]
    elif w == "last":
        chosen = free[-1:]
    elif w == "all":
        chosen = free
    elif w == "ends":
        chosen = free[:1] + free[-1:] if len(free) > 2 else free[:1]
    else:
        chosen = []
    form = ctx.choose("form", forms)
    n = 0
    for i, l in enumerate(ls):
        if l in chosen:
            # neighbouring schedules differ in form and values
            l.sched = Sched(ctx, rotate[(rotate.index(form) + n) % len(rotate)] if n < 3 else "const", "y%d" % i)
            n += 1
            ctx.reach("scheduled")
        else:
            l.value = ctx.int("v%d" % i, -10 ** 9, 10 ** 9) if l.clz is int else ctx.real("v%d" % i)
    return sh, tree, ls


def world(sh, tree, ls, ctx, top):
    C = make_dataclass("Config", [("c", type_of(sh)), ("k", float), ("d", int, 5)])
    k = Leaf(float, [".k"])
    if top:
        k.sched = Sched(ctx, "step", "k")
    else:
        k.value = ctx.real("k")
    src = "Config(c: %s, k: %s)" % (ron(ctx, text(ctx, tree)), ron(ctx, text(ctx, k)))
    d = Leaf(int, [".d"])
    d.value = 5
    return C, ls + [k, d], src


def state_value(ctx, i, inside=False):
    if inside:
        return State(ctx.real("s%d" % i, 1, 15), ctx.int("t%d" % i, 1, 15))
    return State(ctx.real("s%d" % i, -100, 100), ctx.int("t%d" % i, -100, 100))


def run(ctx, depth, many, forms, which, steps, nest=None, user=False, config_first=True, inside=False, rotate=FORMS, top=True, leaf=LEAF, nests=NEST):
    sh, tree, ls = begin(ctx, depth, many, forms, which, nest, rotate, leaf, nests)
    C, all_, src = world(sh, tree, ls, ctx, top and ctx.flag("top too"))
    d = ctx.tmp()
    write(d + "/c.ron", src)
    s0 = state_value(ctx, 0, inside)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron")
    if config_first and ctx.flag("config first"):
        sm.config
    st = sm.state
    judge(ctx, sm.config, all_, s0, "loaded", inside)
    cfg = sm.config
    for i in range(1, steps + 1):
        now = state_value(ctx, i, inside)
        st.s, st.t = now.s, now.t
        if user:
            u = ctx.choose("user %d" % i, ["nothing", "unscheduled", "scheduled", "replaces"])
            if u in ("unscheduled", "scheduled"):
                for l in all_:
                    if bool(l.sched) == (u == "scheduled") and not l.fixed:
                        new = ctx.int("w%d" % i, -10 ** 9, 10 ** 9) if l.clz is int else ctx.real("w%d" % i)
                        put(cfg, l.path, new)
                        if not l.sched:
                            l.value = new
                        break
            elif u == "replaces":
                # an equal copy takes the place of the field's value
                cfg.c = copy_of(cfg.c)
        sm.step()
        judge(ctx, sm.config, all_, now, "step %d" % i, inside)
        ctx.check(sm.config is cfg and sm.state is st, "the manager replaced its objects")
        ctx.reach("stepped")


def copy_of(v):
    if isinstance(v, list):
        return [copy_of(x) for x in v]
    if isinstance(v, tuple):
        return tuple(copy_of(x) for x in v)
    if isinstance(v, dict):
        return {k: copy_of(x) for k, x in v.items()}
    if is_dataclass(v):
        return type(v)(**{n: copy_of(getattr(v, n)) for n in v.__dataclass_fields__})
    return v


def overrides(ctx):
    "Schedules given, replaced and removed by overrides."
    P = make_dataclass("P", [("a", float), ("b", int, 3)])
    C = make_dataclass("Config", [("c", P), ("k", float), ("o", Optional[P], None), ("l", List[float], field(default_factory=list))])
    paths = {"k": [".k"], "c.a": [".c", ".a"], "c.b": [".c", ".b"], "o.a": [".o", ".a"]}
    where = ctx.choose("where", sorted(paths))
    clz = int if where == "c.b" else float
    before = ctx.flag("scheduled in the file")
    l = Leaf(clz, paths[where])
    old = Sched(ctx, "step", "old") if before else None
    v = ctx.int("v", -10 ** 9, 10 ** 9) if clz is int else ctx.real("v")
    t = Raw('"%s"' % old.text) if old else v
    k, a, b = ctx.real("k"), ctx.real("a"), ctx.int("b", -10 ** 9, 10 ** 9)
    src = "Config(c: %s, k: %s, o: %s)" % (
        ron(ctx, Obj("P", a=t if where == "c.a" else a, b=t if where == "c.b" else b)),
        ron(ctx, t if where == "k" else k),
        ron(ctx, Obj("P", a=t if where == "o.a" else a)),
    )
    if ctx.flag("a schedule"):
        l.sched = Sched(ctx, ctx.choose("form", FORMS), "new")
        ov = '%s="%s"' % (where, l.sched.text)
    else:
        l.value = ctx.int("w", -10 ** 9, 10 ** 9) if clz is int else ctx.real("w")
        ov = "%s=%s" % (where, ctx.numeral(l.value))
    ovs = [ov]
    others = []
    for n, x in [("k", k), ("c.a", a), ("c.b", b), ("o.a", a)]:
        if n != where:
            o = Leaf(int if n == "c.b" else float, paths[n])
            o.value = x
            others.append(o)
    if ctx.flag("list"):
        y = ctx.real("y")
        e = Leaf(float, [".l", 0])
        e.sched = Sched(ctx, "const", "l")
        f = Leaf(float, [".l", 1])
        f.value = y
        ovs.append('l=["%s", %s]' % (e.sched.text, ctx.numeral(y)))
        others += [e, f]
    d = ctx.tmp()
    write(d + "/c.ron", src)
    s0 = state_value(ctx, 0)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron", overrides=ovs)
    st = sm.state
    judge(ctx, sm.config, [l] + others, s0, "loaded")
    s1 = state_value(ctx, 1)
    st.s, st.t = s1.s, s1.t
    sm.step()
    ctx.reach("scheduled" if l.sched else "value")
    judge(ctx, sm.config, [l] + others, s1, "step")


def renamed(ctx):
    "A schedule in an old config follows its field to the new name."
    P = make_dataclass("P", [("a", float), ("b", int, 3)])
    where = ctx.choose("where", ["top", "into", "within", "out"])
    old, new = {"top": ("old", "k"), "into": ("old", "c.a"), "within": ("c.old", "c.a"), "out": ("c.old", "k")}[where]
    rule = RenameField(tuple(old.split(".")), tuple(new.split(".")))
    C = make_dataclass("Config", [("c", P), ("k", float)], bases=(Versioned,), namespace={"version": classmethod(lambda cls: 1), "upgrade_rules": classmethod(lambda cls: {0: [rule]})})
    sch = Sched(ctx, ctx.choose("form", FORMS), "y")
    t = Raw('"%s"' % sch.text)
    x = ctx.real("x")
    c = [("b", ctx.int("b", -10 ** 9, 10 ** 9))]
    top = []
    (c if "." in old else top).append(("old", t))
    other = "c.a" if new == "k" else "k"
    (c if other == "c.a" else top).append((other.split(".")[-1], x))
    src = ron(ctx, Obj("Config", *([("version", 0), ("c", Obj("P", *c))] + top)))
    d = ctx.tmp()
    write(d + "/c.ron", src)
    l, o, b = Leaf(float, ["." + p for p in new.split(".")]), Leaf(float, ["." + p for p in other.split(".")]), Leaf(int, [".c", ".b"])
    l.sched, o.value, b.value = sch, x, c[0][1]
    s0 = state_value(ctx, 0)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron")
    st = sm.state
    judge(ctx, sm.config, [l, o, b], s0, "loaded")
    s1 = state_value(ctx, 1)
    st.s, st.t = s1.s, s1.t
    sm.step()
    ctx.reach(where)
    judge(ctx, sm.config, [l, o, b], s1, "step")


WARM = [k for k in KINDS if k != "frozen"]


def kind_world(ctx):
    "A config with a scheduled field in a dataclass declared in an unusual way: its text, class and leaves."
    kind = ctx.choose("kind", WARM)
    place = ctx.choose("place", PLACES)
    K = kind_class(kind, (1, "s", [2]) if ctx.flag("defaults") else None)
    R, _ = placed(place, K)
    k = Obj("K", ("a", Raw('"s: 2@0 lin 18@16"')), ("b", "b"), ("c", [3]))
    v = {"object": k, "optional": k, "list": [k, Obj("K", a=5, b="x", c=[])], "dict": {"k": k}, "tuple": (k, 7), "alternative": k}
    src = ron(ctx, k if place == "top" else Obj("Root", f=v[place], w=4))
    path = {"top": [], "list": [".f", 0], "dict": [".f", "k"], "tuple": [".f", 0]}.get(place, [".f"])
    a, b, c = Leaf(int, path + [".a"]), Leaf(str, path + [".b"]), Leaf(int, path + [".c", 0])
    a.sched = Sched(ctx, "lin", "y")
    b.value, c.value = "b", 3
    ls = [a, b, c]
    if place == "list":
        l = Leaf(int, [".f", 1, ".a"])
        l.value = 5
        ls.append(l)
    ctx.reach(kind)
    return R, src, ls


def kinds(ctx):
    "Dataclasses declared in every way."
    R, src, ls = kind_world(ctx)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    s0 = state_value(ctx, 0, True)
    sm = hyperstate.StateManager(R, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron")
    st = sm.state
    judge(ctx, sm.config, ls, s0, "loaded", True)
    s1 = state_value(ctx, 1, True)
    st.s, st.t = s1.s, s1.t
    sm.step()
    judge(ctx, sm.config, ls, s1, "step", True)


LIN = ["lin", "lin t"]
CASES = [
    {"name": "placements", "fn": run, "params": {"depth": 2, "many": 2, "forms": ["lin"], "rotate": LIN, "inside": True, "which": ["first", "last", "all"], "steps": 1, "config_first": False, "top": False}, "reach": ["scheduled", "stepped"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 100},
    {"name": "three elements", "fn": run, "params": {"depth": 1, "many": 3, "forms": ["lin t"], "rotate": LIN, "inside": True, "which": ["ends", "all", "none"], "steps": 1}, "reach": ["scheduled", "stepped"], "quick_s": 60, "max_witnesses": 60},
    {"name": "steps", "fn": run, "params": {"depth": 1, "many": 1, "forms": FORMS, "which": ["first"], "steps": 2, "top": False, "leaf": ["float", "int"], "nests": ["list", "dict", "obj"]}, "reach": ["scheduled", "stepped"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "user", "fn": run, "params": {"depth": 1, "many": 2, "forms": ["const", "lin"], "rotate": ["const", "lin"], "inside": True, "which": ["first", "last"], "steps": 2, "user": True, "config_first": False, "top": False}, "reach": ["scheduled", "stepped"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "overrides", "fn": overrides, "params": {}, "reach": ["scheduled", "value"], "quick_s": 60, "max_witnesses": 60},
    {"name": "renamed", "fn": renamed, "params": {}, "reach": ["top", "into", "within", "out"], "quick_s": 60, "max_witnesses": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": WARM, "quick_s": 60, "max_witnesses": 60},
    {"name": "deep placements", "fn": run, "params": {"depth": 3, "many": 2, "forms": ["lin"], "rotate": LIN, "inside": True, "which": ["first", "last"], "steps": 1, "config_first": False}, "reach": ["scheduled"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 2},
    {"name": "more steps", "fn": run, "params": {"depth": 2, "many": 2, "forms": FORMS, "which": ["first", "all"], "steps": 3, "user": True}, "reach": ["scheduled"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 2},
]
