"""C17: schedules are saved as schedules."""
import pyron
from pathlib import Path
from props.C16 import *
from props.tool import upgrade_config
from props.C16 import FORMS, LEAF, LIN, NEST, WARM

META = {
    "bounds": "the placements of C16 (2 levels, thorough: 3), saved by step() with a checkpoint directory, by checkpoint() to a path, or by upgrade-config with and without eliding, after 0..1 steps; up to 2 generations of saving and resuming (thorough: 3), each followed by a step; the user assigning to fields before the save; schedule texts with numerals in 4 styles and several points; dataclasses declared in 16 ways; fields whose schedule's current value equals their default",
    "outside": "as C16",
    "functions": ["hyperstate.ScheduleSerializer", "hyperstate.ScheduleDeserializer", "hyperstate.StateManager.checkpoint", "hyperstate.StateManager.step", "hyperstate._typed_dump", "schema_checker._upgrade_config", "serde.asdict"],
    "assumptions": ["pyron is trusted to read and write strings"],
}


def find(doc, path):
    "A place in a document read back (independently of the library)."
    for p in path:
        if isinstance(p, str) and p.startswith("."):
            p = p[1:]
        if isinstance(doc, dict):
            if p not in doc:
                return None, False
            doc = doc[p]
        else:
            doc = doc[p]
    return doc, True


def saved(ctx, file, all_, defaults=()):
    doc = pyron.load(file, preserve_class_names=True)
    for l in all_:
        v, ok = find(doc, l.path)
        if l.sched:
            ctx.check(ok and v == l.sched.text, "a schedule was not saved in its original form", where=l.path, saved=v, schedule=l.sched.text)
        else:
            if not ok and l.path[-1] in defaults:
                continue
            ctx.check(ok and ctx.same(v, l.value, types=False), "a value was not saved", where=l.path, saved=v, value=l.value)


def save(ctx, sm, how, i):
    if how == "step":
        sm.step()
        return None, str(sm.checkpoint_dir / ("latest-t%012d" % sm.state.t) / "config.ron")
    d = ctx.tmp() + "/saved"
    sm.checkpoint(d)
    return d, d + "/config.ron"


def generations(ctx, depth, many, forms, which, n, hows, rotate=LIN, leaf=LEAF, nests=NEST, first_step=True, user=False):
    sh, tree, ls = begin(ctx, depth, many, forms, which, None, rotate, leaf, nests)
    C, all_, src = world(sh, tree, ls, ctx, False)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    how = ctx.choose("how", hows)
    s0 = State(ctx.real("s0", 1, 15), 1)
    cd = ctx.tmp() if how == "step" else None
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron", cd, checkpoint_key="t")
    st = sm.state
    if first_step and ctx.flag("step first"):
        st.s, st.t = ctx.real("s first", 1, 15), 2
        sm.step()
    for g in range(n):
        if user:
            u = ctx.choose("user %d" % g, ["nothing", "unscheduled", "scheduled"])
            for l in all_:
                if u != "nothing" and bool(l.sched) == (u == "scheduled") and not l.fixed:
                    new = ctx.int("w%d" % g, -10 ** 9, 10 ** 9) if l.clz is int else ctx.real("w%d" % g)
                    put(sm.config, l.path, new)
                    if not l.sched:
                        l.value = new
                    break
        sm.state.s, sm.state.t = ctx.real("s%d" % (g + 1), 1, 15), 4 * (g + 1)
        init, file = save(ctx, sm, how, g)
        saved(ctx, file, all_)
        at = State(sm.state.s, sm.state.t)
        sm = hyperstate.StateManager(C, State, lambda c, x: ctx.fail("started afresh"), init, cd, checkpoint_key="t")
        st = sm.state
        judge(ctx, sm.config, all_, at, "resumed %d" % g, True)
        st.s, st.t = ctx.real("r%d" % g, 1, 15), 4 * (g + 1) + 1
        sm.step()
        ctx.reach("resumed")
        judge(ctx, sm.config, all_, st, "resumed and stepped %d" % g, True)


class Text(Sched):
    "Schedules in different spellings."

    def __init__(self, ctx, kind):
        a, b = ctx.real("a", -10 ** 6, 10 ** 6), ctx.real("b", -10 ** 6, 10 ** 6)
        s = ctx.choose("style", ["plain", "neg", "int", "exp"])
        if kind == "two":
            self.text = "s: %s@0 lin %s@16" % (ctx.numeral(a, s), ctx.numeral(b, s))
        elif kind == "default join":
            self.text = "s: %s@0 %s@16" % (ctx.numeral(a, s), ctx.numeral(b, s))
        elif kind == "one":
            self.text = "s: %s@0" % ctx.numeral(a, s)
        else:
            self.text = "s: %s@-1 step %s@100 lin 3.5@2e3 1.5e-3@1E9 cos 7@%s" % (ctx.numeral(a, s), ctx.numeral(b, s), ctx.numeral(ctx.real("x", 10 ** 9 + 1, 10 ** 10), s))
        self.kind = kind
        self.a, self.b = a, b

    def at(self, state, clz, inside):
        if self.kind in ("two", "default join"):
            u = state.s / 16
            v = (1 - u) * self.a + (1 - (1 - u)) * self.b
        else:
            v = self.a
        return math.trunc(v) if clz is int else v * 1.0


def texts(ctx):
    P = make_dataclass("P", [("a", float, 2.0), ("b", int, 2)])
    C = make_dataclass("Config", [("p", P), ("k", float, 2.0), ("o", Optional[P], None), ("j", int, 2)])
    where = ctx.choose("where", ["k", "j", "p.a", "p.b", "o.a", "o.b"])
    l = Leaf(int if where in ("j", "p.b", "o.b") else float, ["." + x for x in where.split(".")])
    l.sched = Text(ctx, ctx.choose("text", ["one", "many"] if l.clz is int else ["one", "two", "default join", "many"]))
    t = Raw('"%s"' % l.sched.text)
    fields = [("k", t)] if where == "k" else [("j", t)] if where == "j" else [(where[0], Obj("P", **{where[2]: t}))]
    d = ctx.tmp()
    # the value in between may be the default
    write(d + "/c.ron", ron(ctx, Obj("Config", *fields)))
    how = ctx.choose("how", ["checkpoint", "upgrade", "upgrade with defaults"])
    s0 = State(ctx.real("s0", 1, 15), 5)
    init = d + "/c.ron"
    if how == "checkpoint":
        sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), init)
        sm.state
        init, file = save(ctx, sm, "checkpoint", 0)
    else:
        file = init
        upgrade_config(init, C, how == "upgrade")
    saved(ctx, file, [l])
    ctx.reach(how)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), init)
    judge(ctx, (sm.state, sm.config)[1], [l], s0, "resumed", True)
    sm.state.s = ctx.real("s1", 1, 15)
    sm.step()
    judge(ctx, sm.config, [l], sm.state, "stepped", True)


def upgraded(ctx, depth, many, which, nests=NEST):
    "upgrade-config on configs with schedules anywhere."
    sh, tree, ls = begin(ctx, depth, many, ["lin"], which, None, LIN, LEAF, nests)
    C, all_, src = world(sh, tree, ls, ctx, False)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    elide = ctx.flag("elide")
    upgrade_config(d + "/c.ron", C, elide)
    ctx.reach("elided" if elide else "full")
    saved(ctx, d + "/c.ron", all_, [".d", ".c", ".w"] if elide else [])
    s0 = state_value(ctx, 0, True)
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s0.s, s0.t), d + "/c.ron")
    sm.state
    judge(ctx, sm.config, all_, s0, "loaded", True)
    st = state_value(ctx, 1, True)
    sm.state.s, sm.state.t = st.s, st.t
    sm.step()
    judge(ctx, sm.config, all_, st, "stepped", True)


def kinds(ctx):
    "Dataclasses declared in every way."
    R, src, ls = kind_world(ctx)
    d = ctx.tmp()
    write(d + "/c.ron", src)
    how = ctx.choose("how", ["step", "checkpoint", "upgrade"])
    cd = ctx.tmp() if how == "step" else None
    if how == "upgrade":
        init = file = d + "/c.ron"
        upgrade_config(file, R, False)
        at = State(ctx.real("s0", 1, 15), 1)
    else:
        sm = hyperstate.StateManager(R, State, lambda c, x: State(3.5, 1), d + "/c.ron", cd, checkpoint_key="t")
        sm.state.s, sm.state.t = ctx.real("s1", 1, 15), 4
        init, file = save(ctx, sm, how, 0)
        at = State(sm.state.s, sm.state.t)
    saved(ctx, file, ls)
    sm = hyperstate.StateManager(R, State, lambda c, x: State(at.s, at.t) if how == "upgrade" else ctx.fail("started afresh"), init, cd, checkpoint_key="t")
    st = sm.state
    judge(ctx, sm.config, ls, at, "resumed", True)
    st.s, st.t = ctx.real("r", 1, 15), 5
    sm.step()
    judge(ctx, sm.config, ls, st, "resumed and stepped", True)


CASES = [
    {"name": "placements", "fn": generations, "params": {"depth": 2, "many": 2, "forms": ["lin"], "which": ["first", "last", "all"], "n": 1, "hows": ["step"], "first_step": False}, "reach": ["scheduled", "resumed"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 60},
    {"name": "generations", "fn": generations, "params": {"depth": 1, "many": 2, "forms": ["lin"], "which": ["ends", "none"], "n": 2, "hows": ["step", "checkpoint"]}, "reach": ["scheduled", "resumed"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "user", "fn": generations, "params": {"depth": 1, "many": 2, "forms": ["lin"], "which": ["first", "last"], "n": 1, "hows": ["step", "checkpoint"], "user": True}, "reach": ["scheduled", "resumed"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "texts", "fn": texts, "params": {}, "reach": ["checkpoint", "upgrade", "upgrade with defaults"], "quick_s": 60, "max_witnesses": 60},
    {"name": "upgraded", "fn": upgraded, "params": {"depth": 2, "many": 2, "which": ["first", "last"]}, "reach": ["scheduled", "elided", "full"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "kinds", "fn": kinds, "params": {}, "reach": WARM, "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "deep placements", "fn": generations, "params": {"depth": 3, "many": 2, "forms": ["lin"], "which": ["first", "last"], "n": 1, "hows": ["step"]}, "reach": ["resumed"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 2},
    {"name": "more generations", "fn": generations, "params": {"depth": 2, "many": 2, "forms": ["lin", "const"], "rotate": ["lin", "const", "lin t"], "which": ["first", "all"], "n": 3, "hows": ["step", "checkpoint"], "user": True}, "reach": ["resumed"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 2},
]
