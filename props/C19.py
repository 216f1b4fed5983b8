"""C19: resuming restores exactly what was last checkpointed."""
from pathlib import Path
from hyperstate.schema.versioned import Versioned
from props.C18 import *

META = {
    "bounds": "directories of up to 3 checkpoints with symbolic keys in any order (0..10^13, digits 1..13, and negative ones), key fields of 4 names, with 12 kinds of unrelated entries, listed in either order; histories of 3 steps (thorough: 4) with keys in any order, also repeated; no initial path, a config file, a missing one, a checkpoint of either name, one inside the checkpoint directory; the directory given at once or later, as text or path; states and configs of every field type 1 level deep (thorough: 2) with symbolic contents, versioned or not, and serializable objects in lists and dictionaries",
    "outside": "unrelated directories named like a checkpoint (latest...<12 digits>); IEEE floats",
    "functions": ["hyperstate.StateManager.*", "hyperstate.find_latest_checkpoint", "hyperstate._typed_load", "hyperstate._typed_dump", "hyperstate._attach_blobs"],
    "assumptions": ["pyron and msgpack are trusted"],
}

UNRELATED = ["file like a checkpoint", "latest", "latest-", "latest-notes", "latest-12", "partial", "copy", "hidden", "other 12 digits", "file", "x000000000999", "latest-t00000000x999"]


def litter(dir, what):
    d = str(dir)
    if what == "file like a checkpoint":
        write(d + "/latest-t000000999999", "x")
    elif what == "partial":
        os.mkdir(d + "/latest-t000000999999.0a1b2c3d-0000-4000-8000-000000000000.tmp")
    elif what == "copy":
        os.mkdir(d + "/latest-t000000999999 (copy)")
    elif what == "hidden":
        os.mkdir(d + "/.latest-t000000999999")
    elif what == "other 12 digits":
        os.mkdir(d + "/backup-t000000999999")
    elif what == "file":
        write(d + "/notes.txt", "x")
    else:
        os.mkdir(d + "/" + what)


def keyname(ctx, names):
    return ctx.choose("key field", names)


def selection(ctx, n, how, names=("t",), entries=()):
    "The checkpoint with the highest key is the one that is restored."
    name = ctx.choose("key field", list(names))
    S = make_dataclass("S", [(name, int), ("x", float)])
    root = ctx.tmp()
    dir = root + "/ckpt"
    os.mkdir(dir)
    os.mkdir(root + "/tmp")
    if how == "symbolic":
        ks = [ctx.int("key%d" % i, 0, 10 ** 4 - 1) for i in range(n)]
    elif how == "long":
        ks = [ctx.int("key%d" % i, 10 ** 11 + 1, 10 ** 13) for i in range(n)]
    else:
        special = [0, -1, 1, -(10 ** 11), -(10 ** 11) + 1, 999999999999, 10 ** 12, 10 ** 12 + 5, 10 ** 13, 10 ** 18, -(10 ** 12), -5]
        i = ctx.choose("first key", len(special))
        ks = [special[i]] + [special[(i + 1 + ctx.choose("key %d" % j, len(special) - 1)) % len(special)] for j in range(1, n)]
        if len(set(ks)) < n:
            return
    vals = []
    seen = []
    for i, k in enumerate(ks):
        for j in seen:
            ctx.assume(k != j)
        seen.append(k)
        v = (ctx.real("x%d" % i), ctx.real("a%d" % i))
        d = root + "/run%d" % i
        with Disk(ctx, [root], root + "/tmp"):
            sm = hyperstate.StateManager(Config, S, lambda c, x: S(k, v[0]), None, d, checkpoint_key=name)
            sm.config.a = v[1]
            sm.step()
        (made,) = os.listdir(d)
        os.rename(d + "/" + made, dir + "/" + made)
        vals.append(v)
    e = ctx.choose("entry", list(entries)) if entries else None
    if e:
        litter(dir, e)
        ctx.reach(e)
    best = 0
    for i in range(1, n):
        if ks[i] > ks[best]:
            best = i
    afresh = []
    before = tree(dir)
    with Disk(ctx, [root], root + "/tmp", backwards=ctx.flag("listed backwards")):
        sm = hyperstate.StateManager(Config, S, lambda c, x: afresh.append(1) or S(0, 0.0), root + "/nowhere.ron", dir, checkpoint_key=name)
        st, cfg = sm.state, sm.config
    ctx.check(not afresh, "starts from scratch")
    ctx.reach("restored")
    ctx.check(ctx.same(getattr(st, name), ks[best]) and ctx.same(st.x, vals[best][0]) and ctx.same(cfg.a, vals[best][1]), "not the checkpoint with the highest key", keys=ks, restored=(getattr(st, name), st.x, cfg.a), expect=vals[best], entry=e)
    ctx.check(tree(dir) == before, "resuming changed the directory")


def histories(ctx, kind, n):
    "Keys in any order, and again."
    w = World(ctx, kind)
    current = None
    sm = None
    seen = []
    with w.disk(ctx.flag("different file systems")) as disk:
        for i in range(n):
            if sm is None or ctx.flag("resume %d" % i):
                w.started = 0
                sm = w.manager()
                sm.state
                ctx.check(w.started == (current is None), "starts from scratch" if w.started else "a checkpoint out of nothing")
                ctx.check(current is None or w.matches(sm, current), "not the last checkpoint", state=(sm.state.t, sm.state.x, sm.config.a), expect=current)
            old = [s for s in seen if ctx.flag("key %d again" % i)][:1]
            key = old[0] if old else ctx.int("key%d" % i, 0, 10 ** 3 - 1)
            if not old:
                for s in seen:
                    ctx.assume(key != s)
                seen.append(key)
            snap = w.change(sm, i, key)
            sm.step()
            if current is None or not ctx.same(current["t"], key):
                current = snap
            else:
                ctx.reach("repeated")
            disk.active = False
            w.judge([current], "after step %d" % i)
            disk.active = True
    ctx.reach("done")
    ctx.check(len(os.listdir(w.dir)) == 1, "older checkpoints are left")


def initial(ctx, kind, twice=False):
    "The initial path: when it counts, and that it stays as it is."
    w = World(ctx, kind)
    root = w.root
    init = ctx.choose("initial path", ["none", "config", "missing config", "checkpoint", "latest checkpoint", "inside the directory"])
    have = ctx.choose("directory", ["new", "empty", "unrelated", "checkpoint", "none"])
    dir = w.dir
    if have != "new" and have != "none":
        os.mkdir(dir)
    if init == "inside the directory" and have in ("new", "none"):
        return
    if have == "unrelated":
        for e in UNRELATED[:6]:
            litter(dir, e)
    a = ctx.real("a")
    path = None
    expect = None
    if init == "config":
        path = root + "/c.ron"
        write(path, "Config(a: %s)" % ctx.numeral(a))
    elif init == "missing config":
        path = root + "/missing.ron"
    elif init != "none":
        src = w.manager(None, root + "/source")
        expect = w.change(src, 70, 33)
        if init == "latest checkpoint":
            src.step()
            path = root + "/source/latest-t000000000033"
        else:
            path = dir + "/mine" if init == "inside the directory" else root + "/source/mine"
            src.checkpoint(path)
    if have == "checkpoint":
        first = w.manager(None, dir)
        expect = w.change(first, 80, 44)
        first.step()
        if path is not None and os.path.isdir(path):
            ctx.reach("both")
    before = tree(path) if path and os.path.exists(path) else None
    w.started = 0
    given = ctx.choose("given", ["at once", "later"]) if have != "none" else "never"
    arg = Path(dir) if ctx.flag("as path") else dir
    with w.disk(ctx.flag("different file systems")) as disk:
        sm = w.manager(path and (Path(path) if ctx.flag("path") else path), dir=arg if given == "at once" else None)
        if given == "later":
            sm.checkpoint_dir = Path(dir)
        ok, st = ctx.attempt(lambda: (sm.config, sm.state)[1])
        if init == "missing config" and have != "checkpoint":
            ctx.check(not ok, "a missing config was ignored")
            ctx.reach("missing")
            return
        ctx.check(ok, "cannot start", error=st)
        if expect is not None:
            ctx.reach("resumed")
            ctx.check(w.started == 0, "starts from scratch")
            ctx.check(w.matches(sm, expect), "not the checkpoint", state=(st.t, st.x, sm.config.a), expect=expect)
        else:
            ctx.reach("afresh")
            ctx.check(w.started == 1, "the initial state was not made", started=w.started)
            ctx.check(ctx.same(st, fresh_state(w.S)) if w.S is Plain else (st.t, st.w.v, st.u.v) == (0, [1], [2]), "not the initial state")
            ctx.check(ctx.same(sm.config, Config(a if init == "config" else 1.5)), "not the initial config", config=sm.config)
        snap = w.change(sm, 1, 55)
        sm.step()
        if have != "none":
            disk.active = False
            w.dir = dir
            w.judge([snap], "after a step", path)
            disk.active = True
            sm2 = w.manager(path)
            sm2.state
            snap = w.change(sm2, 2, 56)
            sm2.step()
            disk.active = False
            w.judge([snap], "after another step", path)
    if before is not None:
        ctx.check(os.path.exists(path) and tree(path) == before, "the initial checkpoint was changed")


class Thing(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return self.v

    @classmethod
    def deserialize(cls, d, config, state, ctx):
        return Thing(d)

    def __eq__(self, o):
        return type(o) is Thing and self.v == o.v


def contents(ctx, depth, versioned=False):
    "Whatever the state and the config contain comes back."
    sh = choose_shape(ctx, "shape", depth)
    where = ctx.choose("where", ["state", "config"])
    desc = choose_value(ctx, "v", sh, 2, 1)
    T = to_type(sh)
    V = {"bases": (Versioned,), "namespace": {"version": classmethod(lambda cls: 3), "upgrade_rules": classmethod(lambda cls: {})}} if versioned else {}
    S = make_dataclass("S", [("t", int), ("x", T if where == "state" else float)], **V)
    C = make_dataclass("C", [("c", T if where == "config" else float, field(default_factory=lambda: build(desc) if where == "config" else 2.5))], **V)
    y = ctx.real("y")
    mk = lambda: S(5, build(desc) if where == "state" else y)
    root = ctx.tmp()
    sm = hyperstate.StateManager(C, S, lambda c, x: mk(), None, root, checkpoint_key="t")
    ctx.check(ctx.same(sm.config, C()), "not the default config")
    sm.step()
    sm = hyperstate.StateManager(C, S, lambda c, x: ctx.fail("starts from scratch"), None, root, checkpoint_key="t")
    ctx.check(ctx.same(sm.state, mk()), "the state came back differently", state=sm.state, expect=mk())
    ctx.check(ctx.same(sm.config, C()), "the config came back differently", config=sm.config, expect=C())
    ctx.reach(where)


def things(ctx):
    "Serializable objects in every place of a state."
    P = make_dataclass("P", [("g", Thing), ("n", int, 1)])
    v = [ctx.int("v%d" % i, -(2 ** 60), 2 ** 60) for i in range(3)]
    where = ctx.choose("where", ["field", "list", "dict", "object", "objects", "dict of objects", "optional", "nothing", "tuple of objects", "list of lists"])
    T, mk = {
        "field": (Thing, lambda: Thing(v)),
        "list": (List[Thing], lambda: [Thing(v[0]), Thing([v[1]]), Thing(v[2])]),
        "dict": (Dict[str, Thing], lambda: {"a": Thing(v[0]), "b": Thing(v[1:])}),
        "object": (P, lambda: P(Thing({"k": v[0]}), v[1])),
        "objects": (List[P], lambda: [P(Thing(v[0])), P(Thing(v[1]), v[2])]),
        "dict of objects": (Dict[str, P], lambda: {"a": P(Thing(v[0])), "b": P(Thing(v[1]), v[2])}),
        "optional": (Optional[Thing], lambda: Thing(v)),
        "nothing": (Optional[Thing], lambda: None),
        "tuple of objects": (Tuple[P, P], lambda: (P(Thing(v[0])), P(Thing(v[1]), v[2]))),
        "list of lists": (List[List[Thing]], lambda: [[Thing(v[0])], [], [Thing(v[1]), Thing(v[2])]]),
    }[where]
    bases = (Lazy,) if ctx.flag("lazy") else ()
    S = make_dataclass("S", [("t", int), ("x", T), ("z", Thing)], bases=bases)
    root = ctx.tmp()
    sm = hyperstate.StateManager(Config, S, lambda c, x: S(5, mk(), Thing(0)), None, root, checkpoint_key="t")
    sm.step()
    for again in range(2):
        sm = hyperstate.StateManager(Config, S, lambda c, x: ctx.fail("starts from scratch"), None, root, checkpoint_key="t")
        ctx.check(equal(ctx, sm.state.x, mk()) and equal(ctx, sm.state.z, Thing(0)), "the state came back differently", where=where, state=sm.state.x, generation=again)
        sm.state.t += 1
        sm.step()
    ctx.reach(where)


def equal(ctx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Thing):
        return ctx.same(a.v, b.v)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(ctx, a[k], b[k]) for k in a)
    if is_dataclass(a):
        return all(equal(ctx, getattr(a, n), getattr(b, n)) for n in a.__dataclass_fields__)
    return ctx.same(a, b)


CASES = [
    {"name": "selection", "fn": selection, "params": {"n": 3, "how": "symbolic"}, "reach": ["restored"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "long keys", "fn": selection, "params": {"n": 3, "how": "long"}, "reach": ["restored"], "quick_s": 60, "max_witnesses": 60},
    {"name": "special keys", "fn": selection, "params": {"n": 2, "how": "special", "names": ("t", "step", "k2", "n_0")}, "reach": ["restored"], "quick_s": 60, "max_witnesses": 60},
    {"name": "entries", "fn": selection, "params": {"n": 2, "how": "long", "entries": UNRELATED}, "reach": UNRELATED, "quick_s": 60, "max_witnesses": 60},
    {"name": "histories", "fn": histories, "params": {"kind": "plain", "n": 3}, "reach": ["repeated", "done"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "initial", "fn": initial, "params": {"kind": "eager"}, "reach": ["missing", "resumed", "afresh", "both"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "contents", "fn": contents, "params": {"depth": 1}, "reach": ["state", "config"], "quick_s": 60, "max_witnesses": 60},
    {"name": "contents, versioned", "fn": contents, "params": {"depth": 1, "versioned": True}, "reach": ["state", "config"], "quick_s": 60, "max_witnesses": 60},
    {"name": "things", "fn": things, "params": {}, "reach": ["field", "list", "nothing"], "quick_s": 60, "max_witnesses": 60},
    {"name": "longer histories", "fn": histories, "params": {"kind": "lazy", "n": 4}, "reach": ["done"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 3},
    {"name": "deep contents", "fn": contents, "params": {"depth": 2}, "reach": ["state"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 2},
]
