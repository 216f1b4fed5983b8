"""C18: a crash at any moment leaves the last completed checkpoint usable."""
from dataclasses import field
import hyperstate
from hyperstate.lazy import Lazy, Serializable
from props.fs import *
from props.util import *

META = {
    "bounds": "up to 3 steps (thorough: 4) of a fresh or resumed manager, the crash at any file-system operation (a symbolic number; writes also half done) on the same or on different file systems, directory listings in either order; states that are plain, with serializable fields, or lazy; symbolic state and config values and keys (of up to 3 digits, and around 10**12 and below 0); after the crash one more step, and (thorough) a second crash during it",
    "outside": "power failures (what was written stays written); crashes inside one system call other than a write; decreasing keys; IEEE floats",
    "functions": ["hyperstate.StateManager.*", "hyperstate.atomic_move", "hyperstate.find_latest_checkpoint", "hyperstate._typed_dump", "serde.dump"],
    "assumptions": ["renames within a file system are atomic", "shutil and tempfile run for real on the patched primitives"],
}


class Weights(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return Weights(state_dict["v"])


@dataclass
class Config:
    a: float = 1.5
    n: int = 2


@dataclass
class Plain:
    t: int
    x: float


@dataclass
class Eager:
    t: int
    x: float
    w: Weights
    u: Weights


@dataclass
class Late(Lazy):
    t: int
    x: float
    w: Weights
    u: Weights


STATES = {"plain": Plain, "eager": Eager, "lazy": Late}
NAMES = ["x", "w", "u"]


def fresh_state(S):
    return S(t=0, x=0.5) if S is Plain else S(t=0, x=0.5, w=Weights([1]), u=Weights([2]))


class World(object):
    def __init__(self, ctx, kind, backwards=None):
        self.ctx = ctx
        self.S = STATES[kind]
        self.root = ctx.tmp()
        self.tmp = self.root + "/tmp"
        self.dir = self.root + "/run/ckpt"
        os.mkdir(self.tmp)
        os.mkdir(self.root + "/run")
        self.backwards = ctx.flag("listed backwards") if backwards is None else backwards
        self.started = 0

    def disk(self, cross, **kw):
        return Disk(self.ctx, [self.root], self.tmp, [self.root + "/run"] if cross else [], backwards=self.backwards, **kw)

    def manager(self, init=None, dir=True, **kw):
        def initial(cfg, c):
            self.started += 1
            return fresh_state(self.S)

        return hyperstate.StateManager(Config, self.S, initial, init, self.dir if dir is True else dir, checkpoint_key="t", **kw)

    def change(self, sm, i, key):
        "Gives state and config new values; returns what they are."
        ctx = self.ctx
        st = sm.state
        snap = {"t": key, "x": ctx.real("x%d" % i), "a": ctx.real("a%d" % i)}
        st.t, st.x, sm.config.a = key, snap["x"], snap["a"]
        if self.S is not Plain:
            snap["w"] = ctx.int("w%d" % i, -1000, 1000)
            st.w = Weights([snap["w"], 7])
            snap["u"] = i
            st.u.v = [i]
        return snap

    def matches(self, sm, snap):
        st, same = sm.state, self.ctx.same
        if not (same(st.t, snap["t"]) and same(st.x, snap["x"]) and same(sm.config.a, snap["a"]) and same(sm.config.n, 2)):
            return False
        return self.S is Plain or (same(st.w.v, [snap["w"], 7]) and same(st.u.v, [snap["u"]]))

    def judge(self, snaps, label, init=None, afresh=False, **info):
        "A new manager resumes from one of the snapshots; returns it and which."
        ctx = self.ctx
        self.started = 0
        sm = self.manager(init)
        ok, st = ctx.attempt(lambda: (sm.config, sm.state)[1])
        ctx.check(ok, label + ": cannot resume", error=st, **info)
        if self.started:
            ctx.check(afresh, label + ": starts from scratch", **info)
            ctx.reach("afresh")
            return sm, None
        for s in snaps:
            if self.matches(sm, s):
                return sm, s
        ctx.check(False, label + ": not a completed checkpoint", state=(sm.state.t, sm.state.x, sm.config.a, None if self.S is Plain else (sm.state.w, sm.state.u)), allowed=snaps, **info)


def keys(ctx, n, how):
    if how == "small":
        r = [ctx.int("key%d" % i, 100, 999) for i in range(n)]
        for a, b in zip(r, r[1:]):
            ctx.assume(a < b)
        return r
    if how == "digits":
        r = [ctx.int("key%d" % i, 0, 10 ** 4) for i in range(n)]
        for a, b in zip(r, r[1:]):
            ctx.assume(a < b)
        return r
    special = [-(10 ** 11), -11, -1, 0, 9, 10 ** 11, 10 ** 12 - 1, 10 ** 12, 10 ** 12 + 1, 10 ** 13, 2 * 10 ** 13 - 1, 10 ** 18]
    i = ctx.choose("key from", len(special) - n + 1)
    return special[i : i + n]


def crash(ctx, kind, steps, how="small", resumed=False, twice=False, backwards=None):
    w = World(ctx, kind, backwards)
    cross = ctx.flag("different file systems")
    ks = keys(ctx, steps + 1, how)
    k = ctx.int("crash at", 0, 10 ** 6)
    done = pend = None
    if resumed:
        # an earlier run has left a checkpoint
        with w.disk(cross):
            sm = w.manager()
            done = w.change(sm, 90, ks[0] - 1)
            sm.step()
    crashed = False
    with w.disk(cross, crash=k) as disk:
        try:
            sm = w.manager()
            for i in range(steps):
                pend = w.change(sm, i, ks[i])
                sm.step()
                done, pend = pend, None
            ctx.reach("no crash")
        except Crash:
            ctx.reach("crash")
    info = dict(crash=disk.hit, step=i if pend else None)
    with w.disk(cross) as d2:
        sm, s = w.judge([x for x in (done, pend) if x], "after a crash", afresh=done is None, **info)
        crash2 = ctx.int("second crash at", 0, 10 ** 6) if twice else None
    done, pend = s, None
    with w.disk(cross, crash=crash2) as d3:
        try:
            if twice:
                sm = w.manager()
            pend = w.change(sm, 50, ks[steps])
            sm.step()
            done, pend = pend, None
            ctx.reach("goes on")
        except Crash:
            ctx.reach("second crash")
    with w.disk(cross):
        w.judge([x for x in (done, pend) if x], "after going on", afresh=done is None, second=d3.hit, **info)


def explicit(ctx, kind):
    "A crash during checkpoint(path): the path is a complete checkpoint or not there."
    w = World(ctx, kind)
    cross = ctx.flag("different file systems")
    target = w.root + "/run/mine"
    again = ctx.flag("there already")
    with w.disk(False):
        sm = w.manager(dir=None)
        old = w.change(sm, 0, 3)
        if again:
            sm.checkpoint(target)
            sm = w.manager(target, dir=None)
        snap = w.change(sm, 1, 4)
    before = tree(target)
    k = ctx.int("crash at", 0, 10 ** 6)
    done = False
    with w.disk(cross, crash=k) as disk:
        try:
            sm.checkpoint(target)
            done = True
            ctx.reach("no crash")
        except Crash:
            ctx.reach("crash")
        except OSError as e:
            ctx.check(again, "checkpoint failed", error=e)
    if not os.path.exists(target):
        ctx.check(not again and not done, "the checkpoint is gone", crash=disk.hit)
        return
    if done:
        want = [snap]
    elif tree(target) == before:
        want = [old]
    else:
        want = [snap]
    w.dir = None
    with w.disk(cross):
        w.judge(want, "after a crash in checkpoint()", target, crash=disk.hit)


CASES = [
    {"name": "plain", "fn": crash, "params": {"kind": "plain", "steps": 3}, "reach": ["crash", "no crash", "goes on", "afresh"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "eager", "fn": crash, "params": {"kind": "eager", "steps": 2}, "reach": ["crash", "no crash", "goes on", "afresh"], "quick_s": 60, "max_witnesses": 60},
    {"name": "lazy", "fn": crash, "params": {"kind": "lazy", "steps": 1, "resumed": True}, "reach": ["crash", "no crash", "goes on"], "quick_s": 60, "max_witnesses": 60},
    {"name": "resumed", "fn": crash, "params": {"kind": "eager", "steps": 2, "resumed": True, "backwards": True}, "reach": ["crash", "no crash", "goes on"], "quick_s": 60, "max_witnesses": 60},
    {"name": "keys", "fn": crash, "params": {"kind": "plain", "steps": 2, "how": "special"}, "reach": ["crash", "no crash", "goes on"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "explicit", "fn": explicit, "params": {"kind": "eager"}, "reach": ["crash", "no crash"], "quick_s": 60, "max_witnesses": 60},
    {"name": "two crashes", "fn": crash, "params": {"kind": "plain", "steps": 1, "twice": True, "backwards": True}, "reach": ["crash", "second crash"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "two crashes, lazy", "fn": crash, "params": {"kind": "lazy", "steps": 2, "twice": True, "resumed": True}, "reach": ["crash", "second crash"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 8},
    {"name": "digits", "fn": crash, "params": {"kind": "eager", "steps": 3, "how": "digits"}, "reach": ["crash"], "thorough_only": True, "thorough_s": 600, "shards": 4, "depth": 6},
    {"name": "four steps", "fn": crash, "params": {"kind": "lazy", "steps": 4, "resumed": True}, "reach": ["crash"], "thorough_only": True, "thorough_s": 400, "shards": 4, "depth": 6},
]
