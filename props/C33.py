"""C33: reading checkpoints while another process writes them."""
from pathlib import Path
import hyperstate
from props.C18 import STATES, World, keys
from props.fs import *
from props.util import *

META = {
    "bounds": "a writer of 2 steps (thorough: 3) in a directory that already has a checkpoint, and a reader - a manager of that directory, or of the newest checkpoint by its path - that is made, reads the config, the state and the serializable fields: (a) the reader goes on at two (thorough: three) symbolic operations of the writer, (b) the writer makes its steps at one or two symbolic operations of the reader; on the same or on different file systems, listed in either order; plain, serializable and lazy states; symbolic values and keys",
    "outside": "two writers in one directory; directories that are changed in the middle of being listed; readers that read at more than three moments",
    "functions": ["hyperstate.StateManager.*", "hyperstate.atomic_move", "hyperstate.find_latest_checkpoint", "hyperstate._typed_load", "lazy._load_blob"],
    "assumptions": ["renames within a file system are atomic", "shutil and tempfile run for real on the patched primitives"],
}

PHASES = ["find", "config", "state", "fields"]


class Reader(object):
    "Another process: reads in four phases, each of which may fail."

    def __init__(self, w, how):
        self.w = w
        self.how = how
        self.error = None
        self.fresh = False
        self.next = 0
        self.seen = {}
        self.since = None

    def start(self, cfg, c):
        self.fresh = True
        return self.w.S(*([0, 0.5] if self.w.S is STATES["plain"] else [0, 0.5, None, None]))

    def go(self, phases, newest):
        "Does the next phases. `newest` are the checkpoints there may be now."
        for p in phases:
            if self.error is not None:
                return
            assert PHASES[self.next] == p
            self.next += 1
            try:
                getattr(self, p)(newest)
            except Crash:
                raise
            except Exception as e:
                self.error = e

    def find(self, newest):
        w = self.w
        self.since = newest()
        if self.how == "directory":
            self.sm = hyperstate.StateManager(type(w.config), w.S, self.start, None, w.dir, checkpoint_key="t")
        else:
            path = hyperstate.hyperstate.find_latest_checkpoint(Path(w.dir))
            if path is None:
                self.fresh = True
                raise LookupError()
            self.sm = hyperstate.StateManager(type(w.config), w.S, self.start, path, checkpoint_key="t")

    def config(self, newest):
        c = self.sm.config
        self.seen.update(a=c.a, n=c.n)

    def state(self, newest):
        s = self.sm.state
        self.seen.update(t=s.t, x=s.x)

    def fields(self, newest):
        if self.w.S is not STATES["plain"]:
            s = self.sm.state
            self.seen.update(w=s.w.v[0], u=s.u.v[0])


def judge(ctx, w, r, snaps, settled):
    "snaps: all checkpoints ever, oldest first; r.since: the number of the oldest one that may be found."
    ctx.check(not r.fresh, "the reader starts from scratch", reader=r.how, phases=r.next, error=r.error)
    if r.error is not None:
        ctx.reach("refused")
        ctx.check(isinstance(r.error, OSError), "an unexpected error", error=r.error)
        ctx.check(not settled, "refused, though nothing has changed", error=r.error)
        return
    ctx.reach("read")
    for s in snaps[r.since :]:
        if all(ctx.same(v, {"n": 2, **s}[k]) for k, v in r.seen.items()):
            return
    ctx.check(False, "what was read is not one of the checkpoints", read=r.seen, checkpoints=snaps, since=r.since)


def world(ctx, kind, n, how="small"):
    w = World(ctx, kind)
    cross = ctx.flag("different file systems")
    ks = keys(ctx, n + 1, how)
    with w.disk(cross):
        sm = w.manager()
        w.config = sm.config
        snaps = [w.change(sm, 90, ks[0])]
        sm.step()
    return w, cross, ks, sm, snaps


def read_during(ctx, kind, steps, splits, hows=("directory", "path"), how="small"):
    "The reader goes on at some operations of the writer."
    w, cross, ks, sm, snaps = world(ctx, kind, steps, how)
    r = Reader(w, ctx.choose("reader", list(hows)))
    parts = ctx.choose("phases", splits)
    at = [ctx.int("at%d" % i, 0, 10 ** 6) for i in range(len(parts))]
    for a, b in zip(at, at[1:]):
        ctx.assume(a < b)
    done = [1]
    todo = list(zip(at, parts))

    def look(i):
        if todo and todo[0][0] == i:
            r.go(todo.pop(0)[1], lambda: done[0] - 1)

    with w.disk(cross, watch=look, shared=w.dir):
        for i in range(steps):
            snaps.append(w.change(sm, i, ks[i + 1]))
            sm.step()
            done[0] += 1
    settled = False
    if todo:
        with w.disk(cross):
            settled = len(todo) == len(parts)
            for _, p in todo:
                r.go(p, lambda: done[0] - 1)
        ctx.reach("after it")
    else:
        ctx.reach("during it")
    judge(ctx, w, r, snaps, settled or len(parts) == 1)


def write_during(ctx, kind, times, hows=("directory", "path")):
    "The writer makes steps at some operations of the reader."
    w, cross, ks, sm, snaps = world(ctx, kind, 2)
    r = Reader(w, ctx.choose("reader", list(hows)))
    at = [ctx.int("at%d" % i, 0, 10 ** 6) for i in range(times)]
    for a, b in zip(at, at[1:]):
        ctx.assume(a < b)
    each = 1 if times > 1 else ctx.choose("steps", [1, 2])
    todo = list(at)
    disks = []

    def look(i):
        if todo and todo[0] == i:
            todo.pop(0)
            ctx.reach("during it")
            for _ in range(each):
                snaps.append(w.change(sm, len(snaps), ks[len(snaps)]))
                sm.step()

    with w.disk(cross, watch=look, looks=True, shared=w.dir) as d:
        r.go(PHASES, lambda: len(snaps) - 1)
    judge(ctx, w, r, snaps, len(todo) == len(at))


TWO = [[PHASES[:1], PHASES[1:]], [PHASES[:2], PHASES[2:]], [PHASES[:3], PHASES[3:]]]
THREE = [[PHASES[:1], PHASES[1:2], PHASES[2:]], [PHASES[:1], PHASES[1:3], PHASES[3:]], [PHASES[:2], PHASES[2:3], PHASES[3:]]]

CASES = [
    {"name": "at once", "fn": read_during, "params": {"kind": "lazy", "steps": 2, "splits": [[PHASES]]}, "reach": ["read", "during it", "after it"], "quick_s": 60, "max_witnesses": 40},
    {"name": "plain", "fn": read_during, "params": {"kind": "plain", "steps": 1, "splits": TWO[:2]}, "reach": ["read", "refused", "during it"], "quick_s": 90, "shards": 4, "depth": 4, "max_witnesses": 40},
    {"name": "eager", "fn": read_during, "params": {"kind": "eager", "steps": 1, "splits": TWO[:2]}, "reach": ["read", "refused", "during it"], "quick_s": 90, "shards": 4, "depth": 4, "max_witnesses": 40},
    {"name": "lazy", "fn": read_during, "params": {"kind": "lazy", "steps": 1, "splits": TWO}, "reach": ["read", "refused", "during it"], "quick_s": 90, "shards": 4, "depth": 4, "max_witnesses": 40},
    {"name": "writer, plain", "fn": write_during, "params": {"kind": "plain", "times": 1}, "reach": ["read", "refused", "during it"], "quick_s": 60, "shards": 2, "max_witnesses": 40},
    {"name": "writer, lazy", "fn": write_during, "params": {"kind": "lazy", "times": 2}, "reach": ["read", "refused", "during it"], "quick_s": 90, "shards": 4, "depth": 4, "max_witnesses": 40},
    {"name": "plain, two steps", "fn": read_during, "params": {"kind": "plain", "steps": 2, "splits": TWO[:2]}, "reach": ["read", "refused"], "thorough_only": True, "thorough_s": 600, "shards": 8, "depth": 6},
    {"name": "lazy, two steps", "fn": read_during, "params": {"kind": "lazy", "steps": 2, "splits": TWO}, "reach": ["read", "refused"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 6},
    {"name": "eager, three moments", "fn": read_during, "params": {"kind": "eager", "steps": 1, "splits": THREE}, "reach": ["read", "refused"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 6},
    {"name": "plain, three steps", "fn": read_during, "params": {"kind": "plain", "steps": 3, "splits": TWO[:2], "how": "digits"}, "reach": ["read", "refused"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 6},
]
