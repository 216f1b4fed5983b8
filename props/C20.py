"""C20: repeated or failed steps never cost the existing checkpoint."""
from props.C18 import *

META = {
    "bounds": "histories of up to 5 events (thorough: 6): steps with a new or a repeated key, resumes by a new manager, with changes of state and config in between; one file operation (a symbolic number among all creations, writes (also half done), reads, renames, removals) reports EIO or EACCES, or none; the failed step retried with the same or the next key; on the same or on different file systems; plain, serializable and lazy states; symbolic values and keys",
    "outside": "decreasing keys together with failures; more than one failure per history (thorough: two); failures of stat and of changes of permissions",
    "functions": ["hyperstate.StateManager.*", "hyperstate.atomic_move", "hyperstate.find_latest_checkpoint", "hyperstate._typed_dump", "lazy._load_blob"],
    "assumptions": ["shutil and tempfile run for real on the patched primitives"],
}


class History(object):
    def __init__(self, ctx, kind, cross, backwards=None, by=1):
        self.ctx = ctx
        self.w = World(ctx, kind, backwards)
        self.cross = cross
        self.current = None
        self.key = 100
        self.i = 0
        self.sm = None
        self.failures = 0
        self.by = by

    def event(self, e, disk):
        w = self.w
        if self.sm is None or e == "resume":
            try:
                self.sm = None
                w.started = 0
                sm = w.manager()
                sm.config, sm.state
                if w.S is not Plain:
                    sm.state.w, sm.state.u
                self.sm = sm
            except OSError as x:
                self.failed(x, None, disk)
                return
            self.resumed(sm, "resuming")
            if e == "resume":
                return
        if e == "new key" or self.current is None:
            self.key += self.by
        self.i += 1
        key = self.key
        snap = w.change(self.sm, self.i, key)
        first = self.current is None or self.ctx.same(self.current["t"], key) is False
        try:
            self.sm.step()
        except OSError as x:
            self.failed(x, snap if first else None, disk)
            return
        if first:
            self.current = snap
        self.verify("after a step", disk)

    def failed(self, x, pend, disk):
        self.failures += 1
        self.ctx.check(disk.hit is not None and self.failures == 1, "failed without a cause", error=x)
        self.ctx.reach("failed")
        active, disk.active = disk.active, False
        sm, s = self.w.judge([p for p in (self.current, pend) if p], "after a failure", afresh=self.current is None, hit=disk.hit)
        disk.active = active
        if s is not None:
            self.current = s

    def resumed(self, sm, label):
        if self.current is None:
            self.ctx.check(self.w.started == 1, label + ": a checkpoint out of nothing")
        else:
            self.ctx.check(self.w.started == 0, label + ": starts from scratch")
            self.ctx.check(self.w.matches(sm, self.current), label + ": not the last checkpoint", state=(sm.state.t, sm.state.x, sm.config.a), expect=self.current)

    def verify(self, label, disk):
        active, disk.active = disk.active, False
        self.w.judge([self.current], label, hit=disk.hit)
        disk.active = active


def run(ctx, kind, n, fault, events, start="fresh", backwards=None, errors=(errno.EIO,), bys=(1,)):
    cross = ctx.flag("different file systems")
    h = History(ctx, kind, cross, backwards, ctx.choose("by", list(bys)))
    if start == "resumed":
        with h.w.disk(cross):
            sm = h.w.manager()
            h.current = h.w.change(sm, 90, h.key)
            sm.step()
    k = ctx.int("fails at", 0, 10 ** 6) if fault else None
    with h.w.disk(cross, fault=k, reads=True, errors=errors) as disk:
        for i in range(n):
            h.event(ctx.choose("event %d" % i, events) if i or start != "fresh" else "new key", disk)
    if h.failures == 0:
        ctx.reach("no failure")
    # everything works again
    with h.w.disk(cross) as disk:
        f = h.failures
        h.event(ctx.choose("event last", ["new key", "same key"]), disk)
        ctx.check(h.failures == f, "a step after a failure failed")
        h.event("resume", disk)
        h.event("new key", disk)
        ctx.check(h.failures == f, "a step after a failure failed")
    ctx.check(h.current is not None, "nothing was ever saved")
    # nothing is left of the older ones but what a failure kept
    if f == 0:
        left = [x for x in os.listdir(h.w.dir)]
        ctx.check(len(left) == 1, "older checkpoints are left", left=left)


def explicit(ctx, kind):
    "A failure in checkpoint(path) leaves nothing half done there."
    w = World(ctx, kind)
    cross = ctx.flag("different file systems")
    target = w.root + "/run/mine"
    k = ctx.int("fails at", 0, 10 ** 6)
    with w.disk(cross, fault=k, reads=True) as disk:
        disk.active = False
        sm = w.manager(dir=None)
        snap = w.change(sm, 0, 3)
        disk.active = True
        try:
            sm.checkpoint(target)
            ctx.reach("no failure")
        except OSError as e:
            ctx.check(disk.hit is not None, "failed without a cause", error=e)
            ctx.reach("failed")
    w.dir = None
    if not os.path.exists(target):
        ctx.check(disk.hit is not None, "no checkpoint")
        with w.disk(cross):
            sm.checkpoint(target)
    with w.disk(cross):
        w.judge([snap], "after checkpoint()", target, hit=disk.hit)


ALL = ["new key", "same key", "resume"]
CASES = [
    {"name": "histories", "fn": run, "params": {"kind": "plain", "n": 5, "fault": False, "events": ALL, "bys": (900,)}, "reach": ["no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "histories, eager", "fn": run, "params": {"kind": "eager", "n": 4, "fault": False, "events": ALL, "backwards": True}, "reach": ["no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "histories, lazy", "fn": run, "params": {"kind": "lazy", "n": 4, "fault": False, "events": ALL, "backwards": False}, "reach": ["no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "failures", "fn": run, "params": {"kind": "plain", "n": 2, "fault": True, "events": ["new key", "same key"], "backwards": False}, "reach": ["failed", "no failure"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "failures, eager", "fn": run, "params": {"kind": "eager", "n": 1, "fault": True, "events": ["new key"], "start": "resumed", "backwards": False, "errors": (errno.EIO, errno.EACCES)}, "reach": ["failed", "no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "failures, lazy", "fn": run, "params": {"kind": "lazy", "n": 1, "fault": True, "events": ALL, "start": "resumed", "backwards": True, "errors": (errno.EACCES,)}, "reach": ["failed", "no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "explicit", "fn": explicit, "params": {"kind": "eager"}, "reach": ["failed", "no failure"], "quick_s": 60, "max_witnesses": 60},
    {"name": "long histories", "fn": run, "params": {"kind": "lazy", "n": 6, "fault": False, "events": ALL, "bys": (1, 900)}, "reach": ["no failure"], "thorough_only": True, "thorough_s": 600, "shards": 4, "depth": 3},
    {"name": "more failures", "fn": run, "params": {"kind": "eager", "n": 3, "fault": True, "events": ALL, "bys": (1, 900), "errors": (errno.EIO, errno.EACCES)}, "reach": ["failed"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 3},
]
