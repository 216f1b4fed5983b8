"""C25: the command line gives the program the config that load would give."""
from contextlib import redirect_stderr, redirect_stdout
import io
import os
import sys
import hyperstate
from hyperstate.schema.rewrite_rule import MapFieldValue, RenameField
from hyperstate.schema.versioned import Versioned
from props.tree import Node, copy, meaning, set_field
from props.util import *

META = {
    "bounds": "a plain and a versioned class with numbers, text, enum, list, optional and nested fields; 8 kinds of config file or none, with symbolic values; 0 to 2 overrides (thorough: 3) of 15 kinds with symbolic values; options before, after or between the overrides, in both spellings, with and without -v; stateful commands with every combination of config file, resume path (a checkpoint, an old-version one, none) and checkpoint directory (missing, empty, with checkpoints), and a step by the program",
    "outside": "abbreviated option names, overrides that start with a dash, what is printed",
    "functions": ["command.command", "command.stateful_command", "command._parse_args", "command._check_overrides", "command._print_config_exception", "hyperstate.load", "hyperstate.StateManager"],
    "assumptions": ["argparse and pyron are trusted"],
}


class Mode(enum.Enum):
    FAST = "fast"
    SLOW = "slow"


def classes(versioned):
    In = make_dataclass("In", [("y", int, 1), ("s", str, "t"), ("z", float, 0.5)])
    fields = [("n", In), ("x", int, 3), ("o", Optional[In], None), ("s", str, "text"), ("m", Mode, Mode.FAST), ("l", List[int], field(default_factory=list))]
    if versioned:
        ns = {"version": classmethod(lambda c: 1), "upgrade_rules": classmethod(lambda c: {0: [RenameField(("w",), ("x",)), MapFieldValue(("n", "y"), lambda v: v + 1)]})}
        return make_dataclass("C", fields, bases=(Versioned,), namespace=ns), In
    return make_dataclass("C", fields), In


def call(ctx, f, args):
    "Runs a program with a command line: what it returned, or how it ended."
    argv = sys.argv
    sys.argv = ["program"] + args
    out = io.StringIO()
    try:
        with redirect_stdout(out), redirect_stderr(out):
            return "returned", f()
    except SystemExit as e:
        return "exit", e.code
    except Exception as e:
        return "raised", e
    finally:
        sys.argv = argv


OVERRIDES = ["x", "n.y", "s", "s=", "n.s", "m", "l", "o", "no =", "no = field", "unknown", "unknown nested", "kind", "fraction", "enum"]
GOOD = OVERRIDES[:8]


def override(ctx, kind, i, In):
    "Text of an override, and what it sets (None: it is refused)."
    v = ctx.int("v%d" % i)
    n = ctx.numeral(v)
    if kind == "x":
        return "x=" + n, (["x"], v)
    if kind == "n.y":
        return "n.y=" + n, (["n", "y"], v)
    if kind == "s":
        s = ctx.choose("t%d" % i, ["", "None", "\u00e9 \"x\\n", " 1"])
        return "s=" + s, (["s"], s)
    if kind == "s=":
        return "s=a=b.c =1", (["s"], "a=b.c =1")
    if kind == "n.s":
        return "n.s=--x y", (["n", "s"], "--x y")
    if kind == "m":
        return 'm="slow"', (["m"], Mode.SLOW)
    if kind == "l":
        return "l=[%s, 2]" % n, (["l"], [v, 2])
    if kind == "o":
        return "o=In(y: %s)" % n, (["o"], Node(In, y=v))
    return {
        "no =": "n.y:%s" % n,
        "no = field": "x",
        "unknown": "q=%s" % n,
        "unknown nested": "n.q=%s" % n,
        "kind": "x=[%s]" % n,
        "fraction": "x=1.5",
        "enum": 'm="other"',
    }[kind], None


FILES = ["none", "full", "part", "old", "unknown", "kind", "text", "absent", "empty path"]


def config_file(ctx, kind, C, In, versioned, d):
    "Writes a config file; its path and what it means (None: it is refused)."
    path = d + "/c.ron"
    ver = [("version", 1)] if versioned else []
    x, y = ctx.int("file x"), ctx.int("file y")
    if kind == "none":
        return None, Node(C)
    if kind == "empty path":
        return "", None
    if kind == "absent":
        return path, None
    if kind == "full":
        src = Obj("C", *(ver + [("x", x), ("n", Obj("In", ("y", y), ("s", "u"), ("z", 2.5))), ("o", Obj("In", ("z", 1))), ("s", "w"), ("m", "slow"), ("l", [x])]))
        m = Node(C, x=x, n=Node(In, y=y, s="u", z=2.5), o=Node(In, z=1.0), s="w", m=Mode.SLOW, l=[x])
    elif kind == "part":
        src = Obj("C", *(ver + [("n", Obj("In", ("y", y)))]))
        m = Node(C, n=Node(In, y=y))
    elif kind == "old":
        src = Obj("C", ("version", 0), ("w", x), ("n", Obj("In", ("y", y))))
        m = Node(C, x=x, n=Node(In, y=y + 1)) if versioned else None
    elif kind == "unknown":
        src = Obj("C", *(ver + [("x", x), ("r", y)]))
        m = None
    elif kind == "kind":
        src = Obj("C", *(ver + [("n", Obj("In", ("z", Raw("[1]"))))]))
        m = None
    else:
        src = Raw("C(x: 1")
        m = None
    write(path, ron(ctx, src))
    return path, m


def line(ctx, overrides, *options):
    "A command line of overrides and options, which can come first or last."
    args = []
    spell = ctx.choose("spelling", ["space", "="]) if any(v is not None for o, v in options) else "space"
    for o, v in options:
        if v is not None:
            args += [o, v] if spell == "space" else [o + "=" + v]
    if ctx.flag("verbose"):
        args.append("-v")
    if not overrides or not args:
        return args + overrides
    return args + overrides if ctx.flag("options first") else overrides + args


def plain(ctx, versioned, files, kinds, n):
    C, In = classes(versioned)
    d = ctx.tmp()
    kind = ctx.choose("file", files)
    path, m = config_file(ctx, kind, C, In, versioned, d)
    texts, sets = [], []
    for i in range(n):
        k = ctx.choose("override %d" % i, kinds + ["none"])
        if k == "none":
            break
        t, s = override(ctx, k, i, In)
        texts.append(t)
        sets.append(s)
    calls = []

    @hyperstate.command(C)
    def program(cfg):
        calls.append(cfg)
        return ("result", cfg)

    how, r = call(ctx, program, line(ctx, texts, ("--config", path)))
    ok, loaded = ctx.attempt(hyperstate.load, C, path, texts)
    if m is None or None in sets:
        ctx.reach("refused")
        ctx.check(not calls, "the program ran with a config that cannot be loaded", file=kind, overrides=texts, config=calls)
        ctx.check(how != "returned", "the program returned without running")
        return
    e = m.copy()
    for p, v in sets:
        set_field(e, p, copy(v))
    e = meaning(e)
    ctx.check(ok, "a good config was refused", file=kind, overrides=texts, error=loaded)
    ctx.check(len(calls) == 1, "the program did not run once", how=how, got=r, file=kind, overrides=texts)
    ctx.check(how == "returned" and type(r) is tuple and r[1] is calls[0], "the result is not returned", how=how, got=r)
    ctx.check(ctx.same(calls[0], e), "the program got another config", overrides=texts, got=calls[0], expect=e)
    ctx.check(ctx.same(calls[0], loaded), "the program got another config than load gives", overrides=texts, got=calls[0], expect=loaded)
    ctx.reach("ran")


def info(ctx, stateful):
    "Asking for information, or a command line that is no command line, never runs the program."
    C, In = classes(False)
    d = ctx.tmp()
    calls = []
    State = make_dataclass("State", [("step", int)])
    if stateful:
        program = hyperstate.stateful_command(C, State, lambda c, x: calls.append(c))(lambda sm: calls.append(sm))
    else:
        program = hyperstate.command(C)(lambda cfg: calls.append(cfg))
    path, m = config_file(ctx, "full", C, In, False, d)
    k = ctx.choose("line", ["info", "info of", "unknown option", "no path", "twice", "other options"])
    args = {
        "info": ["x=3", "--hps-info"],
        "info of": ["--hps-info", "n.y", "x=3"],
        "unknown option": ["--colour", "x=3"],
        "no path": ["x=3", "--config"],
        "twice": ["--hps-info", "x", "--config", path],
        "other options": ["--checkpoint-dir", d + "/k", "--resume-from"] if stateful else ["--checkpoint-dir", d + "/k"],
    }[k]
    how, r = call(ctx, program, args)
    ctx.check(not calls and how == "exit", "the program ran", line=args, how=how, got=r)
    ctx.check(sorted(os.listdir(d)) == ["c.ron"], "files were written", files=sorted(os.listdir(d)))
    ctx.reach(k)


# ------------------------------------------------------------------ stateful


@dataclass
class St:
    t: int
    v: float


def checkpoint(ctx, C, In, d, name, t, tag, versioned):
    "Writes a checkpoint by hand; what it means."
    os.makedirs(d + "/" + name)
    x, v = ctx.int(tag + " x"), ctx.real(tag + " v")
    write("%s/%s/config.ron" % (d, name), ron(ctx, Obj("C", *(([("version", 1)] if versioned else []) + [("x", x), ("n", Obj("In", ("z", 1.5)))]))))
    write("%s/%s/state.ron" % (d, name), ron(ctx, Obj("St", ("t", t), ("v", v))))
    return Node(C, x=x, n=Node(In, z=1.5)), (t, v)


def stateful(ctx, versioned, files, kinds, n):
    C, In = classes(versioned)
    d = ctx.tmp()
    kind = ctx.choose("file", files)
    path, m = config_file(ctx, kind, C, In, versioned, d)
    st = None
    resume = ctx.choose("resume", ["none", "checkpoint", "absent"])
    rpath = None
    if resume == "checkpoint":
        rpath = d + "/saved"
        rm, rst = checkpoint(ctx, C, In, d, "saved", 5, "saved", versioned)
    elif resume == "absent":
        rpath, rm, rst = d + "/not there", None, None
    conflict = path is not None and rpath is not None
    if resume != "none":
        m, st = rm, rst
    ck = ctx.choose("dir", ["none", "missing", "empty", "used", "used twice"])
    cpath = None if ck == "none" else d + "/run"
    if ck not in ("none", "missing"):
        os.mkdir(cpath)
    if ck.startswith("used"):
        m, st = checkpoint(ctx, C, In, d + "/run", "latest-t000000000009", 9, "nine", versioned)
    if ck == "used twice":
        checkpoint(ctx, C, In, d + "/run", "latest-t000000000008", 8, "eight", versioned)
    texts, sets = [], []
    for i in range(n):
        k = ctx.choose("override %d" % i, kinds + ["none"])
        if k == "none":
            break
        t, s = override(ctx, k, i, In)
        texts.append(t)
        sets.append(s)
    calls, started = [], []
    iv = ctx.real("initial v")
    mode = ctx.choose("uses", ["config", "state", "step"])
    nv = ctx.real("new v")

    def initial(cfg, dctx):
        started.append(cfg)
        return St(1, iv)

    @hyperstate.stateful_command(C, St, initial, checkpoint_key="t")
    def program(sm):
        if mode != "config":
            s = sm.state
        cfg = sm.config
        calls.append((cfg, sm.state))
        if mode == "step":
            sm.state.t, sm.state.v = 12, nv
            sm.step()
        return ("result", cfg)

    how, r = call(ctx, program, line(ctx, texts, ("--config", path), ("--resume-from", rpath), ("--checkpoint-dir", cpath)))
    if m is None or None in sets or conflict:
        ctx.reach("refused")
        ctx.check(not calls and not started, "the program ran with a config that cannot be loaded", file=kind, resume=resume, overrides=texts, config=calls)
        ctx.check(how != "returned", "the program returned without running")
        return
    e = m.copy()
    for p, v in sets:
        set_field(e, p, copy(v))
    e = meaning(e)
    ctx.check(how == "returned" and len(calls) == 1 and r[1] is calls[0][0], "the program did not run once", how=how, got=r, file=kind, resume=resume, dir=ck, overrides=texts)
    cfg, state = calls[0]
    ctx.check(ctx.same(cfg, e), "the program got another config", got=cfg, expect=e, overrides=texts)
    if st is None:
        ctx.check(len(started) == 1 and started[0] is cfg, "the initial state was not made once from the config")
        ctx.reach("afresh")
        st = (1, iv)
    else:
        ctx.check(not started, "a resumed program made a new state")
        ctx.reach("resumed")
    t, v = st
    if mode == "step":
        t, v = 12, nv
    ctx.check(ctx.same((state.t, state.v), (t, v)), "the program got another state", got=state, expect=(t, v))
    if mode == "step" and cpath:
        found = sorted(os.listdir(cpath))
        ctx.check("latest-t000000000012" in found and "latest-t000000000009" not in found, "no checkpoint of the step", files=found)
        sm = hyperstate.StateManager(C, St, initial, None, cpath, checkpoint_key="t")
        ctx.check(ctx.same((sm.state.t, sm.state.v), (12, nv)) and ctx.same(sm.config, e), "another checkpoint", got=(sm.state, sm.config), expect=e)
        ctx.reach("stepped")
    if rpath and resume == "checkpoint":
        ctx.check(sorted(os.listdir(rpath)) == ["config.ron", "state.ron"], "the checkpoint resumed from was touched")


CASES = [
    {"name": "plain", "fn": plain, "params": {"versioned": False, "files": FILES, "kinds": OVERRIDES, "n": 1}, "reach": ["ran", "refused"], "quick_s": 60, "shards": 2, "max_witnesses": 80},
    {"name": "versioned", "fn": plain, "params": {"versioned": True, "files": FILES, "kinds": OVERRIDES, "n": 1}, "reach": ["ran", "refused"], "quick_s": 60, "shards": 2, "max_witnesses": 80},
    {"name": "two overrides", "fn": plain, "params": {"versioned": True, "files": ["none", "full"], "kinds": ["x", "n.y", "o", "s", "no =", "unknown"], "n": 2}, "reach": ["ran", "refused"], "quick_s": 60, "shards": 2, "max_witnesses": 80},
    {"name": "no command", "fn": info, "params": {"stateful": False}, "reach": ["info", "unknown option"], "quick_s": 60},
    {"name": "no stateful command", "fn": info, "params": {"stateful": True}, "reach": ["info", "unknown option"], "quick_s": 60},
    {"name": "stateful", "fn": stateful, "params": {"versioned": True, "files": ["none", "full", "old", "kind", "absent", "empty path"], "kinds": ["x", "no =", "unknown"], "n": 1}, "reach": ["refused", "afresh", "resumed", "stepped"], "quick_s": 60, "shards": 4, "depth": 2, "max_witnesses": 80},
    {"name": "three overrides", "fn": plain, "params": {"versioned": True, "files": FILES, "kinds": OVERRIDES, "n": 3}, "reach": ["ran", "refused"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2},
    {"name": "stateful, plain class", "fn": stateful, "params": {"versioned": False, "files": FILES, "kinds": OVERRIDES, "n": 2}, "reach": ["refused", "afresh", "resumed", "stepped"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2},
]
