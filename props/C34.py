"""C34: a text given for a number is a well-formed schedule, or refused."""
from dataclasses import make_dataclass
import hyperstate
from props.C15 import check_one
from props.util import *

META = {
    "bounds": "texts of a head and up to 4 (thorough: 5) words among points with symbolic positions and values (in any order), interpolators and ill-formed words, for float and int fields at the top, in an object, an optional, a list, a dictionary, a tuple and a union; read by load, loads and a state manager whose state has a symbolic step",
    "outside": "an interpolator before the first point (accepted by the code, not in the documented grammar); white space other than single blanks between words; which interpolator holds where none is named after one was; positions that are paths, exp, quad and poly, which are documented in a comment but do not exist; IEEE rounding",
    "functions": ["schedule._parse_schedule", "schedule.PiecewiseFunction.get_value", "hyperstate.ScheduleDeserializer", "hyperstate._apply_schedules"],
    "assumptions": ["state fields hold numbers"],
}

BAD = ["exp", "LIN", "5", "1@", "@1", "@", "1@2@3", "x@1", "1@x", "nan@1", "1@nan", "inf@1", "1@inf", "1@-inf", "1e999@1", "1,5@1", "1@1,", "step:", "lin,"]
NAMES = [":", "absent:", "Step:", "step::"]
HEADS = ["step:", "step", "step,", "step:lin", "step=", "step: :"] + NAMES


@dataclass
class State:
    step: float
    other: int = 3


def place(where, T):
    I = make_dataclass("I", [("lr", T), ("n", int, 1)])
    return {
        "top": (T, "%s", lambda v: v),
        "object": (I, "I(lr: %s)", lambda v: v.lr),
        "optional": (Optional[T], "%s", lambda v: v),
        "optional object": (Optional[I], "I(lr: %s)", lambda v: v.lr),
        "list": (List[T], "[7, %s]", lambda v: v[1]),
        "dict": (Dict[str, T], '{"k": %s}', lambda v: v["k"]),
        "tuple": (Tuple[int, T], "(7, %s)", lambda v: v[1]),
        "list of objects": (List[I], "[I(lr: 1), I(lr: %s)]", lambda v: v[1].lr),
    }[where]


PLACES = ["top", "object", "optional", "optional object", "list", "dict", "tuple", "list of objects"]


def attempt(ctx, T, where, text, s, how):
    "The value a config with this text has, or the error."
    X, form, get = place(where, T)
    C = make_dataclass("C", [("v", X), ("z", int, 1)])
    doc = "C(v: %s)" % (form % ('"%s"' % text))
    d = ctx.tmp()
    write(d + "/c.ron", doc)
    if how == "loads":
        return ctx.attempt(lambda: get(hyperstate.loads(C, doc).v))
    if how == "load":
        return ctx.attempt(lambda: get(hyperstate.load(C, d + "/c.ron").v))
    sm = hyperstate.StateManager(C, State, lambda c, x: State(s), d + "/c.ron")

    def read():
        sm.state
        return get(sm.config.v)

    return ctx.attempt(read)


def judge(ctx, head, words, points, kinds, T, where, how):
    """`words` are the words after the head, `points` their (value, position) or None, `kinds` what they are: point, name or bad."""
    s = ctx.real("at", -1000, 1000)
    text = " ".join([head] + words)
    ok, v = attempt(ctx, T, where, text, s, how)
    # Without a state, names are not looked at
    good = head == "step:" or how != "manager" and head in NAMES
    # An interpolator is between two points
    last = "name"
    for k in kinds:
        if k == "bad" or k == "name" and last == "name":
            good = False
        last = k
    if last == "name":
        good = False
    if good:
        xs = [p[1] for p in points if p is not None]
        for a, b in zip(xs, xs[1:]):
            if a > b:
                good = False
                ctx.reach("not in order")
                break
    if not good:
        ctx.reach("refused")
        ctx.check(not ok, "an ill-formed schedule was accepted", text=text, value=v)
        return
    ctx.reach("accepted")
    ctx.check(ok, "a well-formed schedule was refused", text=text, error=v)
    ctx.check(type(v) is T or ctx.symbolic, "not of the type of the field", value=v)
    if how == "manager" and T is float:
        ps = [p for p in points if p is not None]
        names = []
        for i, k in enumerate(kinds):
            if k == "point" and i:
                names.append(words[i - 1] if kinds[i - 1] == "name" else "lin")
        if all(kinds[i - 1] == "name" for i, k in enumerate(kinds) if k == "point" and i) or "name" not in kinds:
            check_one(ctx, [x for _, x in ps], [y for y, _ in ps], names, s, v)


def words(ctx, n, kinds, hows, types=("float",), wheres=("top",)):
    "Every sequence of words."
    n = ctx.choose("words", list(range(n + 1)))
    ws, ps, ks = [], [], []
    for i in range(n):
        k = ctx.choose("word %d" % i, kinds)
        ctx.assume(i > 0 or k not in ("lin", "step", "cos"))
        if k == "point":
            y, x = ctx.real("y%d" % i, -1000, 1000), ctx.real("x%d" % i, -1000, 1000)
            ws.append(ctx.numeral(y, "plain") + "@" + ctx.numeral(x, "plain"))
            ps.append((y, x))
        else:
            ws.append(k)
            ps.append(None)
        ks.append("point" if k == "point" else "name" if k in ("lin", "step", "cos") else "bad")
    T = {"float": float, "int": int}[ctx.choose("type", list(types))]
    judge(ctx, "step:", ws, ps, ks, T, ctx.choose("place", list(wheres)), ctx.choose("how", hows))


def ill(ctx):
    "One ill-formed word or head, anywhere."
    y, x = ctx.real("y", -1000, 1000), ctx.real("x", -1000, 1000)
    p = ctx.numeral(y, "plain") + "@" + ctx.numeral(x, "plain")
    head = ctx.choose("head", HEADS)
    ws, ks, ps = [p], ["point"], [(y, x)]
    if ctx.flag("second"):
        y2, x2 = ctx.real("y2", -1000, 1000), ctx.real("x2", -1000, 1000)
        ws += ["lin", ctx.numeral(y2, "plain") + "@" + ctx.numeral(x2, "plain")]
        ks += ["name", "point"]
        ps += [None, (y2, x2)]
    if head == "step:":
        at = ctx.choose("where", list(range(len(ws) + 1)))
        bad = ctx.choose("bad", BAD)
        if ctx.flag("instead") and at < len(ws):
            ws[at], ks[at], ps[at] = bad, "bad", None
        else:
            ws.insert(at, bad)
            ks.insert(at, "bad")
            ps.insert(at, None)
    T = float if ctx.flag("float") else int
    judge(ctx, head, ws, ps, ks, T, ctx.choose("place", ["top", "list of objects"]), ctx.choose("how", ["manager", "load"]))


W = ["point", "lin", "step"]
CASES = [
    {"name": "words", "fn": words, "params": {"n": 4, "kinds": W, "hows": ["manager"]}, "reach": ["accepted", "refused", "not in order"], "quick_s": 60, "shards": 4, "depth": 4, "max_witnesses": 100},
    {"name": "read", "fn": words, "params": {"n": 3, "kinds": W + ["exp"], "hows": ["load", "loads"], "types": ["float", "int"]}, "reach": ["accepted", "refused", "not in order"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "places", "fn": words, "params": {"n": 2, "kinds": W, "hows": ["manager", "load"], "types": ["float", "int"], "wheres": PLACES}, "reach": ["accepted", "refused", "not in order"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "ill-formed", "fn": ill, "params": {}, "reach": ["refused", "accepted"], "quick_s": 60, "shards": 2, "max_witnesses": 100},
    {"name": "more words", "fn": words, "params": {"n": 5, "kinds": W + ["cos"], "hows": ["manager"]}, "reach": ["accepted", "refused", "not in order"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 4},
]
