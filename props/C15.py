"""C15: a schedule takes the value its points and interpolators describe."""
from dataclasses import dataclass
import hyperstate
from props.util import write

META = {
    "bounds": "schedules of 1..4 points (quick: up to 3 with every interpolator per segment, 4 with lin/step), positions and values symbolic reals in [-1e9,1e9] with non-decreasing positions, state value symbolic real; numerals written plain, negative, integral and with exponent",
    "outside": "IEEE rounding (floats are modelled as reals; the cosine is an uninterpreted function with exact values at 0 and pi, strictly decreasing on [0,pi], sign change at pi/2); more than 4 points; 'exp', 'quad', 'poly' which the code does not implement",
    "functions": ["schedule._parse_schedule", "schedule.PiecewiseFunction.get_value", "schedule.INTERPOLATORS", "hyperstate.ScheduleDeserializer", "hyperstate._apply_schedules"],
    "assumptions": ["pyron is trusted to read strings", "state fields hold floats"],
}


@dataclass
class Config:
    lr: float


@dataclass
class State:
    step: float


def run(ctx, n, interps, style="plain", two=False, lo=-10 ** 9):
    xs, ys, names = [], [], []
    for i in range(n):
        x = ctx.real("x%d" % i, lo, 10 ** 9)
        y = ctx.real("y%d" % i, -10 ** 9, 10 ** 9)
        if xs:
            ctx.assume(x >= xs[-1])
            names.append(ctx.choose("interp%d" % i, interps))
        xs.append(x)
        ys.append(y)
    styles = []
    words = []
    for i in range(n):
        sx = sy = "plain"
        if style == "any":
            sx = ctx.choose("sx%d" % i, ["neg", "int", "exp", "plain"])
            sy = ctx.choose("sy%d" % i, ["neg", "int", "exp", "plain"])
        if i:
            # the default interpolation is linear; a name is needed otherwise
            if names[i - 1] == "default":
                pass
            else:
                words.append(names[i - 1])
        words.append(ctx.numeral(ys[i], sy) + "@" + ctx.numeral(xs[i], sx))
    kinds = ["lin" if k == "default" else k for k in names]
    text = 'Config(lr: "step: %s")' % " ".join(words)
    d = ctx.tmp()
    write(d + "/config.ron", text)
    samples = [ctx.real("at", lo, 10 ** 9)]
    if two:
        samples.append(ctx.real("at2", lo, 10 ** 9))
        ctx.assume(samples[0] <= samples[1])
    values = []
    where = []
    for s in samples:
        sm = hyperstate.StateManager(
            Config, State, lambda cfg, c: State(step=s), init_path=d + "/config.ron"
        )
        sm.state
        values.append(sm.config.lr)
        ctx.observe("value", sm.config.lr)
        where.append(check_one(ctx, xs, ys, kinds, s, values[-1]))
    if two and where[0] is not None and where[0] == where[1]:
        i = where[0]
        ctx.reach("monotone")
        a, b = ys[i], ys[i + 1]
        if a <= b:
            ctx.check(ge(ctx, values[1], values[0], a, b), "not monotone (rising)", points=list(zip(xs, ys)), at=samples, values=values)
        else:
            ctx.check(ge(ctx, values[0], values[1], a, b), "not monotone (falling)", points=list(zip(xs, ys)), at=samples, values=values)


def tol(ctx, a, b):
    return 0 if ctx.symbolic else 1e-6 * max(1.0, abs(a), abs(b))


def ge(ctx, u, v, a, b):
    "u >= v up to rounding between values a and b"
    return u >= v - tol(ctx, a, b)


def eq(ctx, u, v, a, b):
    return abs(u - v) <= tol(ctx, a, b) if not ctx.symbolic else u == v


def check_one(ctx, xs, ys, kinds, s, v):
    n = len(xs)
    info = dict(points=list(zip(ys, xs)), kinds=kinds, at=s, value=v)
    ctx.check(ctx.same(v, float(0), types=True) if type(v) is not float and not ctx.symbolic else True, "not a float", **info)
    if s < xs[0]:
        ctx.reach("before")
        ctx.check(eq(ctx, v, ys[0], ys[0], ys[0]), "before the first point", **info)
        return None
    if s >= xs[-1]:
        ctx.reach("after")
        ctx.check(eq(ctx, v, ys[-1], ys[-1], ys[-1]), "from the last point on", **info)
        return None
    for i in range(n - 1):
        if s < xs[i + 1]:
            break
    a, b = ys[i], ys[i + 1]
    if s == xs[i]:
        ctx.check(eq(ctx, v, a, a, b), "exactly at a point", **info)
        return i
    w = xs[i + 1] - xs[i]
    u = s - xs[i]
    if kinds[i] == "step":
        ctx.reach("step")
        ctx.check(eq(ctx, v, a, a, b), "step keeps the earlier value", **info)
    elif kinds[i] == "lin":
        ctx.reach("lin")
        if ctx.symbolic:
            ctx.check((v - a) * w == (b - a) * u, "linear interpolation", **info)
        else:
            ctx.check(eq(ctx, v, a + (b - a) * (u / w), a, b), "linear interpolation", **info)
    else:
        ctx.reach("cos")
        if a <= b:
            ctx.check((ge(ctx, v, a, a, b)) and (ge(ctx, b, v, a, b)), "cosine leaves the range", **info)
            lo, hi = a, b
        else:
            ctx.check((ge(ctx, v, b, a, b)) and (ge(ctx, a, v, a, b)), "cosine leaves the range", **info)
            lo, hi = b, a
        # nearer to the earlier value in the first half, to the later in the second
        mid = a + b
        if u + u < w:
            ok = ge(ctx, mid, v + v, a, b) if a <= b else ge(ctx, v + v, mid, a, b)
            ctx.check(ok, "cosine: first half", **info)
        elif u + u > w:
            ok = ge(ctx, v + v, mid, a, b) if a <= b else ge(ctx, mid, v + v, a, b)
            ctx.check(ok, "cosine: second half", **info)
    return i


CASES = [
    {"name": "one point", "fn": run, "params": {"n": 1, "interps": []}, "reach": ["before", "after"]},
    {"name": "two points", "fn": run, "params": {"n": 2, "interps": ["lin", "cos", "step", "default"], "two": True}, "reach": ["before", "after", "lin", "cos", "step", "monotone"], "quick_s": 120},
    {"name": "three points", "fn": run, "params": {"n": 3, "interps": ["lin", "cos", "step"]}, "reach": ["before", "after", "lin", "cos", "step"], "quick_s": 120, "shards": 3, "depth": 2},
    {"name": "numeral forms", "fn": run, "params": {"n": 2, "interps": ["lin"], "style": "any"}, "reach": ["before", "after", "lin"], "quick_s": 120, "shards": 2, "depth": 3},
    {"name": "four points", "fn": run, "params": {"n": 4, "interps": ["lin", "step"]}, "reach": ["before", "after", "lin", "step"], "quick_s": 120, "shards": 2, "depth": 2},
]
