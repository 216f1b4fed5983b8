"""C23: field search ranks by true similarity and always finds an exact name."""
from contextlib import redirect_stdout
import io
import click
import hyperstate
from hyperstate.schema import types as t
from hyperstate.schema.help import find_fields
from hyperstate.schema.schema_checker import name_similarity
from props import util
from props.util import *

META = {
    "bounds": "pairs of symbolic names of length 0 to 3 (thorough: 4) over letters in both cases, the underscore and a non-ASCII letter; symbolic queries of length 1 to 3 (thorough: 5) against classes whose field names, depth and order are chosen from a pool, in nested, optional, listed and doubly nested dataclasses; help without a query for classes with one field of every type up to depth 2 with every kind of default and docstring, at two nesting depths",
    "outside": "fields of dataclasses inside dictionaries, tuples and alternatives (help does not list them), the colours and the column of the docstring",
    "functions": ["schema_checker.name_similarity", "schema_checker.levenshtein", "help.help", "help.find_fields", "help.print_schema", "types.materialize_type"],
    "assumptions": ["click.style and click.unstyle are trusted"],
}


def initials(s):
    out = []
    start = True
    for c in s:
        if start and c != "_":
            out.append(c)
        start = c == "_"
    return out


def letters(s):
    return [c for c in s if c != "_"]


def same_letters(a, b):
    return len(a) == len(b) and all([x == y for x, y in zip(a, b)])


def distance(a, b):
    "Edit distance, defined from the ends of both names."
    memo = {}

    def cost(x, y):
        return 0 if x == y else 0.25 if x.lower() == y.lower() else 1

    def d(i, j):
        if i == 0 or j == 0:
            return i + j
        k = (i, j)
        if k not in memo:
            memo[k] = min(d(i - 1, j) + 1, d(i, j - 1) + 1, d(i - 1, j - 1) + cost(a[i - 1], b[j - 1]))
        return memo[k]

    return d(len(a), len(b))


def similarity(a, b):
    "The similarity of two names as documented, None for the one above all others."
    if a == b:
        return None
    if same_letters(letters(a), letters(b)):
        return 1.0
    if same_letters(list(a), initials(b)) or same_letters(list(b), initials(a)):
        return 1.0
    return 1 - distance(a, b) / max(len(a), len(b))


def pairs(ctx, alphabet, maxlen):
    a = ctx.str("a", maxlen, alphabet=alphabet)
    b = ctx.str("b", maxlen, alphabet=alphabet)
    got = name_similarity(a, b)
    back = name_similarity(b, a)
    e = similarity(a, b)
    ctx.check(got == back, "not symmetric", a=a, b=b, got=got, back=back)
    if e is None:
        ctx.check(got > 1.0, "equal names are not above all others", a=a, b=b, got=got)
    else:
        ctx.check(abs(got - e) < 1e-9, "another similarity", a=a, b=b, got=got, expect=e)
    ctx.reach("done")


# ------------------------------------------------------------------ search


def shown(ctx, C, query):
    out = io.StringIO()
    with redirect_stdout(out):
        ok, e = ctx.attempt(hyperstate.help, C, query)
    ctx.check(ok, "help failed", query=query, error=e)
    lines = click.unstyle(out.getvalue()).split("\n")
    ctx.check(lines[-1] == "", "an unfinished line")
    return lines[:-1]


KINDS = ["plain", "nested", "optional", "list", "list of optional", "two deep"]


def build(ctx, names, n, second):
    """A class, and its fields as (path, type text, default or None, is a
    dataclass) in the order of declaration."""
    fields = []
    listed = []
    for i in range(n):
        name = ctx.choose("name%d" % i, names if i == 0 else second)
        kind = ctx.choose("kind%d" % i, KINDS if i == 0 else ["plain", "nested"])
        outer = "%s%d" % ("oqz"[i], i)
        if kind == "plain":
            if any(f[0] == name for f in fields):
                ctx.assume(False)
            fields.append((name, int, 7 + i))
            listed.append(([name], "int", 7 + i, None))
            continue
        In = make_dataclass("In%d" % i, [(name, int, 7 + i), ("other", str, "v")])
        inner = [([outer, name], "int", 7 + i, None), ([outer, "other"], "str", "'v'", None)]
        if kind == "two deep":
            In2 = make_dataclass("Mid%d" % i, [("deep", In, field(default_factory=In))])
            inner = [([outer, "deep"] + p[1:], ty, de, c) for p, ty, de, c in inner]
            listed.append(([outer], "Mid%d" % i, None, In2))
            listed.append(([outer, "deep"], "In%d" % i, None, In))
            listed += inner
            fields.append((outer, In2, field(default_factory=In2)))
            continue
        T, text, default = {
            "nested": (In, "In%d", field(default_factory=In)),
            "optional": (Optional[In], "Optional[In%d]", None),
            "list": (List[In], "List[In%d]", field(default_factory=list)),
            "list of optional": (List[Optional[In]], "List[Optional[In%d]]", field(default_factory=list)),
        }[kind]
        fields.append((outer, T, default))
        listed.append(([outer], text % i, None, In))
        listed += inner
    return make_dataclass("Config", fields), listed


def line_of(path, text, default, inner):
    s = ".".join(path) + ": " + text
    if inner is None:
        s += " = %s" % default
    return s


def search(ctx, names, n, maxlen, alphabet, second):
    C, listed = build(ctx, names, n, second)
    query = ctx.str("query", maxlen, 1, alphabet=alphabet)
    lines = [l for l in shown(ctx, C, query) if not l.startswith("  ")]
    by_line = {line_of(*f): f for f in listed}
    sims = []
    for l in lines:
        ctx.check(l in by_line, "a line that describes no field", line=l, query=query)
        ctx.check(lines.count(l) == 1, "a field is shown twice", line=l)
        sims.append(similarity(by_line[l][0][-1], query))
    everything = [similarity(f[0][-1], query) for f in listed]
    rank = [2.0 if s is None else s for s in sims]
    best = sorted([2.0 if s is None else s for s in everything], reverse=True)
    ctx.check(len(lines) > 0, "nothing is shown", query=query)
    ctx.check(len(rank) >= sum(s is None for s in everything), "a field with exactly that name is not shown", query=query, lines=lines)
    ctx.check(all(abs(r - b) < 1e-9 for r, b in zip(rank, best)), "fields are not shown by similarity", query=query, lines=lines, ranks=rank, best=best)
    # the object itself
    found = find_fields(t.materialize_type(C), query)
    ctx.check(len(found) == len(listed), "the search misses fields", found=len(found), fields=len(listed))
    ctx.reach("exact" if any(s is None for s in sims) else "similar")


# ------------------------------------------------------------------ listing


def type_text(shape):
    k = shape[0]
    if k in ("int", "float", "bool", "str"):
        return [k]
    if k in ("color", "level"):
        return [k.capitalize()]
    if k == "word":
        return ["'on'", "'off'", "'o n'", "|"]
    if k == "num":
        return ["1", "2", "-3", "|"]
    if k == "alts":
        return ["Alpha", "Beta"]
    if k == "obj":
        return ["Obj_" + label(shape[1])]
    inner = type_text(shape[1])
    name = {"list": "List[", "tuple": "Tuple[", "dict": "Dict[", "intdict": "Dict[", "opt": "Optional["}[k]
    return [name] + inner


def listing(ctx, depth):
    shape = choose_shape(ctx, "T", depth)
    T = to_type(shape)
    how = ctx.choose("default", ["none", "value", "null"])
    doc = ctx.flag("doc")
    spec = [("a", int, 3), ("f", T)]
    default = None
    if how == "value":
        default = util.build(choose_value(ctx, "v", shape, 1, 1))
        spec[1] = ("f", T, field(default_factory=lambda: default)) if default.__class__.__hash__ is None else ("f", T, default)
    elif how == "null":
        spec[1] = ("f", T, None)
    else:
        spec = [("f", T), ("a", int, 3)]
    ns = {"__doc__": "Text.\n\n    Attributes:\n        f: the # effect\n        a: say a\n" if doc else None}
    C = make_dataclass("C", spec, namespace=ns)
    lines = shown(ctx, C, "")
    mine = [l for l in lines if l.startswith("f:")]
    ctx.check(len(mine) == 1, "the field is not shown once", lines=lines)
    ctx.check(len([l for l in lines if l.startswith("a: int = 3")]) == 1, "the other field is not shown", lines=lines)
    line = mine[0]
    for part in type_text(shape):
        ctx.check(part in line, "the type is not shown", line=line, part=part)
    s = shape
    while s[0] in ("list", "opt"):
        s = s[1]
    if s[0] == "obj":
        at = lines.index(line)
        ctx.check(any(l.startswith("  v: ") for l in lines[at:]) and any(l.startswith("  n: int") for l in lines[at:]), "fields of the inner object are not shown", lines=lines)
    else:
        text = line.split("  # ")[0].rstrip() if doc else line
        if how == "value" and default is not None:
            if isinstance(default, enum.Enum):
                default = default.value
            ctx.check(text.endswith(" = %r" % (default,)), "the default is not shown", line=line, default=default)
        else:
            ctx.check(" = " not in text, "a default that does not exist", line=line)
        if doc:
            ctx.check(line.endswith("  # the # effect"), "the docstring is not shown", line=line)
        ctx.check(line.startswith("f: "), "another line", line=line)
    ctx.reach("done")


def nested_listing(ctx):
    inner = ctx.choose("inner", ["plain", "opt", "list", "list of opt", "opt list"])
    A = make_dataclass("A", [("deep", int, 4)])
    wrap = {"plain": lambda X: X, "opt": lambda X: Optional[X], "list": lambda X: List[X], "list of opt": lambda X: List[Optional[X]], "opt list": lambda X: Optional[List[X]]}
    B = make_dataclass("B", [("x", wrap[inner](A)), ("y", float)])
    outer = ctx.choose("outer", list(wrap))
    C = make_dataclass("C", [("b", wrap[outer](B)), ("z", str)])
    lines = shown(ctx, C, "")
    ctx.check([l.split(":")[0] for l in lines] == ["b", "  x", "    deep", "  y", "z"], "other fields or another depth", lines=lines)
    ctx.check([l.split(": ")[1] for l in lines[2:]] == ["int = 4", "float", "str"], "other types or defaults", lines=lines)
    ctx.reach("done")


POOL = ["lr", "LR", "l_r", "rate"]
CASES = [
    {"name": "pairs", "fn": pairs, "params": {"alphabet": "aA_b", "maxlen": 3}, "reach": ["done"], "quick_s": 100, "shards": 8, "depth": 6, "max_witnesses": 100},
    {"name": "pairs, any letter", "fn": pairs, "params": {"alphabet": "\u00e9\u00c9xX_", "maxlen": 2}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "search", "fn": search, "params": {"names": POOL, "n": 2, "maxlen": 2, "alphabet": "lrL_", "second": ["lr"]}, "reach": ["exact", "similar"], "quick_s": 60, "shards": 8, "depth": 2, "max_witnesses": 100},
    {"name": "listing", "fn": listing, "params": {"depth": 1}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "nested listing", "fn": nested_listing, "params": {}, "reach": ["done"], "quick_s": 60, "max_witnesses": 60},
    {"name": "longer pairs", "fn": pairs, "params": {"alphabet": "aA_", "maxlen": 4}, "reach": ["done"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 8, "max_witnesses": 100},
    {"name": "longer queries", "fn": search, "params": {"names": POOL, "n": 2, "maxlen": 4, "alphabet": "lrL_", "second": ["lr", "lrate"]}, "reach": ["exact", "similar"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 2, "max_witnesses": 100},
    {"name": "deep listing", "fn": listing, "params": {"depth": 2}, "reach": ["done"], "thorough_only": True, "thorough_s": 500, "shards": 4, "depth": 2, "max_witnesses": 60},
]
