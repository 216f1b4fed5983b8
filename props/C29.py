"""C29: the checker reports every difference once, where it is."""
import enum
import hyperstate
from click import unstyle
from hyperstate.schema import types as t
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.schema_change import *
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField
from hyperstate.schema.versioned import Versioned
from props.tool import dump_schema
from props.util import *
import contextlib
import io
import re

META = {
    "bounds": "classes of 2 fields at the top, 2 in a nested object and 2 in an object that is optional, listed, a tuple element, a dictionary value or doubly nested; up to 2 differences at once (thorough: 3) out of every kind: fields added, removed and renamed (in place or moved), types changed to compatible and incompatible ones, defaults added, changed (symbolic, and possibly to an equal one) and removed, enum members and literal values added, removed, renamed and re-valued, nested objects added and removed as a whole; old schemas from classes and from files",
    "outside": "which of several similar names is taken for the new one (but the same name comes first, every pair fits and none is left); unions; differences inside key types",
    "functions": ["schema_checker.SchemaChecker", "schema_checker.SchemaChecker._find_changes", "schema_checker.SchemaChecker._find_renames", "schema_change.SchemaChange.severity", "schema_checker.SchemaChecker.print_report", "types.Primitive.is_subtype"],
    "assumptions": [],
}

I, W, E = "INFO", "WARN", "ERROR"
NONE = object()


class Slot(object):
    "One field before and after, and what has to be reported about it."

    def __init__(self, name, old=None, new=None, reports=(), oldname=None):
        self.name = name
        self.oldname = oldname or name
        self.old = old
        self.new = new
        self.reports = reports


def fld(name, typ, default=NONE):
    if default is NONE:
        return (name, typ)
    if isinstance(default, (list, dict)):
        return (name, typ, field(default_factory=lambda: type(default)(default)))
    return (name, typ, default)


def enums(kind):
    mk = lambda name, *m: enum.Enum(name, list(m))
    old = mk("Kind", ("A", "a"), ("B", 2))
    new = {
        "same": old,
        "member added": mk("Kind", ("A", "a"), ("B", 2), ("ZZ", 7)),
        "member removed": mk("Kind", ("A", "a")),
        "member re-valued": mk("Kind", ("A", "x"), ("B", 2)),
        "member renamed": mk("Kind", ("A", "a"), ("B_", 2)),
        "member renamed and re-valued": mk("Kind", ("A", "a"), ("B_", 5)),
        "class renamed": mk("Sort", ("A", "a"), ("B", 2)),
    }[kind]
    return old, new


def literals(kind):
    old = Literal["p", "q"]
    return old, {"same": old, "value added": Literal["q", "p", "r"], "value removed": Literal["p"], "values added": Literal["p", "q", "r", "s t"], "values swapped": Literal["x", 5], "value swapped": Literal["p", "s"], "reordered": Literal["q", "p"]}[kind]


# what happens to a field -> how it is reported
EDITS = [
    "same", "default kept", "default changed", "default lost", "default gained",
    "added", "added with default", "added optional", "added list", "removed", "removed with default",
    "renamed", "renamed with default", "to float", "to str", "from str", "to optional", "from optional", "to list", "to literal",
    "enum member added", "enum member removed", "enum member re-valued", "enum member renamed", "enum member renamed and re-valued", "enum class renamed",
    "literal value added", "literal value removed", "literal value swapped", "literal reordered", "literal values added", "literal values swapped",
    "list to float", "list to str", "tuple shorter", "dict value", "dict key",
    "deep list", "tuple element", "optional element", "optional list", "versioned", "no longer versioned",
]
PAIRED = ["same", "default changed", "default lost", "added", "added with default", "removed", "renamed with default", "to float", "to str", "enum member removed", "literal value swapped"]


def slot(ctx, edit, path, name):
    "A field with a difference; `name` shares no letter with another field's."
    p = tuple(path) + (name,)
    n = name
    d = lambda s: ctx.int(s + "".join(path) + name, -10 ** 9, 10 ** 9)
    S = lambda o, w, *r, **k: Slot(n, o, w, r, **k)
    if edit == "same":
        return S(fld(n, int), fld(n, int))
    if edit == "default kept":
        x = d("d")
        return S(fld(n, int, x), fld(n, int, x))
    if edit == "default changed":
        x, y = d("d"), d("e")
        return S(fld(n, int, x), fld(n, int, y), *([(W, DefaultValueChanged, p, x, y)] if x != y else []))
    if edit == "default lost":
        x = d("d")
        return S(fld(n, int, x), fld(n, int), (W, DefaultValueRemoved, p, x))
    if edit == "default gained":
        return S(fld(n, int), fld(n, int, d("d")))
    if edit == "added":
        return S(None, fld(n, int), (E, FieldAdded, p))
    if edit == "added with default":
        return S(None, fld(n, int, d("d")), (I, FieldAdded, p))
    if edit == "added optional":
        return S(None, fld(n, Optional[int]), (W, FieldAdded, p))
    if edit == "added list":
        return S(None, fld(n, List[int]), (W, FieldAdded, p))
    if edit == "removed":
        return S(fld(n, int), None, (W, FieldRemoved, p))
    if edit == "removed with default":
        return S(fld(n, int, d("d")), None, (W, FieldRemoved, p))
    if edit == "renamed":
        return S(fld(n + "_", int), fld(n, int), (W, FieldRenamed, p[:-1] + (n + "_",), p), oldname=n + "_")
    if edit == "renamed with default":
        x, y = d("d"), d("e")
        if x == y:
            return S(fld(n + "_", int, x), fld(n, int, y), (W, FieldRenamed, p[:-1] + (n + "_",), p), oldname=n + "_")
        return S(fld(n + "_", int, x), fld(n, int, y), (I, FieldAdded, p), (W, FieldRemoved, p[:-1] + (n + "_",)), oldname=n + "_")
    if edit == "to float":
        return S(fld(n, int), fld(n, float), (I, TypeChanged, p))
    if edit == "to str":
        return S(fld(n, int), fld(n, str), (E, TypeChanged, p))
    if edit == "from str":
        return S(fld(n, str), fld(n, int), (E, TypeChanged, p))
    if edit == "to optional":
        return S(fld(n, int), fld(n, Optional[int]), (I, TypeChanged, p))
    if edit == "from optional":
        return S(fld(n, Optional[int]), fld(n, int), (E, TypeChanged, p))
    if edit == "to list":
        return S(fld(n, int), fld(n, List[int]), (W, TypeChanged, p))
    if edit == "to literal":
        return S(fld(n, str), fld(n, Literal["p", "q"]), (W, TypeChanged, p))
    if edit.startswith("enum "):
        old, new = enums(edit[5:])
        r = {
            "enum member added": [(I, EnumVariantAdded, p, "ZZ", 7)],
            "enum member removed": [(E, EnumVariantRemoved, p, "B", 2)],
            "enum member re-valued": [(W, EnumVariantValueChanged, p, "A", "a", "x")],
            "enum member renamed": [(I, EnumVariantRenamed, p, "B", "B_")],
            "enum member renamed and re-valued": [(W, EnumVariantValueChanged, p, "B", 2, 5)],
            "enum class renamed": [],
        }[edit]
        return S(fld(n, old), fld(n, new), *r)
    if edit.startswith("literal "):
        old, new = literals(edit[8:])
        r = {
            "literal value added": [(I, LiteralValuesAdded, p, {"r"})],
            "literal value removed": [(W, LiteralValuesRemoved, p, {"q"})],
            "literal value swapped": [(I, LiteralValuesAdded, p, {"s"}), (W, LiteralValuesRemoved, p, {"q"})],
            "literal reordered": [],
            "literal values added": [(I, LiteralValuesAdded, p, {"r", "s t"})],
            "literal values swapped": [(I, LiteralValuesAdded, p, {"x", 5}), (W, LiteralValuesRemoved, p, {"p", "q"})],
        }[edit]
        return S(fld(n, old), fld(n, new), *r)
    if edit == "list to float":
        return S(fld(n, List[int]), fld(n, List[float]), (I, TypeChanged, p))
    if edit == "list to str":
        return S(fld(n, List[int]), fld(n, List[str]), (E, TypeChanged, p))
    if edit == "tuple shorter":
        return S(fld(n, Tuple[int, int]), fld(n, Tuple[int]), (E, TypeChanged, p))
    if edit == "dict value":
        return S(fld(n, Dict[str, int]), fld(n, Dict[str, float]), (I, TypeChanged, p))
    if edit == "dict key":
        return S(fld(n, Dict[str, int]), fld(n, Dict[int, int]), (E, TypeChanged, p))
    if edit == "deep list":
        return S(fld(n, List[List[int]]), fld(n, List[List[float]]), (I, TypeChanged, p))
    if edit == "tuple element":
        return S(fld(n, Tuple[int, Dict[str, int]]), fld(n, Tuple[int, Dict[str, str]]), (E, TypeChanged, p))
    if edit == "optional element":
        return S(fld(n, List[int]), fld(n, List[Optional[int]]), (I, TypeChanged, p))
    if edit == "optional list":
        return S(fld(n, Optional[List[int]]), fld(n, Optional[List[float]]), (I, TypeChanged, p))
    if edit.endswith("versioned"):
        a, b = cls("Thing", [("xx", int)]), cls("Thing", [("xx", int)], 3)
        if edit == "no longer versioned":
            a, b = b, a
        return S(fld(n, a), fld(n, b), (E, TypeChanged, p))
    raise KeyError(edit)


def order(fs):
    return [f for f in fs if len(f) == 2] + [f for f in fs if len(f) > 2]


def cls(name, fields, version=None, rules=None):
    ns = {}
    if version is not None:
        ns = {"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules or {})}
    return make_dataclass(name, order(fields), bases=(Versioned,) if version is not None else (), namespace=ns)


WRAP = {
    "plain": lambda T: T,
    "optional": lambda T: Optional[T],
    "list": lambda T: List[T],
    "tuple": lambda T: Tuple[T, int],
    "dict": lambda T: Dict[str, T],
    "deep": lambda T: T,
}


def pair(ctx, edits, count, wrap, whole=True, new_version=0, rules=None):
    """An old class, a new one, and the reports their differences call for:
    (severity, change, path, ...)."""
    places = [(), (), ("nn",), ("nn",)] + [("oo", "ii") if wrap == "deep" else ("oo",)] * 2
    names = ["aaa", "bbb", "ccc", "ddd", "eee", "fff"]
    slots = []
    left = count
    first = 0
    for i, (path, name) in enumerate(zip(places, names)):
        e = "same"
        if left and (left > len(places) - 1 - i or ctx.flag("differs " + name)):
            left -= 1
            e = ctx.choose("edit " + name, edits)
        slots.append((path, slot(ctx, e, list(path), name)))
    reports = [r for _, s in slots for r in s.reports]
    gone = ctx.choose("whole object", ["kept", "removed", "added"]) if whole else "kept"

    def side(which):
        by = {}
        for path, s in slots:
            f = getattr(s, which)
            by.setdefault(path, [])
            if f is not None:
                by[path].append(f)
        inner = cls("Inner", by[places[-1]])
        if wrap == "deep":
            inner = cls("Outer", [("ii", inner)])
        fields = by[()] + [("nn", cls("Nested", by[("nn",)])), ("oo", WRAP[wrap](inner))]
        if gone == ("removed" if which == "old" else "added"):
            fields.append(("gg", cls("Gone", [("ggg", int), ("hhh", float, 2.5), ("kk", cls("Kept", [("jjj", str)]))])))
        return fields

    old, new = cls("Conf", side("old"), 0), cls("Conf", side("new"), new_version, rules)
    if gone == "removed":
        reports += [(W, FieldRemoved, ("gg", "ggg")), (W, FieldRemoved, ("gg", "hhh")), (W, FieldRemoved, ("gg", "kk", "jjj"))]
    elif gone == "added":
        reports += [(E, FieldAdded, ("gg", "ggg")), (I, FieldAdded, ("gg", "hhh")), (E, FieldAdded, ("gg", "kk", "jjj"))]
    return old, new, reports


def parts(c):
    "What a change says."
    p = tuple(c.field)
    k = type(c)
    if k is FieldRenamed:
        return (p, tuple(c.new_name))
    if k is DefaultValueChanged:
        return (p, c.old, c.new)
    if k is DefaultValueRemoved:
        return (p, c.old)
    if k is EnumVariantAdded or k is EnumVariantRemoved:
        return (p, c.variant, c.variant_value)
    if k is EnumVariantValueChanged:
        return (p, c.variant, c.old_value, c.new_value)
    if k is EnumVariantRenamed:
        return (p, c.old_variant_name, c.new_variant_name)
    if k is LiteralValuesAdded or k is LiteralValuesRemoved:
        return (p, set(c.values))
    return (p,)


def matches(ctx, changes, reports):
    left = list(reports)
    for c in changes:
        for r in left:
            if r[1] is type(c) and tuple(r[2]) == tuple(c.field) and len(parts(c)) == len(r) - 2 and all(ctx.same(a, b) for a, b in zip(parts(c)[1:], r[3:])):
                left.remove(r)
                break
        else:
            return "reported without reason: %s %s" % (type(c).__name__, ".".join(c.field))
    if left:
        return "not reported: %s %s" % (left[0][1].__name__, ".".join(left[0][2]))
    return None


RULE = {FieldRemoved: DeleteField, FieldRenamed: RenameField, FieldAdded: AddDefault, DefaultValueChanged: ChangeDefault, DefaultValueRemoved: AddDefault, EnumVariantValueChanged: MapFieldValue, LiteralValuesRemoved: RejectValues}
LEVELS = {"INFO": Severity.INFO, "WARN": Severity.WARN, "ERROR": Severity.ERROR}


def worst(reports):
    return max([r[0] for r in reports], key=[I, W, E].index) if reports else I


def check(ctx, edits, count, wraps, whole, files=True):
    wrap = ctx.choose("wrap", wraps)
    old, new, reports = pair(ctx, edits, count, wrap, whole)
    schema = t.materialize_type(old)
    if files and ctx.flag("file"):
        d = ctx.tmp()
        dump_schema(d + "/s.ron", old)
        schema = t.load_schema(d + "/s.ron")
    ck = SchemaChecker(schema, new)
    ctx.observe("changes", [(type(c).__name__, parts(c)) for c in ck.changes])
    bad = matches(ctx, ck.changes, reports)
    ctx.check(bad is None, bad or "", reported=[(type(c).__name__, parts(c)) for c in ck.changes], expect=[r[1:] for r in reports])
    for c in ck.changes:
        for r in reports:
            if r[1] is type(c) and tuple(r[2]) == tuple(c.field):
                ctx.check(c.severity() == LEVELS[r[0]], "a difference has the wrong severity", change=type(c).__name__, path=c.field, severity=c.severity())
    ctx.check(ck.severity() == LEVELS[worst(reports)], "the severity is not that of the worst difference", severity=ck.severity(), expect=worst(reports))
    # proposals: one for each difference that a rule can mend
    rules = [(type(f), tuple(getattr(f, "old_field", getattr(f, "field", ())))) for f in ck.proposed_fixes]
    expect = []
    for r in reports:
        if r[0] == W:
            k = RULE.get(r[1])
            if r[1] is TypeChanged:
                k = MapFieldValue if "to list" in edits_of(reports, r, new) else CheckValue
            expect.append((k, tuple(r[2])))
    ctx.check(sorted(rules, key=str) == sorted(expect, key=str), "other rules are proposed", rules=rules, expect=expect)
    report(ctx, ck, reports)
    ctx.reach(worst(reports))
    for r in reports:
        ctx.reach(r[1].__name__)


def edits_of(reports, r, new):
    T = new
    for seg in r[2]:
        if typing.get_origin(T) is not None:
            T = T.__args__[0] if typing.get_origin(T) is not dict else T.__args__[1]
        T = T.__dataclass_fields__[seg].type
    return ["to list"] if typing.get_origin(T) is list else []


WORD = {"INFO": "info", "WARN": "warn", "ERROR": "error"}


def report(ctx, ck, reports):
    "What is printed names every difference with its severity, and the verdict."
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ck.print_report()
    lines = unstyle(out.getvalue()).splitlines()
    for r in reports:
        tail = ": " + ".".join(r[2])
        told = [l for l in lines if l.startswith(WORD[r[0]] + " ") and l.endswith(tail)]
        ctx.check(len(told) >= 1, "a difference is not in the report", missing=r[1].__name__, path=r[2], report=lines)
        said = [l[:-len(tail)].split() for l in told]
        if r[1] is FieldRenamed:
            ctx.check(any(".".join(r[3]) in l for l in said), "the report does not name the new field", report=told)
        elif r[1] is EnumVariantRenamed:
            ctx.check(any(r[3] in l and r[4] in l for l in said), "the report does not name the variants", report=told)
        elif r[1] in (EnumVariantAdded, EnumVariantRemoved, EnumVariantValueChanged):
            ctx.check(any(any(x.endswith(r[3]) for x in l) for l in said), "the report does not name the variant", report=told)
        elif r[1] in (LiteralValuesAdded, LiteralValuesRemoved):
            # (the field is named as well)
            said = [re.findall(r"\w+", l[:-len(tail)]) for l in told]
            ctx.check(any(all(w in l for v in r[3] for w in str(v).split()) for l in said), "the report does not name the values", report=told)
        elif r[1] is FieldAdded:
            ctx.check(any(("without" in l) == (r[0] != I) for l in said), "the report is wrong about the default", report=told)
    ok = worst(reports) == I
    ctx.check(("Schema compatible" in lines) == ok and ("Schema incompatible" in lines) == (not ok), "the report gives the wrong verdict", report=lines)


def place_fields(side, extra=()):
    "A class from (path, name) -> field."
    by = {(): [], ("nn",): [], ("oo", "ii"): []}
    for (path, name), f in side.items():
        by[path].append(f)
    return cls("Conf", by[()] + [("nn", cls("Nested", by[("nn",)])), ("oo", cls("Outer", [("ii", cls("Inner", by[("oo", "ii")]))]))] + list(extra), 0)


NEW = [((), "alphas"), (("nn",), "alphas"), (("oo", "ii"), "alpha"), (("oo", "ii"), "alpha_s")]


def renames(ctx, kinds, news):
    """Similar fields that go and come: each is reported once, as a removal,
    as an addition, or together with one that it can become."""

    def typed(at, name):
        k = ctx.choose("kind " + at, kinds)
        if k == "null=":
            return ("opt", (name, Optional[int], None))
        T = {"int": int, "float": float, "str": str, "opt": Optional[int]}[k.rstrip("=")]
        return (k.rstrip("="), (name, T, ctx.int("d" + at, -10 ** 9, 10 ** 9)) if k.endswith("=") else (name, T))

    old = {((), "alpha"): typed("a", "alpha"), (("nn",), "alpha"): typed("b", "alpha")}
    i = ctx.choose("first new", len(news) - 1)
    j = i + 1 + ctx.choose("second new", len(news) - 1 - i)
    new = {news[i]: typed("c", news[i][1]), news[j]: typed("d", news[j][1])}
    ck = SchemaChecker(t.materialize_type(place_fields({k: f for k, (_, f) in old.items()})), place_fields({k: f for k, (_, f) in new.items()}))
    ctx.observe("changes", [(type(c).__name__, parts(c)) for c in ck.changes])
    gone = {tuple(p) + (n,): v for (p, n), v in old.items()}
    come = {tuple(p) + (n,): v for (p, n), v in new.items()}

    def can(g, c):
        (a, f), (b, h) = gone[g], come[c]
        if not (a == b or (a, b) in (("int", "float"), ("int", "opt"))) or len(f) != len(h):
            return False
        return len(f) == 2 or bool(f[2] == h[2])

    lost, found, pairs = [], [], []
    for c in ck.changes:
        p = tuple(c.field)
        if type(c) is FieldRemoved:
            lost.append(p)
        elif type(c) is FieldAdded:
            found.append(p)
        elif type(c) is FieldRenamed:
            pairs.append((p, tuple(c.new_name)))
        else:
            ctx.fail("reported without reason", change=c)
    ctx.check(sorted(lost + [p for p, _ in pairs]) == sorted(gone), "a field that is gone is not reported once", lost=lost, renamed=pairs, expect=sorted(gone))
    ctx.check(sorted(found + [p for _, p in pairs]) == sorted(come), "a new field is not reported once", found=found, renamed=pairs, expect=sorted(come))
    for g, c in pairs:
        ctx.check(can(g, c), "a field is said to have become one that it cannot be", old=g, new=c)
        ctx.reach("renamed")
        # the same name elsewhere comes before another name
        if g[-1] != c[-1]:
            for c2 in come:
                if c2[-1] == g[-1] and can(g, c2):
                    ctx.check(any(g2[-1] == c2[-1] and k == c2 for g2, k in pairs), "a field that only moved is taken for another", old=g, new=c, moved=c2)
    for g in lost:
        ctx.reach("gone")
        for c in found:
            ctx.check(not can(g, c), "a renamed field is reported as gone", old=g, new=c)
    rules = [type(f) for f in ck.proposed_fixes]
    ctx.check(rules.count(DeleteField) == len(lost) and rules.count(RenameField) == len(pairs), "other rules are proposed", rules=rules)


VARIANTS = ["same", "member added", "member removed", "member re-valued", "member renamed", "member renamed and re-valued"]


def variants(ctx):
    "Enums that change in two fields of the same name."
    olds, news, reports = {}, {}, []
    for path in ((), ("nn",)):
        e = ctx.choose("edit" + "".join(path), VARIANTS)
        a, b = enums(e)
        p = tuple(path) + ("kk",)
        olds[path, "kk"], news[path, "kk"] = ("kk", a), ("kk", b)
        reports += {
            "same": [],
            "member added": [(I, EnumVariantAdded, p, "ZZ", 7)],
            "member removed": [(E, EnumVariantRemoved, p, "B", 2)],
            "member re-valued": [(W, EnumVariantValueChanged, p, "A", "a", "x")],
            "member renamed": [(I, EnumVariantRenamed, p, "B", "B_")],
            "member renamed and re-valued": [(W, EnumVariantValueChanged, p, "B", 2, 5)],
        }[e]
    B1, B2 = enums("member removed"), enums("member renamed")
    if ctx.flag("third"):
        # a removal and an addition that would be a rename in one field
        olds[("oo", "ii"), "kk"], news[("oo", "ii"), "kk"] = ("kk", B1[0]), ("kk", B1[1])
        reports.append((E, EnumVariantRemoved, ("oo", "ii", "kk"), "B", 2))
        olds[("oo", "ii"), "jj"], news[("oo", "ii"), "jj"] = ("jj", B1[1]), ("jj", enum.Enum("Kind", [("A", "a"), ("B_", 2)]))
        reports.append((I, EnumVariantAdded, ("oo", "ii", "jj"), "B_", 2))
    ck = SchemaChecker(t.materialize_type(place_fields(olds)), place_fields(news))
    bad = matches(ctx, ck.changes, reports)
    ctx.check(bad is None, bad or "", reported=[(type(c).__name__, parts(c)) for c in ck.changes], expect=[r[1:] for r in reports])
    ctx.check(ck.severity() == LEVELS[worst(reports)], "the severity is not that of the worst difference", severity=ck.severity(), expect=worst(reports))
    report(ctx, ck, reports)
    ctx.reach(worst(reports))


CASES = [
    {"name": "renames", "fn": renames, "params": {"kinds": ["int", "int=", "str"], "news": NEW}, "reach": ["renamed", "gone"], "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 60},
    {"name": "renames, null", "fn": renames, "params": {"kinds": ["int", "opt", "null="], "news": NEW}, "reach": ["renamed", "gone"], "quick_s": 60, "shards": 4, "depth": 3, "max_witnesses": 60},
    {"name": "more renames", "fn": renames, "params": {"kinds": ["int", "int=", "float", "str", "opt"], "news": NEW}, "reach": ["renamed", "gone"], "thorough_only": True, "thorough_s": 700, "shards": 8, "depth": 4},
    {"name": "variants", "fn": variants, "params": {}, "reach": ["INFO", "WARN", "ERROR"], "quick_s": 60},
    {"name": "one difference", "fn": check, "params": {"edits": EDITS, "count": 1, "wraps": sorted(WRAP), "whole": False}, "reach": ["INFO", "WARN", "ERROR", "FieldRenamed", "TypeChanged", "DefaultValueChanged", "EnumVariantRenamed", "LiteralValuesRemoved"], "quick_s": 90, "shards": 4, "depth": 3, "max_witnesses": 80},
    {"name": "two differences", "fn": check, "params": {"edits": PAIRED, "count": 2, "wraps": ["plain"], "whole": False, "files": False}, "reach": ["INFO", "WARN", "ERROR"], "quick_s": 90, "shards": 8, "depth": 4, "max_witnesses": 80},
    {"name": "whole objects", "fn": check, "params": {"edits": ["same", "default changed", "added", "removed"], "count": 1, "wraps": sorted(WRAP), "whole": True}, "reach": ["INFO", "WARN", "ERROR"], "quick_s": 60, "shards": 2, "max_witnesses": 60},
    {"name": "two differences, all", "fn": check, "params": {"edits": EDITS, "count": 2, "wraps": sorted(WRAP), "whole": True}, "reach": ["INFO", "WARN", "ERROR"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 5},
    {"name": "three differences", "fn": check, "params": {"edits": PAIRED, "count": 3, "wraps": ["optional", "deep"], "whole": False}, "reach": ["WARN", "ERROR"], "thorough_only": True, "thorough_s": 700, "shards": 16, "depth": 5},
]
