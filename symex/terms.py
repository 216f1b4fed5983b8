"""Hash-consed terms printed as SMT-LIB2.

Sorts: 'Bool', 'Int', 'Real'.  Constants are folded when a term is built, so a
term whose value is fixed never reaches the solver.
"""
from fractions import Fraction

_table = {}


class Term(object):
    __slots__ = ("op", "args", "sort", "val", "id", "uf")

    def __repr__(self):
        return render(self)


_next = [0]


def _mk(op, args, sort, val=None):
    key = (op, sort, val if val is None else (type(val).__name__, val)) + tuple(
        a.id for a in args
    )
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.val = val
        t.uf = op in ("cosr", "sinr", "expr") or any(a.uf for a in args)
        _next[0] += 1
        t.id = _next[0]
        _table[key] = t
    return t


def reset():
    _table.clear()


def const(v, sort):
    return _mk("const", (), sort, v)


def tt():
    return const(True, "Bool")


def ff():
    return const(False, "Bool")


def boolc(b):
    return const(bool(b), "Bool")


def intc(i):
    return const(int(i), "Int")


def realc(f):
    return const(Fraction(f), "Real")


def var(name, sort):
    return _mk("var", (), sort, name)


def is_const(t):
    return t.op == "const"


def not_(a):
    if a.op == "const":
        return boolc(not a.val)
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "Bool")


def and_(*xs):
    out = []
    for x in xs:
        if x.op == "const":
            if not x.val:
                return x
            continue
        if x not in out:
            out.append(x)
    if not out:
        return tt()
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "Bool")


def or_(*xs):
    out = []
    for x in xs:
        if x.op == "const":
            if x.val:
                return x
            continue
        if x not in out:
            out.append(x)
    if not out:
        return ff()
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "Bool")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c.op == "const":
        return a if c.val else b
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


def eq(a, b):
    if a is b:
        return tt()
    a, b = unify(a, b)
    if a is b:
        return tt()
    if a.op == "const" and b.op == "const":
        return boolc(a.val == b.val)
    if a.id > b.id:
        a, b = b, a
    return _mk("=", (a, b), "Bool")


def unify(a, b):
    if a.sort == b.sort:
        return a, b
    return to_real(a), to_real(b)


def b2i(a):
    return ite(a, intc(1), intc(0))


def to_real(a):
    if a.sort == "Real":
        return a
    if a.sort == "Bool":
        a = b2i(a)
    if a.op == "const":
        return realc(a.val)
    return _mk("to_real", (a,), "Real")


def floor(a):
    if a.sort == "Int":
        return a
    if a.op == "const":
        return intc(a.val.__floor__())
    if a.op == "to_real":
        return a.args[0]
    return _mk("to_int", (a,), "Int")


def _cmp(op, a, b, f):
    a, b = unify(a, b)
    if a.op == "const" and b.op == "const":
        return boolc(f(a.val, b.val))
    return _mk(op, (a, b), "Bool")


def lt(a, b):
    if a is b:
        return ff()
    return _cmp("<", a, b, lambda x, y: x < y)


def le(a, b):
    if a is b:
        return tt()
    return _cmp("<=", a, b, lambda x, y: x <= y)


def add(a, b):
    a, b = unify(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.val + b.val, a.sort)
    if a.op == "const" and a.val == 0:
        return b
    if b.op == "const" and b.val == 0:
        return a
    return _mk("+", (a, b), a.sort)


def neg(a):
    if a.op == "const":
        return const(-a.val, a.sort)
    return _mk("-", (a,), a.sort)


def sub(a, b):
    a, b = unify(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.val - b.val, a.sort)
    if b.op == "const" and b.val == 0:
        return a
    if a is b:
        return const(a.val * 0 if a.op == "const" else (0 if a.sort == "Int" else Fraction(0)), a.sort)
    return _mk("-", (a, b), a.sort)


def mul(a, b):
    a, b = unify(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if y.op == "const":
                return const(x.val * y.val, a.sort)
            if x.val == 0:
                return x
            if x.val == 1:
                return y
    return _mk("*", (a, b), a.sort)


def div(a, b):
    "Real division; the caller has excluded b == 0."
    a, b = to_real(a), to_real(b)
    if a.op == "const" and b.op == "const":
        return realc(a.val / b.val)
    if b.op == "const" and b.val == 1:
        return a
    return _mk("/", (a, b), "Real")


def idiv(a, b):
    "Python floor division on Int; b != 0 excluded by the caller."
    if a.op == "const" and b.op == "const":
        return intc(a.val // b.val)
    pos = _mk("div", (a, b), "Int")
    if b.op == "const" and b.val > 0:
        return pos
    # SMT div rounds so that the remainder is non-negative
    return ite(
        lt(intc(0), b),
        pos,
        _mk("div", (neg(a), neg(b)), "Int"),
    )


def imod(a, b):
    if a.op == "const" and b.op == "const":
        return intc(a.val % b.val)
    if b.op == "const" and b.val > 0:
        return _mk("mod", (a, b), "Int")
    return sub(a, mul(b, idiv(a, b)))


def uf(name, a):
    return _mk(name, (to_real(a),), "Real")


def lit(t):
    v = t.val
    if t.sort == "Bool":
        return "true" if v else "false"
    if t.sort == "Int":
        return str(v) if v >= 0 else "(- %d)" % -v
    n, d = v.numerator, v.denominator
    s = "%d.0" % abs(n) if d == 1 else "(/ %d.0 %d.0)" % (abs(n), d)
    return s if n >= 0 else "(- %s)" % s


def symbol(v):
    "A variable's name in scripts (the sort keeps paths apart)."
    return "|%s:%s|" % (v.val, v.sort)


def render(t, names=None):
    if t.op == "const":
        return lit(t)
    if t.op == "var":
        return symbol(t)
    if names is not None and t.id in names:
        return names[t.id]
    return "(%s %s)" % (t.op, " ".join(render(a, names) for a in t.args))


def variables(ts):
    seen = set()
    out = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "var":
            out.append(t)
        stack.extend(t.args)
    return out


def evaluate(t, env, memo=None):
    """Value of t under env (name -> python value); None when it needs an
    uninterpreted function."""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    op = t.op
    if op == "const":
        r = t.val
    elif op == "var":
        r = env.get(t.val)
        if r is None:
            r = {"Bool": False, "Int": 0, "Real": Fraction(0)}[t.sort]
    elif t.uf:
        r = None
    elif op == "ite":
        c = evaluate(t.args[0], env, memo)
        r = evaluate(t.args[1] if c else t.args[2], env, memo)
    else:
        a = [evaluate(x, env, memo) for x in t.args]
        if op == "not":
            r = not a[0]
        elif op == "and":
            r = all(a)
        elif op == "or":
            r = any(a)
        elif op == "=":
            r = a[0] == a[1]
        elif op == "<":
            r = a[0] < a[1]
        elif op == "<=":
            r = a[0] <= a[1]
        elif op == "+":
            r = a[0] + a[1]
        elif op == "-":
            r = -a[0] if len(a) == 1 else a[0] - a[1]
        elif op == "*":
            r = a[0] * a[1]
        elif op == "/":
            r = Fraction(a[0]) / a[1] if a[1] != 0 else Fraction(0)
        elif op == "div":
            if a[1] == 0:
                r = 0
            elif a[1] > 0:
                r = a[0] // a[1]
            else:
                r = -(a[0] // -a[1])
        elif op == "mod":
            r = a[0] % abs(a[1]) if a[1] != 0 else a[0]
        elif op == "to_real":
            r = Fraction(a[0])
        elif op == "to_int":
            r = Fraction(a[0]).__floor__()
        else:
            raise AssertionError(op)
    memo[t.id] = r
    return r
