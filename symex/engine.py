"""Path exploration by re-execution.

A harness is a function of one argument, the context.  In a symbolic run the
context hands out proxies for solver variables and every branch whose condition
depends on them is decided with the solver; in a concrete run (replay) the same
harness runs with the values of one assignment on the untouched code.
"""
import gc
import os
import random
import shutil
import sys
import tempfile
import time
from fractions import Fraction

from . import terms as T
from .solver import Solver, SolverError, one_shot

CURRENT = None  # the active context


class Control(BaseException):
    "Exceptions that steer the exploration; code under test must not see them."


class Infeasible(Control):
    pass


class Budget(Control):
    pass


class OtherShard(Control):
    pass


class Unsupported(Control):
    pass


class PathEnd(Control):
    pass


class ReplayDone(Control):
    pass


def is_panic(e):
    return type(e).__name__ == "PanicException"


class Base(object):
    symbolic = False

    def __init__(self):
        self.names = {}
        self.tmpdirs = []
        self.observations = []
        self.trail = []
        self.reached = []

    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def tmp(self):
        base = os.environ.get("HSV_TMP") or tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix="hsv-", dir=base)
        d = os.path.realpath(d)
        self.tmpdirs.append(d)
        return d

    def cleanup(self):
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.tmpdirs = []

    def reach(self, label):
        self.reached.append(label)

    def attempt(self, f, *args, **kw):
        try:
            return True, f(*args, **kw)
        except Exception as e:
            return False, e
        except (Control, SolverError, KeyboardInterrupt, GeneratorExit):
            raise
        except SystemExit as e:
            return False, e
        except BaseException as e:
            if is_panic(e):
                return False, e
            raise

    def flag(self, name):
        "A structural yes/no choice."
        return self.choose(name, [False, True])


# --------------------------------------------------------------- symbolic run


class Ctx(Base):
    symbolic = True

    def __init__(self, ex, prefix):
        Base.__init__(self)
        self.ex = ex
        self.solver = ex.solver
        self.prefix = prefix
        self.taken = []
        self.path = []  # asserted terms
        self.pushed = False
        self.nchoose = 0
        self.shard_key = []
        self.choices = {}
        self.inputs = []  # variable terms in creation order
        self.types = {}  # name -> python type
        self.sentinels = {}
        self.by_proxy = {}
        self.nsent = 0
        self.lossy = []
        self.cos_apps = []
        self.keyreps = []
        self.violation = None
        self.checks = 0
        self.unknown = []
        self.model_env = None

    # -- solver ----------------------------------------------------------
    def _assert(self, t):
        if t.op == "const":
            if not t.val:
                raise Infeasible()
            return
        self.path.append(t)
        self.solver.add(t)

    def assume(self, cond):
        t = self.term(cond)
        if t.op == "const":
            if not t.val:
                raise Infeasible()
            return
        self._assert(t)
        if self.model_env is not None and self._eval(t):
            return
        self.model_env = None
        # while replaying a prefix the constraint is already known feasible
        if len(self.taken) >= len(self.prefix):
            if self.solver.check() == "unsat":
                raise Infeasible()

    def term(self, cond):
        if isinstance(cond, T.Term):
            return cond
        from .proxies import SymBool, Proxy

        if type(cond) is SymBool:
            return cond.t
        if isinstance(cond, Proxy):
            return self.term(cond._truth())
        return T.boolc(bool(cond))

    def _eval(self, t):
        if t.uf:
            return None
        try:
            return T.evaluate(t, self.model_env)
        except Exception:
            return None

    def branch(self, t):
        """Decide a Bool term on this path."""
        if t.op == "const":
            return t.val
        # already implied literally
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self._assert(t if d else T.not_(t))
            self.model_env = None
            return d
        self.ex.tick()
        pos = neg = None
        if self.model_env is not None:
            v = self._eval(t)
            if v is True:
                pos = "sat"
            elif v is False:
                neg = "sat"
        if pos is None:
            pos = self._feasible(t)
        if neg is None:
            neg = self._feasible(T.not_(t))
        if pos == "unsat" and neg == "unsat":
            raise Infeasible()
        if pos == "unsat" or neg == "unsat":
            # forced: recorded so that re-execution stays aligned
            d = neg == "unsat"
            self.taken.append(d)
            return d
        if "unknown" in (pos, neg):
            self.unknown.append("branch")
        self.ex.forks += 1
        self.ex.push_work(self.taken + [False])
        self.taken.append(True)
        self._assert(t)
        if self.model_env is not None and self._eval(t) is not True:
            self.model_env = None
        return True

    def _feasible(self, t):
        """Checks path and t; keeps the model as a cache when sat."""
        vs = self.inputs
        r, env = self.solver.model(vs, [t]) if len(vs) <= 40 else (
            self.solver.check([t]),
            None,
        )
        if r == "sat" and env is not None and all(
            v is not None for v in env.values()
        ):
            self._cand = env
            if self.model_env is None:
                self.model_env = env
        return r

    # -- inputs ----------------------------------------------------------
    def _var(self, name, sort, typ):
        name = self.fresh(name)
        v = T.var(name, sort)
        self.inputs.append(v)
        self.types[name] = typ
        if self.model_env is not None:
            self.model_env = dict(self.model_env)
            self.model_env[name] = {
                "Bool": False,
                "Int": 0,
                "Real": Fraction(0),
            }[sort]
        return v

    def _range(self, v, lo, hi):
        c = []
        if lo is not None:
            c.append(T.le(T.realc(lo) if v.sort == "Real" else T.intc(lo), v))
        if hi is not None:
            c.append(T.le(v, T.realc(hi) if v.sort == "Real" else T.intc(hi)))
        for t in c:
            self._assert(t)
            if self.model_env is not None and self._eval(t) is not True:
                self.model_env = None

    def int(self, name, lo=-(2 ** 63), hi=2 ** 63 - 1):
        from .proxies import SymInt

        v = self._var(name, "Int", "int")
        self._range(v, lo, hi)
        return SymInt(v)

    def real(self, name, lo=None, hi=None):
        from .proxies import SymFloat

        v = self._var(name, "Real", "float")
        self._range(v, lo, hi)
        return SymFloat(v)

    def bool(self, name):
        from .proxies import SymBool

        return SymBool(self._var(name, "Bool", "bool"))

    def str(self, name, maxlen=3, minlen=0, alphabet=None):
        """String of symbolic printable characters; the length is a case
        split."""
        from .proxies import SymStr

        n = minlen + self.choose(name + ".len", maxlen - minlen + 1)
        chars = []
        for i in range(n):
            v = self._var("%s.%d" % (name, i), "Int", "char")
            self._range(v, 32, 126)
            if alphabet is not None:
                self._assert(T.or_(*[T.eq(v, T.intc(ord(c))) for c in alphabet]))
                self.model_env = None
            chars.append(v)
        return SymStr(chars)

    def choose(self, name, options):
        if isinstance(options, int):
            options = list(range(options))
        options = list(options)
        if not options:
            raise Infeasible()
        name = self.fresh(name)
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1):
                self.ex.push_work(self.taken + [j])
            if len(options) > 1:
                self.ex.forks += 1
            self.ex.tick()
        self.taken.append(k)
        self.choices[name] = k
        self._shard(k)
        return options[k]

    def _shard(self, k):
        self.nchoose += 1
        d, i, n = self.ex.shard
        if n > 1 and self.nchoose <= d:
            self.shard_key.append(k)
            if self.nchoose == d:
                h = 0
                for x in self.shard_key:
                    h = h * 31 + int(x) + 7
                h = (h * 2654435761) & 0xFFFFFFFF
                if (h >> 7) % n != i:
                    raise OtherShard()

    # -- verdicts --------------------------------------------------------
    def check(self, cond, label, **info):
        """The assertion: holds for every value on this path, or a violation."""
        self.checks += 1
        self.ex.asserts += 1
        t = self.term(cond)
        if t.op == "const" and t.val:
            return
        neg = T.not_(t)
        r, env = self._solve(neg)
        if r == "unsat":
            return
        if r == "unknown":
            self.unknown.append("assert:" + label)
            return
        self.violation = {
            "label": label,
            "info": {k: self._show(v) for k, v in info.items()},
            "candidates": self._candidates(neg, env),
        }
        raise PathEnd()

    def fail(self, label, **info):
        self.check(T.ff(), label, **info)

    def _show(self, v):
        try:
            return repr(v)[:300]
        except Exception as e:
            return "<%s>" % type(e).__name__

    def _solve(self, neg):
        vs = self.inputs
        r, env = self.solver.model(vs, [neg])
        if r == "unknown":
            r, env = one_shot(self.path + [neg], timeout_s=self.ex.oneshot_s)
            self.ex.oneshots += 1
        if r == "unsat" and self.ex.cross and not neg.uf:
            self.ex.cross_check(self.path + [neg])
        return r, env

    def nice(self):
        "Constraints that make reals dyadic and readable."
        out = []
        for v in self.inputs:
            if v.sort == "Real":
                k = T.var("nice!" + v.val, "Int")
                out.append(T.eq(v, T.div(T.to_real(k), T.realc(8))))
        return out

    def small(self):
        out = []
        for v in self.inputs:
            if v.sort in ("Int", "Real") and self.types.get(v.val) != "char":
                c = T.realc if v.sort == "Real" else T.intc
                out.append(T.le(c(-1000), v))
                out.append(T.le(v, c(1000)))
        return out

    def _candidates(self, neg, env):
        """Assignments to try on the real code, friendliest first."""
        cands = []
        vs = self.inputs
        nice, small = self.nice(), self.small()
        for extra in ([neg] + nice + small, [neg] + nice, [neg]):
            if extra == [neg] and env and all(v is not None for v in env.values()):
                e = env
                r = "sat"
            else:
                r, e = self.solver.model(vs, extra)
                if r == "unknown":
                    r, e = one_shot(self.path + extra, timeout_s=5)
            if r == "sat" and e is not None:
                a = self.assignment(e)
                if a not in cands:
                    cands.append(a)
        # further, different models
        uf = neg.uf or any(p.uf for p in self.path)
        block = []
        for _ in range(12 if uf else 3):
            if not cands:
                break
            e = {v.val: self._raw(cands[-1], v) for v in vs}
            diff = []
            for v in vs:
                if v.sort == "Real" and e[v.val] is not None:
                    diff.append(T.not_(T.eq(v, T.realc(e[v.val]))))
                elif v.sort == "Int" and e[v.val] is not None:
                    diff.append(T.not_(T.eq(v, T.intc(e[v.val]))))
            if not diff:
                break
            block.append(T.or_(*diff) if not uf else T.and_(*diff[:3]))
            r, e = self.solver.model(vs, [neg] + nice + block)
            if r != "sat":
                break
            a = self.assignment(e)
            if a in cands:
                break
            cands.append(a)
        return cands

    def _raw(self, a, v):
        x = a["values"].get(v.val)
        if isinstance(x, list):
            return Fraction(x[0], x[1])
        return x

    def assignment(self, env):
        vals = {}
        for v in self.inputs:
            x = env.get(v.val)
            if x is None:
                x = {"Bool": False, "Int": 0, "Real": Fraction(0)}[v.sort]
            if v.sort == "Real":
                x = Fraction(x)
                x = [x.numerator, x.denominator]
            vals[v.val] = x
        return {"choices": dict(self.choices), "values": vals}

    def witness(self):
        """A model of the finished path, or None."""
        vs = self.inputs
        if not vs:
            return {}
        for extra in (self.nice() + self.small(), self.nice(), []):
            if not extra and not any(v.sort == "Real" for v in vs):
                pass
            r, env = self.solver.model(vs, extra)
            if r == "sat":
                if any(v is None for v in env.values()):
                    continue
                return env
        return None

    def observe(self, label, value):
        self.observations.append((label, freeze(value)))

    def reset_observed(self):
        pass

    # -- text ------------------------------------------------------------
    def sentinel(self, proxy, style=None):
        """A numeral or word that stands for a symbolic value in native text."""
        from .proxies import SymInt, SymFloat, SymStr

        key = (proxy.key(), style)
        s = self.by_proxy.get(key)
        if s is not None:
            return s
        self.nsent += 1
        k = self.nsent
        if type(proxy) is SymInt:
            n = 70000000000 + k
            if style == "neg":
                n = -n
            self.sentinels[n] = proxy
            s = n
        elif type(proxy) is SymFloat:
            if style == "neg":
                s = -(90000000.25 + k)
            elif style == "int":
                s = 80000000 + k
            elif style == "exp":
                s = (60000000 + k) * 1e6
            else:
                s = 90000000.25 + k
            self.sentinels[s] = proxy
        elif type(proxy) is SymStr:
            s = "hsvWord%dz" % k
            self.sentinels[s] = proxy
        else:
            raise Unsupported("sentinel for %r" % type(proxy))
        self.by_proxy[key] = s
        return s

    def numeral(self, x, style="plain"):
        """Text of a number as a person would write it in a config."""
        from .proxies import SymInt, SymFloat, Proxy

        if not isinstance(x, Proxy):
            return numeral_text(x, style)
        if type(x) is SymInt:
            if style == "neg":
                self.assume(x < 0)
                return str(self.sentinel(x, "neg"))
            return str(self.sentinel(x))
        if style == "neg":
            self.assume(x < 0)
            return repr(self.sentinel(x, "neg"))
        if style == "int":
            self.assume(T.and_(T.le(T.realc(0), x.t), T.eq(x.t, T.to_real(T.floor(x.t)))))
            self.assume(x < 2 ** 53)
            return str(self.sentinel(x, "int"))
        if style == "exp":
            self.assume(x >= 0)
            s = self.sentinel(x, "exp")
            return "%de6" % int(s / 1e6)
        return repr(self.sentinel(x))

    def same(self, a, b, **kw):
        return same(a, b, **kw)


def numeral_text(x, style):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, int):
        return str(x)
    if style == "int" and x == int(x):
        return str(int(x))
    if style == "exp":
        t = repr(x / 1e6)
        if "e" not in t and float(t + "e6") == x:
            return t + "e6"
    t = repr(float(x))
    if "e" in t:
        t2 = "%.30f" % x
        t2 = t2.rstrip("0")
        if t2.endswith("."):
            t2 += "0"
        if float(t2) == x:
            t = t2
    return t


def freeze(v):
    """A comparable, replayable picture of a value (terms stay terms)."""
    from .proxies import Proxy, SymBool, SymInt, SymFloat, SymStr
    import dataclasses
    import enum

    if isinstance(v, T.Term):
        return ("term", {"Bool": "bool", "Int": "int", "Real": "float"}[v.sort], v)
    tv = type(v)
    if tv is SymBool:
        return ("term", "bool", v.t)
    if tv is SymInt:
        return ("term", "int", v.t)
    if tv is SymFloat:
        return ("term", "float", v.t)
    if tv is SymStr:
        return ("str", list(v.c))
    if v is None or tv in (bool, int, float, str, bytes):
        return ("const", v if tv is not bytes else v.decode("latin-1"))
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__ + "." + v.name)
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (
            "obj",
            type(v).__name__,
            [(f, freeze(getattr(v, f))) for f in v.__dataclass_fields__],
        )
    if isinstance(v, dict):
        return ("dict", [(freeze(k), freeze(x)) for k, x in v.items()])
    if isinstance(v, tuple):
        return ("tuple", [freeze(x) for x in v])
    if isinstance(v, list):
        return ("list", [freeze(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("const", sorted(map(str, v)))
    if isinstance(v, BaseException):
        return ("exc", exc_name(v))
    if isinstance(v, type):
        return ("type", v.__name__)
    return ("repr", type(v).__name__)


def exc_name(e):
    return type(e).__name__


def thaw(fz, env, memo):
    """Evaluates a frozen picture under a model: nested lists of constants;
    '?' where an uninterpreted function is involved."""
    k = fz[0]
    if k == "term":
        v = T.evaluate(fz[2], env, memo)
        if v is None:
            return "?"
        if fz[1] == "float":
            return ["n", float(v)]
        if fz[1] == "bool":
            return ["b", bool(v)]
        return ["n", int(v)]
    if k == "str":
        out = ""
        for c in fz[1]:
            v = T.evaluate(c, env, memo)
            if v is None:
                return "?"
            out += chr(v)
        return ["s", out]
    if k == "const":
        v = fz[1]
        if isinstance(v, bool):
            return ["b", v]
        if isinstance(v, (int, float)):
            return ["n", v]
        if isinstance(v, str):
            return ["s", v]
        if v is None:
            return ["0"]
        return ["c", v]
    if k in ("enum", "exc", "type", "repr"):
        return [k, fz[1]]
    if k == "obj":
        return ["o", fz[1], [[n, thaw(x, env, memo)] for n, x in fz[2]]]
    if k == "dict":
        return ["d", [[thaw(a, env, memo), thaw(b, env, memo)] for a, b in fz[1]]]
    return [k, [thaw(x, env, memo) for x in fz[1]]]


def frozen_equal(a, b):
    if a == "?" or b == "?":
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == 2 and len(b) == 2 and a[0] == "n" and b[0] == "n":
            x, y = a[1], b[1]
            if isinstance(x, int) != isinstance(y, int):
                return False
            if x == y:
                return True
            if isinstance(x, int):
                return False
            return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))
        return len(a) == len(b) and all(frozen_equal(x, y) for x, y in zip(a, b))
    return a == b


TOL = 1e-9


def same(a, b, types=True, tol=None):
    """Deep equality without case splits: a Bool term (or bool)."""
    r = _same(a, b, types, tol)
    if isinstance(r, T.Term) and r.op == "const":
        return r.val
    if isinstance(r, T.Term):
        from .proxies import SymBool

        return SymBool(r)
    return r


def _kind(v):
    from .proxies import SymBool, SymInt, SymFloat, SymStr

    t = type(v)
    return {SymBool: bool, SymInt: int, SymFloat: float, SymStr: str}.get(t, t)


def _same(a, b, types, tol):
    from .proxies import Proxy, SymStr
    import dataclasses
    import enum

    if a is b:
        return T.tt()
    ka, kb = _kind(a), _kind(b)
    if isinstance(a, Proxy) or isinstance(b, Proxy):
        if types and ka is not kb:
            return T.ff()
        r = a == b if isinstance(a, Proxy) else b == a
        if isinstance(r, bool):
            return T.boolc(r)
        return r.t
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return T.boolc(a is b)
    if types and ka is not kb:
        return T.ff()
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        if not dataclasses.is_dataclass(b) or ka is not kb:
            return T.ff()
        return T.and_(
            *[
                _same(getattr(a, f), getattr(b, f), types, tol)
                for f in a.__dataclass_fields__
            ]
        )
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return T.ff()
        out = []
        for k in a:
            if k not in b:
                return T.ff()
            out.append(_same(a[k], b[k], types, tol))
        if types and set(map(repr, a)) != set(map(repr, b)):
            return T.ff()
        return T.and_(*out)
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return T.ff()
        return T.and_(*[_same(x, y, types, tol) for x, y in zip(a, b)])
    if isinstance(a, float) and isinstance(b, float) and tol:
        return T.boolc(abs(a - b) <= tol * max(1.0, abs(a), abs(b)))
    try:
        return T.boolc(bool(a == b))
    except Exception:
        return T.ff()


# --------------------------------------------------------------- concrete run


class Violated(Control):
    def __init__(self, label, info):
        self.label = label
        self.info = info


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, assignment):
        Base.__init__(self)
        self.values = assignment["values"]
        self.choices = assignment["choices"]

    def int(self, name, lo=None, hi=None):
        name = self.fresh(name)
        return int(self.values.get(name, lo if (lo or 0) > 0 else 0))

    def real(self, name, lo=None, hi=None):
        name = self.fresh(name)
        x = self.values.get(name, 0)
        if isinstance(x, list):
            return float(Fraction(x[0], x[1]))
        return float(x)

    def bool(self, name):
        return bool(self.values.get(self.fresh(name), False))

    def str(self, name, maxlen=3, minlen=0, alphabet=None):
        n = minlen + self.choose(name + ".len", maxlen - minlen + 1)
        out = ""
        for i in range(n):
            out += chr(int(self.values.get(self.fresh("%s.%d" % (name, i)), 97)))
        return out

    def choose(self, name, options):
        if isinstance(options, int):
            options = list(range(options))
        options = list(options)
        name = self.fresh(name)
        k = self.choices.get(name, 0)
        if k >= len(options):
            raise Infeasible()
        return options[k]

    def assume(self, cond):
        if isinstance(cond, T.Term):
            cond = cond.val
        if not cond:
            raise Infeasible()

    def check(self, cond, label, **info):
        if isinstance(cond, T.Term):
            cond = cond.val
        if not cond:
            raise Violated(label, {k: repr(v)[:500] for k, v in info.items()})

    def fail(self, label, **info):
        self.check(False, label, **info)

    def observe(self, label, value):
        self.observations.append((label, freeze(value)))

    def reset_observed(self):
        self.observations = []

    def numeral(self, x, style="plain"):
        return numeral_text(x, style)

    def same(self, a, b, **kw):
        kw.setdefault("tol", TOL)
        return same(a, b, **kw)


# ------------------------------------------------------------------ explorer


class Explorer(object):
    def __init__(
        self,
        harness,
        params,
        max_seconds=60,
        max_paths=100000,
        shard=(0, 0, 1),
        timeout_ms=5000,
        oneshot_s=15,
        cross=False,
        witness_every=1,
        max_witnesses=400,
        seed=1,
        max_violations=3,
    ):
        self.harness = harness
        self.params = params
        self.max_seconds = max_seconds
        self.max_paths = max_paths
        self.shard = shard
        self.solver = Solver(timeout_ms)
        self.oneshot_s = oneshot_s
        self.oneshots = 0
        self.cross = cross
        self.cross_stats = {"agreed": 0, "unknown": 0, "disagreed": 0}
        self.work = [[]]
        self.paths = 0
        self.abandoned = 0
        self.forks = 0
        self.asserts = 0
        self.violations = []
        self.unknown = []
        self.lossy = []
        self.unsupported = []
        self.reached = {}
        self.witnesses = []
        self.witness_every = witness_every
        self.max_witnesses = max_witnesses
        self.max_violations = max_violations
        self.complete = False
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = None

    def push_work(self, prefix):
        self.work.append(prefix)

    def tick(self):
        if time.time() - self.t0 > self.max_seconds:
            raise Budget()

    def cross_check(self, assertions):
        r, _ = one_shot(assertions, timeout_s=5, which="cvc5")
        if r == "unsat":
            self.cross_stats["agreed"] += 1
        elif r == "sat":
            self.cross_stats["disagreed"] += 1
        else:
            self.cross_stats["unknown"] += 1

    def run(self):
        global CURRENT
        out_of_budget = False
        while self.work:
            if self.paths >= self.max_paths or time.time() - self.t0 > self.max_seconds:
                out_of_budget = True
                break
            if len(self.violations) >= self.max_violations:
                out_of_budget = True
                break
            prefix = self.work.pop()
            self.runs = getattr(self, "runs", 0) + 1
            if self.runs % 100 == 0:
                gc.collect()  # classes made per path slow down every abstract base class
            ctx = Ctx(self, prefix)
            CURRENT = ctx
            self.solver.push()
            counted = True
            try:
                try:
                    self.harness(ctx, **self.params)
                except Control:
                    raise
                except SolverError:
                    raise
                except KeyboardInterrupt:
                    raise
                except BaseException as e:
                    # the harness lets an exception through only if it must
                    # not happen
                    import traceback

                    tb = traceback.format_exc()
                    label = "unexpected exception " + exc_name(e)
                    r, env = ctx._solve(T.tt())
                    if r == "unsat":
                        raise Infeasible()
                    ctx.violation = {
                        "label": label,
                        "info": {"traceback": tb[-3000:]},
                        "candidates": ctx._candidates(T.tt(), env),
                    }
                    raise PathEnd()
            except Infeasible:
                counted = False
            except OtherShard:
                counted = False
                self.abandoned += 1
            except Budget:
                out_of_budget = True
                counted = False
            except PathEnd:
                pass
            except Unsupported as e:
                counted = False
                self.unsupported.append(str(e)[:200])
            except SolverError as e:
                self.unsupported.append("solver: " + str(e)[:200])
                self.solver.restart()
                ctx.cleanup()
                CURRENT = None
                continue
            short = ctx.nchoose < self.shard[0] and self.shard[1] > 0
            if counted and not short:
                self.paths += 1
                for l in ctx.reached:
                    self.reached[l] = self.reached.get(l, 0) + 1
                self.unknown.extend(ctx.unknown)
                self.lossy.extend(ctx.lossy)
                if ctx.violation is not None:
                    ctx.violation["choices"] = ctx.choices
                    self.violations.append(ctx.violation)
                elif (
                    len(self.witnesses) < self.max_witnesses
                    and (self.paths - 1) % self.witness_every == 0
                ):
                    try:
                        env = ctx.witness()
                    except SolverError:
                        env = None
                        self.solver.restart()
                    if env is not None:
                        memo = {}
                        obs = [
                            [l, thaw(f, env, memo)] for l, f in ctx.observations
                        ]
                        self.witnesses.append(
                            {"assignment": ctx.assignment(env), "obs": obs}
                        )
            ctx.cleanup()
            CURRENT = None
            self.solver.pop()
            if out_of_budget:
                break
            if self.paths % 2000 == 1999:
                self.solver.flush()
                q, s, u = self.solver.queries, self.solver.time, self.solver.unknowns
                self.solver.restart()
                T.reset()
        self.complete = not self.work and not out_of_budget
        self.solver.close()
        return self.result()

    def result(self):
        return {
            "paths": self.paths,
            "forks": self.forks,
            "asserts": self.asserts,
            "queries": self.solver.queries + self.oneshots,
            "solver_time": round(self.solver.time, 3),
            "complete": self.complete,
            "remaining": len(self.work),
            "unknown": self.unknown[:20],
            "n_unknown": len(self.unknown),
            "lossy": sorted(set(self.lossy))[:20],
            "unsupported": sorted(set(self.unsupported))[:20],
            "n_unsupported": len(self.unsupported),
            "reached": self.reached,
            "violations": self.violations,
            "witnesses": self.witnesses,
            "cross": self.cross_stats,
            "seconds": round(time.time() - self.t0, 3),
        }


def run_concrete(harness, params, assignment):
    """Runs the harness on one assignment; a dict describing what happened."""
    global CURRENT
    ctx = ConcreteCtx(assignment)
    CURRENT = ctx
    out = {"status": "ok"}
    try:
        harness(ctx, **params)
    except Violated as e:
        out = {"status": "violated", "label": e.label, "info": e.info}
    except Infeasible:
        out = {"status": "infeasible"}
    except (Control, KeyboardInterrupt):
        raise
    except BaseException as e:
        import traceback

        out = {
            "status": "violated",
            "label": "unexpected exception " + exc_name(e),
            "info": {"traceback": traceback.format_exc()[-3000:]},
        }
    finally:
        ctx.cleanup()
        CURRENT = None
    out["obs"] = [[l, thaw(f, {}, {})] for l, f in ctx.observations]
    return out
