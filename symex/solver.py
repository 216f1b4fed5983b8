"""A pipe to an SMT solver (z3 5.x by default, cvc5 for cross-checking)."""
import os
import select
import subprocess
import time
from fractions import Fraction

from . import terms as T

Z3 = os.environ.get("HSV_Z3", "z3-new")

UFS = ("cosr", "sinr", "expr")


class SolverError(BaseException):
    pass


def _tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in "()":
            out.append(c)
            i += 1
        elif c.isspace():
            i += 1
        elif c == "|":
            j = s.index("|", i + 1)
            out.append(s[i + 1 : j])
            i = j + 1
        else:
            j = i
            while j < n and s[j] not in "() \n\t\r":
                j += 1
            out.append(s[i:j])
            i = j
    return out


def _parse(tokens, pos=0):
    if tokens[pos] == "(":
        out = []
        pos += 1
        while tokens[pos] != ")":
            x, pos = _parse(tokens, pos)
            out.append(x)
        return out, pos + 1
    return tokens[pos], pos + 1


def _value(x):
    if x == "true":
        return True
    if x == "false":
        return False
    if isinstance(x, str):
        if "." in x:
            return Fraction(x)
        return int(x)
    if x[0] == "-":
        v = _value(x[1])
        return None if v is None else -v
    if x[0] == "/":
        a, b = _value(x[1]), _value(x[2])
        return None if a is None or b is None else Fraction(a) / Fraction(b)
    if x[0] == "to_real":
        return Fraction(_value(x[1]))
    return None  # algebraic number


class Solver(object):
    """Incremental process.  `path` is a stack of asserted terms."""

    def __init__(self, timeout_ms=10000, cmd=None):
        self.timeout_ms = timeout_ms
        self.cmd = cmd or [Z3, "-in", "-smt2"]
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.proc = None
        self.start()

    def start(self):
        self.proc = subprocess.Popen(
            self.cmd,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            universal_newlines=True,
            bufsize=1 << 16,
        )
        self.named = {}
        self.declared = set()
        self.n = 0
        self.buf = []
        self.emit("(set-option :global-declarations true)")
        self.emit("(set-option :timeout %d)" % self.timeout_ms)
        for u in UFS:
            self.emit("(declare-fun %s (Real) Real)" % u)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait()
                self.proc.stdin.close()
                self.proc.stdout.close()
            except Exception:
                pass
            self.proc = None

    def restart(self):
        self.close()
        self.start()

    def emit(self, s):
        self.buf.append(s)

    def flush(self):
        if self.buf:
            self.proc.stdin.write("\n".join(self.buf) + "\n")
            self.buf = []
        self.proc.stdin.flush()

    def readline(self):
        line = self.proc.stdout.readline()
        if not line:
            raise SolverError("solver died")
        return line.strip()

    def name(self, t):
        """Declares t's variables and names its shared sub-terms."""
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.op == "const" or x.id in self.named:
                continue
            if x.op == "var":
                nm = T.symbol(x)
                if nm not in self.declared:
                    self.declared.add(nm)
                    self.emit("(declare-const %s %s)" % (nm, x.sort))
                continue
            if not done:
                stack.append((x, True))
                for a in x.args:
                    stack.append((a, False))
            else:
                body = "(%s %s)" % (
                    x.op,
                    " ".join(T.render(a, self.named) for a in x.args),
                )
                nm = "t!%d" % self.n
                self.n += 1
                self.emit("(define-fun %s () %s %s)" % (nm, x.sort, body))
                self.named[x.id] = nm
        return T.render(t, self.named)

    def push(self):
        self.emit("(push 1)")

    def pop(self, n=1):
        if n:
            self.emit("(pop %d)" % n)

    def add(self, t):
        self.emit("(assert %s)" % self.name(t))

    def check(self, extra=()):
        """'sat' | 'unsat' | 'unknown' for the current stack plus extra."""
        self.queries += 1
        t0 = time.time()
        if extra:
            names = [self.name(e) for e in extra]
            self.emit("(push 1)")
            for nme in names:
                self.emit("(assert %s)" % nme)
        self.emit("(check-sat)")
        self.flush()
        r = self.readline()
        if extra:
            self.emit("(pop 1)")
        self.time += time.time() - t0
        if r not in ("sat", "unsat"):
            if r.startswith("(error"):
                raise SolverError(r)
            self.unknowns += 1
            r = "unknown"
        return r

    def model(self, vars, extra=()):
        """(result, {name: value}) for the current stack plus extra."""
        self.queries += 1
        t0 = time.time()
        names = [self.name(e) for e in extra]
        for v in vars:
            self.name(v)
        self.emit("(push 1)")
        for nme in names:
            self.emit("(assert %s)" % nme)
        self.emit("(check-sat)")
        self.flush()
        r = self.readline()
        env = {}
        if r == "sat" and vars:
            self.emit(
                "(get-value (%s))" % " ".join(T.symbol(v) for v in vars)
            )
            self.flush()
            depth = 0
            text = []
            while True:
                line = self.readline()
                text.append(line)
                depth += line.count("(") - line.count(")")
                if depth <= 0:
                    break
            tree, _ = _parse(_tokens("\n".join(text)))
            if tree and tree[0] == "error":
                raise SolverError("\n".join(text))
            for k, v in tree:
                env[k.rsplit(":", 1)[0]] = _value(v)
        self.emit("(pop 1)")
        self.time += time.time() - t0
        if r not in ("sat", "unsat"):
            if r.startswith("(error"):
                raise SolverError(r)
            r = "unknown"
            self.unknowns += 1
        return r, env


def script(assertions):
    """A self-contained SMT-LIB2 script for one-shot (non-incremental) solving
    or for a second solver."""
    lines = []
    for u in UFS:
        lines.append("(declare-fun %s (Real) Real)" % u)
    for v in T.variables(assertions):
        lines.append("(declare-const %s %s)" % (T.symbol(v), v.sort))
    names = {}
    n = [0]

    def go(t):
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.op in ("const", "var") or x.id in names:
                continue
            if not done:
                stack.append((x, True))
                for a in x.args:
                    stack.append((a, False))
            else:
                body = "(%s %s)" % (x.op, " ".join(T.render(a, names) for a in x.args))
                nm = "t!%d" % n[0]
                n[0] += 1
                lines.append("(define-fun %s () %s %s)" % (nm, x.sort, body))
                names[x.id] = nm
        return T.render(t, names)

    for a in assertions:
        lines.append("(assert %s)" % go(a))
    return lines


def one_shot(assertions, timeout_s=20, which="z3", want=None):
    """Fresh solver process on one query; returns (result, env)."""
    lines = script(assertions)
    vars = T.variables(assertions)
    if which == "cvc5":
        cmd = ["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout_s * 1000), "-q"]
        lines = ["(set-option :produce-models true)", "(set-logic ALL)"] + lines
    else:
        cmd = [Z3, "-in", "-smt2", "-T:%d" % int(timeout_s)]
    lines.append("(check-sat)")
    get = which != "cvc5" and vars
    if get:
        lines.append("(get-value (%s))" % " ".join(T.symbol(v) for v in vars))
    try:
        p = subprocess.run(
            cmd,
            input="\n".join(lines) + "\n",
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            universal_newlines=True,
            timeout=timeout_s + 10,
        )
    except subprocess.TimeoutExpired:
        return "unknown", {}
    out = p.stdout.strip().split("\n", 1)
    r = out[0].strip()
    if r not in ("sat", "unsat"):
        return "unknown", {}
    env = {}
    if r == "sat" and get and len(out) > 1:
        tree, _ = _parse(_tokens(out[1]))
        if tree and tree[0] != "error":
            for k, v in tree:
                env[k.rsplit(":", 1)[0]] = _value(v)
    return r, env
