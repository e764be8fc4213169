"""Terms -> z3; equality decisions, counterexamples, counters for the evidence file."""
import math
import os
import random
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

from . import canon as C  # noqa: E402
from . import terms as T  # noqa: E402
from .terms import Term  # noqa: E402

STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "rewritten": 0, "cvc5": 0}
BOX = 8


class Inconclusive(Exception):
    pass


class Conv:
    """Converts terms to z3 reals. exact_div=False treats 1/x as an uninterpreted function (sound for unsat)."""

    def __init__(self, exact_div=False):
        self.cache = {}
        self.exact_div = exact_div
        self.ufs = {}
        self.vars = {}
        self.axioms = []
        self.keep = []

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            self.ufs[k] = z3.Function("f_" + name, *([z3.RealSort()] * (n + 1)))
        return self.ufs[k]

    def var(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return self.vars[name]

    def __call__(self, root):
        if not isinstance(root, Term):
            root = T.lift(root)
        c = self.cache
        if root.id in c:
            return c[root.id]
        for t in T.subterms([root]):
            if t.id in c:
                continue
            op = t.op
            if op == "c":
                f = t.args[0]
                r = z3.RealVal(f"{f.numerator}/{f.denominator}")
            elif op == "v":
                r = self.var(t.args[0])
            elif op == "true":
                r = z3.BoolVal(True)
            elif op == "false":
                r = z3.BoolVal(False)
            else:
                a = [c[x.id] for x in t.args]
                if op == "+":
                    r = a[0] + a[1]
                elif op == "*":
                    r = a[0] * a[1]
                elif op == "/":
                    if self.exact_div:
                        r = a[0] / a[1]
                    else:
                        den = z3.simplify(a[1], som=True)
                        r = a[0] * self.uf("inv", 1)(den)
                elif op == "ite":
                    r = z3.If(a[0], a[1], a[2])
                elif op == "<":
                    r = a[0] < a[1]
                elif op == "<=":
                    r = a[0] <= a[1]
                elif op == "==":
                    r = a[0] == a[1]
                elif op == "not":
                    r = z3.Not(a[0])
                elif op == "and":
                    r = z3.And(a[0], a[1])
                elif op == "or":
                    r = z3.Or(a[0], a[1])
                elif op.startswith("u:"):
                    name = op[2:]
                    args = [z3.simplify(x, som=True) for x in a]
                    r = self.uf(name, len(args))(*args)
                    if name == "exp":
                        self.axioms.append(r > 0)
                    elif name == "sqrt":
                        self.axioms.append(z3.Implies(args[0] >= 0, z3.And(r >= 0, r * r == args[0])))
                    elif name == "tanh":
                        self.axioms.append(z3.And(r < 1, r > -1, (args[0] > 0) == (r > 0)))
                else:
                    raise T.Unsupported("term op " + op)
            c[t.id] = r
            self.keep.append(t)
        return c[root.id]


def check(solver, *assump):
    t = time.time()
    r = solver.check(*assump)
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r


def model_env(m, conv):
    env = {}
    for n, v in conv.vars.items():
        x = m.eval(v, model_completion=True)
        if z3.is_rational_value(x):
            env[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        elif z3.is_algebraic_value(x):
            y = x.approx(20)
            env[n] = float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
        else:
            env[n] = 0.0
    return env


class Result:
    def __init__(self, status, env=None, detail="", tol=False):
        self.status = status          # 'equal' | 'differ' | 'unknown'
        self.env = env
        self.detail = detail
        self.tol = tol


def _eval_gap(c, s, env):
    try:
        a, b = T.evaluate([c, s], env)
    except OverflowError:
        return None
    if any(isinstance(v, complex) or math.isnan(v) or math.isinf(v) for v in (a, b)):
        return None
    return abs(a - b)


def _rand_env(names, rng):
    k = rng.random()
    if k < 0.5:
        return {n: rng.randint(-32, 32) / 8 for n in names}
    return {n: rng.uniform(-4, 4) for n in names}


class Ctx:
    """Shared normal forms and solver encodings for the outputs of one program."""

    def __init__(self):
        self.canon = C.Canon()
        self.toz = C.ToZ3(self.canon)
        self.close = C.Close(self.canon)
        self.conv = Conv()


def decide_equal(c, s, extra=(), timeout=20000, tol=1e-4, pos=(), box=BOX, ctx=None, conv=None):
    """Is c == s for every value of the variables (subject to `extra` assumptions)?

    1. linearised question (non-linear monomials and function applications abstracted): unsat proves equality;
    2. exact non-linear question over unbounded reals;
    3. question with tolerance over |v| <= box (float32 constants in C are rounded where the specification is exact)."""
    if not isinstance(c, Term) and not isinstance(s, Term):
        STATS["rewritten"] += 1
        if c == s or abs(c - s) <= tol * max(1, abs(c)):
            return Result("equal")
        return Result("differ", {}, f"constant {c!r} != {s!r}")
    if isinstance(c, float) and (math.isnan(c) or math.isinf(c)):
        return Result("differ", {}, f"constant {c!r}")
    c, s = T.lift(c), T.lift(s)
    ctx = ctx or Ctx()
    names = sorted(T.free_vars([c, s]))
    rng = random.Random(1)
    hint = None
    try:
        pc, ps = ctx.canon.poly(c), ctx.canon.poly(s)
        sol = z3.Solver()
        sol.set("timeout", timeout)
        sol.add(ctx.toz.poly(pc) != ctx.toz.poly(ps))
        same = pc == ps
    except C.TooBig:
        sol = None
        same = False
    if not same:
        # numeric search for a gross difference first: it makes the satisfiable case cheap
        for _ in range(24):
            env = _rand_env(names, rng)
            for n in pos:
                if n in env:
                    env[n] = abs(env[n]) + 0.125
            g = _eval_gap(c, s, env)
            if g is not None and g > 0.05 and _extra_ok(extra, env):
                hint = env
                break
    if hint is None and sol is not None:
        if check(sol) == z3.unsat:
            return Result("equal")
        # normal forms equal up to rounding of their constants (results are claimed up to rounding)
        if ctx.close.poly(pc, ps):
            STATS["rewritten"] += 1
            return Result("equal", tol=True)
        try:
            c3, s3 = T.snap32([c, s])
            if ctx.canon.poly(c3) == ctx.canon.poly(s3):
                STATS["rewritten"] += 1
                return Result("equal", tol=True)
        except C.TooBig:
            pass
    conv = conv or ctx.conv
    zc, zs = conv(c), conv(s)
    d = zc - zs
    ex = [conv(e) for e in extra]
    if hint is None and (sol is None or any(t.op in ("/", "*") or t.op.startswith("u:") for t in T.subterms([c, s]))):
        sol = z3.Solver()
        sol.set("timeout", timeout)
        for e in ex:
            sol.add(e)
        sol.add(d != 0)
        if check(sol) == z3.unsat:
            return Result("equal")
    # bounded question with tolerance
    def bounded(gap, use_hint=False):
        so = z3.Solver()
        so.set("timeout", timeout)
        for e in ex:
            so.add(e)
        for n in names:
            v = conv.var(n)
            if n in pos:
                so.add(v >= z3.RealVal("1/64"), v <= box)
            else:
                so.add(v >= -box, v <= box)
        for a in conv.axioms:
            so.add(a)
        if use_hint:
            for n in names:
                f = Fraction(hint[n]).limit_denominator(1 << 20)
                so.add(conv.var(n) == z3.RealVal(f"{f.numerator}/{f.denominator}"))
        g = z3.RealVal(str(Fraction(gap)))
        so.add(z3.Or(d > g, d < -g))
        return so, check(so)

    if hint is not None:
        so, rr = bounded(Fraction(1, 64), True)
        if rr == z3.sat:
            return Result("differ", hint, f"gap at hint point")
    so, rr = bounded(Fraction(1, 2))
    if rr != z3.sat:
        so, rr = bounded(Fraction(tol).limit_denominator(10 ** 9))
        if rr == z3.unsat:
            return Result("equal", tol=True)
    if rr == z3.sat:
        env = model_env(so.model(), conv)
        g = _eval_gap(c, s, env)
        if g is None or g <= tol / 2:
            # spurious model of the uninterpreted functions: look for a real witness near it
            for k in range(4000):
                env2 = _rand_env(names, rng) if k % 2 else {n: v + rng.uniform(-1, 1) for n, v in env.items()}
                for n in pos:
                    if n in env2:
                        env2[n] = abs(env2[n]) + 0.125
                g = _eval_gap(c, s, env2)
                if g is not None and g > 20 * tol and _extra_ok(extra, env2):
                    return Result("differ", env2, "witness refined")
            if not conv.exact_div and any(t.op == "/" for t in T.subterms([c, s])):
                return decide_equal(c, s, extra, timeout, tol, pos, box, ctx, Conv(exact_div=True))
            return Result("unknown", env, "model of uninterpreted functions does not evaluate to a difference")
        return Result("differ", env)
    if not conv.exact_div and any(t.op == "/" for t in T.subterms([c, s])):
        return decide_equal(c, s, extra, timeout, tol, pos, box, ctx, Conv(exact_div=True))
    return Result("unknown", None, f"solver returned {rr}")


def _extra_ok(extra, env):
    if not extra:
        return True
    try:
        return all(T.evaluate(list(extra), env))
    except Exception:
        return False


def sat_bool(cond, timeout=5000, conv=None, extra=()):
    """Satisfiability of a boolean term: 'sat'/'unsat'/'unknown'."""
    if cond is T.TRUE:
        return "sat", {}
    if cond is T.FALSE:
        return "unsat", None
    conv = conv or Conv()
    so = z3.Solver()
    so.set("timeout", timeout)
    so.add(conv(cond))
    for e in extra:
        so.add(conv(e))
    for a in conv.axioms:
        so.add(a)
    r = check(so)
    return str(r), (model_env(so.model(), conv) if r == z3.sat else None)


def cvc5_agrees(c, s, timeout=20):
    """Cross-check one equality with cvc5 (binary); returns 'unsat'/'sat'/'unknown'."""
    conv = Conv()
    so = z3.Solver()
    so.add(conv(T.lift(c)) != conv(T.lift(s)))
    txt = "(set-logic ALL)\n" + so.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        out = subprocess.run(["cvc5", f"--tlimit={timeout * 1000}", name], capture_output=True, text=True,
                             timeout=timeout + 10).stdout
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(name)
    STATS["cvc5"] += 1
    if "(error" in out:
        return "error"
    return out.strip().split("\n")[-1] if out.strip() else "unknown"
