"""The output comparison tool."""
import contextlib
import importlib
import itertools
import math
import os
import struct
import sys
import tempfile

from vlib import harness as H
from vlib import symfp as S
from vlib.harness import thorough
from vlib.symint import Undecided

z3 = S.z3
LEVEL = "bounded"
BOUNDS = ("compare_floats, compare_lines and compare_files executed on symbolic IEEE values (every double, infinities and NaN included); files of 0 to 3 (thorough: 4) lines of 0 to 3 values, "
          "every pair of line lengths up to 3, requested sample counts below, at and above the lines present; single, double and untyped precision; every path of the functions")
ASSUMPTIONS = ["numpy 1.26 scalar promotion", "z3's IEEE floating-point theory; quotients are first abstracted, then exact when a disagreement depends on them"]
COMMON_FN = ["py cli/compare.py:compare_floats", "py cli/compare.py:preprocess_line", "py cli/compare.py:compare_lines", "py cli/compare.py:compare_files"]
EPS, TH, MAX = 128 * sys.float_info.epsilon, sys.float_info.min, sys.float_info.max
SORT = {"float": S.F32}


def pair(a, b):
    """The declared tolerance, on (symbolic or real) doubles: agreement, absolute and relative error (None: undefined)."""
    if a == b:
        return True, 0.0, 0.0
    diff = abs(a - b)
    if diff != diff:
        return False, None, None
    norm = min(abs(a) + abs(b), MAX)
    return bool(diff < max(TH, EPS * norm)), diff, 2 * (diff / norm)


def judge(pairs, complete):
    """(agreement, largest absolute error, largest relative error, an error is undefined)."""
    ok, md, mr, undef = complete, 0.0, 0.0, False
    for a, b in pairs:
        g, d, r = pair(a, b)
        ok = ok and g
        if d is None:
            undef = True
        else:
            md, mr = max(d, md), max(r, mr)
    return ok, md, mr, undef


class Found(Exception):
    """A violation was confirmed: the remaining paths need not be explored."""


def mod():
    return importlib.import_module("acetone_nnet.cli.compare")


@contextlib.contextmanager
def patched(m, tokens):
    over = {"float": S.shim_float(tokens), "np": S.shim_np(tokens), "math": S.shim_math()}
    old = {k: m.__dict__.get(k, contextlib) for k in over}
    m.__dict__.update(over)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is contextlib:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


def hexed(x):
    return "nan" if math.isnan(x) else "inf" if x == math.inf else "-inf" if x == -math.inf else x.hex()


class Cmp(H.Case):
    """what: floats, line, file. shape: the numbers of values of each line, per file."""

    def __init__(self, name, what, precision, s1, s2, nb=None, newline=True):
        super().__init__(name, None, timeout=420)
        self.what, self.precision, self.s1, self.s2, self.nb, self.newline = what, precision, s1, s2, nb, newline

    # ---- what is compared
    def texts(self, tok):
        def txt(f, shape):
            ls = ["".join(tok(f, i, j) + " " for j in range(n)) for i, n in enumerate(shape)]
            return "".join(x + "\n" for x in ls[:-1]) + (ls[-1] + ("\n" if self.newline else "") if ls else "")
        return txt(0, self.s1), txt(1, self.s2)

    def call(self, m, texts, d):
        if self.what != "file":
            return m.compare_lines(*texts, self.precision)
        ps = [os.path.join(d, f"o{k}.txt") for k in (0, 1)]
        for p, t in zip(ps, texts):
            with open(p, "w") as f:
                f.write(t)
        return m.compare_files(*ps, self.nb, self.precision)

    def compared(self):
        """(indices of the compared pairs, complete)."""
        if self.what != "file":
            return [((0, j), (0, j)) for j in range(min(self.s1[0], self.s2[0]))], self.s1[0] == self.s2[0]
        n = min(self.nb, len(self.s1), len(self.s2))
        ix = [((i, j), (i, j)) for i in range(n) for j in range(min(self.s1[i], self.s2[i]))]
        return ix, n == self.nb and all(self.s1[i] == self.s2[i] for i in range(n))

    def run(self):
        out = H.Out(self.name)
        m = mod()
        tokens = S.Tokens()
        names = {}
        n = 0
        for f, shape in enumerate((self.s1, self.s2)):
            for i, k in enumerate(shape):
                for j in range(k):
                    e = z3.FP(f"v{f}_{i}_{j}", S.F64)
                    names[f, i, j] = (tokens.new(f"0x1.{n:04x}p+0", e), e)
                    n += 1
        texts = self.texts(lambda f, i, j: names[f, i, j][0])
        ix, complete = self.compared()
        fv = {}                                    # the value in the chosen precision, as a double
        for k, (_, e) in names.items():
            fv[k] = S.SFloat(S.conv(S.conv(e, SORT.get(self.precision, S.F64)), S.F64), "py")
        S._DIV.clear()
        S.DivMode.abstract = True
        ex = S.FPExplorer([], group=lambda n: n.split("_", 1)[1], timeout=60000, max_paths=20000)
        bad, notes, seen = [], [], {True: 0, False: 0}
        with tempfile.TemporaryDirectory(prefix="vc25") as d, patched(m, tokens):
            def f():
                if self.what == "floats":
                    kind = {"float": ("f32", S.F32), "double": ("f64", S.F64)}.get(self.precision, ("py", S.F64))
                    got = m.compare_floats(*[S.SFloat(S.conv(names[k, 0, 0][1], kind[1]), kind[0]) for k in (0, 1)])
                else:
                    got = self.call(m, texts, d)
                got = (bool(got[0]), *[self.number(g) for g in got[1:]])
                ok, md, mr, undef = judge([(fv[(0, *p)], fv[(1, *q)]) for p, q in ix], complete)
                return got, (ok, S.lit(md)[0], S.lit(mr)[0], undef)

            tries, found = [0], False

            def suspect(what, cond, keep=True):
                tries[0] += 1
                for mo in () if tries[0] > 6 else ex.easy(cond, [e for _, e in names.values()]):
                    if self.replay(out, what, self.values(mo, names), ix, complete):
                        raise Found
                if keep:
                    bad.append((what, cond, None))

            def after(x, cond, res, exc):
                try:
                    judge_path(x, cond, res, exc)
                except Undecided as e:
                    notes.append(str(e))

            def judge_path(x, cond, res, exc):
                if exc is not None and not x.sat(*cond):
                    return
                if exc is not None:
                    suspect(f"raises {type(exc).__name__}: {exc}", cond)
                    return
                got, want = res
                seen[got[0]] += 1
                if got[0] != want[0]:
                    suspect(f"reports {'agreement' if got[0] else 'disagreement'}", cond)
                for g, w, what in ((got[1], want[1], "absolute"), (got[2], want[2], "relative")):
                    g, w = S.conv(g, S.F64), S.conv(w, S.F64)
                    if g.eq(w):
                        continue
                    same = z3.fpEQ(g, w)
                    if want[3]:                    # some error is undefined: nothing defined may exceed the report
                        same = z3.Or(z3.fpIsNaN(g), z3.fpGEQ(g, w))
                    neg = z3.simplify(z3.Not(same))
                    if x.possible(cond, neg, before=lambda: suspect(f"wrong maximal {what} error", [*cond, neg], False)):
                        bad.append((f"wrong maximal {what} error", [*cond, neg], x.last))
            try:
                ex.run(f, after)
            except Undecided as e:
                notes.append(str(e))
            except Found:
                bad.clear()
                notes.clear()
                found = True
        i = out.info
        i.update(queries=ex.queries, outputs=ex.paths * 3, branches=ex.paths, mode="tag", functions=COMMON_FN, agreeing_paths=seen[True], disagreeing_paths=seen[False])
        if not bad and not notes and not found and ((complete and not seen[True]) or ((ix or not complete) and not seen[False])):
            out.errors.append(f"vacuous: {seen}")
        for what, cond, model in bad[:40]:
            if self.confirm(out, what, cond, model, names, ix, complete, ex, notes):
                break
        else:
            out.errors += notes[:1]
        return out

    @staticmethod
    def number(g):
        p = S.lit(g)
        if p is None:
            raise Undecided(f"an error of type {type(g).__name__}")
        return p[0]

    # ---- replay
    @staticmethod
    def values(model, names):
        return {k: S.as_float(model, e) for k, (_, e) in names.items()}

    def confirm(self, out, what, cond, model, names, ix, complete, ex, notes):
        try:
            for exact in (False, True):
                if exact:
                    q = [z3.substitute(c, *[(v, z3.fpDiv(S.RNE, a, b)) for v, a, b in S._DIV.values()]) for c in cond]
                    S.DivMode.abstract = False
                    try:
                        if not ex.sat(*q):
                            return False           # the disagreement is an artefact of the abstract quotients
                        model = ex.last
                    finally:
                        S.DivMode.abstract = True
                elif model is None:
                    if not ex.sat(*cond):
                        return False
                    model = ex.last
                if self.replay(out, what, self.values(model, names), ix, complete):
                    return True
        except Undecided as e:
            notes.append(f"{what}: {e}")
            return False
        notes.append(f"does not reproduce: {what}")
        return False

    def replay(self, out, what, vals, ix, complete):
        import warnings
        import numpy as np
        m = mod()
        rnd = (lambda x: float(np.float32(x))) if self.precision == "float" else float
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = judge([(rnd(vals[(0, *p)]), rnd(vals[(1, *q)])) for p, q in ix], complete)
            with tempfile.TemporaryDirectory(prefix="vc25") as d:
                try:
                    if self.what == "floats":
                        t = {"float": np.float32, "double": np.float64}.get(self.precision, float)
                        got = m.compare_floats(t(vals[0, 0, 0]), t(vals[1, 0, 0]))
                    else:
                        got = self.call(m, self.texts(lambda f, i, j: hexed(vals[f, i, j])), d)
                    got = (bool(got[0]), float(got[1]), float(got[2]))
                    same = got[0] == want[0] and all(g != g or g >= w if want[3] else g == w for g, w in zip(got[1:], want[1:3]))
                except Exception as e:      # noqa: BLE001
                    got, same = repr(e)[:200], False
        if same:
            return False
        shown = {f"file{f + 1} line {i} value {j}": hexed(v) for (f, i, j), v in vals.items()}
        out.add("comparison", f"{self.what} {self.precision} nb_tests={self.nb}: {shown} gives {got}, expected {want[:3]}", replay={"values": shown, "precision": self.precision, "nb_tests": self.nb, "got": got, "want": want})
        return True


def cases():
    out = [Cmp(f"floats:{p}", "floats", p, (1,), (1,)) for p in ("float", "double", "other")]
    top = 4 if thorough() else 3
    for p in ("float", "double"):
        for a, b in itertools.product(range(top + 1), repeat=2):
            if min(a, b) <= (2 if not thorough() else 3):
                out.append(Cmp(f"line:{p}:{a}-{b}", "line", p, (a,), (b,)))
    shapes = [((1,), (1,)), ((1, 1), (1, 1)), ((1, 1), (1,)), ((1,), (1, 1)), ((2,), (2,)), ((), (1,)), ((1,), ()), ((), ()), ((1, 2), (1, 1)), ((2, 1), (1, 1)), ((1, 1), (1, 2)),
              ((0, 1), (1, 1)), ((1, 1, 1), (1, 1)), ((1, 1), (1, 1, 1))]
    if thorough():
        shapes += [((1, 1, 1), (1, 1, 1)), ((1, 1, 1, 1), (1, 1)), ((3,), (3,)), ((2, 1), (2, 1)), ((1, 2), (1, 2))]
    for s1, s2 in shapes:
        for nb in sorted({0, 1, len(s1) - 1, len(s1), len(s2), len(s1) + 1, len(s2) + 1}):
            if nb < 0 or nb > max(len(s1), len(s2)) + 1:
                continue
            out.append(Cmp(f"file:double:{s1}:{s2}:nb{nb}".replace(" ", ""), "file", "double", s1, s2, nb, newline=nb % 2 == 0))
            if sum(s1) <= 1:
                out.append(Cmp(f"file:float:{s1}:{s2}:nb{nb}".replace(" ", ""), "file", "float", s1, s2, nb))
    return out
