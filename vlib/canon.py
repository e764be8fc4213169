"""Equational normalisation of terms (ring axioms, max/min are AC, exp(a)exp(-a)=1) and linearisation for the solver.

A Poly is a tuple of (monomial, Fraction) sorted by monomial; a monomial is a tuple of (atom id, exponent).
Everything here is a sound equational rewriting over the reals; the verdict is z3's on the resulting formula, in
which non-linear monomials and function applications are abstracted by fresh constants (sound for 'equal').
"""
from fractions import Fraction

from . import terms as T

LIMIT = 60000


class TooBig(Exception):
    pass


class Canon:
    def __init__(self):
        self.atoms = {}         # key -> id
        self.keys = []          # id -> key
        self.poly_of = {}       # term id -> poly
        self.bool_of = {}
        self.keep = []

    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.keys)
            self.atoms[key] = i
            self.keys.append(key)
        return i

    # ---- polynomials as dicts while computing, frozen tuples when stored
    @staticmethod
    def freeze(d):
        return tuple(sorted((m, c) for m, c in d.items() if c != 0))

    def const(self, v):
        return (((), Fraction(v)),) if v else ()

    def of_atom(self, a, e=1):
        return ((((a, e),), Fraction(1)),)

    def add(self, p, q):
        if not p:
            return q
        if not q:
            return p
        d = dict(p)
        for m, c in q:
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return self.freeze(d)

    def scale(self, p, k):
        if k == 0:
            return ()
        return tuple((m, c * k) for m, c in p)

    def mulmono(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if not p or not q:
            return ()
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        d = {}
        for m1, c1 in p:
            for m2, c2 in q:
                m = self.mulmono(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return self.freeze(d)

    def is_exp(self, a):
        return self.keys[a][0] == "exp"

    def inv(self, p):
        """1/p"""
        if not p:
            raise T.Unsupported("division by zero")
        # common exp-atom factor
        exps = {}
        for m, _ in p:
            for a, e in m:
                if self.is_exp(a):
                    exps.setdefault(a, [])
        fac = []
        for a in exps:
            es = [dict(m).get(a, 0) for m, _ in p]
            k = min(es)
            if k:
                fac.append((a, k))
        if fac:
            fm = tuple(sorted((a, -k) for a, k in fac))
            p2 = self.mul(p, ((fm, Fraction(1)),))
            return self.mul(self.inv(p2), ((fm, Fraction(1)),))
        if len(p) == 1:
            m, c = p[0]
            r = self.const(1 / c)
            for a, e in m:
                key = self.keys[a]
                if key[0] == "inv":
                    for _ in range(e):
                        r = self.mul(r, key[1])
                else:
                    ia = self.atom(("inv", self.of_atom(a)))
                    r = self.mul(r, self.of_atom(ia, e))
            return r
        k = p[0][1]
        if k != 1:
            p = self.scale(p, 1 / k)
        return self.scale(self.of_atom(self.atom(("inv", p))), 1 / k)

    # ---- terms
    def poly(self, t):
        t = T.lift(t)
        if t.id in self.poly_of:
            return self.poly_of[t.id]
        for s in T.subterms([t]):
            if s.id in self.poly_of or s.id in self.bool_of:
                continue
            self.keep.append(s)
            op = s.op
            if s.isbool:
                self.bool_of[s.id] = self._bool(s)
                continue
            if op == "c":
                r = self.const(s.args[0])
            elif op == "v":
                r = self.of_atom(self.atom(("v", s.args[0])))
            elif op == "+":
                r = self.add(self.poly_of[s.args[0].id], self.poly_of[s.args[1].id])
            elif op == "*":
                r = self.mul(self.poly_of[s.args[0].id], self.poly_of[s.args[1].id])
            elif op == "/":
                r = self.mul(self.poly_of[s.args[0].id], self.inv(self.poly_of[s.args[1].id]))
            elif op == "ite":
                r = self._ite(self.bool_of[s.args[0].id], self.poly_of[s.args[1].id], self.poly_of[s.args[2].id])
            elif op.startswith("u:") and all(self._isconst(self.poly_of[a.id]) for a in s.args) and self._fold(op, s) is not None:
                r = self.const(self._fold(op, s))
            elif op == "u:exp":
                r = self.of_atom(self.atom(("exp", self.poly_of[s.args[0].id])))
            elif op.startswith("u:"):
                r = self.of_atom(self.atom((op,) + tuple(self.poly_of[a.id] for a in s.args)))
            else:
                raise T.Unsupported(op)
            if len(r) > LIMIT:
                raise TooBig()
            self.poly_of[s.id] = r
        return self.poly_of[t.id]

    def _fold(self, op, s):
        """a function of constants, to double precision"""
        try:
            return Fraction(T._UF[op[2:]](*[float(self._cval(self.poly_of[a.id])) for a in s.args]))
        except (KeyError, ValueError, OverflowError):
            return None

    def _norm_scale(self, p):
        """scale by a positive constant so that the leading coefficient is +-1"""
        if not p:
            return p
        k = abs(p[0][1])
        return p if k == 1 else self.scale(p, 1 / k)

    def _bool(self, s):
        op = s.op
        if op == "true":
            return ("true",)
        if op == "false":
            return ("false",)
        if op in ("<", "<=", "=="):
            a, b = (self.poly_of[x.id] for x in s.args)
            d = self.add(a, self.scale(b, -1))
            if not d or (len(d) == 1 and d[0][0] == ()):
                v = d[0][1] if d else 0
                return ("true",) if {"<": v < 0, "<=": v <= 0, "==": v == 0}[op] else ("false",)
            d = self._norm_scale(d)
            if op == "==" and d[0][1] < 0:
                d = self.scale(d, -1)
            return (op, d)
        if op == "not":
            return self.bnot(self.bool_of[s.args[0].id])
        if op in ("and", "or"):
            xs = []
            for x in s.args:
                b = self.bool_of[x.id]
                if b[0] == op:
                    xs.extend(b[1])
                else:
                    xs.append(b)
            neutral, absorb = (("true",), ("false",)) if op == "and" else (("false",), ("true",))
            if absorb in xs:
                return absorb
            xs = sorted({repr(x): x for x in xs if x != neutral}.values(), key=repr)
            if not xs:
                return neutral
            if len(xs) == 1:
                return xs[0]
            return (op, tuple(xs))
        raise T.Unsupported(op)

    def bnot(self, b):
        if b[0] == "true":
            return ("false",)
        if b[0] == "false":
            return ("true",)
        if b[0] == "<":
            return ("<=", self.scale(b[1], -1))
        if b[0] == "<=":
            return ("<", self.scale(b[1], -1))
        if b[0] == "not":
            return b[1]
        return ("not", b)

    def _ite(self, c, a, b):
        if c[0] == "true" or a == b:
            return a
        if c[0] == "false":
            return b
        if c[0] in ("<", "<="):
            p = c[1]                       # condition: p <(=) 0
            d = self.add(a, self.scale(b, -1))
            dn = self._norm_scale(d)
            if dn == p or dn == self.scale(p, -1):
                # branches meet at the boundary; p ~ a-b: (a-b <= 0 ? a : b) = min
                return self._minmax("min" if dn == p else "max", a, b)
            for x, y, neg in ((a, b, False), (b, a, True)):
                r = self._clip(p, x, y, neg)
                if r is not None:
                    return r
            # strictness irrelevant when a-b is a multiple of p: covered above.  canonical orientation
            if p[0][1] < 0:
                c = self.bnot(c)
                a, b = b, a
        elif c[0] == "not":
            c = c[1]
            a, b = b, a
        return self.of_atom(self.atom(("ite", c, a, b)))

    def _isconst(self, p):
        return not p or (len(p) == 1 and p[0][0] == ())

    def _cval(self, p):
        return p[0][1] if p else Fraction(0)

    def _items(self, p, kind):
        """(constant, the other items) when p is max/min of one constant and other terms"""
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
            key = self.keys[p[0][0][0][0]]
            if key[0] == kind:
                cs = [q for q in key[1] if self._isconst(q)]
                if len(cs) == 1:
                    return cs[0], [q for q in key[1] if q not in cs]
        return None

    def _clip(self, p, x, y, neg):
        """ite(p < 0, x, y) (or, neg, ite(p < 0, y, x)) with x a constant and y a min/max of another constant and u"""
        if not self._isconst(x):
            return None
        for inner, outer in (("min", "max"), ("max", "min")):
            it = self._items(y, inner)
            if it is None or len(it[1]) != 1:
                continue
            u = it[1][0]
            ok = self._cval(x) <= self._cval(it[0]) if inner == "min" else self._cval(x) >= self._cval(it[0])
            if not ok:
                continue
            # x is selected when u is below (min inside) or above (max inside) x
            d = self.add(u, self.scale(x, -1))
            if (inner == "max") != neg:
                d = self.scale(d, -1)
            if self._norm_scale(d) == p:
                return self._minmax(outer, x, y)
        return None

    def _minmax(self, kind, a, b):
        if kind == "min":
            for x, y in ((a, b), (b, a)):
                it = self._items(y, "max") if self._isconst(x) else None
                if it is not None and it[1] and self._cval(it[0]) <= self._cval(x):
                    u = it[1][0]
                    for q in it[1][1:]:
                        u = self._minmax("max", u, q)
                    return self._minmax("max", it[0], self._minmax("min", x, u))
        items = []
        for p in (a, b):
            if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
                key = self.keys[p[0][0][0][0]]
                if key[0] == kind:
                    items.extend(key[1])
                    continue
            items.append(p)
        items = tuple(sorted(set(items)))
        if len(items) == 1:
            return items[0]
        return self.of_atom(self.atom((kind, items)))


class Close:
    """Structural equality of normal forms up to rounding of their coefficients."""

    def __init__(self, canon, tol=2e-6):
        self.c = canon
        self.tol = tol
        self.heights = {}
        self.rep = {}       # atom id -> representative
        self.reps = {}      # kind -> representatives

    def cls(self, a):
        r = self.rep.get(a)
        if r is None:
            k = self.c.keys[a]
            if k[0] == "v":
                r = a
            else:
                kind = (k[0], self.height(a), len(k), len(k[1]) if k[0] in ("max", "min") else 0)
                lst = self.reps.setdefault(kind, [])
                r = next((b for b in lst if self.key(k, self.c.keys[b])), None)
                if r is None:
                    lst.append(a)
                    r = a
            self.rep[a] = r
        return r

    def height(self, a):
        h = self.heights.get(a)
        if h is None:
            h = self.heights[a] = 1 + max([self.height(b) for b in self.atoms_in(self.c.keys[a])], default=0)
        return h

    def atoms_in(self, x):
        """atoms directly below a key: polynomials are tuples of (monomial, Fraction)"""
        out = set()
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                if len(y) == 2 and isinstance(y[1], Fraction):
                    out.update(a for a, _ in y[0])
                else:
                    stack.extend(y)
        return out

    def key(self, k, l):
        if k[0] in ("max", "min"):
            rest = list(l[1])
            for p in k[1]:
                q = next((q for q in rest if self.poly(p, q)), None)
                if q is None:
                    return False
                rest.remove(q)
            return not rest
        if k[0] == "ite":
            return self.bool(k[1], l[1]) and self.poly(k[2], l[2]) and self.poly(k[3], l[3])
        return all(self.poly(p, q) for p, q in zip(k[1:], l[1:]))

    def poly(self, p, q):
        if p == q:
            return True
        d = {}
        scale = 0.0
        for r, sign in ((p, 1), (q, -1)):
            for m, c in r:
                e = {}
                for a, x in m:
                    a = self.cls(a)
                    e[a] = e.get(a, 0) + x
                m = tuple(sorted(e.items()))
                d[m] = d.get(m, 0.0) + sign * float(c)
                scale = max(scale, abs(float(c)))
        return all(abs(v) <= self.tol * scale for v in d.values())

    def bool(self, b, o):
        if b == o:
            return True
        if b[0] != o[0] or len(b) != len(o):
            return False
        if b[0] in ("<", "<=", "=="):
            return self.poly(b[1], o[1])
        if b[0] == "not":
            return self.bool(b[1], o[1])
        if b[0] in ("and", "or"):
            return len(b[1]) == len(o[1]) and all(self.bool(x, y) for x, y in zip(b[1], o[1]))
        return True


class ToZ3:
    """Linearised z3 encoding of canonical polynomials."""

    def __init__(self, canon):
        import z3
        self.z3 = z3
        self.c = canon
        self.a = {}
        self.m = {}
        self.p = {}
        self.b = {}

    def val(self, f):
        return self.z3.RealVal(f"{f.numerator}/{f.denominator}")

    def poly(self, p):
        if p in self.p:
            return self.p[p]
        z3 = self.z3
        if not p:
            r = z3.RealVal(0)
        else:
            parts = []
            for m, c in p:
                if m == ():
                    parts.append(self.val(c))
                else:
                    x = self.mono(m)
                    parts.append(x if c == 1 else self.val(c) * x)
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        self.p[p] = r
        return r

    def mono(self, m):
        if m in self.m:
            return self.m[m]
        if len(m) == 1 and m[0][1] == 1:
            r = self.atom(m[0][0])
        else:
            r = self.z3.Real("mono%d" % len(self.m))
        self.m[m] = r
        return r

    def atom(self, i):
        if i in self.a:
            return self.a[i]
        z3 = self.z3
        k = self.c.keys[i]
        if k[0] == "v":
            r = z3.Real(k[1])
        elif k[0] == "ite":
            r = z3.If(self.bool(k[1]), self.poly(k[2]), self.poly(k[3]))
        elif k[0] in ("max", "min"):
            xs = [self.poly(p) for p in k[1]]
            r = xs[0]
            for x in xs[1:]:
                r = z3.If(r >= x, r, x) if k[0] == "max" else z3.If(r <= x, r, x)
        else:
            r = z3.Real(f"{k[0]}_{i}")
        self.a[i] = r
        return r

    def bool(self, b):
        z3 = self.z3
        op = b[0]
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "<":
            return self.poly(b[1]) < 0
        if op == "<=":
            return self.poly(b[1]) <= 0
        if op == "==":
            return self.poly(b[1]) == 0
        if op == "not":
            return z3.Not(self.bool(b[1]))
        if op == "and":
            return z3.And([self.bool(x) for x in b[1]])
        if op == "or":
            return z3.Or([self.bool(x) for x in b[1]])
        raise T.Unsupported(op)
