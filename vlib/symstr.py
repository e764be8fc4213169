"""Symbolic text: str proxies whose characters are bit-vectors, for the literals Python functions print."""
import re

from . import smt
from . import symfp as S
from .symint import SBool, Undecided

z3 = smt.z3
REG = []            # texts by token
OPEN, CLOSE = "\ue000", "\ue001"
TOKEN = re.compile(OPEN + r"(\d+)" + CLOSE)
ALLOWED = {"replace", "strip", "rstrip", "lstrip", "split", "partition", "rpartition", "startswith", "endswith", "find", "index", "encode", "join", "lower", "upper", "removesuffix",
           "removeprefix", "chars", "opaque", "ident"}


def same(c, d):
    """Is character c equal to character d?"""
    if isinstance(c, str) and isinstance(d, str):
        return c == d
    bv = lambda x: z3.BitVecVal(ord(x), 8) if isinstance(x, str) else x      # noqa: E731
    return bool(SBool(bv(c) == bv(d)))


def matches(cs, pat):
    """Do the characters start with the pattern? One decision for the whole pattern."""
    if len(cs) < len(pat) or any(isinstance(c, str) and c != o for c, o in zip(cs, pat)):
        return False
    e = [c == z3.BitVecVal(ord(o), 8) for c, o in zip(cs, pat) if not isinstance(c, str)]
    return bool(SBool(z3.And(*e))) if e else True


class SStr(str):
    """chars: one-character strings and 8-bit vectors; or opaque: (kind, value), a text only known by the value it denotes."""

    def __new__(cls, chars=None, opaque=None):
        self = super().__new__(cls, f"{OPEN}{len(REG)}{CLOSE}")
        self.ident = len(REG)
        self.chars, self.opaque = chars, opaque
        REG.append(self)
        return self

    def __getattribute__(self, n):
        if not n.startswith("_") and n not in ALLOWED:
            raise Undecided(f"str.{n} of a symbolic text")
        return super().__getattribute__(n)

    def _known(self):
        if self.opaque:
            raise Undecided("characters of an opaque text")

    def replace(self, old, new, count=-1):
        if self.opaque:
            if self.opaque[0] == "hex" and set(old) <= set("0p") and "p" in old and old.replace("0", "") == new == "p":
                return self                       # dropping zeros before the exponent keeps the value
            raise Undecided("replace in an opaque text")
        out, i, k = [], 0, 0
        cs = self.chars
        while i < len(cs):
            if count != k and old and matches(cs[i:], old):
                out += list(new)
                i += len(old)
                k += 1
            else:
                out.append(cs[i])
                i += 1
        return SStr(out)

    def rstrip(self, which=" \n\t"):
        self._known()
        cs = list(self.chars)
        while cs and any(same(cs[-1], w) for w in which):
            cs.pop()
        return SStr(cs)

    def lstrip(self, which=" \n\t"):
        self._known()
        cs = list(self.chars)
        while cs and any(same(cs[0], w) for w in which):
            cs.pop(0)
        return SStr(cs)

    def strip(self, which=" \n\t"):
        return self.lstrip(which).rstrip(which)

    def find(self, sub, *a):
        self._known()
        if a:
            raise Undecided("find with bounds")
        for i in range(len(self.chars) - len(sub) + 1):
            if matches(self.chars[i:], sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (SStr(self.chars[:i]), sep, SStr(self.chars[i + len(sep):]))

    rpartition = None

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Undecided("split at white space")
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            a, s, b = rest.partition(sep)
            out.append(a)
            if not s:
                return out
            rest = b
        return [*out, rest]

    def startswith(self, p, *a):
        self._known()
        return matches(self.chars, p)

    def endswith(self, p, *a):
        self._known()
        return len(p) <= len(self.chars) and matches(self.chars[len(self.chars) - len(p):], p)

    def removesuffix(self, p):
        return SStr(self.chars[:len(self.chars) - len(p)]) if self.endswith(p) else self

    def removeprefix(self, p):
        return SStr(self.chars[len(p):]) if self.startswith(p) else self

    def lower(self):
        self._known()
        return SStr([c.lower() if isinstance(c, str) else z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c) for c in self.chars])

    def upper(self):
        self._known()
        return SStr([c.upper() if isinstance(c, str) else z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c) for c in self.chars])

    def __len__(self):
        self._known()
        return len(self.chars)

    def __iter__(self):
        self._known()
        return iter([SStr([c]) for c in self.chars])

    def __getitem__(self, i):
        self._known()
        return SStr(self.chars[i] if isinstance(i, slice) else [self.chars[i]])

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __eq__(self, o):
        if self.opaque or not isinstance(o, str):
            return self is o
        oc = decode(o)
        return len(oc) == len(self.chars) and all(same(a, b) for a, b in zip(self.chars, oc))

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__

    def __add__(self, o):
        return SStr([*self.chars, *decode(o)]) if not self.opaque else str.__add__(self, o)

    def __radd__(self, o):
        return SStr([*decode(o), *self.chars]) if not self.opaque else str.__add__(o, self)

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise Undecided("format of a symbolic text")
        return f"{OPEN}{self.ident}{CLOSE}"


def decode(text):
    """The characters of a text: concrete ones, bit-vectors, and opaque texts."""
    if isinstance(text, SStr):
        return [text] if text.opaque else list(text.chars)
    out, at = [], 0
    for m in TOKEN.finditer(text):
        out += list(text[at:m.start()])
        t = REG[int(m.group(1))]
        out += [t] if t.opaque else list(t.chars)
        at = m.end()
    return out + list(text[at:])


def pieces(chars, sep=","):
    """Split at a concrete separator, white space and braces dropped."""
    out = [[]]
    for c in chars:
        if isinstance(c, str) and not isinstance(c, SStr) and c == sep:
            out.append([])
        elif isinstance(c, str) and not isinstance(c, SStr) and c in " \n\t{}":
            continue
        else:
            out[-1].append(c)
    return out


def hex_of(x):
    """float.hex of a symbolic double."""
    b = z3.simplify(z3.fpToIEEEBV(S.conv(x.e, S.F64)))
    if MODE["opaque"]:
        return SStr(opaque=("hex", S.conv(x.e, S.F64)))
    e, m = z3.Extract(62, 52, b), z3.Extract(51, 0, b)
    if SBool(z3.fpIsNaN(x.e)):
        return "nan"
    neg = ["-"] if SBool(z3.fpIsNegative(x.e)) else []
    if SBool(z3.fpIsInf(x.e)):
        return "-inf" if neg else "inf"
    if SBool(z3.fpIsZero(x.e)):
        return SStr([*neg, *"0x0.0p+0"])
    nib = [z3.Extract(51 - 4 * i, 48 - 4 * i, b) for i in range(13)]
    dig = [z3.simplify(z3.If(z3.ULT(n, 10), z3.ZeroExt(4, n) + 48, z3.ZeroExt(4, n) + 87)) for n in nib]
    if SBool(e == 0):
        return SStr([*neg, *"0x0.", *dig, *"p-1022"])
    x16 = z3.ZeroExt(5, e)
    if SBool(z3.UGE(e, 1023)):
        sign, k = "+", x16 - 1023
    else:
        sign, k = "-", 1023 - x16
    n = next((n for n in (1, 2, 3) if SBool(z3.ULT(k, 10 ** n))), 4)
    ds = [z3.simplify(z3.Extract(7, 0, z3.URem(z3.UDiv(k, z3.BitVecVal(10 ** i, 16)), z3.BitVecVal(10, 16))) + 48) for i in range(n - 1, -1, -1)]
    del m
    return SStr([*neg, *"0x1.", *dig, "p", sign, *ds])


MODE = {"opaque": False}


def decimal_of(x):
    """str or repr of a symbolic float: the shortest text that denotes it."""
    return SStr(opaque=("dec", x.e))


def value(cs):
    """(condition under which the text is a C constant of known form, its bits as a double) of the characters of a literal."""
    if len(cs) == 1 and isinstance(cs[0], SStr):
        e = S.conv(cs[0].opaque[1], S.F64)
        return z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))), z3.fpToIEEEBV(e)
    t = "".join(c if isinstance(c, str) else "#" for c in cs)
    special = t.replace("(", "").replace(")", "")
    if special in SPECIAL:
        return z3.BoolVal(True), z3.BitVecVal(SPECIAL[special], 64)
    cs = list(cs)
    neg = False
    if cs and cs[0] in ("-", "+"):
        neg = cs.pop(0) == "-"
    bad = (z3.BoolVal(False), z3.BitVecVal(0, 64))
    if "".join(c if isinstance(c, str) else "#" for c in cs[:2]).lower() != "0x" or len(cs) < 3:
        return bad
    cs = cs[2:]
    ps = [i for i, c in enumerate(cs) if isinstance(c, str) and c in "pP"]
    if len(ps) != 1:
        return bad
    mant, ex = cs[:ps[0]], cs[ps[0] + 1:]
    dots = [i for i, c in enumerate(mant) if isinstance(c, str) and c == "."]
    if len(dots) > 1:
        return bad
    lead, frac = (mant[:dots[0]], mant[dots[0] + 1:]) if dots else (mant, [])
    if len(lead) != 1 or lead[0] not in ("0", "1"):
        return bad
    frac = frac + ["0"] * (13 - len(frac))
    ok = []

    def digit(c, w):
        if isinstance(c, str):
            try:
                return z3.BitVecVal(int(c, 16), w)
            except ValueError:
                ok.append(z3.BoolVal(False))
                return z3.BitVecVal(0, w)
        n = z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
        ok.append(z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102))))
        return z3.Extract(w - 1, 0, n) if w <= 8 else z3.ZeroExt(w - 8, n)
    ok += [digit(c, 4) == 0 for c in frac[13:]]
    m = z3.Concat(*[digit(c, 4) for c in frac[:13]])
    eneg = False
    if ex and ex[0] in ("-", "+"):
        eneg = ex.pop(0) == "-"
    if not ex or len(ex) > 5:
        return bad
    k = z3.BitVecVal(0, 32)
    for c in ex:
        if isinstance(c, str) and not c.isdigit():
            return bad
        k = k * 10 + digit(c, 32)
    k = -k if eneg else k
    sign = z3.BitVecVal(int(neg), 1)
    if lead[0] == "1":
        be = k + 1023
        ok.append(z3.And(be >= 1, be <= 2046))
        return z3.And(*ok), z3.Concat(sign, z3.Extract(10, 0, be), m)
    ok.append(z3.Or(m == 0, k == -1022))
    return z3.And(*ok), z3.Concat(sign, z3.BitVecVal(0, 11), m)


SPECIAL = {"INFINITY": 0x7ff << 52, "-INFINITY": 0xfff << 52, "1.0/0.0": 0x7ff << 52, "-1.0/0.0": 0xfff << 52, "HUGE_VAL": 0x7ff << 52, "-HUGE_VAL": 0xfff << 52,
           "NAN": 0x7ff8 << 48, "-NAN": 0xfff8 << 48, "0.0/0.0": 0x7ff8 << 48, "-0.0/0.0": 0x7ff8 << 48}


def shim_float(tokens=None):
    base = S.shim_float(tokens or S.Tokens())

    class Meta(type(base)):
        def __call__(cls, x=0.0):
            return S.SFloat(S.conv(x.e, S.F64), "py") if isinstance(x, S.SFloat) else float(x)

    class Float(base, metaclass=Meta):
        @staticmethod
        def hex(x):
            return hex_of(x) if isinstance(x, S.SFloat) else float.hex(x)
    return Float


S.SFloat.__str__ = S.SFloat.__repr__ = decimal_of
S.SFloat.hex = hex_of


def _format(self, spec):
    if spec in ("", "r"):
        return str.__str__(decimal_of(self))
    raise Undecided(f"format {spec} of a symbolic float")


S.SFloat.__format__ = _format
