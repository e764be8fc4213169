"""Symbolic executor for clang -O0 (mem2reg) LLVM 18 IR.

Integers and pointers that steer control or address memory are concrete; data (floats, or integers when the
caller makes them symbolic) may be symbolic.  A branch on a symbolic condition executes both sides up to the
immediate post-dominator and merges the results with if-then-else, so one run covers all values.
Every access is checked against the bounds of the object / struct member it addresses.
"""
import math
import os
import re
import struct
import subprocess
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Term, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


class CompileError(Exception):
    pass


class Fault(Exception):
    """Execution cannot continue in a meaningful way (e.g. a symbolic address)."""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def compile_ll(cfile, cwd, extra=(), openmp=False, workdir=None):
    """C file -> list of IR lines (clang -O0, mem2reg)."""
    base = os.path.basename(cfile)
    out = os.path.join(workdir or cwd, base + ".ll")
    cmd = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-emit-llvm", "-S", "-w",
           "-fno-discard-value-names", "-fno-builtin",
           "-I", os.path.join(HERE, "include"), *extra, base, "-o", out]
    if openmp:
        cmd.insert(1, "-fopenmp")
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[:3000])
    r = subprocess.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-passes=mem2reg", "-S", out, "-o", out],
                       capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[:3000])
    with open(out) as f:
        txt = f.read()
    os.unlink(out)
    return txt


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("kind", "n", "elem", "fields", "offs", "_size", "_align", "name")

    def __init__(self, kind, n=0, elem=None, fields=None, packed=False, name=None):
        self.kind = kind
        self.n = n
        self.elem = elem
        self.fields = fields
        self.name = name
        if kind == "int":
            self._size = max(1, (n + 7) // 8)
            self._align = min(self._size, 16)
        elif kind == "float":
            self._size = self._align = n // 8
        elif kind == "ptr":
            self._size = self._align = 8
        elif kind in ("array", "vector"):
            self._size = n * elem._size
            self._align = elem._align
        elif kind == "struct":
            off = 0
            al = 1
            self.offs = []
            for f in fields:
                a = 1 if packed else f._align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += f._size
                al = max(al, a)
            self._size = (off + al - 1) // al * al
            self._align = al
        else:
            self._size = self._align = 1


class Module:
    """One or more linked translation units."""

    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (Ty, init tokens or None, isconst)
        self.functions = {}
        self.declares = set()

    # --- type parsing
    _prim = {"float": Ty("float", 32), "double": Ty("float", 64), "half": Ty("float", 16), "ptr": Ty("ptr"),
             "void": Ty("void"), "x86_fp80": Ty("float", 128), "metadata": Ty("void"), "label": Ty("void")}
    _ints = {}

    def parse_type(self, s, i=0):
        """Parse a type at s[i:]; returns (Ty, next index)."""
        while s[i] == " ":
            i += 1
        ch = s[i]
        if ch == "[" or (ch == "<" and s[i + 1] != "{"):
            close = "]" if ch == "[" else ">"
            m = re.match(r"\s*(\d+) x ", s[i + 1:])
            n = int(m.group(1))
            e, j = self.parse_type(s, i + 1 + m.end())
            while s[j] == " ":
                j += 1
            assert s[j] == close, s[i:j + 5]
            return Ty("array" if ch == "[" else "vector", n, e), j + 1
        if ch == "{" or s.startswith("<{", i):
            packed = ch == "<"
            j = i + (2 if packed else 1)
            fields = []
            while True:
                while s[j] in " ,":
                    j += 1
                if s[j] == "}":
                    j += 1
                    break
                f, j = self.parse_type(s, j)
                fields.append(f)
            if packed:
                j += 1
            return Ty("struct", fields=fields, packed=packed), j
        if ch == "%":
            m = re.compile(r'%("[^"]*"|[\w.$-]+)').match(s, i)
            name = m.group(0)
            t = self.types.get(name)
            if t is None:
                t = Ty("opaque", name=name)
            return t, m.end()
        m = re.compile(r"i(\d+)\b").match(s, i)
        if m:
            n = int(m.group(1))
            if n not in self._ints:
                self._ints[n] = Ty("int", n)
            return self._ints[n], m.end()
        m = re.compile(r"[a-z_0-9]+").match(s, i)
        if m and m.group(0) in self._prim:
            return self._prim[m.group(0)], m.end()
        raise Unsupported("type: " + s[i:i + 40])

    def add_text(self, txt, unit=""):
        lines = txt.split("\n")
        # struct types first
        for ln in lines:
            m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', ln)
            if m:
                self.types.pop(m.group(1), None)
        pending = [re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', ln) for ln in lines]
        pending = [p for p in pending if p]
        for _ in range(len(pending) + 1):
            rest = []
            for p in pending:
                if p.group(2).strip() == "opaque":
                    self.types[p.group(1)] = Ty("opaque", name=p.group(1))
                    continue
                needed = re.findall(r'%(?:"[^"]*"|[\w.$-]+)', p.group(2))
                if any(n not in self.types for n in needed):
                    rest.append(p)
                    continue
                self.types[p.group(1)] = self.parse_type(p.group(2))[0]
            pending = rest
            if not rest:
                break
        privates = {}
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', ln)
                name, rest = m.group(1), m.group(2)
                mm = re.search(r"\b(global|constant) ", rest)
                if mm:
                    flags = rest[:mm.start()]
                    isconst = mm.group(1) == "constant"
                    ty, j = self.parse_type(rest, mm.end())
                    init = rest[j:].strip()
                    ext = "external" in flags
                    if "private" in flags or "internal" in flags:
                        new = f"{unit}.{name}"
                        privates[name] = new
                        name = new
                    # strip trailing attributes
                    init = re.sub(r"(, align \d+|, section \"[^\"]*\"|, comdat|, !dbg.*)+$", "", init).strip()
                    if ext:
                        self.globals.setdefault(name, (ty, None, isconst))
                    else:
                        self.globals[name] = (ty, init, isconst)
            elif ln.startswith("define "):
                body = []
                hdr = ln
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                f = Function(self, hdr, body, privates, unit)
                if f.internal:
                    privates[f.name] = f"{unit}.{f.name}"
                    f.name = f"{unit}.{f.name}"
                self.functions[f.name] = f
            elif ln.startswith("declare "):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
                self.declares.add(m.group(1))
            i += 1
        for f in self.functions.values():
            if f.unit == unit:
                f.privates = privates
        for n in list(self.globals):
            ty, init, c = self.globals[n]
            if isinstance(init, str):
                self.globals[n] = (ty, (init, privates), c)


_ATTR = r"(?:noundef|nonnull|signext|zeroext|nocapture|readonly|writeonly|immarg|noalias|returned|inreg|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\)|range\([^)]*\)|captures\([^)]*\)|readnone|nofree)"


class Function:
    def __init__(self, mod, hdr, body, privates, unit):
        self.mod = mod
        self.unit = unit
        self.privates = privates
        self.internal = bool(re.match(r"define (?:dso_local )?(internal|private)", hdr))
        m = re.search(r'@("[^"]*"|[\w.$-]+)\((.*)\)', hdr)
        self.name = m.group(1)
        pre = hdr[:m.start()]
        self.params = []
        self.ptypes = []
        # parameters: take up to matching paren
        s = hdr[m.end(1):]
        depth = 0
        for k, ch in enumerate(s):
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    break
        for p in split_commas(s[1:k]):
            p = p.strip()
            if p == "...":
                continue
            ty, j = mod.parse_type(p)
            self.ptypes.append(ty)
            mm = re.search(r'(%(?:"[^"]*"|[\w.$-]+))\s*$', p[j:])
            self.params.append(mm.group(1) if mm else f"%{len(self.params)}")
        self.body = body
        self.blocks = None

    def compile(self):
        if self.blocks is not None:
            return
        self.blocks = {}
        cur = None
        nparams = len(self.params)
        for ln in self.body:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'("[^"]*"|[\w.$-]+):', ln)
            if m:
                cur = m.group(1)
                self.blocks[cur] = []
                continue
            if cur is None:
                cur = str(nparams)  # entry block implicit label
                self.blocks[cur] = []
            if ln.startswith("    ") or ln.strip() == "]":   # continuation (switch)
                self.blocks[cur][-1] += " " + ln.strip()
            else:
                self.blocks[cur].append(ln.strip())
        self.entry = next(iter(self.blocks))
        self.code = {}
        self.succ = {}
        self.phis = {}
        for b, lns in self.blocks.items():
            code = []
            phis = []
            for ln in lns:
                ln = re.sub(r"(, ![\w.]+ !\d+)+$", "", ln)
                if ln.startswith("%") and " = phi " in ln:
                    phis.append(self._phi(ln))
                    continue
                code.append(ln)
            self.phis[b] = phis
            term = code[-1]
            self.succ[b] = re.findall(r'label %("[^"]*"|[\w.$-]+)', term)
            self.code[b] = code
        self.ipdom = self._ipdom()
        self.compiled = {}

    def _phi(self, ln):
        m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = phi (?:fast |nnan |ninf |nsz |contract |afn |reassoc )*(.*)$', ln)
        ty, j = self.mod.parse_type(m.group(2))
        inc = {}
        for mm in re.finditer(r'\[ (.*?), %("[^"]*"|[\w.$-]+) \]', m.group(2)[j:]):
            inc[mm.group(2)] = mm.group(1)
        return m.group(1), ty, inc

    def _ipdom(self):
        nodes = list(self.succ) + ["<exit>"]
        succ = {b: (s if s else ["<exit>"]) for b, s in self.succ.items()}
        # unreachable terminators go to exit as well
        pdom = {b: set(nodes) for b in nodes}
        pdom["<exit>"] = {"<exit>"}
        changed = True
        order = list(reversed(list(self.succ)))
        while changed:
            changed = False
            for b in order:
                s = set.intersection(*(pdom[x] for x in succ[b])) | {b}
                if s != pdom[b]:
                    pdom[b] = s
                    changed = True
        ip = {}
        for b in self.succ:
            cands = pdom[b] - {b}
            # immediate: the candidate whose pdom set is largest
            ip[b] = max(cands, key=lambda x: len(pdom[x])) if cands else "<exit>"
        return ip


def split_commas(s):
    out = []
    depth = 0
    cur = []
    q = False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            if ch == "," and depth == 0:
                out.append("".join(cur))
                cur = []
                continue
        cur.append(ch)
    if "".join(cur).strip():
        out.append("".join(cur))
    return out


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("name", "size", "cells", "missing", "const", "kind", "alive", "written")

    def __init__(self, name, size, kind, missing=None, const=False):
        self.name = name
        self.size = size
        self.kind = kind          # 'global' 'stack' 'arg' 'heap' 'string'
        self.cells = {}
        self.missing = missing    # f(off, ty) -> value
        self.const = const
        self.alive = True
        self.written = set()


class Ptr:
    __slots__ = ("obj", "off", "lo", "hi", "path")

    def __init__(self, obj, off, lo=0, hi=None, path=""):
        self.obj = obj
        self.off = off
        self.lo = lo
        self.hi = obj.size if hi is None else hi
        self.path = path

    def __repr__(self):
        return f"&{self.obj.name}+{self.off}"


NULL = None


class FnPtr:
    def __init__(self, name):
        self.name = name


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class Finding:
    def __init__(self, kind, where, detail, cond):
        self.kind = kind
        self.where = where
        self.detail = detail
        self.cond = cond

    def key(self):
        return (self.kind, self.where, self.detail.split(" off ")[0])

    def __repr__(self):
        return f"{self.kind} in {self.where}: {self.detail}"


class Exec:
    """An execution state: memory + functions."""

    def __init__(self, module, max_steps=60_000_000, lift_const=None, keep_events=True):
        self.m = module
        self.objs = {}
        self.findings = {}
        self.pathcond = []
        self.logs = []
        self.steps = 0
        self.max_steps = max_steps
        self.lift_const = lift_const   # f(global name, offset, float)-> value
        self.events = []
        self.ext = {}                  # name -> handler(exec, args, argtypes, call text)
        self.funcs_run = set()
        self.branches = 0
        self.fn_objs = {}
        self._compiled_ops = 0
        self.reads_stale = set()
        self.ext_called = set()
        self.accesses = 0
        self.trace = None              # f('r'|'w', pointer, size)

    # ---------------- globals
    def global_obj(self, name):
        o = self.objs.get(name)
        if o is not None:
            return o
        if name not in self.m.globals:
            raise Fault(f"undefined global {name}")
        ty, init, const = self.m.globals[name]
        o = Obj(name, ty._size, "global", const=const)
        self.objs[name] = o
        if init is None:
            raise Fault(f"global {name} has no definition")
        txt, priv = init
        self._init(o, 0, ty, txt, priv, name)
        o.missing = None
        return o

    def _init(self, o, off, ty, txt, priv, name):
        txt = txt.strip()
        if txt in ("zeroinitializer", "undef", "poison", "null"):
            self._zero(o, off, ty)
            return
        if ty.kind == "array":
            if txt.startswith('c"'):
                data = parse_cstr(txt)
                for k, b in enumerate(data):
                    o.cells[off + k] = (b, 1, "i")
                return
            parts = split_commas(txt[1:-1])
            es = ty.elem._size
            for k, p in enumerate(parts):
                _, j = self.m.parse_type(p.strip())
                self._init(o, off + k * es, ty.elem, p.strip()[j:], priv, name)
            return
        if ty.kind == "struct":
            t = txt
            if t.startswith("<{"):
                t = t[2:-2]
            else:
                t = t[1:-1]
            for k, p in enumerate(split_commas(t)):
                fty, j = self.m.parse_type(p.strip())
                self._init(o, off + ty.offs[k], ty.fields[k], p.strip()[j:], priv, name)
            return
        if ty.kind == "float":
            v = self.parse_float(txt, ty)
            if self.lift_const is not None:
                lv = self.lift_const(name, off // ty._size, v)
                if lv is not None:
                    v = lv
            o.cells[off] = (v, ty._size, "f")
            return
        if ty.kind == "int":
            v = {"true": 1, "false": 0}.get(txt)
            v = int(txt) if v is None else v
            if self.lift_const is not None:
                lv = self.lift_const(name, off // ty._size, v)
                if lv is not None:
                    v = lv
            o.cells[off] = (v, ty._size, "i")
            return
        if ty.kind == "ptr":
            o.cells[off] = (self.const_operand(txt, ty, priv), 8, "p")
            return
        raise Unsupported("init " + txt[:60])

    def _zero(self, o, off, ty):
        def z(ooff, t):
            return NULL if t.kind == "ptr" else (0 if t.kind == "int" else 0.0)
        o.missing = None
        if ty.kind == "array":
            for k in range(ty.n):
                self._zero(o, off + k * ty.elem._size, ty.elem)
        elif ty.kind == "struct":
            for k, f in enumerate(ty.fields):
                self._zero(o, off + ty.offs[k], f)
        elif ty.kind == "ptr":
            o.cells[off] = (NULL, 8, "p")
        elif ty.kind == "int":
            o.cells[off] = (0, ty._size, "i")
        elif ty.kind == "float":
            o.cells[off] = (0.0, ty._size, "f")

    @staticmethod
    def parse_float(txt, ty):
        if txt.startswith("0x"):
            if txt[2] in "KLMHR":
                raise Unsupported("float literal " + txt)
            return struct.unpack(">d", bytes.fromhex(txt[2:].rjust(16, "0")))[0]
        return float(txt)

    def const_operand(self, txt, ty, priv):
        txt = txt.strip()
        if txt.startswith("@"):
            n = txt[1:]
            return self.global_ptr(priv.get(n, n))
        if txt in ("null", "zeroinitializer"):
            return NULL if ty.kind == "ptr" else (0.0 if ty.kind == "float" else 0)
        if txt in ("undef", "poison"):
            return UNDEF
        if txt.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw |inrange\([^)]*\) )*\((.*)\)$", txt)
            parts = split_commas(m.group(1))
            ety, _ = self.m.parse_type(parts[0].strip())
            pty, j = self.m.parse_type(parts[1].strip())
            base = self.const_operand(parts[1].strip()[j:], pty, priv)
            idx = []
            for p in parts[2:]:
                p = p.strip().replace("inrange ", "")
                ity, j = self.m.parse_type(p)
                idx.append(int(p[j:]))
            return self.gep(base, ety, idx)
        if ty.kind == "float":
            return self.parse_float(txt, ty)
        if ty.kind == "int":
            if txt == "true":
                return 1
            if txt == "false":
                return 0
            return int(txt) & ((1 << ty.n) - 1)
        if ty.kind == "vector":
            vals = []
            for p in split_commas(txt[1:-1]):
                et, j = self.m.parse_type(p.strip())
                vals.append(self.const_operand(p.strip()[j:], et, priv))
            return vals
        raise Unsupported("constant " + txt[:80])

    def global_ptr(self, name):
        if name in self.m.functions or (name in self.m.declares and name not in self.m.globals) or name in self.ext:
            return FnPtr(name)
        return Ptr(self.global_obj(name), 0)

    # ---------------- pointers / memory
    def gep(self, p, ety, idx):
        if p is NULL or p is UNDEF:
            if p is UNDEF:
                self.finding("uninit", "address computed from an uninitialised pointer")
                raise Fault("uninitialised pointer")
            raise Fault("gep on null")
        for i in idx:
            if not isinstance(i, int):
                if i is UNDEF:
                    self.finding("uninit", "address computed from an uninitialised index")
                    raise Fault("uninitialised index")
                raise Unsupported("symbolic address")
        off = p.off + ety._size * idx[0]
        lo, hi = p.lo, p.hi
        path = p.path
        t = ety
        for i in idx[1:]:
            if t.kind == "struct":
                off += t.offs[i]
                t = t.fields[i]
                # narrow to the member, only when the base is itself in bounds
                lo, hi = off, off + t._size
                path = path + f".{i}"
            else:
                off += t.elem._size * i
                t = t.elem
        return Ptr(p.obj, off, lo, hi, path)

    def cond_now(self):
        c = T.TRUE
        for x in self.pathcond:
            c = T.and_(c, x)
        return c

    def finding(self, kind, detail):
        f = Finding(kind, getattr(self, "curfn", "?"), detail, self.cond_now())
        self.findings.setdefault(f.key(), f)

    def _log(self, o, off):
        if self.logs:
            lg = self.logs[-1]
            k = (id(o), off)
            if k not in lg:
                lg[k] = (o, o.cells.get(off))

    def load(self, p, ty):
        if p is NULL or not isinstance(p, Ptr):
            self.finding("null", f"load through {p!r}")
            raise Fault("load through null/invalid pointer")
        o, off = p.obj, p.off
        self.accesses += 1
        if self.trace:
            self.trace("r", p, ty._size)
        if not (p.lo <= off and off + ty._size <= p.hi):
            self.finding("oob-read", f"{o.name}{p.path}[{p.lo},{p.hi}) off {off} size {ty._size}")
            if not (0 <= off and off + ty._size <= o.size):
                return self.fresh_val("oob", ty)
            return self.fresh_val("oob", ty)
        if not o.alive:
            self.finding("use-after-scope", o.name)
        c = o.cells.get(off)
        if c is None:
            if ty.kind == "vector":
                return [self.load(Ptr(o, off + k * ty.elem._size, p.lo, p.hi), ty.elem) for k in range(ty.n)]
            if o.missing is not None:
                v = o.missing(off, ty)
                o.cells[off] = (v, ty._size, "f" if ty.kind == "float" else ("p" if ty.kind == "ptr" else "i"))
                return v
            # mixed-size access?
            v = self.load_bytes(o, off, ty)
            return v
        if ty.kind == "vector":
            return [self.load(Ptr(o, off + k * ty.elem._size, p.lo, p.hi), ty.elem) for k in range(ty.n)]
        if c[1] != ty._size or (c[2] == "f") != (ty.kind == "float"):
            return self.load_bytes(o, off, ty)
        return c[0]

    def load_bytes(self, o, off, ty):
        bs = []
        for k in range(ty._size):
            b = None
            for back in range(0, 16):
                c = o.cells.get(off + k - back)
                if c is not None:
                    if back < c[1]:
                        b = self.to_bytes(c)[back]
                    break
            if b is None:
                return UNDEF
            bs.append(b)
        raw = bytes(bs)
        if ty.kind == "int":
            return int.from_bytes(raw, "little")
        if ty.kind == "float":
            return struct.unpack("<f" if ty._size == 4 else "<d", raw)[0]
        raise Unsupported("byte-wise pointer load")

    def to_bytes(self, c):
        v, sz, k = c
        if isinstance(v, Term) or v is UNDEF or not isinstance(v, (int, float)):
            raise Unsupported("byte access to a symbolic value")
        if k == "i":
            return (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
        if k == "f":
            return struct.pack("<f" if sz == 4 else "<d", v)
        raise Unsupported("byte access to pointer")

    def fresh_val(self, why, ty):
        if ty.kind == "float":
            return T.fresh(why)
        if ty.kind == "int":
            return UNDEF
        if ty.kind == "vector":
            return [self.fresh_val(why, ty.elem) for _ in range(ty.n)]
        return UNDEF

    def store(self, p, ty, v):
        if p is NULL or not isinstance(p, Ptr):
            self.finding("null", f"store through {p!r}")
            raise Fault("store through null/invalid pointer")
        o, off = p.obj, p.off
        if self.trace:
            self.trace("w", p, ty._size)
        if ty.kind == "vector":
            for k in range(ty.n):
                self.store(Ptr(o, off + k * ty.elem._size, p.lo, p.hi, p.path), ty.elem, v[k])
            return
        if not (p.lo <= off and off + ty._size <= p.hi):
            self.finding("oob-write", f"{o.name}{p.path}[{p.lo},{p.hi}) off {off} size {ty._size}")
            if not (0 <= off and off + ty._size <= o.size):
                return
        if o.const:
            self.finding("const-write", f"{o.name}")
        if not o.alive:
            self.finding("use-after-scope", o.name)
        o.written.add(off)
        k = "f" if ty.kind == "float" else ("p" if ty.kind == "ptr" else "i")
        c = o.cells.get(off)
        if (c is None or c[1] != ty._size) and o.kind != "fresh":
            # remove overlapping cells of other sizes
            for d in range(-15, ty._size):
                if d == 0:
                    continue
                cc = o.cells.get(off + d)
                if cc is not None and off + d < off + ty._size and off + d + cc[1] > off:
                    self._log(o, off + d)
                    self._explode(o, off + d, cc)
                    for e in range(ty._size):
                        if off + e in o.cells and e != 0:
                            self._log(o, off + e)
                            del o.cells[off + e]
        self._log(o, off)
        o.cells[off] = (v, ty._size, k)

    def _explode(self, o, off, c):
        bs = self.to_bytes(c)
        for k, b in enumerate(bs):
            self._log(o, off + k)
            o.cells[off + k] = (b, 1, "i")

    # ---------------- running
    def call(self, name, args):
        f = self.m.functions.get(name)
        if f is None:
            raise Fault("call to unknown function " + name)
        f.compile()
        self.funcs_run.add(name)
        env = dict(zip(f.params, args))
        env["<allocas>"] = []
        saved = getattr(self, "curfn", None)
        self.curfn = name
        kind, v = self.region(f, env, f.entry, {}, None)
        self.curfn = saved
        for o in env["<allocas>"]:
            o.alive = False
        return v

    def goto(self, f, env, target, prev):
        out = {}
        for name, ty, inc in f.phis[target]:
            out[name] = self.operand(f, env, inc[prev], ty)
        return out

    def region(self, f, env, bb, phis, stop):
        while True:
            if bb == stop:
                return "stop", phis
            env.update(phis)
            code = f.compiled.get(bb)
            if code is None:
                code = f.compiled[bb] = Compiler(self, f).block(bb)
            ops, term = code
            self.steps += len(ops) + 1
            if self.steps > self.max_steps:
                raise Unsupported("step bound exceeded")
            for op in ops:
                op(self, env)
            t = term[0]
            if t == "br":
                tgt = term[1]
                phis = self.goto(f, env, tgt, bb)
                bb = tgt
            elif t == "ret":
                return "ret", (term[1](self, env) if term[1] else None)
            elif t == "condbr":
                c = term[1](self, env)
                if isinstance(c, int):
                    tgt = term[2] if c else term[3]
                    phis = self.goto(f, env, tgt, bb)
                    bb = tgt
                    continue
                if c is UNDEF:
                    self.finding("uninit", "branch on an uninitialised value")
                    raise Fault("branch on uninitialised value")
                if c is T.TRUE or c is T.FALSE:
                    tgt = term[2] if c is T.TRUE else term[3]
                    phis = self.goto(f, env, tgt, bb)
                    bb = tgt
                    continue
                self.branches += 1
                j = f.ipdom[bb]
                jstop = None if j == "<exit>" else j
                r = []
                logs = []
                for side, (cc, tgt) in enumerate(((c, term[2]), (T.not_(c), term[3]))):
                    self.pathcond.append(cc)
                    self.logs.append({})
                    ph = self.goto(f, env, tgt, bb)
                    r.append(self.region(f, env, tgt, ph, jstop))
                    self.pathcond.pop()
                    lg = self.logs.pop()
                    new = {}
                    for k, (o, old) in lg.items():
                        new[k] = o.cells.get(k[1])
                    for k, (o, old) in lg.items():
                        if old is None:
                            o.cells.pop(k[1], None)
                        else:
                            o.cells[k[1]] = old
                    logs.append((lg, new))
                # merge memory
                keys = {}
                for lg, _ in logs:
                    for k, (o, old) in lg.items():
                        keys[k] = (o, old)
                for k, (o, old) in keys.items():
                    a = logs[0][1].get(k, old) if k in logs[0][0] else old
                    b = logs[1][1].get(k, old) if k in logs[1][0] else old
                    self._log(o, k[1])
                    mc = self.merge_cell(c, a, b, o)
                    if mc is None:
                        o.cells.pop(k[1], None)
                    else:
                        o.cells[k[1]] = mc
                if r[0][0] != r[1][0]:
                    raise Unsupported("one side of a symbolic branch returns, the other does not")
                if r[0][0] == "ret":
                    return "ret", (None if r[0][1] is None else self.merge(c, r[0][1], r[1][1]))
                phis = {n: self.merge(c, r[0][1][n], r[1][1][n]) for n in r[0][1]}
                bb = j
            elif t == "switch":
                c = term[1](self, env)
                if not isinstance(c, int):
                    raise Unsupported("switch on a symbolic value")
                tgt = term[3].get(c, term[2])
                phis = self.goto(f, env, tgt, bb)
                bb = tgt
            else:
                raise Fault("unreachable executed")

    def merge_cell(self, c, a, b, o):
        if a is None and b is None:
            return None
        if a is None or b is None:
            x = a or b
            fresh = (T.fresh("undef") if x[2] == "f" else UNDEF, x[1], x[2])
            a = a or fresh
            b = b or fresh
        if a[1] != b[1]:
            raise Unsupported("merge of cells of different size")
        return (self.merge(c, a[0], b[0]), a[1], a[2])

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, list):
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            x = b if a is UNDEF else a
            if isinstance(x, (float, Term)):
                a = T.fresh("undef") if a is UNDEF else a
                b = T.fresh("undef") if b is UNDEF else b
            else:
                return UNDEF
        if isinstance(a, (float, Term)) and isinstance(b, (float, Term)) and not (is_bv(a) or is_bv(b)):
            if isinstance(a, float) and isinstance(b, float) and a == b and math.copysign(1, a) == math.copysign(1, b):
                return a
            ba = isinstance(a, Term) and a.isbool
            bb_ = isinstance(b, Term) and b.isbool
            if not (ba or bb_):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                        raise Unsupported("merge with a non-finite constant")
            return T.ite(c, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if isinstance(a, bool):
                pass
        if isinstance(a, (int, Term)) and isinstance(b, (int, Term)) and ((isinstance(a, Term) and a.isbool) or (isinstance(b, Term) and b.isbool)):
            return T.ite(c, T.tobool(a), T.tobool(b))
        if INTMODE[0]:
            return INTMODE[0].merge(c, a, b)
        if isinstance(a, int) and isinstance(b, int):
            return GInt([(c, a), (T.not_(c), b)])
        if isinstance(a, GInt) or isinstance(b, GInt):
            la = a.alts if isinstance(a, GInt) else [(T.TRUE, a)]
            lb = b.alts if isinstance(b, GInt) else [(T.TRUE, b)]
            return GInt([(T.and_(c, g), v) for g, v in la] + [(T.and_(T.not_(c), g), v) for g, v in lb]).norm()
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off:
            return a
        raise Unsupported(f"merge of {a!r} and {b!r}")

    # operands
    def operand(self, f, env, txt, ty):
        ch = txt[0]
        if ch == "%":
            return env[txt]
        return self.const_operand(txt, ty, f.privates)


def is_bv(x):
    return False


class GInt:
    """A guarded set of concrete integers (result of merging integers under a symbolic condition)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def norm(self):
        d = {}
        for g, v in self.alts:
            d[v] = T.or_(d[v], g) if v in d else g
        d = {v: g for v, g in d.items() if g is not T.FALSE}
        if len(d) == 1:
            return next(iter(d))
        if len(d) > 4096:
            raise Unsupported("too many alternatives for a symbolic integer")
        return GInt([(g, v) for v, g in d.items()])

    def map(self, fn):
        return GInt([(g, fn(v)) for g, v in self.alts]).norm()


INTMODE = [None]     # pluggable handler for symbolic machine integers (vlib/intmode.py)


def parse_cstr(txt):
    s = txt[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


_name = r'%(?:"[^"]*"|[\w.$-]+)'


def sgn(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Compiler:
    def __init__(self, ex, f):
        self.f = f
        self.m = f.mod
        self.ex = ex

    def block(self, bb):
        ops = []
        lines = self.f.code[bb]
        for ln in lines[:-1]:
            op = self.instr(ln)
            if op is not None:
                ops.append(op)
        return ops, self.terminator(lines[-1])

    def getter(self, txt, ty):
        txt = txt.strip()
        if txt[0] == "%":
            return lambda ex, env: env[txt]
        f = self.f
        if txt.startswith("@") or txt.startswith("getelementptr") or ty.kind == "ptr":
            return lambda ex, env: ex.const_operand(txt, ty, f.privates)
        v = self.ex.const_operand(txt, ty, f.privates)
        return lambda ex, env: v

    def typed(self, s):
        """'i32 %x' -> (ty, getter)"""
        s = s.strip()
        ty, j = self.m.parse_type(s)
        rest = re.sub(r"^(\s*" + _ATTR + r"\b)+", "", s[j:]).strip()
        # attributes with parentheses
        while True:
            r2 = re.sub(r"^\s*" + _ATTR + r"\s*", "", rest)
            if r2 == rest:
                break
            rest = r2
        return ty, self.getter(rest, ty)

    def terminator(self, ln):
        if ln.startswith("br label"):
            return ("br", re.search(r'label %("[^"]*"|[\w.$-]+)', ln).group(1))
        if ln.startswith("br "):
            m = re.match(r'br i1 (.*?), label %("[^"]*"|[\w.$-]+), label %("[^"]*"|[\w.$-]+)', ln)
            return ("condbr", self.getter(m.group(1), self.m.parse_type("i1")[0]), m.group(2), m.group(3))
        if ln.startswith("ret void"):
            return ("ret", None)
        if ln.startswith("ret "):
            return ("ret", self.typed(ln[4:])[1])
        if ln.startswith("switch "):
            m = re.match(r'switch (.*?), label %("[^"]*"|[\w.$-]+) \[(.*)\]', ln)
            ty, g = self.typed(m.group(1))
            cases = {}
            for mm in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|[\w.$-]+)', m.group(3)):
                cases[int(mm.group(1)) & ((1 << ty.n) - 1)] = mm.group(2)
            return ("switch", g, m.group(2), cases)
        if ln.startswith("unreachable"):
            return ("unreachable",)
        raise Unsupported("terminator " + ln)

    def instr(self, ln):
        m = re.match(r"(" + _name + r") = (.*)$", ln)
        if m:
            dst, rhs = m.group(1), m.group(2)
        else:
            dst, rhs = None, ln
        op = rhs.split(" ", 1)[0]
        if op in ("tail", "musttail", "notail"):
            rhs = rhs.split(" ", 1)[1]
            op = "call"
        h = getattr(self, "i_" + op, None)
        if h is None:
            raise Unsupported("instruction " + rhs)
        return h(dst, rhs)

    def i_alloca(self, dst, rhs):
        s = rhs[len("alloca "):]
        ty, j = self.m.parse_type(s)
        mm = re.match(r", (i\d+) (\S+?)(,|$)", s[j:])
        cnt = self.getter(mm.group(2), self.m.parse_type(mm.group(1))[0]) if mm else None
        fn = self.f.name

        def op(ex, env):
            n = cnt(ex, env) if cnt else 1
            o = Obj(f"{fn}:{dst}", ty._size * n, "stack")
            env["<allocas>"].append(o)
            env[dst] = Ptr(o, 0)
        return op

    def i_load(self, dst, rhs):
        s = re.sub(r"^load (volatile |atomic )*", "", rhs)
        s = re.sub(r"( monotonic| seq_cst| acquire)?, align \d+$", "", s)
        parts = split_commas(s)
        ty, _ = self.m.parse_type(parts[0])
        _, g = self.typed(parts[1])

        if ty.kind in ("float", "int"):
            sz, isf = ty._size, ty.kind == "float"

            def op(ex, env):
                p = g(ex, env)
                if type(p) is Ptr and ex.trace is None:
                    off = p.off
                    if p.lo <= off and off + sz <= p.hi and p.obj.alive:
                        c = p.obj.cells.get(off)
                        if c is not None and c[1] == sz and (c[2] == "f") == isf:
                            env[dst] = c[0]
                            return
                env[dst] = ex.load(p, ty)
            return op

        def op(ex, env):
            env[dst] = ex.load(g(ex, env), ty)
        return op

    def i_store(self, dst, rhs):
        s = re.sub(r"^store (volatile |atomic )*", "", rhs)
        s = re.sub(r"( monotonic| seq_cst| release)?, align \d+$", "", s)
        parts = split_commas(s)
        ty, v = self.typed(parts[0])
        _, g = self.typed(parts[1])

        def op(ex, env):
            ex.store(g(ex, env), ty, v(ex, env))
        return op

    def i_getelementptr(self, dst, rhs):
        s = re.sub(r"^getelementptr (inbounds |nuw |nusw )*", "", rhs)
        parts = split_commas(s)
        ety, _ = self.m.parse_type(parts[0])
        _, base = self.typed(parts[1])
        idx = []
        for p in parts[2:]:
            ty, g = self.typed(p)
            n = ty.n
            idx.append((g, n))

        if ety.kind == "opaque":
            raise Unsupported("gep on opaque type")

        def op(ex, env):
            ii = []
            for g, n in idx:
                v = g(ex, env)
                if isinstance(v, int):
                    v = sgn(v, n)
                ii.append(v)
            env[dst] = ex.gep(base(ex, env), ety, ii)
        return op

    # --- integer ops
    def _bin(self, rhs, op):
        s = rhs[len(op):].strip()
        s = re.sub(r"^((nsw|nuw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*", "", s)
        parts = split_commas(s)
        ty, a = self.typed(parts[0])
        b = self.getter(parts[1], ty)
        return ty, a, b

    def _int(self, dst, rhs, opn, fn):
        ty, a, b = self._bin(rhs, opn)
        vec = ty.kind == "vector"
        n = ty.elem.n if vec else ty.n
        mask = (1 << n) - 1

        def one(ex, x, y):
            if type(x) is int and type(y) is int:
                return fn(x, y, n) & mask
            if x is UNDEF or y is UNDEF:
                ex.finding("uninit", f"{opn} on an uninitialised integer")
                return UNDEF
            if INTMODE[0]:
                return INTMODE[0].binop(opn, x, y, n)
            if isinstance(x, GInt) or isinstance(y, GInt):
                return gbin(x, y, lambda p, q: fn(p, q, n) & mask)
            if n == 1 and opn in ("xor", "and", "or"):
                x, y = T.tobool(x), T.tobool(y)
                if opn == "and":
                    return T.and_(x, y)
                if opn == "or":
                    return T.or_(x, y)
                return T.ite(x, T.not_(y), y)
            if isinstance(x, Term) and x.isbool or isinstance(y, Term) and y.isbool:
                x = GInt([(x, 1), (T.not_(x), 0)]) if isinstance(x, Term) else x
                y = GInt([(y, 1), (T.not_(y), 0)]) if isinstance(y, Term) else y
                return gbin(x, y, lambda p, q: fn(p, q, n) & mask)
            raise Unsupported(f"{opn} on symbolic integers")

        if vec:
            def op(ex, env):
                env[dst] = [one(ex, x, y) for x, y in zip(a(ex, env), b(ex, env))]
            return op

        def op(ex, env):
            x = a(ex, env)
            y = b(ex, env)
            if type(x) is int and type(y) is int:
                env[dst] = fn(x, y, n) & mask
            else:
                env[dst] = one(ex, x, y)
        return op

    def i_add(self, d, r): return self._int(d, r, "add", lambda x, y, n: x + y)
    def i_sub(self, d, r): return self._int(d, r, "sub", lambda x, y, n: x - y)
    def i_mul(self, d, r): return self._int(d, r, "mul", lambda x, y, n: x * y)
    def i_and(self, d, r): return self._int(d, r, "and", lambda x, y, n: x & y)
    def i_or(self, d, r): return self._int(d, r, "or", lambda x, y, n: x | y)
    def i_xor(self, d, r): return self._int(d, r, "xor", lambda x, y, n: x ^ y)
    def i_shl(self, d, r): return self._int(d, r, "shl", lambda x, y, n: x << y)
    def i_lshr(self, d, r): return self._int(d, r, "lshr", lambda x, y, n: x >> y)
    def i_ashr(self, d, r): return self._int(d, r, "ashr", lambda x, y, n: sgn(x, n) >> y)

    def i_sdiv(self, d, r): return self._int(d, r, "sdiv", lambda x, y, n: cdiv(sgn(x, n), sgn(y, n)))
    def i_srem(self, d, r): return self._int(d, r, "srem", lambda x, y, n: sgn(x, n) - sgn(y, n) * cdiv(sgn(x, n), sgn(y, n)))
    def i_udiv(self, d, r): return self._int(d, r, "udiv", lambda x, y, n: udiv(x, y))
    def i_urem(self, d, r): return self._int(d, r, "urem", lambda x, y, n: x - y * udiv(x, y))

    def i_icmp(self, dst, rhs):
        m = re.match(r"icmp (?:samesign )?(\w+) (.*)$", rhs)
        pred = m.group(1)
        parts = split_commas(m.group(2))
        ty, a = self.typed(parts[0])
        b = self.getter(parts[1], ty)
        if ty.kind == "vector":
            raise Unsupported("vector icmp")
        n = ty.n if ty.kind == "int" else 64
        fn = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y,
              "ult": lambda x, y: x < y, "ule": lambda x, y: x <= y, "ugt": lambda x, y: x > y, "uge": lambda x, y: x >= y,
              "slt": lambda x, y: sgn(x, n) < sgn(y, n), "sle": lambda x, y: sgn(x, n) <= sgn(y, n),
              "sgt": lambda x, y: sgn(x, n) > sgn(y, n), "sge": lambda x, y: sgn(x, n) >= sgn(y, n)}[pred]

        def op(ex, env):
            x = a(ex, env)
            y = b(ex, env)
            if type(x) is int and type(y) is int:
                env[dst] = 1 if fn(x, y) else 0
                return
            if ty.kind == "ptr":
                def same(p, q):
                    if p is NULL or q is NULL:
                        return p is q
                    return p.obj is q.obj and p.off == q.off
                if pred == "eq":
                    env[dst] = int(same(x, y))
                elif pred == "ne":
                    env[dst] = int(not same(x, y))
                else:
                    if x.obj is not y.obj:
                        raise Unsupported("ordering of pointers to different objects")
                    env[dst] = int({"ult": x.off < y.off, "ule": x.off <= y.off, "ugt": x.off > y.off, "uge": x.off >= y.off}[pred])
                return
            if x is UNDEF or y is UNDEF:
                ex.finding("uninit", "comparison of an uninitialised integer")
                env[dst] = UNDEF
                return
            if INTMODE[0]:
                env[dst] = INTMODE[0].icmp(pred, x, y, n)
                return
            # zext i1 comparisons against 0/1
            if isinstance(x, Term) and x.isbool and type(y) is int or isinstance(y, Term) and y.isbool and type(x) is int or isinstance(x, GInt) or isinstance(y, GInt):
                if isinstance(x, Term):
                    x = GInt([(x, 1), (T.not_(x), 0)])
                if isinstance(y, Term):
                    y = GInt([(y, 1), (T.not_(y), 0)])
                la = x.alts if isinstance(x, GInt) else [(T.TRUE, x)]
                lb = y.alts if isinstance(y, GInt) else [(T.TRUE, y)]
                res = T.FALSE
                for g, v in la:
                    for h, w in lb:
                        if fn(v, w):
                            res = T.or_(res, T.and_(g, h))
                env[dst] = res
                return
            raise Unsupported("icmp on symbolic integers")
        return op

    # --- float ops
    def _fp(self, dst, rhs, opn, cf, tf):
        ty, a, b = self._bin(rhs, opn)
        vec = ty.kind == "vector"
        ety = ty.elem if vec else ty
        is32 = ety.n == 32

        def one(ex, x, y):
            if type(x) is float and type(y) is float:
                r = cf(x, y)
                return f32(r) if is32 else r
            if x is UNDEF:
                x = T.fresh("undef")
            if y is UNDEF:
                y = T.fresh("undef")
            return tf(T.lift(x), T.lift(y))
        if vec:
            def op(ex, env):
                env[dst] = [one(ex, x, y) for x, y in zip(a(ex, env), b(ex, env))]
        else:
            def op(ex, env):
                env[dst] = one(ex, a(ex, env), b(ex, env))
        return op

    def i_fadd(self, d, r): return self._fp(d, r, "fadd", lambda x, y: x + y, T.add)
    def i_fsub(self, d, r): return self._fp(d, r, "fsub", lambda x, y: x - y, T.sub)
    def i_fmul(self, d, r): return self._fp(d, r, "fmul", lambda x, y: x * y, T.mul)
    def i_fdiv(self, d, r): return self._fp(d, r, "fdiv", fdiv, T.div)
    def i_frem(self, d, r): return self._fp(d, r, "frem", math.fmod, None)

    def i_fneg(self, dst, rhs):
        s = re.sub(r"^fneg ((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*", "", rhs)
        ty, a = self.typed(s)

        def op(ex, env):
            x = a(ex, env)
            if x is UNDEF:
                x = T.fresh("undef")
            env[dst] = -x if type(x) is float else T.mul(T.MONE, x)
        return op

    def i_fcmp(self, dst, rhs):
        m = re.match(r"fcmp ((?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) (.*)$", rhs)
        pred = m.group(2)
        parts = split_commas(m.group(3))
        ty, a = self.typed(parts[0])
        b = self.getter(parts[1], ty)
        rel = pred[1:]

        def op(ex, env):
            x = a(ex, env)
            y = b(ex, env)
            if type(x) is float and type(y) is float:
                un = math.isnan(x) or math.isnan(y)
                if pred == "ord":
                    env[dst] = int(not un)
                elif pred == "uno":
                    env[dst] = int(un)
                else:
                    v = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[rel]
                    env[dst] = int(v if not un else pred[0] == "u")
                return
            if x is UNDEF:
                x = T.fresh("undef")
            if y is UNDEF:
                y = T.fresh("undef")
            if pred == "ord":
                r = 1
            elif pred == "uno":
                r = 0
            elif rel == "ne":
                r = T.not_(T.cmp_("==", x, y))
            else:
                r = T.cmp_({"eq": "==", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[rel], x, y)
            env[dst] = 1 if r is T.TRUE else (0 if r is T.FALSE else r)
        return op

    # --- casts
    def _cast(self, dst, rhs, opn):
        s = re.sub(r"^" + opn + r" ((nneg|nuw|nsw) )*", "", rhs)
        i = s.rindex(" to ")
        ty, a = self.typed(s[:i])
        to, _ = self.m.parse_type(s[i + 4:])
        return ty, a, to

    def _c(self, dst, rhs, opn, fn, sym):
        ty, a, to = self._cast(dst, rhs, opn)
        vec = ty.kind == "vector"
        e1, e2 = (ty.elem, to.elem) if vec else (ty, to)

        def one(ex, x):
            if type(x) in (int, float):
                return fn(x, e1, e2)
            if x is UNDEF:
                return UNDEF
            return sym(ex, x, e1, e2)
        if vec:
            def op(ex, env):
                env[dst] = [one(ex, x) for x in a(ex, env)]
        else:
            def op(ex, env):
                env[dst] = one(ex, a(ex, env))
        return op

    @staticmethod
    def _isym(name):
        def sym(ex, x, e1, e2):
            if INTMODE[0]:
                return INTMODE[0].cast(name, x, e1.n, e2.n)
            if isinstance(x, GInt):
                if name == "sext":
                    return x.map(lambda v: sgn(v, e1.n) & ((1 << e2.n) - 1))
                if name == "trunc":
                    return x.map(lambda v: v & ((1 << e2.n) - 1))
                return x
            if isinstance(x, Term) and x.isbool:
                if name == "zext":
                    return x if e2.n == 1 else GInt([(x, 1), (T.not_(x), 0)])
                if name == "trunc":
                    return x
            raise Unsupported(f"{name} of a symbolic value")
        return sym

    def i_sext(self, d, r): return self._c(d, r, "sext", lambda x, a, b: sgn(x, a.n) & ((1 << b.n) - 1), self._isym("sext"))
    def i_zext(self, d, r): return self._c(d, r, "zext", lambda x, a, b: x, self._isym("zext"))
    def i_trunc(self, d, r): return self._c(d, r, "trunc", lambda x, a, b: x & ((1 << b.n) - 1), self._isym("trunc"))

    @staticmethod
    def _fsym(ex, x, a, b):
        if isinstance(x, GInt):
            raise Unsupported("float of guarded int")
        return x

    def i_fpext(self, d, r): return self._c(d, r, "fpext", lambda x, a, b: x, self._fsym)
    def i_fptrunc(self, d, r): return self._c(d, r, "fptrunc", lambda x, a, b: f32(x), self._fsym)

    @staticmethod
    def _sitofp_sym(ex, x, a, b):
        if isinstance(x, GInt):
            out = None
            for g, v in x.alts:
                v = float(sgn(v, a.n))
                out = v if out is None else T.ite(g, v, out)
            return out
        if isinstance(x, Term) and x.isbool:
            return T.ite(x, T.ONE, T.ZERO)
        if INTMODE[0]:
            return INTMODE[0].sitofp(x, a.n)
        raise Unsupported("sitofp of a symbolic integer")

    def i_sitofp(self, d, r): return self._c(d, r, "sitofp", lambda x, a, b: (f32 if b.n == 32 else float)(float(sgn(x, a.n))), self._sitofp_sym)
    def i_uitofp(self, d, r): return self._c(d, r, "uitofp", lambda x, a, b: (f32 if b.n == 32 else float)(float(x)), self._sitofp_sym)

    @staticmethod
    def _fptosi(x, a, b):
        if math.isnan(x) or math.isinf(x):
            return UNDEF
        return int(x) & ((1 << b.n) - 1)

    def i_fptosi(self, d, r):
        def sym(ex, x, a, b):
            raise Unsupported("float to int conversion of a symbolic value")
        return self._c(d, r, "fptosi", self._fptosi, sym)

    i_fptoui = lambda self, d, r: self._c(d, r, "fptoui", self._fptosi, lambda ex, x, a, b: (_ for _ in ()).throw(Unsupported("fptoui")))

    def i_bitcast(self, dst, rhs):
        ty, a, to = self._cast(dst, rhs, "bitcast")
        if ty.kind == "ptr" or (ty.kind == to.kind and ty.kind != "vector"):
            def op(ex, env):
                env[dst] = a(ex, env)
            return op
        if ty.kind == "vector" or to.kind == "vector":
            def op(ex, env):
                v = a(ex, env)
                env[dst] = vec_bitcast(v, ty, to)
            return op

        def op(ex, env):
            x = a(ex, env)
            if type(x) is float and to.kind == "int":
                env[dst] = int.from_bytes(struct.pack("<f" if ty.n == 32 else "<d", x), "little")
            elif type(x) is int and to.kind == "float":
                env[dst] = struct.unpack("<f" if to.n == 32 else "<d", x.to_bytes(to.n // 8, "little"))[0]
            else:
                raise Unsupported("bitcast of symbolic value")
        return op

    def i_ptrtoint(self, dst, rhs):
        ty, a, to = self._cast(dst, rhs, "ptrtoint")

        def op(ex, env):
            raise Unsupported("ptrtoint")
        return op

    i_inttoptr = i_ptrtoint

    def i_freeze(self, dst, rhs):
        ty, a = self.typed(rhs[len("freeze "):])

        def op(ex, env):
            env[dst] = a(ex, env)
        return op

    def i_select(self, dst, rhs):
        s = re.sub(r"^select ((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*", "", rhs)
        parts = split_commas(s)
        _, c = self.typed(parts[0])
        _, a = self.typed(parts[1])
        _, b = self.typed(parts[2])

        def op(ex, env):
            cc = c(ex, env)
            if cc is UNDEF:
                ex.finding("uninit", "select on an uninitialised value")
                raise Fault("select on uninitialised")
            if isinstance(cc, int):
                env[dst] = a(ex, env) if cc else b(ex, env)
            elif isinstance(cc, list):
                env[dst] = [x if q else y for q, x, y in zip(cc, a(ex, env), b(ex, env))]
            else:
                env[dst] = ex.merge(cc, a(ex, env), b(ex, env))
        return op

    # --- vectors (concrete lanes, symbolic content)
    def i_extractelement(self, dst, rhs):
        parts = split_commas(rhs[len("extractelement "):])
        _, v = self.typed(parts[0])
        _, i = self.typed(parts[1])

        def op(ex, env):
            env[dst] = v(ex, env)[i(ex, env)]
        return op

    def i_insertelement(self, dst, rhs):
        parts = split_commas(rhs[len("insertelement "):])
        ty, v = self.typed(parts[0])
        _, x = self.typed(parts[1])
        _, i = self.typed(parts[2])

        def op(ex, env):
            w = v(ex, env)
            w = list(w) if isinstance(w, list) else [UNDEF] * ty.n
            w[i(ex, env)] = x(ex, env)
            env[dst] = w
        return op

    def i_shufflevector(self, dst, rhs):
        parts = split_commas(rhs[len("shufflevector "):])
        ty, a = self.typed(parts[0])
        _, b = self.typed(parts[1])
        _, mk_ = self.typed(parts[2])

        def op(ex, env):
            x = a(ex, env)
            y = b(ex, env)
            x = x if isinstance(x, list) else [UNDEF] * ty.n
            y = y if isinstance(y, list) else [UNDEF] * ty.n
            xy = x + y
            mm = mk_(ex, env)
            if not isinstance(mm, list):
                mm = [0] * self.m.parse_type(parts[2].strip())[0].n
            env[dst] = [UNDEF if q is UNDEF else xy[q] for q in mm]
        return op

    # --- calls
    def i_call(self, dst, rhs):
        s = re.sub(r"^call ((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc) )*", "", rhs)
        m = re.search(r'(@("[^"]*"|[\w.$-]+)|' + _name + r")\(", s)
        callee = m.group(1)
        # argument list
        depth = 0
        st = m.end() - 1
        for k in range(st, len(s)):
            if s[k] == "(":
                depth += 1
            elif s[k] == ")":
                depth -= 1
                if depth == 0:
                    break
        args = []
        for p in split_commas(s[st + 1:k]):
            p = p.strip()
            if p.startswith("metadata"):
                return None
            args.append(self.typed(p))
        indirect = None
        if callee[0] == "@":
            name = callee[1:]
            name = self.f.privates.get(name, name)
            if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.stacksave") or name.startswith("llvm.stackrestore"):
                if name.startswith("llvm.stacksave"):
                    def op(ex, env):
                        env[dst] = NULL
                    return op
                return None
        else:
            indirect = self.getter(callee, Ty("ptr"))
            name = None
        rty = None
        pre = re.sub(r"^(\s*" + _ATTR + r")+", "", s[:m.start()]).strip()
        if dst is not None:
            rty, _ = self.m.parse_type(pre)

        def op(ex, env):
            n = name
            if n is None:
                fp = indirect(ex, env)
                if not isinstance(fp, FnPtr):
                    raise Unsupported("indirect call")
                n = fp.name
            vals = [g(ex, env) for _, g in args]
            h = ex.ext.get(n)
            if h is None and n in ex.m.functions:
                r = ex.call(n, vals)
            else:
                h = h or EXT.get(n)
                if h is None:
                    hh = next((v for k2, v in EXT_PREFIX.items() if n.startswith(k2)), None)
                    if hh is None:
                        raise Unsupported("external function " + n)
                    h = hh
                ex.ext_called.add(n)
                r = h(ex, vals, [t for t, _ in args], rty, n)
            if dst is not None:
                env[dst] = r
        return op


def cdiv(a, b):
    if b == 0:
        raise Fault("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def udiv(a, b):
    if b == 0:
        raise Fault("integer division by zero")
    return a // b


def fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x == 0 or math.isnan(x):
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)


def gbin(x, y, fn):
    la = x.alts if isinstance(x, GInt) else [(T.TRUE, x)]
    lb = y.alts if isinstance(y, GInt) else [(T.TRUE, y)]
    return GInt([(T.and_(g, h), fn(v, w)) for g, v in la for h, w in lb]).norm()


def vec_bitcast(v, ty, to):
    if ty.kind == "vector" and to.kind == "vector" and ty.elem._size == to.elem._size and ty.elem.kind == to.elem.kind:
        return v
    if INTMODE[0]:
        return INTMODE[0].vec_bitcast(v, ty, to)
    raise Unsupported("vector bitcast")


# ------------------------------------------------------------------ externals
def _um(name, cf):
    def h(ex, a, tys, rty, n):
        x = a[0]
        if x is UNDEF:
            x = T.fresh("undef")
        if type(x) is float:
            try:
                r = cf(x)
            except (OverflowError, ValueError):
                r = math.inf if name == "exp" else math.nan
            return f32(r) if rty.n == 32 else r
        return T.uf(name, x)
    return h


def _fmax(ex, a, tys, rty, n):
    x, y = [T.fresh("undef") if v is UNDEF else v for v in a]
    if type(x) is float and type(y) is float:
        return y if math.isnan(x) else (x if math.isnan(y) else max(x, y))
    if type(x) is float and math.isinf(x):
        return y if x < 0 else x
    if type(y) is float and math.isinf(y):
        return x if y < 0 else y
    return T.tmax(x, y)


def _fmin(ex, a, tys, rty, n):
    x, y = [T.fresh("undef") if v is UNDEF else v for v in a]
    if type(x) is float and type(y) is float:
        return y if math.isnan(x) else (x if math.isnan(y) else min(x, y))
    if type(x) is float and math.isinf(x):
        return y if x > 0 else x
    if type(y) is float and math.isinf(y):
        return x if y > 0 else y
    return T.tmin(x, y)


def _fabs(ex, a, tys, rty, n):
    x = a[0]
    if x is UNDEF:
        x = T.fresh("undef")
    return abs(x)


def _pow(ex, a, tys, rty, n):
    x, y = a
    if type(x) is float and type(y) is float:
        try:
            r = math.pow(x, y)
        except (OverflowError, ValueError):
            r = math.nan
        return f32(r) if rty.n == 32 else r
    return T.lift(x) ** (Fraction(y) if type(y) is float else y)


def _iabs(ex, a, tys, rty, n):
    x = a[0]
    if isinstance(x, int):
        return abs(sgn(x, 32)) & 0xffffffff
    if isinstance(x, GInt):
        return x.map(lambda v: abs(sgn(v, 32)) & 0xffffffff)
    raise Unsupported("abs of symbolic int")


def _memcpy(ex, a, tys, rty, n):
    d, s, k = a[0], a[1], a[2]
    if not isinstance(k, int):
        raise Unsupported("memcpy with symbolic size")
    if k == 0:
        return d
    for p, what in ((s, "oob-read"), (d, "oob-write")):
        if p is NULL or not isinstance(p, Ptr):
            ex.finding("null", "memcpy through an invalid pointer")
            raise Fault("memcpy null")
        if not (p.lo <= p.off and p.off + k <= p.hi):
            ex.finding(what, f"memcpy {p.obj.name}{p.path}[{p.lo},{p.hi}) off {p.off} size {k}")
            return d
    if d.obj.const:
        ex.finding("const-write", d.obj.name)
    cells = []
    off = s.off
    while off < s.off + k:
        c = s.obj.cells.get(off)
        if c is None:
            if s.obj.missing is not None:
                fty = Module._prim["float"]
                v = s.obj.missing(off, fty)
                s.obj.cells[off] = (v, 4, "f")
                c = s.obj.cells[off]
            else:
                off += 1
                continue
        cells.append((off - s.off, c))
        off += c[1]
    for o2 in range(d.off, d.off + k):
        if o2 in d.obj.cells:
            ex._log(d.obj, o2)
            del d.obj.cells[o2]
    for r, c in cells:
        ex._log(d.obj, d.off + r)
        d.obj.cells[d.off + r] = c
        d.obj.written.add(d.off + r)
    return d


def _memset(ex, a, tys, rty, n):
    d, v, k = a[0], a[1], a[2]
    if not (d.lo <= d.off and d.off + k <= d.hi):
        ex.finding("oob-write", f"memset {d.obj.name}{d.path}[{d.lo},{d.hi}) off {d.off} size {k}")
        return d
    if d.obj.const:
        ex.finding("const-write", d.obj.name)
    for o2 in range(d.off, d.off + k):
        if o2 in d.obj.cells:
            ex._log(d.obj, o2)
            del d.obj.cells[o2]
    if v == 0 and k % 4 == 0 and d.obj.kind != "string":
        for o2 in range(d.off, d.off + k, 4):
            ex._log(d.obj, o2)
            d.obj.cells[o2] = (0, 4, "i") if False else (0.0, 4, "f")
            d.obj.written.add(o2)
    else:
        for o2 in range(d.off, d.off + k):
            ex._log(d.obj, o2)
            d.obj.cells[o2] = (v & 255, 1, "i")
            d.obj.written.add(o2)
    return d


def cstring(p):
    out = bytearray()
    off = p.off
    while True:
        c = p.obj.cells.get(off)
        if c is None or c[0] == 0:
            break
        out.append(c[0])
        off += 1
    return out.decode("latin1")


def _io(ex, a, tys, rty, n):
    if ex.pathcond:
        raise Unsupported("I/O under a symbolic condition")
    vals = []
    for v in a:
        if isinstance(v, Ptr) and v.obj.const and v.obj.kind == "global" and v.obj.cells and all(c[1] == 1 for c in v.obj.cells.values()):
            vals.append(cstring(v))
        else:
            vals.append(v)
    ex.events.append((n, vals, getattr(ex, "curfn", "?")))
    if n in ("fopen",):
        o = Obj("FILE", 8, "heap")
        return Ptr(o, 0)
    if rty is None:
        return None
    return NULL if rty.kind == "ptr" else 0


def _round(fn):
    def h(ex, a, tys, rty, n):
        x = a[0]
        if type(x) is float:
            return float(fn(x)) if math.isfinite(x) else x
        return T.uf({"floor": "floor", "ceil": "ceil"}.get(n.rstrip("f"), n.rstrip("f")), x)
    return h


def cround(x):
    return math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2 ** 52 else x


EXT = {}
for nm, cf in (("exp", math.exp), ("log", math.log), ("sqrt", math.sqrt), ("tanh", math.tanh), ("sin", math.sin),
               ("cos", math.cos), ("atan", math.atan), ("erf", math.erf)):
    EXT[nm] = EXT[nm + "f"] = _um(nm, cf)
EXT["llvm.sqrt.f32"] = EXT["llvm.sqrt.f64"] = EXT["sqrt"]
EXT["llvm.exp.f32"] = EXT["llvm.exp.f64"] = EXT["exp"]
EXT["fmax"] = EXT["fmaxf"] = EXT["llvm.maxnum.f32"] = EXT["llvm.maxnum.f64"] = _fmax
EXT["fmin"] = EXT["fminf"] = EXT["llvm.minnum.f32"] = EXT["llvm.minnum.f64"] = _fmin
EXT["fabs"] = EXT["fabsf"] = EXT["llvm.fabs.f32"] = EXT["llvm.fabs.f64"] = _fabs
EXT["pow"] = EXT["powf"] = _pow
EXT["abs"] = EXT["llvm.abs.i32"] = _iabs
EXT["floor"] = EXT["floorf"] = EXT["llvm.floor.f32"] = EXT["llvm.floor.f64"] = _round(math.floor)
EXT["ceil"] = EXT["ceilf"] = EXT["llvm.ceil.f32"] = EXT["llvm.ceil.f64"] = _round(math.ceil)
EXT["round"] = EXT["roundf"] = _round(cround)
EXT["trunc"] = EXT["truncf"] = _round(math.trunc)
EXT["rint"] = EXT["rintf"] = EXT["nearbyint"] = EXT["nearbyintf"] = _round(round)
EXT["memcpy"] = EXT["memmove"] = _memcpy
EXT["memset"] = _memset
for nm in ("printf", "fprintf", "fopen", "fclose", "fputc", "fputs", "puts", "putchar", "fwrite", "fscanf", "clock", "fflush",
           "__isoc99_fscanf", "omp_get_thread_num"):
    EXT[nm] = _io
def _fmuladd(ex, a, tys, rty, n):
    x, y, z = [T.fresh("undef") if v is UNDEF else v for v in a]
    if all(type(v) is float for v in (x, y, z)):
        r = f32(x * y) if rty.n == 32 else x * y
        r = r + z
        return f32(r) if rty.n == 32 else r
    return T.add(T.mul(T.lift(x), T.lift(y)), T.lift(z))


EXT["llvm.fmuladd.f32"] = EXT["llvm.fmuladd.f64"] = EXT["fma"] = EXT["fmaf"] = EXT["llvm.fma.f32"] = _fmuladd
EXT_PREFIX = {"llvm.memcpy": _memcpy, "llvm.memmove": _memcpy, "llvm.memset": _memset}
