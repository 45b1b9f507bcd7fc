"""Symbolic executor for LLVM IR: path-wise execution with symbolic inputs, every branch and every
assertion decided by Z3 (QF_BV). Byte-exact memory with object bounds, lifetime and
uninitialised-data tracking; C++ exceptions. See DESIGN.md."""
import sys, time, struct, re, os
import z3
import llir
from llir import parse_module

OBJ = 20                      # address = object id << OBJ | 0x1000 + offset
BASE = 0x1000
MASKO = (1 << OBJ) - 1
M64 = (1 << 64) - 1


class Fork(Exception):
    def __init__(self, alts): self.alts = alts          # [(constraint, key expr, value)]
class Kill(Exception): pass                               # path ends silently (assumption not met)
class Done(Exception): pass                               # path ends normally
class Violation(Exception):
    def __init__(self, text, kind="assert"): self.text, self.kind = text, kind
class Unsupported(Exception): pass
class Unwind(Exception):
    def __init__(self, ptr, ti): self.ptr, self.ti = ptr, ti
class Switch(Exception): pass


class Obj:
    __slots__ = ("data", "mask", "sym", "size", "kind", "tok", "ro", "name")
    def __init__(self, size, kind, tok, data=None, mask=None, sym=None, ro=False, name=""):
        self.size, self.kind, self.tok, self.ro, self.name = size, kind, tok, ro, name
        self.data = data if data is not None else bytearray(size)
        self.mask = mask            # None: all concrete; else 0 concrete 1 symbolic 2 undefined
        self.sym = sym if sym is not None else {}
    def copy(self, tok):
        return Obj(self.size, self.kind, tok, bytearray(self.data), bytearray(self.mask) if self.mask is not None else None,
                   dict(self.sym), self.ro, self.name)


class Frame:
    __slots__ = ("fn", "code", "L", "pc", "allocas", "dst", "npc", "varargs")
    def copy(self):
        f = Frame()
        f.fn, f.code, f.L, f.pc, f.allocas, f.dst, f.npc, f.varargs = self.fn, self.code, list(self.L), self.pc, list(self.allocas), self.dst, self.npc, self.varargs
        return f


_tok = [0]
def newtok():
    _tok[0] += 1
    return _tok[0]


class State:
    __slots__ = ("mem", "tok", "frames", "pc", "model", "inputs", "nobj", "conc", "exc", "caught", "steps", "nund", "x", "trail")
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.tok = newtok(); self.tok = newtok()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc); s.model = self.model; s.inputs = list(self.inputs); s.nobj = self.nobj
        s.conc = dict(self.conc); s.exc = self.exc; s.caught = list(self.caught); s.steps = self.steps; s.nund = self.nund
        s.x = dict(self.x); s.trail = self.trail
        return s


def is_sym(v): return not isinstance(v, (int, float, tuple))
def bv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def width(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'i' else 64
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


class Exec:
    def __init__(self, max_paths=200000, max_steps=5000000, time_limit=600, qtimeout=120000, max_viol=3, sat="QF_BV"):
        self.mods = []; self.funcs = {}; self.gaddr = {}; self.faddr = {}; self.addrf = {}
        self.gobj = {}; self.intr = {}; self.max_paths, self.max_steps, self.time_limit = max_paths, max_steps, time_limit
        self.S = z3.SolverFor(sat); self.S.set("timeout", qtimeout)
        self.cur = []; self.nq = 0; self.tq = 0.0; self.npaths = 0; self.nsteps = 0; self.nforks = 0
        self.viol = []; self.wit = {}; self.executed = set(); self.max_viol = max_viol; self.undef = set()
        self.nextid = 1; self.tinames = {}; self.weak = set(); self.samples = []; self.kills = 0; self.nundef = 0; self.nassert = 0
        self.rename_by_mod = {}
        import symintr
        symintr.install(self)

    # ---- loading -------------------------------------------------------------
    def add_module(self, path, rename=None, tag=""):
        M = parse_module(path)
        M.tag = tag; M.ren = rename or {}
        self.mods.append(M)

    def lname(self, M, n):
        """link-level name of symbol n used in module M"""
        n = M.ren.get(n, n)
        if n in M.localsyms: return M.localsyms[n]
        return n

    def link(self):
        for k, M in enumerate(self.mods):
            M.localsyms = {}
            for n, f in M.funcs.items():
                if f.internal: M.localsyms[n] = "%s$%d" % (n, k)
            for n, (t, init, c, link) in M.globals.items():
                if 'private' in link or 'internal' in link: M.localsyms[n] = "%s$%d" % (n, k)
        for M in self.mods:
            for n, f in M.funcs.items():
                ln = self.lname(M, n)
                if ln not in self.funcs: self.funcs[ln] = f
        for M in self.mods:
            for n, v in M.aliases.items():
                seen = 0
                while v[0] == 'g' and v[1] in M.aliases and seen < 9: v = M.aliases[v[1]]; seen += 1
                if v[0] == 'g' and v[1] in M.funcs and self.lname(M, n) not in self.funcs: self.funcs[self.lname(M, n)] = M.funcs[v[1]]
        for n in [n for n in self.intr if n in self.funcs and not n.startswith(('_Z', '__cxa', '__clang'))]: del self.intr[n]
        self.ginit = []
        for M in self.mods:
            for n, (t, init, c, link) in M.globals.items():
                ln = self.lname(M, n)
                if init is not None and (ln not in self.gaddr or ln in self.weak):
                    if ln not in self.gaddr: self.gaddr[ln] = self.newaddr()
                    self.weak.discard(ln)
                    self.ginit.append((ln, M, t, init, c))
        # external globals
        for M in self.mods:
            for n, (t, init, c, link) in M.globals.items():
                ln = self.lname(M, n)
                if ln not in self.gaddr:
                    a = self.newaddr(); self.gaddr[ln] = a
                    try: sz = M.types.size(t)
                    except Exception: sz = 8
                    self.gobj[a >> OBJ] = Obj(sz, "global", 0, ro=False, name=ln)
        for ln, M, t, init, c in self.ginit:
            a = self.gaddr[ln]; sz = M.types.size(t)
            o = Obj(sz, "global", 0, ro=False, name=ln)
            self.winit(M, o, 0, t, init)
            o.ro = c
            self.gobj[a >> OBJ] = o
        self.ctors = []
        for M in self.mods:
            if 'llvm.global_ctors' in M.globals:
                init = M.globals['llvm.global_ctors'][1]
                if init[0] == 'agg':
                    for t, e in init[1]:
                        if e[0] == 'agg': self.ctors.append((M, e[1][1][1]))

    def newaddr(self):
        i = self.nextid; self.nextid += 1
        return (i << OBJ) | BASE

    def fnaddr(self, ln):
        if ln not in self.faddr:
            a = (0x7000000 + len(self.faddr)) << OBJ | BASE
            self.faddr[ln] = a; self.addrf[a] = ln
        return self.faddr[ln]

    def winit(self, M, o, off, t, v):
        T = M.types; t = T.res(t)
        k = v[0]
        if k in ('zero', 'undef'): return
        if k == 'bytes': o.data[off:off + len(v[1])] = v[1]; return
        if k == 'agg':
            if t[0] == 'st':
                offs, _ = T.layout(t)
                for (et, ev), eo in zip(v[1], offs): self.winit(M, o, off + eo, et, ev)
            else:
                es = T.size(t[2])
                for n, (et, ev) in enumerate(v[1]): self.winit(M, o, off + n * es, et, ev)
            return
        x = self.const(M, t, v)
        n = T.size(t)
        if isinstance(x, float): b = struct.pack('<d' if n == 8 else '<f', x)
        else: b = (x & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
        o.data[off:off + n] = b

    def sym_addr(self, M, n):
        ln = self.lname(M, n)
        if ln in self.gaddr: return self.gaddr[ln]
        if n in M.aliases:
            return self.const(M, 'ptr', M.aliases[n])
        for M2 in self.mods:
            if ln in M2.aliases: return self.const(M2, 'ptr', M2.aliases[ln])
        return self.fnaddr(ln)

    def const(self, M, t, v):
        k = v[0]
        if k == 'c':
            w = width(M.types.res(t)); return v[1] & ((1 << w) - 1)
        if k == 'f': return v[1]
        if k == 'zero':
            t = M.types.res(t)
            if isinstance(t, tuple) and t[0] in ('st', 'arr'): return self.zero_agg(M, t)
            return 0.0 if t in ('double', 'float') else 0
        if k == 'g': return self.sym_addr(M, v[1])
        if k == 'gep':
            base = self.const(M, 'ptr', v[2][0][1]); off = 0
            t = v[1]
            for n, (it, iv) in enumerate(v[2][1:]):
                i = sgn(self.const(M, it, iv), width(it))
                if n == 0: off += i * M.types.size(t)
                else:
                    t = M.types.res(t)
                    if t[0] == 'st': off += M.types.layout(t)[0][i]; t = t[1][i]
                    else: t = t[2]; off += i * M.types.size(t)
            return (base + off) & M64
        if k == 'cast':
            x = self.const(M, v[2], v[3]); w = width(M.types.res(v[4]))
            if v[1] == 'sext': x = sgn(x, width(v[2]))
            return x & ((1 << w) - 1)
        if k == 'bin':
            a, b = self.const(M, v[2], v[3]), self.const(M, v[2], v[4]); w = width(v[2])
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << (b & 63), 'lshr': a >> b}[v[1]]
            return r & ((1 << w) - 1)
        if k == 'cicmp':
            a, b = self.const(M, v[2], v[3]), self.const(M, v[2], v[4])
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[v[1]])
        if k == 'agg': return tuple(self.const(M, et, ev) for et, ev in v[1])
        if k == 'undef':
            t = M.types.res(t)
            if isinstance(t, tuple) and t[0] in ('st', 'arr'): return self.zero_agg(M, t)
            return 0
        raise Unsupported("constant %r" % (v,))

    def zero_agg(self, M, t):
        t = M.types.res(t)
        if t[0] == 'st': return tuple(self.const(M, x, ('zero',)) for x in t[1])
        return tuple(self.const(M, t[2], ('zero',)) for _ in range(t[1]))

    # ---- solver ---------------------------------------------------------------
    def sync(self, st):
        cur, pc = self.cur, st.pc
        n = 0; m = min(len(cur), len(pc))
        while n < m and cur[n] is pc[n]: n += 1
        if len(cur) > n:
            self.S.pop(len(cur) - n); del cur[n:]
        for c in pc[n:]:
            self.S.push(); self.S.add(c); cur.append(c)

    def check(self, st, c):
        """is pc and c satisfiable: returns a model or None"""
        self.sync(st)
        t = time.time()
        self.S.push(); self.S.add(c)
        r = self.S.check()
        m = self.S.model() if r == z3.sat else None
        self.S.pop()
        self.tq += time.time() - t; self.nq += 1
        if r == z3.unknown: raise Unsupported("solver gave no answer: " + self.S.reason_unknown())
        if time.time() > self.deadline: raise TimeoutError()
        return m

    def mval(self, st, e):
        m = st.model
        if m is None:
            st.model = m = self.check(st, z3.BoolVal(True))
        return m.eval(e, model_completion=True)

    def decide(self, st, c):
        """truth of condition c on this path; forks when both are possible"""
        if not is_sym(c): return bool(c)
        i = c.get_id()
        if i in st.conc: return bool(st.conc[i][1])
        if not z3.is_bool(c): c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i2 = c.get_id()
        if i2 in st.conc: return bool(st.conc[i2][1])
        mv = z3.is_true(self.mval(st, c))
        nc = z3.Not(c)
        other = self.check(st, nc if mv else c)
        if other is None:
            st.conc[i2] = (c, mv)
            return mv
        yes = (c, c, True, st.model if mv else other)
        no = (nc, c, False, other if mv else st.model)
        raise Fork([yes, no])

    def must(self, st, c):
        """c holds on every input of this path"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not z3.is_true(self.mval(st, c)): return False
        return self.check(st, z3.Not(c)) is None

    def conc(self, st, e, what="value", limit=300):
        """one concrete value of e on this path; forks over all feasible values"""
        if not is_sym(e): return e
        if e.get_id() in st.conc: return st.conc[e.get_id()][1]
        if z3.is_bool(e): return int(self.decide(st, e))
        s = z3.simplify(e)
        if z3.is_bv_value(s): return s.as_long()
        if s.get_id() in st.conc: return st.conc[s.get_id()][1]
        alts = []; cons = []
        m = st.model
        v = self.mval(st, s)
        m = st.model
        while True:
            alts.append((s == v, s, v.as_long(), m)); cons.append(s != v)
            if len(alts) > limit: return None
            m = self.check(st, z3.And(*cons) if len(cons) > 1 else cons[0])
            if m is None: break
            v = m.eval(s, model_completion=True)
        if len(alts) == 1:
            st.conc[s.get_id()] = (s, alts[0][2])
            return alts[0][2]
        raise Fork(alts)

    # ---- memory ------------------------------------------------------------------
    def alloc(self, st, size, kind, name="", zero=False):
        i = st.nobj; st.nobj += 1
        if size > MASKO - 2 * BASE: raise Unsupported("object of %d bytes" % size)
        st.mem[i] = Obj(size, kind, st.tok, mask=None if zero or size == 0 else bytearray(b'\2' * size), name=name)
        return (i << OBJ) | BASE

    def where(self, st):
        return " in " + " < ".join(f.fn.name for f in reversed(st.frames[-4:]))

    def obj(self, st, a, n, what):
        o = st.mem.get(a >> OBJ)
        if o is None:
            if a < (1 << OBJ): raise Violation("%s through a null pointer (address %#x)" % (what, a) + self.where(st), "memory")
            raise Violation("%s of released or invalid memory" % what + self.where(st), "memory")
        off = (a & MASKO) - BASE
        if off < 0 or off + n > o.size:
            raise Violation("%s of %d bytes at offset %d of an object of %d bytes (%s %s)" % (what, n, off, o.size, o.kind, o.name) + self.where(st), "memory")
        return o, off

    def wobj(self, st, a, n, what="write"):
        o, off = self.obj(st, a, n, what)
        if o.ro: raise Violation("write to constant %s" % o.name + self.where(st), "memory")
        if o.tok != st.tok:
            o = o.copy(st.tok); st.mem[a >> OBJ] = o
        return o, off

    def addr(self, st, a, n, what):
        if isinstance(a, int): return a
        v = self.conc(st, a, limit=80)
        if v is None:
            raise Violation("%s through an unconstrained pointer" % what + self.where(st), "memory")
        return v

    def undef_byte(self, st):
        st.nund += 1
        return z3.BitVec("u%d" % st.nund, 8)

    def load(self, st, a, n):
        """integer or expression of n bytes"""
        if not isinstance(a, int):
            r = self.symload(st, a, n)
            if r is not None: return r
            a = self.addr(st, a, n, "read")
        o, off = self.obj(st, a, n, "read")
        if o.mask is None: return int.from_bytes(o.data[off:off + n], 'little')
        m = o.mask[off:off + n]
        if not any(m): return int.from_bytes(o.data[off:off + n], 'little')
        if 2 in m:
            o, off = (o, off) if o.tok == st.tok else self.wobj_any(st, a, n)
            for k in range(n):
                if o.mask[off + k] == 2:
                    o.sym[off + k] = (self.undef_byte(st), 0); o.mask[off + k] = 1
        return self.gather(o, off, n)

    def wobj_any(self, st, a, n):
        o, off = self.obj(st, a, n, "read")
        if o.tok != st.tok: o = o.copy(st.tok); st.mem[a >> OBJ] = o
        return o, off

    def gather(self, o, off, n):
        parts = []   # little endian runs: (expr, k, count) or (None, int, count)
        k = 0
        while k < n:
            if o.mask[off + k] == 1:
                e, j = o.sym[off + k]; c = 1
                while k + c < n and o.mask[off + k + c] == 1 and o.sym[off + k + c][0] is e and o.sym[off + k + c][1] == j + c: c += 1
                parts.append((e, j, c))
            else:
                c = 1
                while k + c < n and o.mask[off + k + c] == 0: c += 1
                parts.append((None, int.from_bytes(o.data[off + k:off + k + c], 'little'), c))
            k += c
        out = []
        for e, j, c in parts:
            if e is None: out.append(z3.BitVecVal(j, 8 * c))
            elif j == 0 and e.size() == 8 * c: out.append(e)
            else: out.append(z3.simplify(z3.Extract(8 * (j + c) - 1, 8 * j, e)))
        if len(out) == 1:
            r = out[0]
        else:
            r = z3.simplify(z3.Concat(*reversed(out)))
        if z3.is_bv_value(r): return r.as_long()
        return r

    def symload(self, st, a, n):
        """read at a symbolic address that stays within one small object: an if-then-else over its content"""
        if a.get_id() in st.conc: return None
        mv = self.mval(st, a).as_long()
        o = st.mem.get(mv >> OBJ)
        if o is None or o.size > 1024 or o.size < n: return None
        base = (mv >> OBJ << OBJ) | BASE
        inb = z3.And(z3.UGE(a, base), z3.ULE(a, base + o.size - n))
        if not self.must(st, inb) and not self.decide(st, inb): return None
        groups = {}
        lo = hi = None
        for k in range(0, o.size - n + 1):
            if o.mask is None or not any(o.mask[k:k + n]): v = int.from_bytes(o.data[k:k + n], 'little')
            else:
                if 2 in o.mask[k:k + n]: return None
                v = self.gather(o, k, n)
            groups.setdefault(v if isinstance(v, int) else ('e', v.get_id(), v), []).append(k)
        items = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        def val(x): return z3.BitVecVal(x, 8 * n) if isinstance(x, int) else x[2]
        r = val(items[0][0])
        off = z3.simplify(a - base)
        for v, ks in items[1:]:
            cs = []
            i = 0
            while i < len(ks):
                j = i
                while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1: j += 1
                cs.append(off == ks[i] if i == j else z3.And(z3.UGE(off, ks[i]), z3.ULE(off, ks[j])))
                i = j + 1
            r = z3.If(cs[0] if len(cs) == 1 else z3.Or(*cs), val(v), r)
        return r

    def store(self, st, a, n, v):
        if not isinstance(a, int): a = self.addr(st, a, n, "write")
        o, off = self.wobj(st, a, n)
        if isinstance(v, int):
            o.data[off:off + n] = v.to_bytes(n, 'little')
            if o.mask is not None: o.mask[off:off + n] = bytes(n)
            return
        if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        if v.size() != 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        if o.mask is None: o.mask = bytearray(o.size)
        for k in range(n): o.sym[off + k] = (v, k)
        o.mask[off:off + n] = b'\1' * n

    def rawcopy(self, st, d, s, n):
        if n == 0: return
        so, soff = self.obj(st, s, n, "read")
        do, doff = self.wobj(st, d, n)
        data = so.data[soff:soff + n]
        mask = so.mask[soff:soff + n] if so.mask is not None else None
        if mask is None or not any(mask):
            do.data[doff:doff + n] = data
            if do.mask is not None: do.mask[doff:doff + n] = bytes(n)
            return
        syms = {k: so.sym[soff + k] for k in range(n) if mask[k] == 1}
        do.data[doff:doff + n] = data
        if do.mask is None: do.mask = bytearray(do.size)
        do.mask[doff:doff + n] = mask
        for k, x in syms.items(): do.sym[doff + k] = x

    def fill(self, st, d, byte, n):
        if n == 0: return
        o, off = self.wobj(st, d, n)
        if isinstance(byte, int):
            o.data[off:off + n] = bytes([byte]) * n
            if o.mask is not None: o.mask[off:off + n] = bytes(n)
        else:
            if o.mask is None: o.mask = bytearray(o.size)
            for k in range(n): o.sym[off + k] = (byte, 0)
            o.mask[off:off + n] = b'\1' * n

    def bytes_at(self, st, a, n):
        """list of ints / 8-bit expressions"""
        return [self.load(st, a + k, 1) for k in range(n)]

    def cstr(self, st, a, limit=65536):
        """concrete-length text at a: list of bytes (without NUL); forks on where it ends"""
        out = []
        while True:
            b = self.load(st, a + len(out), 1)
            if isinstance(b, int):
                if b == 0: return out
            elif self.decide(st, b == 0): return out
            out.append(b)
            if len(out) > limit: raise Unsupported("text too long")

    def pystr(self, st, a):
        return bytes(x if isinstance(x, int) else 63 for x in self.cstr(st, a)).decode('latin-1')

    # ---- compiling functions -------------------------------------------------------
    def compile(self, f):
        M, T = f.module, f.module.types
        slots = {}
        def slot(n):
            if n not in slots: slots[n] = len(slots)
            return slots[n]
        for t, nm, a in f.params: slot(nm)
        X = self
        def opnd(t, v):
            """-> (is_const, value_or_slot)"""
            if v[0] == 'l': return False, slot(v[1])
            if v[0] == 'undef':
                tt = T.res(t)
                if isinstance(tt, tuple) and tt[0] == 'i': return None, tt[1]
                if tt == 'ptr': return None, 64
            return True, X.const(M, t, v)
        def getter(t, v):
            c, x = opnd(t, v)
            if c is None:      # undefined value: any, one per place
                X.nundef += 1
                u = z3.BitVec("v%d" % X.nundef, x) if x != 1 else z3.Bool("v%d" % X.nundef)
                return lambda st, L: u
            if c: return lambda st, L: x
            return lambda st, L: L[x]
        code = []; starts = {}; fixups = []; invinfo = {}
        phis = {}
        for bn, ins in f.blocks:
            phis[bn] = [i for i in ins if i[0] == 'phi']
        lpads = {bn: next((i for i in ins if i[0] == 'landingpad'), None) for bn, ins in f.blocks}

        def edge(frm, to):
            mv = []
            for ph in phis[to]:
                for v, b in ph[3]:
                    if b == frm:
                        mv.append((slot(ph[1]), getter(ph[2], v))); break
            if not mv:
                return lambda st, L: starts[to]
            if len(mv) == 1:
                d, g = mv[0]
                def e1(st, L):
                    L[d] = g(st, L); return starts[to]
                return e1
            def e(st, L):
                vals = [g(st, L) for _, g in mv]
                for (d, _), x in zip(mv, vals): L[d] = x
                return starts[to]
            return e

        for bn, ins in f.blocks:
            starts[bn] = len(code)
            for I in ins:
                op = I[0]
                if op in ('phi', 'nop'): continue
                code.append(self.gen(f, M, T, I, bn, slot, getter, opnd, edge, fixups, invinfo, len(code), lpads))
        # edge ops of invokes
        for (pc, box, frm, to) in fixups:
            e = edge(frm, to)
            box.append(len(code))
            code.append((lambda e: lambda st, fr: e(st, fr.L))(e))
        f.code = (code, len(slots), [slots[nm] for _, nm, _ in f.params], invinfo)
        return f.code

    def gen(self, f, M, T, I, bn, slot, getter, opnd, edge, fixups, invinfo, mypc, lpads):
        X = self; op = I[0]
        nxt = mypc + 1
        if op == 'load':
            d = slot(I[1]); t = T.res(I[2]); n = T.size(t); ga = getter('ptr', I[3])
            if t in ('double', 'float'):
                fmt = '<d' if n == 8 else '<f'
                def f_(st, fr):
                    v = X.load(st, ga(st, fr.L), n)
                    if not isinstance(v, int): raise Unsupported("symbolic float")
                    fr.L[d] = struct.unpack(fmt, v.to_bytes(n, 'little'))[0]; return nxt
                return f_
            if isinstance(t, tuple) and t[0] in ('st', 'arr'):
                def f_(st, fr):
                    fr.L[d] = X.loadagg(st, M, t, ga(st, fr.L)); return nxt
                return f_
            w = width(t)
            if w == 8 * n:
                def f_(st, fr):
                    fr.L[d] = X.load(st, ga(st, fr.L), n); return nxt
                return f_
            def f_(st, fr):
                v = X.load(st, ga(st, fr.L), n)
                if isinstance(v, int): v &= (1 << w) - 1
                else:
                    v = z3.simplify(z3.Extract(w - 1, 0, v))
                    if w == 1: v = v == 1
                fr.L[d] = v; return nxt
            return f_
        if op == 'store':
            t = T.res(I[2]); n = T.size(t); gv = getter(I[2], I[3]); ga = getter('ptr', I[4])
            if t in ('double', 'float'):
                fmt = '<d' if n == 8 else '<f'
                def f_(st, fr):
                    X.store(st, ga(st, fr.L), n, int.from_bytes(struct.pack(fmt, gv(st, fr.L)), 'little')); return nxt
                return f_
            if isinstance(t, tuple) and t[0] in ('st', 'arr'):
                def f_(st, fr):
                    X.storeagg(st, M, t, ga(st, fr.L), gv(st, fr.L)); return nxt
                return f_
            def f_(st, fr):
                X.store(st, ga(st, fr.L), n, gv(st, fr.L)); return nxt
            return f_
        if op == 'alloca':
            d = slot(I[1]); n = T.size(I[2]); gc = getter(I[3][0], I[3][1]) if I[3] else None
            nm = I[1]
            def f_(st, fr):
                c = 1
                if gc is not None:
                    c = X.conc(st, gc(st, fr.L))
                    if c is None: raise Unsupported("alloca size")
                a = X.alloc(st, n * c, "stack", nm); fr.allocas.append(a >> OBJ); fr.L[d] = a; return nxt
            return f_
        if op == 'gep':
            d = slot(I[1]); gb = getter(I[3][0][0], I[3][0][1]); cst = 0; var = []
            t = I[2]
            for k, (it, iv) in enumerate(I[3][1:]):
                if k == 0: sc = T.size(t) if t != ('i', 8) else 1
                else:
                    t = T.res(t)
                    if t[0] == 'st':
                        i = iv[1] if iv[0] == 'c' else 0
                        cst += T.layout(t)[0][i]; t = t[1][i]; continue
                    t = t[2]; sc = T.size(t)
                c, x = opnd(it, iv)
                if c: cst += sgn(x, width(it)) * sc
                else: var.append((getter(it, iv), sc, width(it)))
            if not var:
                def f_(st, fr):
                    b = gb(st, fr.L)
                    fr.L[d] = (b + cst) & M64 if isinstance(b, int) else b + cst; return nxt
                return f_
            def f_(st, fr):
                b = gb(st, fr.L); o = cst; L = fr.L
                for g, sc, w in var:
                    i = g(st, L)
                    if isinstance(i, int): o = o + sgn(i, w) * sc
                    else:
                        i = z3.SignExt(64 - w, i) if w < 64 else i
                        o = (bv(o & M64, 64) if isinstance(o, int) else o) + i * z3.BitVecVal(sc, 64)
                if isinstance(b, int) and isinstance(o, int): L[d] = (b + o) & M64
                else:
                    r = z3.simplify(bv(b, 64) + (bv(o & M64, 64) if isinstance(o, int) else o))
                    L[d] = r.as_long() if z3.is_bv_value(r) else r
                return nxt
            return f_
        if op == 'bin': return self.gen_bin(I, T, slot, getter, nxt)
        if op == 'icmp':
            d = slot(I[1]); c = I[2]; w = width(T.res(I[3])); ga = getter(I[3], I[4]); gb = getter(I[3], I[5])
            import operator as o
            conc = {'eq': o.eq, 'ne': o.ne, 'ugt': o.gt, 'uge': o.ge, 'ult': o.lt, 'ule': o.le}.get(c)
            if conc is None:
                base = {'sgt': o.gt, 'sge': o.ge, 'slt': o.lt, 'sle': o.le}[c]
                conc = lambda a, b: base(sgn(a, w), sgn(b, w))
            sy = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
                  'sgt': o.gt, 'sge': o.ge, 'slt': o.lt, 'sle': o.le}[c]
            def f_(st, fr):
                a = ga(st, fr.L); b = gb(st, fr.L)
                if isinstance(a, int) and isinstance(b, int): fr.L[d] = 1 if conc(a, b) else 0
                else:
                    if w == 1: a, b = bv(a, 1), bv(b, 1)
                    r = z3.simplify(sy(bv(a, w), bv(b, w)))
                    fr.L[d] = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                return nxt
            return f_
        if op == 'fcmp':
            d = slot(I[1]); c = I[2]; ga = getter(I[3], I[4]); gb = getter(I[3], I[5])
            import operator as o
            base = {'eq': o.eq, 'ne': o.ne, 'gt': o.gt, 'ge': o.ge, 'lt': o.lt, 'le': o.le}.get(c[1:])
            def f_(st, fr):
                fr.L[d] = int(base(ga(st, fr.L), gb(st, fr.L))) if base else 1; return nxt
            return f_
        if op == 'br':
            e = edge(bn, I[2])
            return lambda st, fr: e(st, fr.L)
        if op == 'cbr':
            gc = getter(('i', 1), I[2]); e1 = edge(bn, I[3]); e2 = edge(bn, I[4])
            def f_(st, fr):
                c = gc(st, fr.L)
                if not isinstance(c, int): c = X.decide(st, c)
                return e1(st, fr.L) if c else e2(st, fr.L)
            return f_
        if op == 'switch':
            gv = getter(I[2], I[3]); w = width(T.res(I[2])); ed = edge(bn, I[4]); es = [(c & ((1 << w) - 1), edge(bn, b)) for c, b in I[5]]
            tab = dict(es)
            def f_(st, fr):
                v = gv(st, fr.L)
                if isinstance(v, int): return tab.get(v, ed)(st, fr.L)
                for c, e in es:
                    if X.decide(st, v == c): return e(st, fr.L)
                return ed(st, fr.L)
            return f_
        if op == 'select':
            d = slot(I[1]); gc = getter(('i', 1), I[2]); t = T.res(I[3]); ga = getter(I[3], I[4]); gb = getter(I[3], I[5]); w = width(t)
            ptr = t == 'ptr'
            def f_(st, fr):
                c = gc(st, fr.L)
                if not isinstance(c, int):
                    a, b = ga(st, fr.L), gb(st, fr.L)
                    if isinstance(a, int) and isinstance(b, int) and a == b: fr.L[d] = a; return nxt
                    if ptr or isinstance(a, (tuple, float)) : c = X.decide(st, c)
                    else:
                        if not z3.is_bool(c): c = c == 1
                        if w == 1:
                            f2 = lambda x: z3.BoolVal(bool(x)) if isinstance(x, int) else x
                            r = z3.simplify(z3.If(c, f2(a), f2(b)))
                            fr.L[d] = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                        else: fr.L[d] = z3.If(c, bv(a, w), bv(b, w))
                        return nxt
                fr.L[d] = ga(st, fr.L) if c else gb(st, fr.L); return nxt
            return f_
        if op == 'copy':
            d = slot(I[1]); g = getter(I[2], I[3])
            def f_(st, fr): fr.L[d] = g(st, fr.L); return nxt
            return f_
        if op == 'fneg':
            d = slot(I[1]); g = getter(I[2], I[3])
            def f_(st, fr): fr.L[d] = -g(st, fr.L); return nxt
            return f_
        if op == 'cast':
            d = slot(I[1]); k = I[2]; st_, dt = T.res(I[3]), T.res(I[5]); g = getter(I[3], I[4]); w1, w2 = width(st_), width(dt)
            m2 = (1 << w2) - 1
            def f_(s, fr):
                v = g(s, fr.L)
                if isinstance(v, float) or k in ('uitofp', 'sitofp'):
                    if k in ('fptoui', 'fptosi'): v = int(v) & m2
                    elif k == 'uitofp':
                        v = X.conc(s, v); v = float(v)
                    elif k == 'sitofp': v = X.conc(s, v); v = float(sgn(v, w1))
                    elif k == 'fptrunc': v = struct.unpack('<f', struct.pack('<f', v))[0]
                    fr.L[d] = v; return nxt
                if isinstance(v, int):
                    if k == 'sext': v = sgn(v, w1)
                    fr.L[d] = v & m2; return nxt
                if k == 'trunc' or (k in ('ptrtoint', 'inttoptr') and w2 < w1):
                    v = z3.simplify(z3.Extract(w2 - 1, 0, bv(v, w1)))
                    if w2 == 1: v = z3.simplify(v == 1)
                elif k == 'zext' or k in ('ptrtoint', 'inttoptr'):
                    if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                    elif w2 > w1: v = z3.ZeroExt(w2 - w1, v)
                elif k == 'sext':
                    if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(m2, w2), z3.BitVecVal(0, w2))
                    else: v = z3.SignExt(w2 - w1, v)
                if z3.is_bv_value(v): v = v.as_long()
                fr.L[d] = v; return nxt
            return f_
        if op == 'extractvalue':
            d = slot(I[1]); g = getter(I[2], I[3]); idx = I[4]
            def f_(st, fr):
                v = g(st, fr.L)
                for i in idx: v = v[i]
                fr.L[d] = v; return nxt
            return f_
        if op == 'insertvalue':
            d = slot(I[1]); t = I[2]; g = getter(I[2], I[3]) if I[3][0] not in ('undef', 'zero') else (lambda st, L, z=self.zero_agg(M, I[2]): z)
            gv = getter(I[4], I[5]); idx = I[6]
            def ins(v, i, x):
                if len(i) == 1: return v[:i[0]] + (x,) + v[i[0] + 1:]
                return v[:i[0]] + (ins(v[i[0]], i[1:], x),) + v[i[0] + 1:]
            def f_(st, fr):
                fr.L[d] = ins(g(st, fr.L), idx, gv(st, fr.L)); return nxt
            return f_
        if op == 'ret':
            g = getter(I[2][0], I[2][1]) if I[2] else None
            def f_(st, fr):
                v = g(st, fr.L) if g else None
                X.do_ret(st, fr, v)
                return -1
            return f_
        if op == 'unreachable':
            def f_(st, fr): raise Violation("unreachable code reached" + X.where(st), "unreachable")
            return f_
        if op == 'landingpad':
            d = slot(I[1])
            def f_(st, fr): fr.L[d] = st.exc; return nxt
            return f_
        if op == 'resume':
            g = getter(*I[2])
            def f_(st, fr):
                v = g(st, fr.L); raise Unwind(v[0], st.x.get(('ti', v[0])))
            return f_
        if op == 'asm':
            def f_(st, fr): raise Unsupported("inline assembly")
            return f_
        if op == 'atomicrmw':
            d = slot(I[1]) if I[1] else None; k = I[2]; n = T.size(I[3]); ga = getter('ptr', I[4]); gv = getter(I[3], I[5]); w = width(I[3])
            def f_(st, fr):
                a = ga(st, fr.L); old = X.load(st, a, n); v = gv(st, fr.L)
                if not (isinstance(old, int) and isinstance(v, int)): raise Unsupported("symbolic atomic")
                new = {'add': old + v, 'sub': old - v, 'xchg': v, 'or': old | v, 'and': old & v}[k] & ((1 << w) - 1)
                X.store(st, a, n, new)
                if d is not None: fr.L[d] = old
                return nxt
            return f_
        if op == 'cmpxchg':
            d = slot(I[1]) if I[1] else None; n = T.size(I[2]); ga = getter('ptr', I[3]); gc = getter(I[2], I[4]); gn = getter(I[2], I[5])
            def f_(st, fr):
                a = ga(st, fr.L); old = X.load(st, a, n); ok = X.decide(st, old == gc(st, fr.L))
                if ok: X.store(st, a, n, gn(st, fr.L))
                if d is not None: fr.L[d] = (old, int(ok))
                return nxt
            return f_
        if op == 'call': return self.gen_call(f, M, T, I, bn, slot, getter, fixups, invinfo, mypc, lpads)
        raise Unsupported("instruction " + op)

    def gen_bin(self, I, T, slot, getter, nxt):
        d = slot(I[1]); k = I[2]; t = T.res(I[3]); ga = getter(I[3], I[4]); gb = getter(I[3], I[5]); X = self
        if t in ('double', 'float'):
            def ff(st, fr):
                a, b = ga(st, fr.L), gb(st, fr.L)
                fr.L[d] = a + b if k == 'fadd' else a - b if k == 'fsub' else a * b if k == 'fmul' else (a / b if b else float('inf')); return nxt
            return ff
        w = width(t); m = (1 << w) - 1
        import operator as o
        if k in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            fn = {'add': o.add, 'sub': o.sub, 'mul': o.mul, 'and': o.and_, 'or': o.or_, 'xor': o.xor}[k]
            if w == 1:
                def f1(st, fr):
                    a, b = ga(st, fr.L), gb(st, fr.L)
                    if isinstance(a, int) and isinstance(b, int): fr.L[d] = fn(a, b) & 1; return nxt
                    A = z3.BoolVal(bool(a)) if isinstance(a, int) else a
                    B = z3.BoolVal(bool(b)) if isinstance(b, int) else b
                    r = z3.simplify(z3.And(A, B) if k in ('and', 'mul') else z3.Or(A, B) if k == 'or' else z3.Xor(A, B))
                    fr.L[d] = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                    return nxt
                return f1
            def f2(st, fr):
                a = ga(st, fr.L); b = gb(st, fr.L)
                if isinstance(a, int) and isinstance(b, int): fr.L[d] = fn(a, b) & m
                else:
                    r = z3.simplify(fn(bv(a, w), bv(b, w)))
                    fr.L[d] = r.as_long() if z3.is_bv_value(r) else r
                return nxt
            return f2
        def f3(st, fr):
            a = ga(st, fr.L); b = gb(st, fr.L)
            if k in ('udiv', 'sdiv', 'urem', 'srem'):
                if isinstance(b, int):
                    if b == 0: raise Violation("division by zero" + X.where(st), "arith")
                elif X.decide(st, b == 0): raise Violation("division by zero" + X.where(st), "arith")
            if isinstance(a, int) and isinstance(b, int):
                if k == 'udiv': r = a // b
                elif k == 'urem': r = a % b
                elif k in ('sdiv', 'srem'):
                    A, B = sgn(a, w), sgn(b, w); q = abs(A) // abs(B); q = -q if (A < 0) != (B < 0) else q
                    r = q if k == 'sdiv' else A - q * B
                elif k == 'shl': r = a << b if b < w else 0
                elif k == 'lshr': r = a >> b if b < w else 0
                elif k == 'ashr': r = sgn(a, w) >> min(b, w - 1)
                fr.L[d] = r & m
            else:
                A, B = bv(a, w), bv(b, w)
                r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem, 'shl': lambda x, y: x << y,
                     'lshr': z3.LShR, 'ashr': lambda x, y: x >> y}[k](A, B)
                r = z3.simplify(r)
                fr.L[d] = r.as_long() if z3.is_bv_value(r) else r
            return nxt
        return f3

    def loadagg(self, st, M, t, a):
        t = M.types.res(t)
        if isinstance(t, tuple) and t[0] == 'st':
            offs, _ = M.types.layout(t)
            return tuple(self.loadagg(st, M, x, a + o) for x, o in zip(t[1], offs))
        if isinstance(t, tuple) and t[0] == 'arr':
            n = M.types.size(t[2])
            return tuple(self.loadagg(st, M, t[2], a + n * k) for k in range(t[1]))
        return self.load(st, a, M.types.size(t))

    def storeagg(self, st, M, t, a, v):
        t = M.types.res(t)
        if isinstance(t, tuple) and t[0] == 'st':
            offs, _ = M.types.layout(t)
            for x, o, e in zip(t[1], offs, v): self.storeagg(st, M, x, a + o, e)
        elif isinstance(t, tuple) and t[0] == 'arr':
            n = M.types.size(t[2])
            for k in range(t[1]): self.storeagg(st, M, t[2], a + n * k, v[k])
        else: self.store(st, a, M.types.size(t), v)

    def gen_call(self, f, M, T, I, bn, slot, getter, fixups, invinfo, mypc, lpads):
        X = self
        _, dst, rt, cal, args, nr, uw = I
        d = slot(dst) if dst else None
        ga = [(getter(t, v), a.get('byval'), t) for t, v, a in args]
        box_n, box_u = [], []
        if nr is not None:
            fixups.append((mypc, box_n, bn, nr)); fixups.append((mypc, box_u, bn, uw))
            lp = lpads[uw]
            cl = []
            for k, v in lp[4]:
                if k == 'catch': cl.append(0 if v[0] == 'zero' else self.const(M, 'ptr', v))
            invinfo[mypc] = (box_u, cl, lp[3])
        direct = None
        if cal[0] == 'g':
            direct = self.lname(M, cal[1])
            if direct.startswith('llvm.'):
                h = self.llvm_intr(direct)
                if h is None:
                    nx = mypc + 1
                    return lambda st, fr: nx
            gf = None
        else: gf = getter('ptr', cal)
        rty = T.res(rt)
        isbool = rty == ('i', 1)
        rw = width(rty) if rty != 'void' else 0
        def npc(): return box_n[0] if nr is not None else mypc + 1
        def f_(st, fr):
            L = fr.L
            if direct is None:
                a = gf(st, L)
                if not isinstance(a, int): a = X.addr(st, a, 1, "call")
                name = X.addrf.get(a)
                if name is None: raise Violation("call through an invalid pointer" + X.where(st), "memory")
            else: name = direct
            vals = [g(st, L) for g, _, _ in ga]
            h = X.intr.get(name)
            if h is None and name.startswith('llvm.'): h = X.llvm_intr(name)
            if h is not None:
                fr.pc = mypc
                v = h(X, st, vals)
                if d is not None:
                    if v is None: v = 0
                    if isbool and is_sym(v) and not z3.is_bool(v): v = v == 1
                    L[d] = v
                return npc()
            g = X.funcs.get(name)
            if g is None:
                X.undef.add(name)
                raise Unsupported("call of undefined function " + name)
            c = g.code or X.compile(g)
            X.executed.add(name)
            if len(st.frames) > 400: raise Violation("unbounded recursion" + X.where(st), "recursion")
            nf = Frame()
            nf.fn = g; nf.code = c[0]; nf.L = [None] * c[1]; nf.pc = 0; nf.allocas = []; nf.dst = d; nf.npc = npc(); nf.varargs = None
            np_ = len(c[2])
            for k in range(np_):
                v = vals[k]
                by = g.params[k][2].get('byval')
                if by is not None:
                    n = g.module.types.size(by)
                    b = X.alloc(st, n, "stack", "byval"); nf.allocas.append(b >> OBJ)
                    X.rawcopy(st, b, v, n); v = b
                nf.L[c[2][k]] = v
            if g.vararg: nf.varargs = [(t, v) for (_, _, t), v in list(zip(ga, vals))[np_:]]
            fr.pc = mypc
            st.frames.append(nf)
            return -1
        return f_

    def llvm_intr(self, name):
        for p, h in self.llvm.items():
            if name.startswith(p): return h
        raise Unsupported("intrinsic " + name)

    def do_ret(self, st, fr, v):
        for i in fr.allocas: st.mem.pop(i, None)
        st.frames.pop()
        if not st.frames: raise Done()
        c = st.frames[-1]
        if fr.dst is not None: c.L[fr.dst] = v
        c.pc = fr.npc

    # ---- exceptions -----------------------------------------------------------------
    def ti_matches(self, ti, want):
        if want == 0 or ti == want: return True
        names = self.tinames
        if not names:
            for n, a in self.gaddr.items():
                if n.startswith('_ZTI'): names[a] = n
        seen = 0; n = names.get(ti)
        W = names.get(want)
        std = {"_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt11logic_error": "_ZTISt9exception",
               "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt13runtime_error": "_ZTISt9exception",
               "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt17bad_function_call": "_ZTISt9exception"}
        while n and seen < 10:
            if n == W: return True
            n = std.get(n); seen += 1
        # user types: single inheritance
        o = self.gobj.get(ti >> OBJ) if ti else None
        if o is not None and o.size >= 24:
            b = int.from_bytes(o.data[16:24], 'little')
            if b and (b >> OBJ) in self.gobj: return self.ti_matches(b, want)
        return False

    def std_throw(self, st, tiname):
        a = self.alloc(st, 64, "exception", tiname, zero=True)
        if tiname not in self.gaddr:
            ad = self.newaddr_dyn(tiname)
        st.x[('ti', a)] = self.gaddr[tiname]
        raise Unwind(a, self.gaddr[tiname])

    def newaddr_dyn(self, name):
        a = (0x6000000 + len(self.gaddr)) << OBJ | BASE
        self.gaddr[name] = a
        self.tinames.clear()
        return a

    def unwind(self, st, ex):
        """find the landing pad for an exception leaving the current call"""
        while True:
            fr = st.frames[-1]
            info = fr.fn.code[3].get(fr.pc)
            if info:
                box, clauses, cleanup = info
                sel = None
                for c in clauses:
                    if self.ti_matches(ex.ti, c): sel = c; break
                if sel is not None or cleanup:
                    st.exc = (ex.ptr, self.tid(sel) if sel is not None else 0)
                    fr.pc = box[0]
                    return
            for i in fr.allocas: st.mem.pop(i, None)
            st.frames.pop()
            if not st.frames:
                raise Violation("uncaught C++ exception", "exception")

    def tid(self, ti): return 1 if ti == 0 else 2 + (ti >> OBJ) % 0x3fffffff

    # ---- main loop ----------------------------------------------------------------------
    def initial(self, entry):
        st = State()
        st.mem = dict(self.gobj); st.tok = newtok(); st.frames = []; st.pc = []; st.model = None; st.inputs = []
        st.nobj = self.nextid + 16; st.conc = {}; st.exc = None; st.caught = []; st.steps = 0; st.nund = 0; st.x = {}; st.trail = ()
        self.push_call(st, entry)
        for M, v in reversed(self.ctors):
            self.push_call(st, self.lname(M, v[1]))
        return st

    def push_call(self, st, name):
        g = self.funcs[name]; c = g.code or self.compile(g)
        self.executed.add(name)
        nf = Frame(); nf.fn = g; nf.code = c[0]; nf.L = [None] * c[1]; nf.pc = 0; nf.allocas = []; nf.dst = None
        nf.npc = 0; nf.varargs = None
        st.frames.append(nf)

    def input_values(self, st, model=None):
        m = model or st.model
        if m is None:
            m = self.check(st, z3.BoolVal(True)); st.model = m
        return [m.eval(v, model_completion=True).as_long() for v in st.inputs]

    def run(self, entry):
        self.deadline = time.time() + self.time_limit
        work = [self.initial(entry)]
        self.complete = False
        try:
            while work:
                st = work.pop()
                self.step(st, work)
                if len(self.viol) >= self.max_viol: return
                if self.npaths > self.max_paths: raise Unsupported("more than %d paths" % self.max_paths)
            self.complete = True
        except TimeoutError:
            raise Unsupported("time limit after %d paths, %d pending" % (self.npaths, len(work)))

    def step(self, st, work):
        cnt = 0
        try:
            while True:
                fr = st.frames[-1]; code = fr.code; pc = fr.pc
                try:
                    while True:
                        cnt += 1
                        pc = code[pc](st, fr)
                        if pc < 0: break
                except Fork as fk:
                    fr.pc = pc
                    self.nforks += 1
                    alts = fk.alts
                    for c, k, v, m in alts[1:]:
                        s2 = st.fork()
                        s2.pc.append(c); s2.conc[k.get_id()] = (k, v); s2.model = m
                        work.append(s2)
                    c, k, v, m = alts[0]
                    st.pc.append(c); st.conc[k.get_id()] = (k, v); st.model = m
                    if time.time() > self.deadline: raise TimeoutError()
                except Unwind as ex:
                    fr.pc = pc
                    self.unwind(st, ex)
                if cnt > 20000:
                    st.steps += cnt; self.nsteps += cnt; cnt = 0
                    if st.steps > self.max_steps: raise Violation("no end within %d steps" % self.max_steps + self.where(st), "hang")
                    if time.time() > self.deadline: raise TimeoutError()
        except Done:
            self.npaths += 1
            if self.npaths & (self.npaths - 1) == 0: self.samples.append(self.input_values(st))
        except Kill:
            self.kills += 1
        except Violation as v:
            self.npaths += 1
            if not any(x["text"] == v.text for x in self.viol):
                self.deadline = min(self.deadline, time.time() + 20); self.viol.append({"text": v.text, "kind": v.kind, "inputs": self.input_values(st), "stack": [f.fn.name for f in st.frames]})
        finally:
            self.nsteps += cnt
