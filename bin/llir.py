"""Reader of textual LLVM IR (clang 18, opaque pointers) into plain Python structures."""
import re, struct

TOK = re.compile(r'''\s+|;[^\n]*|
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<gl>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))|
 (?P<lo>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<flt>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)|
 (?P<num>-?\d+)|
 (?P<dots>\.\.\.)|
 (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)|
 (?P<meta>!(?:[-a-zA-Z$._0-9]*))|
 (?P<attr>\#\d+)|
 (?P<cmd>\$(?:[-a-zA-Z$._0-9]+|"[^"]*"))|
 (?P<p>[\[\](){}<>,=*:|^])''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise SyntaxError("IR token: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k: out.append((k, m.group(k)))
    return out


# types: ('i',n) 'ptr' 'void' 'float' 'double' 'label' 'metadata' ('arr',n,t) ('st',(t..),packed) ('vec',n,t) ('nm',name) ('fn',)
class Types:
    def __init__(self): self.named = {}
    def res(self, t):
        while isinstance(t, tuple) and t[0] == 'nm': t = self.named[t[1]]
        return t
    def size(self, t):
        t = self.res(t)
        if t == 'ptr' or t == 'double': return 8
        if t == 'float': return 4
        if t == 'x86_fp80': return 16
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else (n + 127) // 128 * 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'st': return self.layout(t)[1]
        raise TypeError("size of %r" % (t,))
    def align(self, t):
        t = self.res(t)
        if t in ('ptr', 'double'): return 8
        if t == 'float': return 4
        if t == 'x86_fp80': return 16
        if t[0] == 'i': return min(16, self.size(t))
        if t[0] == 'arr': return self.align(t[2])
        if t[0] == 'vec': return self.size(t)
        if t[0] == 'st':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise TypeError(t)
    def layout(self, t):
        off, offs = 0, []
        for x in t[1]:
            if not t[2]:
                a = self.align(x); off = (off + a - 1) // a * a
            offs.append(off); off += self.size(x)
        if not t[2]:
            a = self.align(t); off = (off + a - 1) // a * a
        return offs, off


PATTR = {"noundef", "nonnull", "signext", "zeroext", "align", "dereferenceable", "dereferenceable_or_null", "byval", "sret",
         "inalloca", "nocapture", "readonly", "readnone", "writeonly", "returned", "noalias", "immarg", "nest", "inreg", "writable",
         "dead_on_unwind", "nofree", "noreturn", "captures", "range", "elementtype", "preallocated", "swiftself", "allocptr", "allocalign",
         "nofpclass", "swifterror", "initializes"}
LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr",
        "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default", "dllimport", "dllexport",
        "thread_local", "local_unnamed_addr", "unnamed_addr", "fastcc", "ccc", "coldcc", "tail", "musttail", "notail", "externally_initialized"}


class P:
    def __init__(self, toks, types): self.t, self.i, self.T = toks, 0, types
    def pk(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')
    def nx(self): x = self.t[self.i]; self.i += 1; return x
    def ac(self, v):
        if self.pk()[1] == v: self.i += 1; return True
        return False
    def ex(self, v):
        x = self.nx()
        if x[1] != v: raise SyntaxError("expected %r got %r near %r" % (v, x, self.t[max(0, self.i - 8):self.i + 8]))
    def parens(self):
        self.ex('('); d = 1
        while d:
            v = self.nx()[1]
            d += (v == '(') - (v == ')')
    def type(self):
        k, v = self.nx()
        if k == 'id':
            if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'x86_fp80', 'opaque', 'token'): t = v
            else: raise SyntaxError("type " + v + repr(self.t[self.i - 5:self.i + 5]))
            if v == 'ptr' and self.pk()[1] == 'addrspace': self.nx(); self.parens()
        elif k == 'lo': t = ('nm', v[1:].strip('"'))
        elif v == '[':
            n = int(self.nx()[1]); self.ex('x'); e = self.type(); self.ex(']'); t = ('arr', n, e)
        elif v == '<':
            if self.pk()[1] == '{':
                t = self.type(); self.ex('>'); t = ('st', t[1], True)
            else:
                n = int(self.nx()[1]); self.ex('x'); e = self.type(); self.ex('>'); t = ('vec', n, e)
        elif v == '{':
            fs = []
            if not self.ac('}'):
                while True:
                    fs.append(self.type())
                    if self.ac('}'): break
                    self.ex(',')
            t = ('st', tuple(fs), False)
        else: raise SyntaxError("type %r" % v)
        if self.pk()[1] == '(' : # function type
            self.parens(); t = ('fn', t)
        return t
    def pattrs(self):
        a = {}
        while self.pk()[0] in ('id', 'attr', 'str'):
            v = self.pk()[1]
            if v not in PATTR and self.pk()[0] == 'id': break
            self.nx()
            if self.pk()[1] == '(':
                if v in ('byval', 'sret'):
                    self.nx(); a[v] = self.type(); self.ex(')')
                else: self.parens()
            elif v == 'align' and self.pk()[0] == 'num': self.nx()
            elif self.pk()[1] == '=' : self.nx(); self.nx()
        return a
    # value of a known type -> operand
    def val(self, ty):
        k, v = self.nx()
        if k == 'lo': return ('l', v[1:].strip('"'))
        if k == 'gl': return ('g', v[1:].strip('"'))
        if k == 'num': return ('c', int(v))
        if k == 'flt': return ('f', float(v))
        if k == 'hex': return ('f', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0] if v[2] not in 'KLMHR' else 0.0)
        if k == 'str': # c"..."
            s = v[2:-1]; out = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\': out.append(92); i += 2
                    else: out.append(int(s[i + 1:i + 3], 16)); i += 3
                else: out += s[i].encode('latin-1'); i += 1
            return ('bytes', bytes(out))
        if k == 'id':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v in ('null', 'zeroinitializer', 'none'): return ('zero',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'getelementptr':
                while self.pk()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    if self.nx()[1] == 'inrange' and self.pk()[1] == '(': self.parens()
                self.ex('('); bt = self.type(); self.ex(',')
                ops = []
                while True:
                    while self.pk()[1] == 'inrange': self.nx()
                    t = self.type(); ops.append((t, self.val(t)))
                    if self.ac(')'): break
                    self.ex(',')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.ex('('); t = self.type(); o = self.val(t); self.ex('to'); t2 = self.type(); self.ex(')')
                return ('cast', v, t, o, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                while self.pk()[1] in ('nuw', 'nsw', 'exact'): self.nx()
                self.ex('('); t = self.type(); a = self.val(t); self.ex(','); t2 = self.type(); b = self.val(t2); self.ex(')')
                return ('bin', v, t, a, b)
            if v == 'icmp':
                c = self.nx()[1]; self.ex('('); t = self.type(); a = self.val(t); self.ex(','); t2 = self.type(); b = self.val(t2); self.ex(')')
                return ('cicmp', c, t, a, b)
            if v == 'blockaddress': self.parens(); return ('undef',)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.pk()[1] == '{': self.nx(); close = '}>'
            els = []
            if self.pk()[1] != close[0]:
                while True:
                    t = self.type(); els.append((t, self.val(t)))
                    if self.pk()[1] == close[0]: break
                    self.ex(',')
            for c in close: self.ex(c)
            return ('agg', els)
        raise SyntaxError("value %r %r" % ((k, v), self.t[max(0, self.i - 8):self.i + 6]))
    def tval(self):
        t = self.type(); return t, self.val(t)


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "vararg", "module", "code", "nloc", "entry", "paramslots", "internal", "allocas")


class Module:
    def __init__(self, path):
        self.path = path; self.types = Types(); self.globals = {}; self.funcs = {}; self.decls = set(); self.aliases = {}; self.ctors = []


def parse_module(path):
    M = Module(path)
    lines = open(path, encoding='latin-1').read().split('\n')
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%'):
            m = re.match(r'%(?:"([^"]*)"|([-\w$.]+)) = type (.*)', l)
            nm = m.group(1) or m.group(2)
            M.types.named[nm] = 'opaque' if m.group(3) == 'opaque' else P(tokenize(m.group(3)), M.types).type()
        elif l.startswith('@'):
            p = P(tokenize(l), M.types)
            nm = p.nx()[1][1:].strip('"'); p.ex('=')
            link = []
            while p.pk()[0] == 'id' and p.pk()[1] in LINK:
                link.append(p.nx()[1])
                if link[-1] == 'thread_local' and p.pk()[1] == '(': p.parens()
            k = p.nx()[1]
            if k == 'alias':
                p.type(); p.ex(','); t = p.type(); M.aliases[nm] = p.val(t)
            elif k in ('global', 'constant'):
                t = p.type()
                ext = 'external' in link or 'extern_weak' in link
                init = None if ext else p.val(t)
                M.globals[nm] = (t, init, k == 'constant', link)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            M.decls.add(m.group(1).strip('"'))
        elif l.startswith('define'):
            j = i
            while lines[j] != '}': j += 1
            parse_func(M, lines[i:j]); i = j
        i += 1
    return M


def parse_func(M, lines):
    p = P(tokenize(lines[0]), M.types)
    p.ex('define')
    f = Func(); f.module = M; f.internal = False; f.code = None
    while p.pk()[1] in LINK:
        v = p.nx()[1]
        if v in ('internal', 'private'): f.internal = True
    p.pattrs(); f.ret = p.type()
    f.name = p.nx()[1][1:].strip('"')
    p.ex('('); f.params = []; f.vararg = False; cnt = 0
    while not p.ac(')'):
        if p.pk()[0] == 'dots': p.nx(); f.vararg = True; continue
        t = p.type(); a = p.pattrs(); nm = p.nx()[1][1:].strip('"')
        f.params.append((t, nm, a)); p.ac(',')
    # first unnamed block label: number of params (if numeric) -> clang prints label if needed
    blocks, cur, curname = [], [], None
    body = lines[1:]
    # join multi-line switch / landingpad / invoke
    j = 0; stm = []
    while j < len(body):
        l = body[j]
        s = l.strip()
        if not s or s.startswith(';'): j += 1; continue
        if re.match(r'^("[^"]*"|[-\w$.]+):', l): stm.append(('label', re.match(r'^("[^"]*"|[-\w$.]+):', l).group(1).strip('"'))); j += 1; continue
        if s.startswith('switch ') and ']' not in s:
            while ']' not in body[j]: j += 1; s += ' ' + body[j].strip()
        if ' landingpad ' in ' ' + s:
            while j + 1 < len(body) and re.match(r'^\s+(catch|cleanup|filter)\b', body[j + 1]): j += 1; s += ' ' + body[j].strip()
        if re.search(r'(^|= )invoke ', s) and ' unwind label ' not in s:
            j += 1; s += ' ' + body[j].strip()
        stm.append(('ins', s)); j += 1
    for k, s in stm:
        if k == 'label':
            if cur or curname is not None or blocks: blocks.append((curname, cur))
            curname, cur = s, []
        else: cur.append(parse_ins(s, M.types))
    blocks.append((curname, cur))
    # entry block implicit numeric name
    if blocks[0][0] is None:
        num = sum(1 for (_, nm, _) in f.params if nm.isdigit())
        blocks[0] = (str(num), blocks[0][1])
    f.blocks = blocks
    M.funcs[f.name] = f


def parse_ins(s, T):
    # drop metadata attachments
    s = re.sub(r',\s*!\w+ !\d+', '', s)
    p = P(tokenize(s), T)
    dst = None
    if p.pk()[0] == 'lo' and p.pk(1)[1] == '=': dst = p.nx()[1][1:].strip('"'); p.nx()
    op = p.nx()[1]
    while op in ('tail', 'musttail', 'notail'): op = p.nx()[1]
    if op == 'ret':
        t = p.type()
        return ('ret', None, None if t == 'void' else (t, p.val(t)))
    if op == 'br':
        if p.ac('label'): return ('br', None, p.nx()[1][1:].strip('"'))
        t, c = p.tval(); p.ex(','); p.ex('label'); a = p.nx()[1][1:].strip('"'); p.ex(','); p.ex('label'); b = p.nx()[1][1:].strip('"')
        return ('cbr', None, c, a, b)
    if op == 'switch':
        t, v = p.tval(); p.ex(','); p.ex('label'); d = p.nx()[1][1:].strip('"'); p.ex('[')
        cs = []
        while not p.ac(']'):
            ct, cv = p.tval(); p.ex(','); p.ex('label'); cs.append((cv[1] if cv[0] == 'c' else 0, p.nx()[1][1:].strip('"')))
        return ('switch', None, t, v, d, cs)
    if op == 'unreachable': return ('unreachable', None)
    if op == 'resume': return ('resume', None, p.tval())
    if op == 'alloca':
        while p.pk()[1] in ('inalloca',): p.nx()
        t = p.type(); cnt = None
        while p.ac(','):
            if p.pk()[1] == 'align': p.nx(); p.nx()
            else: cnt = p.tval()
        return ('alloca', dst, t, cnt)
    if op == 'load':
        while p.pk()[1] in ('volatile', 'atomic'): p.nx()
        t = p.type(); p.ex(','); pt, v = p.tval()
        return ('load', dst, t, v)
    if op == 'store':
        while p.pk()[1] in ('volatile', 'atomic'): p.nx()
        t, v = p.tval(); p.ex(','); pt, a = p.tval()
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        while p.pk()[1] in ('inbounds', 'nuw', 'nusw'): p.nx()
        bt = p.type(); ops = []
        while p.ac(','): ops.append(p.tval())
        return ('gep', dst, bt, ops)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.pk()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn'): p.nx()
        t = p.type(); a = p.val(t); p.ex(','); b = p.val(t)
        return ('bin', dst, op, t, a, b)
    if op == 'fneg': t, a = p.tval(); return ('fneg', dst, t, a)
    if op in ('icmp', 'fcmp'):
        while p.pk()[1] in ('fast', 'samesign', 'nnan', 'ninf'): p.nx()
        c = p.nx()[1]; t = p.type(); a = p.val(t); p.ex(','); b = p.val(t)
        return (op, dst, c, t, a, b)
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
        while p.pk()[1] in ('nneg', 'nuw', 'nsw'): p.nx()
        t, a = p.tval(); p.ex('to'); t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op == 'select':
        t, c = p.tval(); p.ex(','); t1, a = p.tval(); p.ex(','); t2, b = p.tval()
        return ('select', dst, c, t1, a, b)
    if op == 'freeze': t, a = p.tval(); return ('copy', dst, t, a)
    if op == 'phi':
        while p.pk()[1] in ('fast',): p.nx()
        t = p.type(); inc = []
        while True:
            p.ex('['); v = p.val(t); p.ex(','); b = p.nx()[1][1:].strip('"'); p.ex(']'); inc.append((v, b))
            if not p.ac(','): break
        return ('phi', dst, t, inc)
    if op == 'extractvalue':
        t, a = p.tval(); idx = []
        while p.ac(','): idx.append(int(p.nx()[1]))
        return ('extractvalue', dst, t, a, idx)
    if op == 'insertvalue':
        t, a = p.tval(); p.ex(','); t2, b = p.tval(); idx = []
        while p.ac(','): idx.append(int(p.nx()[1]))
        return ('insertvalue', dst, t, a, t2, b, idx)
    if op == 'landingpad':
        t = p.type(); clean = False; cl = []
        while p.pk()[0] == 'id':
            k = p.nx()[1]
            if k == 'cleanup': clean = True
            else: tt, v = p.tval(); cl.append((k, v))
        return ('landingpad', dst, t, clean, cl)
    if op in ('call', 'invoke'):
        while p.pk()[0] == 'id' and (p.pk()[1] in LINK or p.pk()[1] in ('fast', 'nnan')): p.nx()
        p.pattrs(); rt = p.type()
        if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
        if p.pk()[1] == 'asm':
            return ('asm', dst, s)
        cal = p.val('ptr')
        p.ex('('); args = []
        while not p.ac(')'):
            t = p.type()
            if t == 'metadata': 
                while p.pk()[1] not in (',', ')'): p.nx()
                p.ac(','); continue
            a = p.pattrs(); v = p.val(t); args.append((t, v, a)); p.ac(',')
        nr = None; uw = None
        while p.pk()[0] != 'eof':
            x = p.nx()
            if x[1] == 'to': p.ex('label'); nr = p.nx()[1][1:].strip('"')
            elif x[1] == 'unwind': p.ex('label'); uw = p.nx()[1][1:].strip('"')
            elif x[1] == '[':
                while p.nx()[1] != ']': pass
        return ('call', dst, rt, cal, args, nr, uw)
    if op in ('fence',): return ('nop', None)
    if op == 'atomicrmw':
        while p.pk()[1] in ('volatile',): p.nx()
        k = p.nx()[1]; pt, a = p.tval(); p.ex(','); t, v = p.tval()
        return ('atomicrmw', dst, k, t, a, v)
    if op == 'cmpxchg':
        while p.pk()[1] in ('volatile', 'weak'): p.nx()
        pt, a = p.tval(); p.ex(','); t, c = p.tval(); p.ex(','); t2, nvl = p.tval()
        return ('cmpxchg', dst, t, a, c, nvl)
    if op == 'va_arg': t, a = p.tval(); p.ex(','); t2 = p.type(); return ('va_arg', dst, a, t2)
    raise SyntaxError("instruction " + s)
