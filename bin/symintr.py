"""Functions the symbolic executor provides itself: harness vocabulary, memory and text primitives,
C++ run-time support."""
import z3, os
from symex import *


def install(X):
    I = X.intr
    X.llvm = {}

    def intr(*names):
        def d(f):
            for n in names: I[n] = f
            return f
        return d
    def llvm(*pre):
        def d(f):
            for p in pre: X.llvm['llvm.' + p] = f
            return f
        return d

    # ---- harness ------------------------------------------------------------------
    @intr("nd_raw")
    def nd_raw(X, st, a):
        v = z3.BitVec("n%d" % len(st.inputs), 64); st.inputs.append(v); return v
    @intr("nd_pick")      # a value in [lo, hi], resolved at once (one path per value)
    def nd_pick(X, st, a):
        lo, hi = a
        v = z3.BitVec("n%d" % len(st.inputs), 64)
        if v.get_id() in st.conc:
            st.inputs.append(v); return st.conc[v.get_id()][1]
        if lo > hi: raise Kill()
        raise Fork([(v == k, v, k, None) for k in range(lo, hi + 1)])
    @intr("nd_buf")
    def nd_buf(X, st, a):
        n = X.conc(st, a[0])
        p = X.alloc(st, n, "uheap", "nd_buf", zero=True)
        o = st.mem[p >> OBJ]; o.mask = bytearray(b'\1' * n)
        for k in range(n):
            v = z3.BitVec("n%d" % len(st.inputs), 64); st.inputs.append(v); o.sym[k] = (v, 0)
        return p
    @intr("nd_text")
    def nd_text(X, st, a):
        n = X.conc(st, a[0])
        p = X.alloc(st, n + 1, "uheap", "nd_text", zero=True)
        o = st.mem[p >> OBJ]; o.mask = bytearray(b'\1' * n + b'\0')
        for k in range(n):
            v = z3.BitVec("n%d" % len(st.inputs), 64); st.inputs.append(v); o.sym[k] = (v, 0)
            st.pc.append(z3.Extract(7, 0, v) != 0)
        if n: st.model = None
        return p
    @intr("u_malloc")
    def u_malloc(X, st, a):
        n = X.conc(st, a[0])
        if n is None: raise Violation("allocation of unbounded size" + X.where(st), "memory")
        return X.alloc(st, n, "uheap", "malloc")
    @intr("u_calloc1")
    def u_calloc1(X, st, a):
        n = X.conc(st, a[0])
        if n is None: raise Violation("allocation of unbounded size" + X.where(st), "memory")
        return X.alloc(st, n, "uheap", "calloc", zero=True)
    @intr("u_free")
    def u_free(X, st, a):
        p = a[0] if isinstance(a[0], int) else X.addr(st, a[0], 1, "free")
        if p == 0: return
        o = st.mem.get(p >> OBJ)
        if o is None: raise Violation("release of memory already released or never allocated" + X.where(st), "memory")
        if (p & MASKO) != BASE: raise Violation("release of the inside of a block" + X.where(st), "memory")
        if o.kind not in ("uheap", "exception"): raise Violation("release of %s memory" % o.kind + X.where(st), "memory")
        del st.mem[p >> OBJ]
    @intr("u_size")     # size of the block p points to
    def u_size(X, st, a):
        o, off = X.obj(st, a[0], 0, "size")
        return o.size
    @intr("v_fail")
    def v_fail(X, st, a): raise Violation(X.pystr(st, a[0]), "assert")
    @intr("v_vacuous")
    def v_vacuous(X, st, a): raise Kill()
    @intr("v_bound")
    def v_bound(X, st, a): raise Unsupported("outside the model: " + X.pystr(st, a[0]))
    @intr("v_witness")
    def v_witness(X, st, a):
        n = X.pystr(st, a[0])
        if n not in X.wit: X.wit[n] = X.input_values(st)
    @intr("v_stop")
    def v_stop(X, st, a): raise Done()
    @intr("exit", "_exit", "_Exit", "abort")
    def exit_(X, st, a): raise Violation("process exit" + X.where(st), "exit")
    @intr("v_concrete")   # resolve a value on this path (forks over its values)
    def v_concrete(X, st, a): return X.conc(st, a[0], limit=2000)

    # ---- memory -----------------------------------------------------------------------
    def ln(X, st, n, what):
        v = X.conc(st, n)
        if v is None: raise Violation("%s of unbounded length" % what + X.where(st), "memory")
        return v
    def pt(X, st, p, what): return p if isinstance(p, int) else X.addr(st, p, 1, what)
    @intr("memcpy", "memmove", "__memcpy_chk")
    @llvm("memcpy.", "memmove.")
    def memcpy(X, st, a):
        n = ln(X, st, a[2], "copy"); d = pt(X, st, a[0], "write"); s = pt(X, st, a[1], "read")
        if n: X.rawcopy(st, d, s, n)
        return d
    @intr("memset")
    @llvm("memset.")
    def memset(X, st, a):
        n = ln(X, st, a[2], "fill"); d = pt(X, st, a[0], "write"); v = a[1]
        if isinstance(v, int): v &= 255
        elif v.size() > 8: v = z3.simplify(z3.Extract(7, 0, v))
        X.fill(st, d, v, n)
        return d
    def diff(x, y):
        return z3.ZeroExt(24, bv(x, 8)) - z3.ZeroExt(24, bv(y, 8))
    @intr("memcmp", "bcmp")
    def memcmp(X, st, a):
        n = ln(X, st, a[2], "comparison"); p, q = pt(X, st, a[0], "read"), pt(X, st, a[1], "read")
        if n == 0: return 0
        X.obj(st, p, n, "read"); X.obj(st, q, n, "read")
        r = []
        for k in range(n):
            x, y = X.load(st, p + k, 1), X.load(st, q + k, 1)
            if isinstance(x, int) and isinstance(y, int):
                if x == y: continue
                r.append((None, (x - y) & 0xffffffff)); break
            c = z3.simplify(bv(x, 8) != bv(y, 8))
            if z3.is_false(c): continue
            r.append((c, z3.simplify(diff(x, y))))
        e = 0
        for c, v in reversed(r):
            e = v if c is None else z3.If(c, v, bv(e, 32))
        return e
    @intr("strlen")
    def strlen(X, st, a): return len(X.cstr(st, pt(X, st, a[0], "read")))
    @intr("strnlen")
    def strnlen(X, st, a):
        p = pt(X, st, a[0], "read"); n = ln(X, st, a[1], "text"); k = 0
        while k < n:
            b = X.load(st, p + k, 1)
            if (b == 0) if isinstance(b, int) else X.decide(st, b == 0): return k
            k += 1
        return n
    def scmp(X, st, p, q, n):
        r = []; k = 0
        while n is None or k < n:
            x, y = X.load(st, p + k, 1), X.load(st, q + k, 1); k += 1
            if isinstance(x, int) and isinstance(y, int):
                if x != y: r.append((None, (x - y) & 0xffffffff)); break
                if x == 0: break
                continue
            c = z3.simplify(bv(x, 8) != bv(y, 8))
            if not z3.is_false(c): r.append((c, z3.simplify(diff(x, y))))
            if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0: break
            # both may be the terminator at the same place
            if not isinstance(x, int) and not isinstance(y, int) and X.decide(st, z3.And(x == 0, y == 0)): break
        e = 0
        for c, v in reversed(r): e = v if c is None else z3.If(c, v, bv(e, 32))
        return e
    @intr("strcmp")
    def strcmp(X, st, a):
        p, q = pt(X, st, a[0], "read"), pt(X, st, a[1], "read")
        return scmp2(X, st, p, q, None)
    @intr("strncmp")
    def strncmp(X, st, a):
        n = ln(X, st, a[2], "comparison")
        return scmp2(X, st, pt(X, st, a[0], "read"), pt(X, st, a[1], "read"), n)
    def scmp2(X, st, p, q, n):
        """like scmp, but decides one character at a time when one text may already have ended"""
        r = []; k = 0
        while n is None or k < n:
            x, y = X.load(st, p + k, 1), X.load(st, q + k, 1); k += 1
            if isinstance(x, int) and isinstance(y, int):
                if x != y: r.append((None, (x - y) & 0xffffffff)); break
                if x == 0: break
                continue
            c = z3.simplify(bv(x, 8) != bv(y, 8))
            if not z3.is_false(c): r.append((c, z3.simplify(diff(x, y))))
            # may either end here?  x symbolic: continuing needs x != 0 and y != 0 and x == y
            if isinstance(x, int) or isinstance(y, int):
                z = x if isinstance(x, int) else y
                if z == 0: break
                continue      # other side equal to a non-zero constant when we get further
            if X.decide(st, x == 0): break
        # positions behind a difference are only relevant when equal so far: reads were in bounds
        e = 0
        for c, v in reversed(r): e = v if c is None else z3.If(c, v, bv(e, 32))
        return e
    @intr("memchr")
    def memchr(X, st, a):
        p = pt(X, st, a[0], "read"); n = ln(X, st, a[2], "search"); c = a[1]
        c = c & 255 if isinstance(c, int) else z3.Extract(7, 0, c)
        for k in range(n):
            b = X.load(st, p + k, 1)
            if (b == c) if isinstance(b, int) and isinstance(c, int) else X.decide(st, bv(b, 8) == bv(c, 8)): return p + k
        return 0
    @intr("strchr")
    def strchr(X, st, a):
        p = pt(X, st, a[0], "read"); c = a[1] & 255; k = 0
        while True:
            b = X.load(st, p + k, 1)
            if (b == c) if isinstance(b, int) else X.decide(st, b == c): return p + k
            if (b == 0) if isinstance(b, int) else X.decide(st, b == 0): return 0
            k += 1
    @intr("strrchr")
    def strrchr(X, st, a):
        p = pt(X, st, a[0], "read"); s = X.cstr(st, p); c = a[1] & 255
        for k in range(len(s) - 1, -1, -1):
            if (s[k] == c) if isinstance(s[k], int) else X.decide(st, s[k] == c): return p + k
        return 0
    @intr("strcpy")
    def strcpy(X, st, a):
        d, s = pt(X, st, a[0], "write"), pt(X, st, a[1], "read"); n = len(X.cstr(st, s))
        X.rawcopy(st, d, s, n + 1); return d
    @intr("strcat")
    def strcat(X, st, a):
        d, s = pt(X, st, a[0], "write"), pt(X, st, a[1], "read"); m = len(X.cstr(st, d)); n = len(X.cstr(st, s))
        X.rawcopy(st, d + m, s, n); X.store(st, d + m + n, 1, 0); return d
    @intr("strncpy")
    def strncpy(X, st, a):
        d, s = pt(X, st, a[0], "write"), pt(X, st, a[1], "read"); n = ln(X, st, a[2], "copy")
        k = 0
        while k < n:
            b = X.load(st, s + k, 1)
            if (b == 0) if isinstance(b, int) else X.decide(st, b == 0): break
            k += 1
        if k: X.rawcopy(st, d, s, k)
        if n > k: X.fill(st, d + k, 0, n - k)
        return d
    @intr("tolower")
    def tolower(X, st, a):
        c = a[0]
        if isinstance(c, int): return c + 32 if 65 <= c <= 90 else c
        return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    @intr("toupper")
    def toupper(X, st, a):
        c = a[0]
        if isinstance(c, int): return c - 32 if 97 <= c <= 122 else c
        return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)

    # ---- llvm --------------------------------------------------------------------------
    @llvm("lifetime.", "assume", "dbg.", "donothing", "prefetch", "experimental.noalias", "invariant.", "va_end", "stacksave", "stackrestore", "var.annotation")
    def nop(X, st, a): return 0
    @llvm("va_start")
    def va_start(X, st, a):
        fr = st.frames[-1]
        n = len(fr.varargs)
        area = X.alloc(st, max(8, 8 * n), "stack", "varargs", zero=True); fr.allocas.append(area >> OBJ)
        for k, (t, v) in enumerate(fr.varargs):
            if isinstance(v, float): v = int.from_bytes(struct.pack('<d', v), 'little')
            w = width(fr.fn.module.types.res(t)) if t not in ('double',) else 64
            if isinstance(v, int): X.store(st, area + 8 * k, 8, v & ((1 << w) - 1))
            else: X.store(st, area + 8 * k, 8, z3.ZeroExt(64 - w, bv(v, w)) if w < 64 else v)
        ap = a[0]
        X.store(st, ap, 4, 48); X.store(st, ap + 4, 4, 304); X.store(st, ap + 8, 8, area); X.store(st, ap + 16, 8, 0)
    @llvm("va_copy")
    def va_copy(X, st, a): X.rawcopy(st, a[0], a[1], 24)
    @llvm("eh.typeid.for")
    def typeid_for(X, st, a): return X.tid(a[0])
    @llvm("trap")
    def trap(X, st, a): raise Violation("trap" + X.where(st), "trap")
    @llvm("expect.")
    def expect(X, st, a): return a[0]
    @llvm("objectsize")
    def objectsize(X, st, a): return M64
    @llvm("umul.with.overflow.i64")
    def umulo(X, st, a):
        x, y = X.conc(st, a[0]), X.conc(st, a[1]); r = x * y
        return (r & M64, int(r >> 64 != 0))
    @llvm("uadd.with.overflow.i64")
    def uaddo(X, st, a):
        x, y = X.conc(st, a[0]), X.conc(st, a[1]); r = x + y
        return (r & M64, int(r >> 64 != 0))
    @llvm("abs.i32")
    def abs32(X, st, a):
        v = X.conc(st, a[0]); return abs(sgn(v, 32)) & 0xffffffff
    def minmax(w, kind):
        def h(X, st, a):
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                s = (lambda v: sgn(v, w)) if kind[0] == 's' else (lambda v: v)
                return (x if (s(x) > s(y)) == (kind[1:] == 'max') else y)
            X_, Y = bv(x, w), bv(y, w)
            gt = X_ > Y if kind[0] == 's' else z3.UGT(X_, Y)
            return z3.If(gt, X_, Y) if kind[1:] == 'max' else z3.If(gt, Y, X_)
        return h
    for k in ('smax', 'smin', 'umax', 'umin'):
        for w in (8, 16, 32, 64): X.llvm['llvm.%s.i%d' % (k, w)] = minmax(w, k)

    # ---- C++ run-time --------------------------------------------------------------------
    @intr("__cxa_allocate_exception")
    def cxa_alloc(X, st, a): return X.alloc(st, X.conc(st, a[0]), "exception", "exception", zero=True)
    @intr("__cxa_free_exception")
    def cxa_free(X, st, a): st.mem.pop(a[0] >> OBJ, None)
    @intr("__cxa_throw")
    def cxa_throw(X, st, a):
        st.x[('ti', a[0])] = a[1]
        raise Unwind(a[0], a[1])
    @intr("__cxa_rethrow")
    def cxa_rethrow(X, st, a):
        p = st.caught[-1]
        raise Unwind(p, st.x.get(('ti', p)))
    @intr("__cxa_begin_catch")
    def begin_catch(X, st, a):
        st.caught.append(a[0]); return a[0]
    @intr("__cxa_end_catch")
    def end_catch(X, st, a):
        if st.caught: st.caught.pop()
    @intr("__cxa_get_exception_ptr")
    def get_exc(X, st, a): return a[0]
    @intr("__cxa_atexit")
    def cxa_atexit(X, st, a): return 0
    @intr("__cxa_guard_acquire")
    def guard(X, st, a): return 1 if X.load(st, a[0], 1) == 0 else 0
    @intr("__cxa_guard_release")
    def guardr(X, st, a): X.store(st, a[0], 1, 1)
    @intr("__cxa_guard_abort")
    def guarda(X, st, a): return 0
    @intr("_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate")
    def terminate(X, st, a): raise Violation("program termination" + X.where(st), "exception")
    for n, ti in (("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"), ("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
                  ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
                  ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"), ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
                  ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"), ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call")):
        I[n] = (lambda ti: lambda X, st, a: X.std_throw(st, ti))(ti)
    for n in ("_ZNSt9bad_allocD1Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9bad_allocD2Ev"): I[n] = lambda X, st, a: 0
    for n in ("log_levels", "log_errno_error", "log_lock_set", "log_set_level"): I.setdefault(n, lambda X, st, a: 0)
    del I["log_lock_set"], I["log_set_level"]
    I["__errno_location"] = errno_loc


def errno_loc(X, st, a):
    if "errno" not in st.x:
        st.x["errno"] = X.alloc(st, 4, "uheap", "errno", zero=True)
    return st.x["errno"]
