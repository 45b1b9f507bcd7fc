"""Driver of the solver-based checks: builds harness + real sources with goto-cc, runs
CBMC, adapts unwinding bounds, validates witnesses and counterexamples natively, writes
evidence. See DESIGN.md."""
import json, os, re, subprocess, sys, time, shutil, hashlib, resource, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HDIR = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
MEM = 9 * 2**30

REN_STD = ["-Dmalloc=v_malloc", "-Dcalloc=v_calloc"]
REN_CAP = ["-Dmalloc=v_malloc_c", "-Dcalloc=v_calloc_c"]
REN_ALL = ["-Drealloc=v_realloc", "-Dfree=v_free", "-Dstrdup=v_strdup", "-Dstrndup=v_strndup"]
INC = ["-I" + HDIR, "-I" + REPO + "/src", "-I" + REPO + "/src/voucher"]
SYS = ["-D_GNU_SOURCE"]


class Unit:
    """A /repo C source. cap: its malloc/calloc are byte buffers of symbolic size.
    ren: {name: newname} renames (own definition and calls inside this unit).
    nopre: compile without the logging override."""
    def __init__(self, path, cap=False, ren=None, defs=(), pre=True, alloc=True, ccap=False):
        self.path, self.cap, self.ren, self.defs, self.pre, self.alloc = path, cap, ren or {}, list(defs), pre, alloc
        self.ccap = ccap

    def flags(self):
        f = []
        if self.alloc:
            f += (REN_CAP if self.cap else REN_STD) + REN_ALL
        f += ["-D%s=%s" % kv for kv in self.ren.items()] + self.defs
        if self.pre:
            f += ["-include", os.path.join(HDIR, "pre.h")]
        return f


class Cpp:
    """A /repo C++ source, lowered through clang IR and ir2c.py."""
    def __init__(self, path, defs=()):
        self.path, self.defs = path, list(defs)


class H:
    """One harness = one solver run."""
    def __init__(self, name, src, fn, units, defs=(), unwind=20, uws=None, cap=64, rtdefs=(), flags=(),
                 tier="quick", timeout=600, validate=True, bounds="", mem=None, extra=(), maxunwind=400,
                 known=None, field=None, objbits=12, models=True, witnesses=None, native=True):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.defs, self.rtdefs, self.flags, self.uws = list(defs), list(rtdefs), list(flags), dict(uws or {})


class S:
    """One symbolic execution: the real sources as LLVM IR, every path and every assertion decided by Z3."""
    def __init__(self, name, src, fn, units, defs=(), tier="quick", timeout=600, bounds="", known=None, extra=(), cpp=False,
                 validate=True, max_paths=500000, ren=None, wit=None, max_steps=30000000, hang=20):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.defs, self.extra = list(defs), list(extra)
        self.unwind = None


class Inconclusive(Exception):
    pass


def limit(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def sh(cmd, timeout=300, mem=MEM, env=None, cwd=None, inp=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         preexec_fn=limit(mem) if mem else os.setsid)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        rc = "timeout"
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t


def build_goto(h, d, cap, ghost=True):
    """Compile harness and units with goto-cc; returns path of the goto binary."""
    os.makedirs(d, exist_ok=True)
    objs = []
    jobs = []
    for i, u in enumerate(h.units):
        o = os.path.join(d, "u%d.o" % i)
        if isinstance(u, Cpp):
            import ir2c
            c = os.path.join(d, "u%d_ir.c" % i)
            ir2c.lower(os.path.join(REPO, u.path), c, d, u.defs)
            jobs.append(["goto-cc", "-c", c, "-o", o] + INC)
        else:
            jobs.append(["goto-cc", "-c", "-DVERIF_CBMC"] + SYS + INC + u.flags() +
                        ["-I" + os.path.dirname(os.path.join(REPO, u.path)), os.path.join(REPO, u.path), "-o", o])
        objs.append(o)
    capdef = ["-DV_CAP=%d" % cap, "-DV_HAVE_CAP=%d" % any(getattr(u, "cap", False) for u in h.units)]
    if not ghost: capdef.append("-DV_NOGHOST")
    srcs = [("rt.o", "rt.c", h.rtdefs)]
    if h.models:
        srcs.append(("libc.o", "libc_cbmc.c", []))
    srcs.append(("h.o", h.src, []))
    for n, e in enumerate(h.extra):
        srcs.append(("x%d.o" % n, e, []))
    for o, c, extra in srcs:
        jobs.append(["goto-cc", "-c", "-DVERIF_CBMC"] + SYS + INC + capdef + h.defs + list(extra) +
                    [os.path.join(HDIR, c), "-o", os.path.join(d, o)])
        objs.append(os.path.join(d, o))
    for j in jobs:
        rc, o, e, _ = sh(j, 120)
        if rc != 0:
            raise Inconclusive("goto-cc failed: %s\n%s" % (" ".join(j), (o + e)[-3000:]))
    g0, g = os.path.join(d, "all0.gb"), os.path.join(d, "all.gb")
    rc, o, e, _ = sh(["goto-cc", "--function", h.fn] + objs + ["-o", g0], 120)
    if rc != 0:
        raise Inconclusive("goto link failed: " + (o + e)[-3000:])
    rc, o, e, _ = sh(["goto-instrument", "--drop-unused-functions", g0, g], 300)
    if rc != 0:
        raise Inconclusive("goto-instrument failed: " + (o + e)[-2000:])
    return g


def list_functions(g):
    rc, o, e, _ = sh(["goto-instrument", "--list-goto-functions", g], 120)
    have = [m.group(1) for m in re.finditer(r"^([A-Za-z_]\w*)", o, re.M)]
    rc, o2, e, _ = sh(["goto-instrument", "--list-undefined-functions", g], 120)
    und = [l.strip() for l in o2.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())]
    return have, und


def repo_functions(g):
    """functions of /repo sources with a body in the goto binary, by source location"""
    rc, o, e, _ = sh(["cbmc", "--show-properties", "--json-ui", g], 120)
    fns = set()
    try:
        for m in json.loads(o):
            for p in m.get("properties", []):
                sl = p.get("sourceLocation", {})
                if sl.get("file", "").startswith(REPO) and sl.get("function"):
                    fns.add(os.path.relpath(sl["file"], REPO) + ":" + sl["function"])
    except Exception:
        pass
    return sorted(fns)


def loops_of(g):
    rc, o, e, _ = sh(["cbmc", "--show-loops", g], 120)
    return set(re.findall(r"^Loop (\S+):", o, re.M))


def cbmc(g, h, uw, extra, timeout, slice_=True, cap=64):
    cmd = ["cbmc", g, "--no-malloc-may-fail", "--json-ui", "--verbosity", "8", "--unwind", str(h.unwind),
           "--drop-unused-functions"]
    if any(getattr(u, "cap", False) for u in h.units) and not h.field:
        cmd += ["--max-field-sensitivity-array-size", str(cap + 14)]
    if h.field: cmd += ["--max-field-sensitivity-array-size", str(h.field)]
    if h.objbits: cmd += ["--object-bits", str(h.objbits)]
    if slice_: cmd.append("--slice-formula")
    if uw: cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(uw.items()))]
    cmd += h.flags + extra
    rc, o, e, t = sh(cmd, timeout, h.mem or MEM)
    if rc == "timeout":
        raise Inconclusive("solver run exceeded %ds: %s" % (timeout, h.name))
    try:
        msgs = json.loads(o)
    except Exception:
        raise Inconclusive("cbmc gave no result (rc %s, out of memory?) for %s: %s" % (rc, h.name, (o[-600:] + e[-600:])))
    res, st = None, {"vars": 0, "clauses": 0, "steps": 0, "assign": 0, "solver_s": 0.0, "wall_s": t, "vccs": 0}
    for m in msgs:
        if "result" in m: res = m["result"]
        tx = m.get("messageText", "")
        k = re.match(r"(\d+) variables, (\d+) clauses", tx)
        if k:
            st["vars"] = max(st["vars"], int(k.group(1))); st["clauses"] = max(st["clauses"], int(k.group(2)))
        k = re.match(r"size of program expression: (\d+) steps", tx)
        if k: st["steps"] = int(k.group(1))
        k = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", tx)
        if k: st["vccs"] = int(k.group(1)); st["vccs_rem"] = int(k.group(2))
        k = re.match(r"slicing removed (\d+) assignments", tx)
        if k: st["assign"] = int(k.group(1))
        k = re.match(r"Runtime Solver: ([\d.e-]+)s", tx)
        if k: st["solver_s"] += float(k.group(1))
    if res is None:
        txt = " ".join(m.get("messageText", "") for m in msgs if m.get("messageType") == "ERROR")
        raise Inconclusive("cbmc gave no verdict for %s: %s" % (h.name, txt[-600:] or e[-600:]))
    return res, st


def nd_values(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "nd_val" and \
                not s.get("hidden") and \
                s.get("sourceLocation", {}).get("function") == "nd_raw":
            v = s.get("value", {})
            if "binary" in v and re.fullmatch(r"[01]+", v["binary"]):
                vals.append(int(v["binary"], 2))
            elif "data" in v:
                vals.append(int(re.match(r"-?\d+", v["data"]).group(0)) & (2**64 - 1))
    return vals


def build_native(h, d, cap):
    exe = os.path.join(d, "native")
    if os.path.exists(exe): return exe
    objs, errs = [], ""
    base = ["gcc", "-g", "-O0", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-builtin"] + SYS + INC
    jobs = []
    for i, u in enumerate(h.units):
        o = os.path.join(d, "n%d.o" % i)
        if isinstance(u, Cpp):
            c = os.path.join(d, "u%d_ir.c" % i)
            jobs.append(base + ["-c", c, "-o", o])
        else:
            jobs.append(base + u.flags() + ["-I" + os.path.dirname(os.path.join(REPO, u.path)), "-c",
                                            os.path.join(REPO, u.path), "-o", o])
        objs.append(o)
    srcs = ["rt.c", h.src] + list(h.extra)
    for n, c in enumerate(srcs):
        o = os.path.join(d, "nh%d.o" % n)
        jobs.append(base + ["-DENTRY=" + h.fn, "-DV_CAP=%d" % cap] + h.defs + h.rtdefs +
                    ["-c", os.path.join(HDIR, c), "-o", o])
        objs.append(o)
    for j in jobs:
        rc, o, e, _ = sh(j, 120, None)
        if rc != 0: raise Inconclusive("native build failed: %s\n%s" % (" ".join(j), (o + e)[-2000:]))
    rc, o, e, _ = sh(base + objs + ["-o", exe], 120, None)
    if rc != 0: raise Inconclusive("native link failed: " + (o + e)[-2000:])
    return exe


def run_native(exe, vals, d, tag):
    """returns (kind, text): kind in fail / hang / ok / vacuous"""
    f = os.path.join(d, "in_%s.txt" % tag)
    with open(f, "w") as fh: fh.write("\n".join(map(str, vals)) + "\n")
    worst = ("ok", "")
    for fill in ("165", "0", "255", "65"):
        env = dict(os.environ, V_INPUT=f, V_FILL=fill, UBSAN_OPTIONS="print_stacktrace=1",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1",
                   TZ="UTC")
        rc, o, e, _ = sh([exe], 20, None, env, d)
        txt = (o + "\n" + e)[-6000:]
        if rc == "timeout": return "hang", txt
        if rc == 77: worst = ("vacuous", txt); continue
        if rc == 97 or rc == 98 or rc < 0 or (rc == 1 and "runtime error" in e):
            return "fail", txt
        if rc != 0: return "fail", "exit %s\n" % rc + txt
        if worst[0] == "ok": worst = ("ok", txt)
    return worst


def trace_of(g, h, uw, prop, timeout, cap=64):
    res, st = cbmc(g, h, uw, ["--trace", "--property", prop], timeout, slice_=False, cap=cap)
    for r in res:
        if r["property"] == prop and r["status"] == "FAILURE":
            return nd_values(r.get("trace", [])), st
    raise Inconclusive("no trace for " + prop)


class Result:
    pass


def run_harness(h, workdir, deadline):
    """Decide one harness. Returns a Result with .status in pass/violation/inconclusive."""
    R = Result(); R.h = h; R.status = "inconclusive"; R.msg = ""; R.stats = []; R.viol = None
    R.validated = 0; R.sample = None; R.witness = 0; R.props = 0; R.uw = {}; R.und = []; R.fns = []
    d = os.path.join(workdir, h.name)
    os.makedirs(d, exist_ok=True)
    cap = h.cap
    ghost = True
    t0 = time.time()
    def left():
        l = min(h.timeout, deadline - time.time())
        if l < 5: raise Inconclusive("time budget used up")
        return l
    try:
        g = build_goto(h, d, cap)
        ls = loops_of(g)
        uw = {k: v for k, v in h.uws.items() if k in ls}
        for k in ls:
            if re.match(r"(v_calloc_c|v_realloc|ghost|strlen|strcpy|strncpy|strnlen|strcmp|strcat|memcpy|memset|vfmt|put_num|nd_text|nd_buf)\.\d+$", k):
                uw.setdefault(k, cap + 15)
            elif re.match(r"h_\w+\.\d+$", k):
                uw.setdefault(k, 2000)  # harness loops have concrete bounds
        have, R.und = list_functions(g)
        R.fns = repo_functions(g)
        for rnd in range(30):
            res, st = cbmc(g, h, uw, [], left(), cap=cap)
            R.stats.append(st)
            fails = [r for r in res if r["status"] == "FAILURE"]
            other = [r for r in res if r["status"] not in ("FAILURE", "SUCCESS")]
            wit = [r for r in res if "WITNESS" in r.get("description", "")]
            wfail = [r for r in fails if "WITNESS" in r.get("description", "")]
            unw = [r for r in fails if ".unwind." in r["property"] or ".recursion" in r["property"]]
            bnd = [r for r in fails if r.get("description", "").startswith("BOUND")]
            gho = [r for r in fails if r.get("description", "").startswith("GHOST")]
            real = [r for r in fails if r not in wfail and r not in unw and r not in bnd and r not in gho]
            R.props = len(res) - len(wit); R.witness = len(wit)
            if os.environ.get("VERIF_DEBUG"):
                print("   [%s] round %d: %d props, unwind-fail %s, bound %d, real %s, %.1fs vars %d" % (
                    h.name, rnd, len(res), [r["property"] for r in unw], len(bnd),
                    [(r["property"], r["description"]) for r in real][:6], st["wall_s"], st["vars"]), flush=True)
            if real:
                # reproduce natively before reporting
                exe = build_native(h, d, cap) if h.native else None
                last = None
                for r in sorted(real, key=lambda r: ("assertion" not in r["property"]))[:6]:
                    try:
                        vals, _ = trace_of(g, h, uw, r["property"], left(), cap)
                    except Inconclusive as ex:
                        last = ("no trace", str(ex)); continue
                    k, txt = run_native(exe, vals, d, re.sub(r"\W", "_", r["property"]))
                    last = (k, txt)
                    if k in ("fail", "hang"):
                        R.status = "violation"
                        R.viol = {"property": r["property"], "description": r["description"],
                                  "where": r.get("sourceLocation", {}), "inputs": vals, "native": txt, "kind": k}
                        return R
                raise Inconclusive("solver counterexample not reproduced natively: %s | %s" %
                                   ([(r["property"], r["description"]) for r in real][:4], last))
            if gho:
                if not ghost: raise Inconclusive("text length hints inexact")
                ghost = False
                shutil.rmtree(d, ignore_errors=True)
                g = build_goto(h, d, cap, ghost)
                continue
            if unw:
                grew = False
                for r in unw:
                    m = re.match(r"(.*)\.unwind\.(\d+)$", r["property"])
                    if not m: continue
                    lid = m.group(1) + "." + m.group(2)
                    cur = uw.get(lid, h.unwind)
                    if cur < h.maxunwind:
                        uw[lid] = min(h.maxunwind, cur * 2 if cur < 40 else cur + 40); grew = True
                if grew: continue
                r = unw[0]
                exe = build_native(h, d, cap)
                vals, _ = trace_of(g, h, uw, r["property"], left(), cap)
                k, txt = run_native(exe, vals, d, "unwind")
                if k in ("fail", "hang"):
                    R.status = "violation"
                    R.viol = {"property": r["property"], "description": "loop does not terminate within bound: " + r["description"],
                              "where": r.get("sourceLocation", {}), "inputs": vals, "native": txt, "kind": k}
                    return R
                raise Inconclusive("unwinding bound %d insufficient for %s" % (h.maxunwind, r["property"]))
            if bnd:
                if cap >= 16 * h.cap: raise Inconclusive("capacity bound exceeded")
                cap *= 2
                shutil.rmtree(d, ignore_errors=True)
                g = build_goto(h, d, cap, ghost)
                continue
            if other:
                raise Inconclusive("undecided: " + str([(r["property"], r["status"]) for r in other][:4]))
            missing = [r for r in wit if r["status"] != "FAILURE"]
            if missing or not wit:
                R.msg = "vacuous: witness not reachable: " + ", ".join(r["description"] for r in missing)
                raise Inconclusive(R.msg)
            R.uw = uw
            R.status = "pass"
            if h.validate and h.native:
                w = wfail[0] if not h.witnesses else [r for r in wfail if h.witnesses in r["description"]][0]
                try:
                    vals, st2 = trace_of(g, h, uw, w["property"], left(), cap)
                    R.stats.append(st2)
                    exe = build_native(h, d, cap)
                    k, txt = run_native(exe, vals, d, "witness")
                    name = w["description"].replace("WITNESS ", "")
                    if k in ("ok", "vacuous") and ("WITNESS " + name) in txt:
                        R.validated = 1
                        R.sample = {"harness": h.name, "witness": name, "inputs": vals[:64], "native": "reached, no assertion failed"}
                    elif k in ("fail", "hang"):
                        # the solver says all assertions hold on this input, the real code disagrees
                        R.status = "violation"
                        R.viol = {"property": w["property"], "description": "native run of a solver-chosen input fails",
                                  "where": {}, "inputs": vals, "native": txt, "kind": k}
                    else:
                        R.msg = "witness trace not reproduced natively (%s)" % k
                except Inconclusive as ex:
                    R.msg = "witness trace not computed: %s" % ex
            return R
        raise Inconclusive("no convergence of unwinding bounds")
    except Inconclusive as ex:
        R.status = "inconclusive"; R.msg = str(ex)
        return R
    finally:
        R.wall = time.time() - t0


import threading
_lock = threading.Lock()
_cache = {}
def once(key, fn):
    """compute fn() once per key, also across threads"""
    with _lock:
        e = _cache.setdefault(key, [threading.Lock(), None, False])
    with e[0]:
        if not e[2]:
            try: e[1] = fn()
            except Inconclusive as ex: e[1] = ex
            e[2] = True
    if isinstance(e[1], Exception): raise e[1]
    return e[1]


SX_REN = {"malloc": "v_malloc", "calloc": "v_calloc", "realloc": "v_realloc", "free": "v_free", "strdup": "v_strdup", "strndup": "v_strndup",
          "_Znwm": "v_new", "_ZdlPv": "v_delete", "_ZdlPvm": "v_delete_sz"}
# the same targets for the array forms and internal aliases (objcopy takes one name per target)
SX_REN2 = {"__strdup": "v_strdup", "__strndup": "v_strndup", "_Znam": "v_new", "_ZdaPv": "v_delete", "_ZdaPvm": "v_delete_sz"}


def srcs_of(h):
    """[(path, is_unit, unit or None)]"""
    r = [(os.path.join(REPO, u.path), u) for u in h.units]
    r += [(os.path.join(HDIR, x), None) for x in [h.src] + h.extra]
    return r


def is_cpp(path): return path.endswith((".cpp", ".cc"))


def cflags(path, u, h):
    f = SYS + ["-I" + HDIR]
    if u is not None:
        f += [x for x in u.defs if x.startswith("-I" + HDIR)]
        f += ["-I" + REPO + "/src", "-I" + REPO + "/src/voucher", "-I" + os.path.dirname(path)] + [x for x in u.defs if not x.startswith("-I" + HDIR)]
    else: f += ["-I" + REPO + "/src", "-I" + REPO + "/src/voucher", "-I" + REPO + "/src/brski"] + h.defs
    if is_cpp(path): f += ["-x", "c++", "-std=gnu++11"]
    else: f += ["-std=gnu17"]
    return f


def sx_ir(path, u, h, wd):
    cmd = [("clang++" if is_cpp(path) else "clang"), "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w",
           "-DVERIF_SX"] + cflags(path, u, h) + [path]
    key = ("ir", tuple(cmd))
    def go():
        out = os.path.join(wd, "ir", hashlib.md5(repr(key).encode()).hexdigest()[:16] + ".ll")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        rc, o, e, _ = sh(cmd + ["-o", out + ".0"], 300, None)
        if rc != 0: raise Inconclusive("clang failed: %s\n%s" % (" ".join(cmd), (o + e)[-3000:]))
        rc, o, e, _ = sh(["opt", "-S", "-passes=sroa,mem2reg,simplifycfg", out + ".0", "-o", out], 300, None)
        if rc != 0: raise Inconclusive("opt failed: " + (o + e)[-2000:])
        return out
    return once(key, go)


def sx_native(h, d, wd):
    exe = os.path.join(d, "native")
    if os.path.exists(exe): return exe
    objs = []
    anycpp = False
    for path, u in srcs_of(h) + [(os.path.join(HDIR, "rt.c"), None)]:
        cpp = is_cpp(path); anycpp |= cpp
        defs = ["-DENTRY=" + h.fn] if path.endswith("/rt.c") else []
        cmd = ["g++" if cpp else "gcc", "-g", "-O0", "-w", "-fno-pie", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-builtin"] + \
              cflags(path, u, h) + defs + ["-c", path]
        ren = {} if path.endswith("/rt.c") else sx_ren(u, h, cpp)
        key = ("nat", tuple(cmd), tuple(sorted(ren.items())))
        def go():
            out = os.path.join(wd, "nat", hashlib.md5(repr(key).encode()).hexdigest()[:16] + ".o")
            os.makedirs(os.path.dirname(out), exist_ok=True)
            rc, o, e, _ = sh(cmd + ["-o", out], 300, None)
            if rc != 0: raise Inconclusive("native build failed: %s\n%s" % (" ".join(cmd), (o + e)[-2000:]))
            for rr in ([ren, SX_REN2] if "malloc" in ren else [ren] if ren else []):
                rc, o, e, _ = sh(["objcopy"] + [x for kv in rr.items() for x in ("--redefine-sym", "%s=%s" % kv)] + [out], 60, None)
                if rc != 0: raise Inconclusive("objcopy failed: " + (o + e)[-2000:])
            return out
        objs.append(once(key, go))
    rc, o, e, _ = sh(["g++" if anycpp else "gcc", "-g", "-no-pie", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all"] + objs + ["-o", exe], 120, None)
    if rc != 0: raise Inconclusive("native link failed: " + (o + e)[-2000:])
    return exe


def sx_ren(u, h, cpp):
    if u is None: return dict(SX_REN) if cpp else {}
    r = dict(SX_REN) if u.alloc else {}
    r.update(u.ren); r.update(h.ren or {})
    return r


def run_sx(h, workdir, deadline):
    R = Result(); R.h = h; R.status = "inconclusive"; R.msg = ""; R.stats = []; R.viol = None
    R.validated = 0; R.sample = None; R.witness = 0; R.props = 0; R.uw = {}; R.und = []; R.fns = []
    d = os.path.join(workdir, h.name)
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    try:
        mods = []
        cpp = False
        for path, u in srcs_of(h):
            cpp |= is_cpp(path)
            mods.append({"path": sx_ir(path, u, h, workdir), "ren": dict(SX_REN2 if u is None or u.alloc else {}, **sx_ren(u, h, is_cpp(path))), "tag": u.path if u is not None else ""})
        for r in ["rt.c", "libc_cbmc.c", "libc_sx.c"] + (["rt_cpp.cpp"] if cpp else []):
            p = os.path.join(HDIR, r)
            hh = S("rt", "", "", [])
            mods.append({"path": sx_ir(p, None, hh, workdir), "ren": dict(SX_REN, **SX_REN2) if is_cpp(p) else {}, "tag": ""})
        left = min(h.timeout, deadline - time.time())
        if left < 5: raise Inconclusive("time budget used up")
        job = {"modules": mods, "entry": h.fn, "time": left, "max_paths": h.max_paths, "max_steps": h.max_steps}
        with open(os.path.join(d, "job.json"), "w") as f: json.dump(job, f)
        rc, o, e, _ = sh(["python3-vt", os.path.join(VERIF, "bin", "sxrun.py"), os.path.join(d, "job.json"), os.path.join(d, "out.json")],
                         left + 60, MEM)
        if not os.path.exists(os.path.join(d, "out.json")): raise Inconclusive("symbolic execution gave no result (%s) %s" % (rc, (o + e)[-800:]))
        J = json.load(open(os.path.join(d, "out.json")))
        R.fns = J["fns"]; R.und = J["undef"]; R.props = J["queries"]; R.witness = len(J["expected"])
        R.stats = [{"steps": J["steps"], "vccs": J["paths"] + J["forks"], "solver_s": J["solver_s"], "vars": 0, "clauses": 0, "queries": J["queries"],
                    "paths": J["paths"], "forks": J["forks"], "discarded": J["kills"]}]
        if os.environ.get("VERIF_DEBUG"):
            print("   [%s] %s" % (h.name, {k: J[k] for k in ("status", "why", "paths", "kills", "forks", "steps", "queries", "solver_s", "wall", "undef")}), flush=True)
            for v in J["viol"]: print("     viol:", v["kind"], v["text"], v["inputs"][:24], v["stack"])
        if J["viol"]:
            exe = sx_native(h, d, workdir)
            last = None
            for n, v in enumerate(J["viol"]):
                k, txt = run_native(exe, v["inputs"], d, "v%d" % n)
                last = (k, txt)
                if k in ("fail", "hang"):
                    R.status = "violation"
                    R.viol = {"property": v["kind"], "description": v["text"], "where": {"stack": v["stack"]}, "inputs": v["inputs"],
                              "native": txt, "kind": k}
                    return R
            raise Inconclusive("counterexample not reproduced natively: %s | %s" % ([v["text"] for v in J["viol"]], last))
        if J["status"] != "done" or not J["complete"]: raise Inconclusive(J["why"])
        missing = [w for w in (h.wit if h.wit is not None else J["expected"]) if w not in J["wit"]]
        if missing or not J["wit"]: raise Inconclusive("vacuous: witness not reachable: " + ", ".join(missing))
        R.status = "pass"
        if h.validate:
            exe = sx_native(h, d, workdir)
            todo = [(w, J["wit"][w]) for w in sorted(J["wit"])][:10] + [(None, x) for x in J["samples"][:8]]
            for n, (w, vals) in enumerate(todo):
                k, txt = run_native(exe, vals, d, "w%d" % n)
                if k in ("fail", "hang"):
                    R.status = "violation"
                    R.viol = {"property": "native", "description": "native run of a solver-chosen input fails", "where": {}, "inputs": vals,
                              "native": txt, "kind": k}
                    return R
                if k == "ok" and "COMPLETED" in txt and (w is None or "WITNESS " + w in txt):
                    R.validated += 1
                    if R.sample is None: R.sample = {"harness": h.name, "witness": w, "inputs": vals[:64], "native": "completed, no assertion failed"}
                else: R.msg = "solver-chosen input behaves differently natively (%s %s %s)" % (w, k, txt[-200:])
        return R
    except Inconclusive as ex:
        R.status = "inconclusive"; R.msg = str(ex)
        return R
    finally:
        R.wall = time.time() - t0


def run_check(pid, spec, tier, seed, budget):
    t0 = time.time()
    workdir = os.path.join(BUILD, "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    hs = [h for h in spec["harnesses"] if tier == "thorough" or h.tier == "quick"]
    only = os.environ.get("VERIF_ONLY")
    if only: hs = [h for h in hs if re.search(only, h.name)]
    known = [k for k in load_known() if k.get("property") == pid and not k.get("fixed")]
    deadline = t0 + budget
    results = []
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [ex.submit(run_sx if isinstance(h, S) else run_harness, h, workdir, deadline) for h in hs]
        for f in as_completed(futs):
            r = f.result(); results.append(r)
            print("[%s] %-28s %-12s %6.1fs props=%d witnesses=%d validated=%d %s" % (
                pid, r.h.name, r.status, r.wall, r.props, r.witness, r.validated, " ".join(r.msg.split())[:200]), flush=True)
    # known findings: harness marked known=<id> must fail, and is reported as such
    viol, inconc = [], []
    for r in results:
        k = r.h.known
        if k:
            ent = [x for x in known if x.get("id") == k]
            if r.status == "violation":
                if ent and (not ent[0].get("match") or re.search(ent[0]["match"], r.viol["description"])):
                    print("KNOWN-FINDING: property=%s %s" % (pid, ent[0]["what"]))
                else:
                    viol.append(r)
            elif r.status == "inconclusive":
                inconc.append(r)
        elif r.status == "violation":
            viol.append(r)
        elif r.status == "inconclusive":
            inconc.append(r)
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(VERIF, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in viol:
            path = os.path.join(rdir, "%s-%s.json" % (pid, r.h.name))
            with open(path, "w") as f:
                json.dump({"property": pid, "harness": r.h.name, "source": r.h.src, "function": r.h.fn,
                           "failed": r.viol["description"], "cbmc_property": r.viol["property"],
                           "where": r.viol["where"], "inputs": r.viol["inputs"], "kind": r.viol["kind"],
                           "native_output": r.viol["native"],
                           "how": "inputs are the successive nondeterministic values; native run: harness compiled with gcc -fsanitize=address,undefined against /repo sources, V_INPUT=<file with these values>"}, f, indent=1)
            print("  %s: %s (%s)" % (r.h.name, r.viol["description"], r.viol["native"].strip().splitlines()[-1:]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    elif inconc:
        rc = 2
        for r in inconc: print("INCONCLUSIVE %s: %s" % (r.h.name, " ".join(r.msg.split())[:200]))
    write_evidence(pid, spec, tier, seed, results, viol, inconc, time.time() - t0)
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(workdir, ignore_errors=True)
    return rc


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def write_evidence(pid, spec, tier, seed, results, viol, inconc, wall):
    fns, und, samples, uws = set(), set(), [], {}
    steps = vccs = solver = nq = props = wit = val = mv = mc = paths = 0
    for r in results:
        fns.update(r.fns); und.update(r.und)
        for s in r.stats:
            steps += s["steps"]; vccs += s["vccs"]; solver += s["solver_s"]; nq += s.get("queries", 1); paths += s.get("paths", 0)
            mv = max(mv, s["vars"]); mc = max(mc, s["clauses"])
        props += r.props; wit += r.witness; val += r.validated
        if r.sample: samples.append(r.sample)
        if r.uw: uws[r.h.name] = r.uw
    cov = {
        "states": steps, "transitions": vccs,
        "traces_validated_against_impl": val,
        "samples": samples[:6],
        "explanation": "CBMC runs: states = SSA steps of the symbolic execution, transitions = verification conditions; path-wise runs: "
                       "states = IR instructions executed symbolically, transitions = paths and forks; every assertion and branch decided by the "
                       "solver for all values within the bounds",
        "paths_explored": paths,
        "functions_encoded": sorted(fns),
        "assertions_decided": props, "reachability_witnesses": wit,
        "queries": nq, "solver_time_s": round(solver, 2),
        "largest_formula": {"variables": mv, "clauses": mc},
        "bounds": {r.h.name: dict({"inputs": r.h.bounds, "status": r.status, "engine": "symbolic execution of LLVM IR, Z3",
                                    "paths": sum(s.get("paths", 0) for s in r.stats)} if isinstance(r.h, S) else
                                   {"unwind": r.h.unwind, "unwindset": uws.get(r.h.name, {}), "inputs": r.h.bounds,
                                    "status": r.status, "engine": "CBMC"}) for r in results},
        "bodiless_functions": sorted(und),
        "inconclusive": [{"harness": r.h.name, "why": r.msg} for r in inconc],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
