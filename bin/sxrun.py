"""Runs one symbolic execution (under python3-vt, which has the Z3 bindings). argv: job.json out.json"""
import sys, json, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import symex


def expected_witnesses(X, entry):
    """texts of the v_witness calls reachable from the entry within the harness module"""
    M = X.funcs[entry].module
    seen, todo, out = set(), [entry], set()
    while todo:
        f = X.funcs.get(todo.pop())
        if f is None or f.name in seen or f.module is not M: continue
        seen.add(f.name)
        for bn, ins in f.blocks:
            for I in ins:
                if I[0] != 'call': continue
                cal, args = I[3], I[4]
                for t, v, a in args:
                    if v[0] == 'g': todo.append(X.lname(M, v[1]))
                if cal[0] != 'g': continue
                if cal[1] == 'v_witness':
                    a = X.const(M, 'ptr', args[0][1]); o = X.gobj[a >> symex.OBJ]
                    off = (a & symex.MASKO) - symex.BASE
                    out.add(bytes(o.data[off:]).split(b'\0')[0].decode())
                else: todo.append(X.lname(M, cal[1]))
    return sorted(out)


def main():
    job = json.load(open(sys.argv[1]))
    X = symex.Exec(max_paths=job.get("max_paths", 500000), max_steps=job.get("max_steps", 30000000), time_limit=job["time"],
                   qtimeout=job.get("qtimeout", 120) * 1000)
    R = {"status": "done", "why": ""}
    t0 = time.time()
    try:
        for m in job["modules"]: X.add_module(m["path"], m.get("ren") or {}, m.get("tag", ""))
        X.link()
        R["expected"] = expected_witnesses(X, job["entry"])
        X.run(job["entry"])
    except symex.Unsupported as e:
        R["status"], R["why"] = "unsupported", str(e)
    except Exception as e:
        import traceback
        R["status"], R["why"] = "unsupported", "internal: " + traceback.format_exc()[-1500:]
    R.setdefault("expected", [])
    R.update(viol=X.viol, wit=X.wit, paths=X.npaths, kills=X.kills, forks=X.nforks, steps=X.nsteps, queries=X.nq, solver_s=round(X.tq, 2),
             undef=sorted(X.undef), samples=X.samples, asserts=X.nassert, wall=round(time.time() - t0, 2), complete=getattr(X, "complete", False))
    fns = set()
    for n in X.executed:
        f = X.funcs.get(n)
        if f is not None and f.module.tag: fns.add(f.module.tag + ":" + f.name)
    R["fns"] = sorted(fns)
    json.dump(R, open(sys.argv[2], "w"))


main()
