"""worker: run one spec of one spec module on one instantiation and write the outcome as JSON.
usage: prove.py IR.json MODULE SPEC INSTANCE OUT.json"""
import sys, json, time, importlib, traceback, os, resource

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    irp, modname, spec, inst, out = sys.argv[1:6]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from tatv.engine import IR, VC, Unsupported
    from tatv import solve

    mod = importlib.import_module("specs." + modname)
    ir = IR(irp)
    name, q, fn = [s for s in mod.SPECS if s[0] == spec][0][:3]
    fs = mod.select(ir, name, q) if hasattr(mod, "select") else ir.find(q)
    f = fs[int(inst)]
    res = {"spec": name, "function": q, "instance": f["loc"] + " " + ",".join(p["type"] for p in f["params"])[:300], "status": "", "obligations": [], "wall": 0}
    t0 = time.time()
    slow = int(os.environ.get("TATV_SLOW", "1"))
    try:
        vc = VC(ir, name)
        vc.cand_timeout *= slow
        vc.solver_timeout *= slow
        fn(vc, f)
        bad = solve.discharge(vc, timeout=10 * slow, jobs=int(os.environ.get("TATV_JOBS", "2")))
        if bad:
            for o in bad:
                if o.status == "unknown":
                    o.status = None
            bad = solve.discharge(vc, timeout=30 * slow, jobs=int(os.environ.get("TATV_JOBS", "2")))
        vac = []
        ends = getattr(vc, "ends", [])
        for pc in ends[:40]:
            vac.append(solve.sat_check(vc, pc, 5))
        if ends and all(v == "contradictory" for v in vac):
            res["status"] = "vacuous"
        elif not ends:
            res["status"] = "no-path"
        else:
            res["status"] = "proved" if not bad else "failed"
        res["paths"] = len(ends)
        res["obligations"] = [{"name": o.name, "loc": o.loc, "status": o.status, "backend": o.backend, "time": round(o.time, 3), "kind": o.kind} for o in vc.obls]
        res["model"] = [{"name": o.name, "loc": o.loc, "goal": str(o.goal)[:3000]} for o in bad[:10]]
        res["loops"] = [{"function": k[0], "loc": k[1], "notes": [m[:1500] for m in v if m.startswith("invariant")]} for k, v in vc.loop_notes.items()]
        res["inlined"] = sorted(vc.stats.get("inlined", []))
        res["std"] = sorted(vc.stats.get("std", []))
        res["contracts_used"] = sorted(getattr(vc, "contracts_used", []))
        res["assumptions"] = sorted(getattr(vc, "assumptions", []))
        res["stats"] = {k: (v if not isinstance(v, set) else len(v)) for k, v in vc.stats.items()}
    except Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = str(e)[:500]
    except Exception as e:
        res["status"] = "unsupported"
        res["why"] = "internal: " + traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"))


main()
