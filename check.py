#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree (see DESIGN.md)."""
import sys, os, json, time, subprocess, shutil, re, tempfile, importlib, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
INC = REPO + "/include"
PYVT = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PYVT):
    PYVT = "python3-vt"
from tatv.table import T

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1"))
os.environ["VERIF_TIER"] = TIER
BUDGET = 780 if TIER == "quick" else 3400


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout=None, env=None, cwd=None):
    """run in its own process group; kill the whole group on timeout"""
    import signal

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o, e


# ------------------------------------------------------------------ layer A: deductive
def proof_phase(prop, tmp):
    results = []
    jobs = []
    sys.path.insert(0, HERE)

    def extract(modname):
        # TU/ROOTS/SPECS are read textually through python3-vt (the spec imports z3)
        rc, o, e = sh([PYVT, "-c", "import sys,json;sys.path.insert(0,%r);import importlib;m=importlib.import_module('specs.%s');print(json.dumps([m.TU,m.ROOTS,[s[:2] for s in m.SPECS],getattr(m,'FLAGS',[])]))" % (HERE, modname)], timeout=120)
        if rc != 0:
            return modname, None, "spec module: " + e[-800:]
        tu, roots, specs, flags = json.loads(o)
        irp = os.path.join(tmp, modname + ".json")
        rc, o, e = sh([HERE + "/build/tatv-extract", irp, roots, HERE + "/tu/" + tu, "--", "-std=c++17", "-I" + INC, "-I" + HERE + "/tu", "-I" + HERE + "/harness", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-Wno-everything"] + flags, timeout=300)
        if rc != 0 or not os.path.exists(irp):
            return modname, None, "extraction: rc=%s %s" % (rc, e[-1200:])
        # instances
        rc, o, e = sh(
            [
                PYVT,
                "-c",
                "import sys,json;sys.path.insert(0,%r);import importlib;m=importlib.import_module('specs.%s');from tatv.engine import IR;ir=IR(%r);print(json.dumps([[s[0],s[1],len(m.select(ir,s[0],s[1]) if hasattr(m,'select') else ir.find(s[1]))] for s in m.SPECS]))"
                % (HERE, modname, irp),
            ],
            timeout=120,
        )
        if rc != 0:
            return modname, None, "instances: " + e[-800:]
        return modname, (irp, json.loads(o)), None

    for modname, ok, err in ThreadPoolExecutor(4).map(extract, prop["specs"]):
        if err:
            results.append({"spec": modname, "function": "*", "instance": "", "status": "unsupported", "why": err, "obligations": []})
            continue
        irp, lst = ok
        for name, q, n in lst:
            if n == 0:
                results.append({"spec": name, "function": q, "instance": "", "status": "unsupported", "why": "no such function in the current source", "obligations": []})
            for i in range(n):
                jobs.append((irp, modname, name, i))

    def one(j, slow=1):
        irp, modname, name, i = j
        out = os.path.join(tmp, "r_%s_%s_%d.json" % (modname, re.sub(r"\W", "_", name), i))
        env = dict(os.environ, TATV_JOBS="2", TATV_SLOW=str(slow), PYTHONHASHSEED="0")
        if os.path.exists(out):
            os.unlink(out)
        tl = min(left() - 60, 600 if TIER == "quick" else 2400)
        if tl < 5:
            return {"spec": name, "function": name, "instance": str(i), "status": "unsupported", "why": "no time left", "obligations": [], "job": j}
        rc, o, e = sh([PYVT, HERE + "/tatv/prove.py", irp, modname, name, str(i), out], timeout=tl, env=env)
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            r = {"spec": name, "function": name, "instance": str(i), "status": "unsupported", "why": "verifier run ended (%s) %s" % (rc, e[-400:]), "obligations": []}
        r["job"] = j
        return r

    with ThreadPoolExecutor(5) as ex:
        rs = list(ex.map(one, jobs))
    # a proof that did not go through is tried once more with more solver time (guards against a loaded machine)
    redo = [r for r in rs if r["status"] in ("failed", "vacuous", "no-path")]
    if redo and left() > 200:
        with ThreadPoolExecutor(3) as ex:
            again = {tuple(r["job"]): r for r in ex.map(lambda r: one(r["job"], 3), redo)}
        rs = [again[tuple(r["job"])] if tuple(r["job"]) in again and again[tuple(r["job"])]["status"] in ("proved", "failed", "vacuous") else r for r in rs]
    return results + rs


# ------------------------------------------------------------------ layer B: bounded stand-in / replay
def harness_build(prop, tmp):
    src = os.path.join(HERE, "harness", prop["harness"])
    first = open(src).readline()
    parts = int(re.search(r"PARTS (\d+)", first).group(1))
    flags = re.search(r"FLAGS (.*)", first)
    flags = flags.group(1).split() if flags else []

    def comp(k):
        exe = os.path.join(tmp, "h_%d" % k)
        cmd = ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-w", "-DPART=%d" % k, "-I" + HERE + "/harness"] + [x.replace("@H", HERE + "/harness") for x in flags] + ["-I" + INC, "-o", exe, src, "-llapack", "-lblas"]
        rc, o, e = sh(cmd, timeout=400)
        return (k, exe if rc == 0 and os.path.exists(exe) else None, (e or "")[-1500:] if rc != 0 else "")

    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(comp, range(parts)))


def harness_run(prop, exes, seed, count, seconds, tmp):
    def run(t):
        k, exe, err = t
        if not exe:
            return {"part": k, "status": "not-compiled", "why": err}
        d = os.path.join(tmp, "run_%d_%d" % (k, seed))
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0", TATV_SECONDS=str(seconds), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **prop["env"])
        rc, o, e = sh([exe, str(seed), str(count)], timeout=max(seconds * 3, seconds + 200), env=env, cwd=d)
        m = re.search(r"^FAIL .*$", o, re.M)
        r = {"part": k, "rc": rc, "cmd": [str(seed), str(count)]}
        if m:
            r["status"] = "fail"
            r["out"] = o[o.find("FAIL "):][:6000]
            r["err"] = "\n".join(l for l in e.splitlines() if "Name missing" not in l)[-3000:]
            g = re.search(r"FAIL group=(\S+) case=(\d+)", o)
            r["group"], r["case"] = (g.group(1), g.group(2)) if g else ("", "")
        elif rc == 0 and re.search(r"^OK$", o, re.M):
            r["status"] = "ok"
            g = re.search(r"EVALS (\d+) DISTINCT (\d+)", o)
            r["evals"], r["distinct"] = int(g.group(1)), int(g.group(2))
            r["known"] = re.findall(r"^KNOWN (\S+) (\d+)$", o, re.M)
            r["samples"] = re.findall(r"^SAMPLE (.*)$", o, re.M)[:3]
        elif rc == "timeout":
            r["status"] = "timeout"
        else:
            r["status"] = "fail"
            r["out"] = "harness ended with %s before finishing\n%s" % (rc, o[-2000:])
            r["err"] = e[-3000:]
            r["group"], r["case"] = "", ""
        shutil.rmtree(d, ignore_errors=True)
        return r

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(run, exes))


def known(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    prop = T[pid]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    sh(["bash", HERE + "/build.sh"], timeout=400)
    tmp = tempfile.mkdtemp(prefix="tatv_%s_" % pid, dir=os.path.join(HERE, "build"))
    try:
        rc = decide(pid, prop, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(pid, prop, tmp):
    pool = ThreadPoolExecutor(2)
    fb = pool.submit(harness_build, prop, tmp) if prop["harness"] else None
    fa = pool.submit(proof_phase, prop, tmp)
    exes = fb.result() if fb else []
    count, seconds = prop[TIER if TIER in ("quick", "thorough") else "quick"]
    runs = harness_run(prop, exes, SEED, count, seconds, tmp) if exes else []
    proofs = fa.result()
    failed = [r for r in proofs if r["status"] in ("failed", "vacuous", "no-path")]
    bad_runs = [r for r in runs if r["status"] == "fail"]
    extra = []
    if failed and not bad_runs and exes and left() > 60:
        # look for a concrete input that shows the failed obligation
        s = max(20, min(150, left() - 60))
        extra = harness_run(prop, exes, SEED + 7919, 10 ** 7, s / 2, tmp)
        bad_runs = [r for r in extra if r["status"] == "fail"]
    unsupported = [r for r in proofs if r["status"] == "unsupported"]
    obls = [o for r in proofs if r["status"] != "unsupported" for o in r["obligations"]]
    disch = [o for o in obls if o["status"] == "proved"]
    ev_runs = [r for r in runs + extra if r["status"] == "ok"]
    std = sorted({s for r in proofs for s in r.get("std", [])})
    assumptions = list(prop["assumptions"]) + sorted({a for r in proofs for a in r.get("assumptions", [])})
    coverage = {
        "obligations": len(obls),
        "discharged": len(disch),
        "checker_cmd": "python3 check.py %s (tatv/prove.py: %s; back ends z3-new, cvc5)" % (pid, ", ".join(prop["specs"]) or "none"),
        "trusted_base": ["tatv/extract.cpp (clang 18 AST of /repo's headers)", "tatv/engine.py, tatv/stdmodels.py", "z3 / cvc5"] + ["assumed contract: " + s for s in std][:200],
        "functions_under_contract": [
            {"function": r["function"], "spec": r["spec"], "instance": r["instance"], "status": r["status"], "obligations": len(r["obligations"]), "paths": r.get("paths", 0), "solver_s": round(sum(o["time"] for o in r["obligations"]), 2), "wall_s": r.get("wall"), "loops": len(r.get("loops", [])), "inlined": r.get("inlined", [])[:60], "why": r.get("why", "")}
            for r in proofs
        ],
        "back_ends": {b: sum(1 for o in disch if o["backend"] == b) for b in sorted({o["backend"] or "-" for o in disch})},
        "solver_s": round(sum(o["time"] for o in obls), 2),
        "bounded_stand_in": {
            "what": "harness/%s against the reference semantics of harness/ref.hpp; random small tensors; NOT counted as proved" % prop["harness"],
            "bound": "%d cases per group or %d s per part, seed %d" % (count, seconds, SEED),
            "not_compiled_parts": [{"part": r["part"], "why": r["why"][-300:]} for r in runs if r["status"] == "not-compiled"],
        },
        "evaluations": sum(r["evals"] for r in ev_runs),
        "distinct_nontrivial": sum(r["distinct"] for r in ev_runs),
        "rule": "random small tensors / operations from the seed; non-trivial: distinct input description",
        "samples": [s for r in ev_runs for s in r["samples"]][:12] or ["(none)"],
        "explanation": prop["note"],
    }
    kf = dict(known(pid))
    seen = {}
    for r in ev_runs:
        for k, n in r["known"]:
            seen[k] = seen.get(k, 0) + int(n)
    violations = [("input", r) for r in bad_runs]
    for k, n in seen.items():
        if k in kf:
            print("KNOWN-FINDING: property=%s %s (%d of the generated cases)" % (pid, kf[k], n))
        else:
            violations.append(("input", {"out": "deviation %s is not a listed finding" % k, "part": 0, "cmd": [str(SEED)], "group": "", "case": ""}))
    coverage["known_findings_seen"] = seen
    lines = []
    if violations:
        r = violations[0][1]
        path = "replays/%s.txt" % pid
        with open(os.path.join(HERE, path), "w") as f:
            f.write("property %s: failing input found on the real code\n\n%s\n%s\n" % (pid, r["out"], r.get("err", "")))
            f.write("\nreplay: compile harness/%s with -DPART=%d as in check.py and run: ./h %s %s %s %s\n" % (prop["harness"], r["part"], SEED if r["cmd"][0] == str(SEED) else r["cmd"][0], "100000000", r["group"], r["case"]))
            if failed:
                f.write("\nfailed obligations:\n" + obl_text(failed))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print(r["out"][:1500])
    elif failed:
        path = "replays/%s.txt" % pid
        with open(os.path.join(HERE, path), "w") as f:
            f.write("property %s: the verifier does not accept these obligations of /repo's current source\n\n" % pid + obl_text(failed))
        print(obl_text(failed)[:3000])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for r in proofs:
        print("%-11s %-42s obligations %d/%d  %.1fs %s" % (r["status"], r["spec"], sum(1 for o in r["obligations"] if o["status"] == "proved"), len(r["obligations"]), r.get("wall") or 0, (r.get("why") or "")[-160:].replace("\n", " ")))
    for r in runs + extra:
        print("bounded part %s: %s %s" % (r["part"], r["status"], r.get("evals", "")))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": prop["level"], "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(lines)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0


def obl_text(failed):
    out = ""
    for r in failed:
        out += "%s: %s (%s) %s\n" % (r["spec"], r["status"], r["instance"], r.get("why", ""))
        for o in r["obligations"]:
            if o["status"] != "proved":
                out += "   %s: %s [%s]\n" % (o["status"], o["name"], o["loc"])
        for m in r.get("model", []):
            out += "   goal of %s: %s\n" % (m["name"], m["goal"])
        for l in r.get("loops", []):
            out += "   loop %s %s\n" % (l["loc"], "; ".join(l["notes"])[:1500])
    return out


if __name__ == "__main__":
    main()
