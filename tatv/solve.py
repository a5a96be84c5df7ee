"""discharge obligations in parallel; back ends: z3 (python bindings, several strategies) and cvc5 (CLI) """
import os, sys, time, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
from .engine import has_quant

Z3 = "/usr/local/bin/z3-new" if os.path.exists("/usr/local/bin/z3-new") else "z3-new"
CVC5 = "cvc5"
STRATS = [
    ("z3", []),
    ("z3-nombqi", ["smt.mbqi=false", "auto_config=false"]),
    ("z3-seed", ["smt.random_seed=7", "smt.arith.solver=2"]),
]


def smt2(vc, pc, goal):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    ng = z3.Not(goal)
    s.add(ng)
    for a in vc.axioms_for(list(pc) + [ng]):
        s.add(a)
    return s.to_smt2()


def run_z3(text, opts, timeout):
    p = subprocess.Popen([Z3, "-in", "-T:%d" % timeout] + opts, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(text, timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "timeout"
    for l in out.splitlines():
        if l in ("sat", "unsat", "unknown", "timeout"):
            return l
    return "unknown" if "timeout" not in out else "timeout"


def run_cvc5(text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % (timeout * 1000), "--full-saturate-quant", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        for l in p.stdout.splitlines():
            if l in ("sat", "unsat", "unknown"):
                return l
        return "unknown"
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(f.name)


def solve_text(text, timeout, use_cvc5=True):
    t0 = time.time()
    res = "unknown"
    sat_seen = None
    for name, opts in STRATS:
        r = run_z3(text, opts, timeout)
        if r == "unsat":
            return "proved", name, time.time() - t0
        if r == "sat":
            return "refuted", name, time.time() - t0
    if use_cvc5:
        r = run_cvc5(text, timeout)
        if r == "unsat":
            return "proved", "cvc5", time.time() - t0
        if r == "sat":
            return "refuted", "cvc5", time.time() - t0
    return "unknown", "-", time.time() - t0


def discharge(vc, obls=None, timeout=10, jobs=8, use_cvc5=True):
    obls = vc.obls if obls is None else obls
    todo = [o for o in obls if o.status is None]
    texts = {}
    for o in todo:
        texts[id(o)] = smt2(vc, o.pc, o.goal)

    def one(o):
        o.status, o.backend, o.time = solve_text(texts[id(o)], timeout, use_cvc5)
        return o

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    return [o for o in obls if o.status != "proved"]


def sat_check(vc, pc, timeout=5):
    """vacuity: are the assumptions provably contradictory?  returns 'contradictory' or 'ok'"""
    text = smt2(vc, pc, z3.BoolVal(False))
    r = run_z3(text, [], timeout)
    return "contradictory" if r == "unsat" else "ok"
