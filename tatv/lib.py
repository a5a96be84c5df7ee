"""helpers to write specifications"""
import z3
from .engine import *
from . import solve

Int, Bool = z3.IntSort(), z3.BoolSort()


class Lemma:
    """a universally quantified statement proved by induction on one integer variable; becomes an axiom once proved"""


def rec1(vc, name, sorts, ret, base, step, label=None):
    """recursive spec function f(k, params..): f(0,..)=base, f(k+1,..)=step(k, f(k,..)) for k>=0"""
    f = z3.Function(name, Int, *sorts, ret)
    return f


def define_prefix(vc, name, ret, base, step, start=0):
    """f: Int -> ret with f(start)=base and, for k>start: f(k) = step(k-1, f(k-1)).
    The arrays etc. it depends on are fixed ghost constants of the spec, so it is a plain function of k."""
    f = z3.Function(name, Int, ret)
    k = z3.Int("k")
    vc.add_axiom(f(start) == base, name + "-base", {name})
    vc.add_axiom(z3.ForAll([k], z3.Implies(k > start, f(k) == step(k - 1, f(k - 1))), patterns=[f(k)]), name + "-step", {name})
    # forward unfolding is also useful: trigger on f(k)
    vc.add_axiom(z3.ForAll([k], z3.Implies(k >= start, f(k + 1) == step(k, f(k))), patterns=[f(k + 1)]), name + "-step2", {name})
    return f


def discharge(vc, o, timeout):
    """every back end gets a short time first"""
    text = solve.smt2(vc, o.pc, o.goal)
    for t in (2, timeout):
        o.status, o.backend, o.time = solve.solve_text(text, t)
        if o.status != "unknown":
            break
    vc.obls.append(o)


def induct(vc, name, P, lo=0, extra=(), pats=None, hi=None, timeout=20):
    """prove forall k>=lo. P(k) by induction as obligations, then add it as an axiom"""
    k = z3.Int("k")
    o1 = Obl("%s:lemma %s (base)" % (vc.spec_name, name), "", list(extra), P(z3.IntVal(lo) if isinstance(lo, int) else lo), "lemma", "lemma")
    o2 = Obl("%s:lemma %s (step)" % (vc.spec_name, name), "", list(extra) + [k >= lo, P(k)] + ([k < hi] if hi is not None else []), P(k + 1), "lemma", "lemma")
    for o in (o1, o2):
        # lemmas are discharged at once, against the axioms available so far
        discharge(vc, o, timeout)
    guard = z3.And(k >= lo, k <= hi) if hi is not None else k >= lo
    if o1.status == "proved" and o2.status == "proved":
        f = z3.ForAll([k], z3.Implies(guard, P(k)), patterns=pats(k)) if pats else z3.ForAll([k], z3.Implies(guard, P(k)))
        vc.add_axiom(f, name)
        return True
    return False


def lemma(vc, name, formula, pc=(), timeout=20, axiom=True):
    o = Obl("%s:lemma %s" % (vc.spec_name, name), "", list(pc), formula, "lemma", "lemma")
    discharge(vc, o, timeout)
    if o.status == "proved" and axiom:
        vc.add_axiom(formula, name)
    return o.status == "proved"


def odd(x):
    return x % 2 == 1
