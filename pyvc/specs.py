"""Helpers for specifications: induction over loop indices, counting, filtering."""
import time
import z3
from .logic import *
from .interp import *
from .verify import View


def int_functions(fs, ran=None, pre=None):
    """the Int -> ran functions occurring in formulas"""
    out, seen, stack = {}, set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            stack.append(x.body())
            continue
        if is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1 and d.domain(0) == IntSort() and \
                    (ran is None or d.range() == ran) and (pre is None or d.name().startswith(pre)):
                out[d.name()] = d
            stack.extend(x.children())
    return [out[k] for k in sorted(out)]


def induct(s, n, P, lo=0, timeout=2500):
    """lemma by induction over lo <= q <= n; added to the facts of s when both obligations are discharged"""
    q = z3.Int('q_ind')
    base = P(IntVal(lo))
    if not entails(s.pc, Implies(n >= lo, base), timeout, quant=True):
        return False
    step = Implies(And(lo <= q, q < n, P(q)), P(q + 1))
    if not entails(s.pc, step, timeout, quant=True):
        return False
    s.assume(Implies(n >= lo, ForAll([q], Implies(And(lo <= q, q <= n), P(q)))))
    return True


def counter(s, name, keep):
    """G(i): how many of the positions before i satisfy keep (a definition)"""
    G = Function(name, IntSort(), IntSort())
    i = z3.Int('i_cnt')
    s.assume(G(0) == 0, ForAll([i], Implies(i >= 0, G(i + 1) == G(i) + If(keep(i), IntVal(1), IntVal(0))), patterns=[G(i)]))
    return G


def filter_goals(s, name, n, keep, src, out_len, out, value=None):
    """out is the subsequence of src at the positions that satisfy keep, in order"""
    G = counter(s, name, keep)
    for f in int_functions(s.pc, IntSort(), 'CNT'):
        if f.name() != name:
            for off in (0,):
                induct(s, n, lambda q: f(q) == G(q) + f(0))
    induct(s, n, lambda q: G(q) == q, timeout=1000)
    i = z3.Int('i_f')
    val = value or (lambda j: src(j))
    return [('exactly-the-kept-ones', out_len == G(n)),
            ('in-order', ForAll([i], Implies(And(0 <= i, i < n, keep(i)), out(G(i)) == val(i))))]


def by(s, *hints, timeout=4000, only=None):
    """intermediate assertions: each is added to the facts of s once it is proved from them (or from the facts in only);
    -> whether all were"""
    done = True
    for h in hints:
        if prove(s.pc if only is None else only, h, timeout)[0] == 'proved':
            s.assume(h)
        else:
            done = False
    return done


def holds(hyps, goal, timeout):
    for opts in ({}, {'smt.arith.nl': False}, {'smt.arith.solver': 2}):
        s = z3.Solver()
        s.set('timeout', timeout)
        for k, v in opts.items():
            s.set(k, v)
        s.add(*hyps)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == unsat:
            return True
    return False


class Lem:
    """a lemma about any values of vs, proved from the given instances of other lemmas (no other hypotheses)"""

    def __init__(self, vs, body, using=(), timeout=4000):
        self.vs, self.body = vs, body
        self.ok = holds(list(using), body, timeout)

    def __call__(self, *terms):
        return z3.substitute(self.body, *zip(self.vs, terms)) if self.ok else BoolVal(True)

    def fact(self, *patterns):
        return ForAll(self.vs, self.body, patterns=list(patterns)) if self.ok else BoolVal(True)


def consts(fs, sort):
    """the constants of a sort that occur in formulas"""
    out, seen, stack = {}, set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            stack.append(x.body())
        elif is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == sort:
                out[str(x)] = x
            stack.extend(x.children())
    return [out[k] for k in sorted(out)]
