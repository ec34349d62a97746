"""The logic: the universal value sort, type tags, solver access."""
import time
import z3
from z3 import (And, Array, ArraySort, Bool, BoolSort, BoolVal, Const, Datatype, Exists, ForAll, Function, If, Implies,
                Int, IntSort, IntVal, Not, Or, Real, RealSort, RealVal, Select, Solver, Store, String, StringSort,
                StringVal, ToInt, ToReal, is_app, is_quantifier, sat, simplify, substitute, unknown, unsat)

_d = Datatype('V')
_d.declare('none')
_d.declare('b', ('bv', BoolSort()))
_d.declare('i', ('iv', IntSort()))
_d.declare('f', ('fv', RealSort()))
_d.declare('s', ('sv', StringSort()))
_d.declare('r', ('rv', IntSort()))
_d.declare('c', ('cv', IntSort()))
V = _d.create()
NONE = V.none

# --- type identifiers -------------------------------------------------------------------------------------------
T_NONE, T_BOOL, T_INT, T_FLOAT, T_STR, T_TYPE = 1, 2, 3, 4, 5, 6
T_LIST, T_TUPLE, T_DICT, T_SET = 10, 11, 12, 13
BUILTIN_TYPES = {'NoneType': T_NONE, 'bool': T_BOOL, 'int': T_INT, 'float': T_FLOAT, 'str': T_STR, 'type': T_TYPE,
                 'list': T_LIST, 'tuple': T_TUPLE, 'dict': T_DICT, 'set': T_SET}
FIRST_CLASS_ID = 100
TAG = Function('tag', IntSort(), IntSort())
SUB = Function('subclass', IntSort(), IntSort(), BoolSort())
DEEPEQ = Function('deep_eq', V, V, BoolSort())
TRUTHY = Function('truthy', V, BoolSort())
STR_OF = Function('str_of', V, StringSort())
HASH_OF = Function('hash_of', V, IntSort())
LT_OBJ = Function('lt_obj', V, V, BoolSort())

_class_ids = {}


def class_id(key):
    if key not in _class_ids:
        _class_ids[key] = FIRST_CLASS_ID + len(_class_ids)
    return _class_ids[key]


def class_name(cid):
    for k, v in _class_ids.items():
        if v == cid:
            return k
    for k, v in BUILTIN_TYPES.items():
        if v == cid:
            return k
    return None


def ctor(v):
    """constructor name if v is (after ite-merging) built from one constructor, else None"""
    if not z3.is_expr(v) or v.sort() != V:
        return None
    d = v.decl()
    k = d.kind()
    if k == z3.Z3_OP_DT_CONSTRUCTOR:
        return d.name()
    if k == z3.Z3_OP_ITE:
        a, b = ctor(v.arg(1)), ctor(v.arg(2))
        return a if a == b else None
    return None


_ACC = {'b': V.bv, 'i': V.iv, 'f': V.fv, 's': V.sv, 'r': V.rv, 'c': V.cv}
_IS = {'none': V.is_none, 'b': V.is_b, 'i': V.is_i, 'f': V.is_f, 's': V.is_s, 'r': V.is_r, 'c': V.is_c}


def arg(v, kind):
    """payload of v seen as `kind`"""
    if v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and v.decl().name() == kind:
        return v.arg(0)
    if v.decl().kind() == z3.Z3_OP_ITE and ctor(v) == kind:
        return If(v.arg(0), arg(v.arg(1), kind), arg(v.arg(2), kind))
    return _ACC[kind](v)


def is_kind(v, kind):
    c = ctor(v)
    if c is not None:
        return BoolVal(c == kind)
    return _IS[kind](v)


def vb(x):
    return V.b(BoolVal(x) if isinstance(x, bool) else x)


def vi(x):
    return V.i(IntVal(x) if isinstance(x, int) else x)


def vf(x):
    return V.f(RealVal(x) if isinstance(x, (int, float, str)) else x)


def vs(x):
    return V.s(StringVal(x) if isinstance(x, str) else x)


def vr(x):
    return V.r(x)


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def num_kindless(v):
    """real number value of a numeric V (bool, int or float)"""
    c = ctor(v)
    if c == 'i':
        return ToReal(arg(v, 'i'))
    if c == 'f':
        return arg(v, 'f')
    if c == 'b':
        return If(arg(v, 'b'), RealVal(1), RealVal(0))
    return If(V.is_i(v), ToReal(V.iv(v)), If(V.is_f(v), V.fv(v), If(V.bv(v), RealVal(1), RealVal(0))))


def is_num(v):
    c = ctor(v)
    if c is not None:
        return BoolVal(c in ('i', 'f', 'b'))
    return Or(V.is_i(v), V.is_f(v), V.is_b(v))


def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    if not xs:
        return BoolVal(True)
    return xs[0] if len(xs) == 1 else And(*xs)


def disj(xs):
    xs = [x for x in xs if not is_false(x)]
    if not xs:
        return BoolVal(False)
    return xs[0] if len(xs) == 1 else Or(*xs)


def typeid(v):
    c = ctor(v)
    table = {'none': T_NONE, 'b': T_BOOL, 'i': T_INT, 'f': T_FLOAT, 's': T_STR, 'c': T_TYPE}
    if c in table:
        return IntVal(table[c])
    if c == 'r':
        return TAG(arg(v, 'r'))
    return If(V.is_i(v), IntVal(T_INT), If(V.is_s(v), IntVal(T_STR), If(V.is_f(v), IntVal(T_FLOAT), If(
        V.is_b(v), IntVal(T_BOOL), If(V.is_none(v), IntVal(T_NONE), If(V.is_c(v), IntVal(T_TYPE), TAG(V.rv(v))))))))


def subtype(a, b):
    """type-id a is a subclass of type-id b"""
    table = Or(a == b, And(a == T_BOOL, b == T_INT))
    return Or(table, And(a >= FIRST_CLASS_ID, b >= FIRST_CLASS_ID, SUB(a, b)))


_qcache = {}


def has_quant(e):
    k = e.get_id()
    if k in _qcache and _qcache[k][0].eq(e):
        return _qcache[k][1]
    res = False
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _qcache[k] = (e, res)
    return res


def mentions(e, ids):
    """does e mention any of the constants/functions whose decl ids are in ids"""
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            stack.append(x.body())
            continue
        if is_app(x):
            if x.decl().get_id() in ids:
                return True
            stack.extend(x.children())
    return False


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}


STATS = Stats()


def feasible(pc, timeout_ms=250):
    """over-approximate: quantified facts are ignored, unknown counts as feasible"""
    s = Solver()
    s.set('timeout', timeout_ms)
    for p in pc:
        if is_false(p):
            return False
        if not has_quant(p):
            s.add(p)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return r != unsat


def entails(pc, goal, timeout_ms=400, quant=False):
    goal = simplify(goal)
    if is_true(goal):
        return True
    s = Solver()
    s.set('timeout', timeout_ms)
    for p in pc:
        if quant or not has_quant(p):
            s.add(p)
    s.add(Not(goal))
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return r == unsat


def conjuncts(goal):
    """goal as a list of goals whose conjunction it is"""
    if z3.is_and(goal):
        return [x for c in goal.children() for x in conjuncts(c)]
    if z3.is_implies(goal):
        return [Implies(goal.arg(0), x) for x in conjuncts(goal.arg(1))] if z3.is_and(goal.arg(1)) or z3.is_implies(goal.arg(1)) else [goal]
    if is_quantifier(goal) and goal.is_forall():
        vs = [Const(f'{goal.var_name(i)}!g', goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        parts = conjuncts(body)
        return [ForAll(vs, x) for x in parts] if len(parts) > 1 else [goal]
    return [goal]


def prove(pc, goal, timeout_ms=8000, use_cvc5=True):
    """-> ('proved', backend) | ('refuted', model, backend) | ('unknown', reason)"""
    pc = list({p.get_id(): p for p in pc if not trivial(p)}.values())
    if any(p.eq(goal) for p in pc) or has_quant(goal) and given(pc, goal):
        return ('proved', 'z3')
    r = ('proved', 'z3')
    for g in conjuncts(goal):
        r1 = prove1(pc, g, timeout_ms, use_cvc5)
        if r1[0] != 'proved':
            return r1
        if r1[1] != 'z3':
            r = r1
    return r


def given(pc, goal):
    """the goal is among the hypotheses, or quickly follows as a whole"""
    s = Solver()
    s.set('smt.mbqi', False)
    s.set('timeout', 300)
    s.add(*pc)
    s.add(Not(goal))
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    if r == unsat:
        STATS.by['z3'] = STATS.by.get('z3', 0) + 1
    return r == unsat


def trivial(p):
    """facts no proof needs: ForAll q. rng(q) -> q < n"""
    if is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and z3.is_implies(p.body()):
        c = p.body().arg(1)
        return is_app(c) and c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_var(c.arg(0)) and \
            z3.is_and(p.body().arg(0)) and any(c.eq(x) for x in p.body().arg(0).children())
    return False


def instantiate(pc, goal, keep_flat=False):
    """the goal at arbitrary constants, and the facts about all iterations at those constants (consequences of pc)"""
    extra = [Int(d) for d in sorted(_decls([goal])) if d.startswith('any_')]   # arbitrary numbers the goal speaks of
    if not (is_quantifier(goal) and goal.is_forall()) and not extra:
        return None, None
    if is_quantifier(goal) and goal.is_forall():
        vs = [Const(f'{goal.var_name(i)}!sk', goal.var_sort(i)) for i in range(goal.num_vars())]
        g = z3.substitute_vars(goal.body(), *reversed(vs))
    else:
        vs, g = [], goal
    ints = extra + [v for v in vs if v.sort() == IntSort()]
    facts = []
    for p in pc:
        if not has_quant(p):
            facts.append(p)
        elif is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == IntSort():
            nested = has_quant(p.body())
            if not nested:
                facts.append(p)
                if keep_flat:
                    continue
            for v in ints:
                facts.append(z3.substitute_vars(p.body(), v))
        else:
            facts.append(p)
    return facts, g


_NLI = {k: Function(f'nl_{k}', IntSort(), IntSort(), IntSort()) for k in ('mul', 'div', 'mod')}
_NLR = {k: Function(f'nlr_{k}', RealSort(), RealSort(), RealSort()) for k in ('mul', 'div')}


def _numeral(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(e.arg(0))


def relevant(facts, goal, hops):
    """the facts that are connected to the goal by at most so many rare symbols"""
    syms = [{d for d in _decls([f])} for f in facts]
    count = {}
    for x in syms:
        for d in x:
            count[d] = count.get(d, 0) + 1
    lim = max(6, 0.15 * len(facts))
    rare = lambda x: {d for d in x if count.get(d, 0) <= lim and ('!' in d or d.startswith('nl'))}
    cur, keep = rare(_decls([goal])), set()
    for _ in range(hops):
        new = {i for i, x in enumerate(syms) if i not in keep and rare(x) & cur}
        keep |= new
        for i in new:
            cur |= rare(syms[i])
    return [f for i, f in enumerate(facts) if i in keep or not rare(syms[i])]


def _decls(fs):
    out, seen, stack = set(), set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            stack.append(x.body())
        elif is_app(x):
            out.add(x.decl().name())
            stack.extend(x.children())
    return out


_nlcache = {}


def nonlinear(e):
    """does a product, quotient or remainder of unknowns occur in e?"""
    k = e.get_id()
    if k in _nlcache and _nlcache[k][0].eq(e):
        return _nlcache[k][1]
    if is_quantifier(e):
        r = nonlinear(e.body()) or any(nonlinear(e.pattern(i).arg(j)) for i in range(e.num_patterns()) for j in range(e.pattern(i).num_args()))
    elif is_app(e) and e.num_args():
        kind = e.decl().kind()
        ch = e.children()
        r = kind == z3.Z3_OP_MUL and sum(not _numeral(c) for c in ch) > 1 or \
            kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not _numeral(ch[1]) or any(nonlinear(c) for c in ch)
    else:
        r = False
    _nlcache[k] = (e, r)
    return r


def abstract_nl(e, cache):
    """e with products, quotients and remainders of unknowns replaced by uninterpreted functions (weaker facts)"""
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if not nonlinear(e):
        return e
    if is_quantifier(e):
        vs = [z3.FreshConst(e.var_sort(i), e.var_name(i)) for i in range(e.num_vars())]
        body = abstract_nl(z3.substitute_vars(e.body(), *reversed(vs)), cache)
        pats = []
        for i in range(e.num_patterns()):
            p = e.pattern(i)
            ts = [abstract_nl(z3.substitute_vars(p.arg(j), *reversed(vs)), cache) for j in range(p.num_args())]
            pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
        r = (ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
    elif is_app(e) and e.num_args():
        ch = [abstract_nl(c, cache) for c in e.children()]
        kind = e.decl().kind()
        if kind == z3.Z3_OP_MUL:
            nums, rest = [c for c in ch if _numeral(c)], [c for c in ch if not _numeral(c)]
            if len(rest) > 1:
                f = (_NLI if e.sort() == IntSort() else _NLR)['mul']
                rest = sorted(rest, key=lambda c: c.sexpr())
                x = rest[0]
                for c in rest[1:]:
                    x = f(x, c)
                r = x
                for c in nums:
                    r = c * r
            else:
                r = e.decl()(*ch)
        elif kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not _numeral(ch[1]):
            r = _NLI['div' if kind == z3.Z3_OP_IDIV else 'mod'](*ch)
        elif kind == z3.Z3_OP_DIV and not _numeral(ch[1]):
            r = _NLR['div'](*ch)
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
    else:
        r = e
    cache[k] = (e, r)
    return r


def contradictory(pc, timeout_ms=2000):
    """the facts cannot hold together: with the facts about all iterations also taken at the first one"""
    facts = []
    for p in pc:
        facts.append(p)
        if is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == IntSort():
            facts.append(simplify(z3.substitute_vars(p.body(), IntVal(0))))
    cache = {}
    s = Solver()
    s.set('smt.mbqi', False)
    s.set('smt.array.extensional', False)
    s.set('timeout', timeout_ms)
    s.add(*[abstract_nl(simplify(f) if not has_quant(f) else f, cache) for f in facts])
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return r == unsat


def prove1(pc, goal, timeout_ms=8000, use_cvc5=True):
    quantified = any(has_quant(p) for p in pc) or has_quant(goal)
    reason = ''
    tactics = [dict()]
    if quantified and not has_quant(goal):
        # fewer hypotheses first: a proof from the quantifier-free ones alone is a proof
        s = Solver()
        s.set('timeout', min(timeout_ms, 3000))
        for p in pc:
            if not has_quant(p):
                s.add(p)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == unsat:
            STATS.by['z3'] = STATS.by.get('z3', 0) + 1
            return ('proved', 'z3')
    if quantified:
        cache = {}
        apc, ag = [abstract_nl(p, cache) for p in pc], abstract_nl(goal, cache)
        if cache:
            for fn in (_NLI['mul'], _NLR['mul']):
                if fn.name() in _decls(apc + [ag]):
                    x, y = z3.Consts('x_c y_c', fn.range())
                    apc.append(ForAll([x, y], fn(x, y) == fn(y, x), patterns=[fn(x, y)]))
        last = []

        def plans():
            yield apc, ag, 2000, 400
            facts, g2 = instantiate(apc, ag, True)
            if facts is None:
                facts, g2 = apc, ag
            else:
                yield facts, g2, 1500, 400
                if any(d.startswith('any_') for d in _decls([goal])):
                    facts, g2 = instantiate(apc, ag, False)
                    yield facts, g2, 2500, 600
            last[:] = facts, g2
            n = None
            for h in (1, 2, 3):
                sub = relevant(facts, g2, h)
                if len(sub) < len(facts) and len(sub) != n:
                    yield sub, g2, 1200, 300
                    n = len(sub)

        def attempt(fs, g, tm):
            # weaker facts, fewer axioms: unsat stays unsat
            s = Solver()
            s.set('smt.mbqi', False)
            s.set('smt.array.extensional', False)
            s.set('timeout', min(timeout_ms, tm))
            s.add(*fs)
            s.add(Not(g))
            t = time.time()
            r = s.check()
            STATS.queries += 1
            STATS.solver_s += time.time() - t
            if r == unsat:
                STATS.by['z3'] = STATS.by.get('z3', 0) + 1
                return True
            return False
        todo = []
        for fs, g, tm, short in plans():   # every way shortly, then every way longer
            todo.append((fs, g, tm))
            if attempt(fs, g, short):
                return ('proved', 'z3')
        if use_cvc5 and cvc5_check(*last, 1500) == 'unsat':
            STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
            return ('proved', 'cvc5')
        for fs, g, tm in todo:
            if attempt(fs, g, tm):
                return ('proved', 'z3')
        if use_cvc5 and cvc5_check(*last, min(timeout_ms, 5000)) == 'unsat':
            STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
            return ('proved', 'cvc5')
        tactics = [dict(mbqi=False, t=2000), dict(inst=True, flat=True, seed=0), dict(inst=True, flat=True, seed=1), dict(inst=True), dict(mbqi=False, ext=False), dict(mbqi=False), dict(mbqi=True)]
    for opt in tactics:
        if opt.get('inst'):
            facts, g2 = instantiate(pc, goal, opt.get('flat', False))
            if facts is None:
                continue
            s = Solver()
            s.set('smt.mbqi', False)
            s.set('timeout', min(timeout_ms, 4000) if 'seed' in opt else timeout_ms)
            if 'seed' in opt:
                s.set('smt.array.extensional', False)   # fewer axioms: unsat stays unsat
                s.set('smt.random_seed', opt['seed'])
            s.add(*facts)
            s.add(Not(g2))
            t = time.time()
            r = s.check()
            STATS.queries += 1
            STATS.solver_s += time.time() - t
            if r == unsat:
                STATS.by['z3'] = STATS.by.get('z3', 0) + 1
                return ('proved', 'z3')
            continue
        s = Solver()
        if 'mbqi' in opt:
            s.set('smt.mbqi', opt['mbqi'])
        if 'ext' in opt:
            s.set('smt.array.extensional', False)
        s.set('timeout', min(timeout_ms, opt.get('t', timeout_ms)) if opt.get('mbqi') is not True else min(timeout_ms, 4000))
        for p in pc:
            s.add(p)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == unsat:
            STATS.by['z3'] = STATS.by.get('z3', 0) + 1
            return ('proved', 'z3')
        if r == sat and 'ext' not in opt:
            return ('refuted', s.model(), 'z3')
        reason = s.reason_unknown()
    if use_cvc5:
        r = cvc5_check(pc, goal, timeout_ms)
        if r == 'unsat':
            STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
            return ('proved', 'cvc5')
    return ('unknown', reason)


def cvc5_check(pc, goal, timeout_ms):
    s = Solver()
    for p in pc:
        s.add(p)
    s.add(Not(goal))
    text = s.to_smt2()
    import os
    import subprocess
    import tempfile
    t = time.time()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        out = subprocess.run(['cvc5', f'--tlimit={timeout_ms}', '--full-saturate-quant', path], capture_output=True, text=True,
                             timeout=timeout_ms / 1000 + 5)
        res = out.stdout.strip().splitlines()
        res = res[0] if res else 'unknown'
    except Exception:  # a missing or failing second back end only loses completeness
        res = 'unknown'
    finally:
        os.unlink(path)
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return res
