"""Obligations: run a real function body against its contract and discharge every goal on every path.

A `Target` names the function under contract (looked up in /repo's current source on every run), a `setup` that builds
symbolic arguments and assumes the precondition, and a `post` that returns the named goals for one path of the body.
"""
import time
import traceback
import z3
from .logic import *
from . import logic as L
from .interp import *
from .source import Repo


class Ctx:
    """what a postcondition can look at: the initial state, the arguments, helper accessors"""

    def __init__(self, eng, st0):
        self.eng, self.st0 = eng, st0
        self.args, self.kwargs = [], {}

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)


class Target:
    def __init__(self, name, func, setup, post, *, config=None, bound=None, allow_raise=False, timeout=8000, tier='quick',
                 decode=None, note='', total=False, min_paths=1):
        """func: 'module:qualname' or a list of alternatives"""
        self.name, self.func, self.setup, self.post = name, func, setup, post
        self.config, self.bound, self.allow_raise, self.timeout = config, bound, allow_raise, timeout
        self.tier, self.decode, self.note, self.total, self.min_paths = tier, decode, note, total, min_paths


class Lemma:
    """goal over contract formulas only (no code): name, fn() -> (hyps, goal)"""

    def __init__(self, name, fn, timeout=8000):
        self.name, self.fn, self.timeout = name, fn, timeout


def param(eng, st, name, ty):
    v = z3.Const('p_' + name, V)
    st.keep.append(v)
    eng.assume_type(st, v, ty, old=True)
    return v


def concretize(eng, st, v, n):
    """bounded mode: fix the length of a list/tuple/dict parameter"""
    a = arg(v, 'r')
    st.assume(eng.sel(st, 'len', a) == n)


def run_target(repo, t, bound=None):
    """-> dict(status, obligations=[...], ...)"""
    t0 = time.time()
    res = dict(name=t.name, func=t.func, obligations=[], status='ok', inlined=[], contracts=[], assumptions=[], opaque=[])
    q0, s0 = STATS.queries, STATS.solver_s
    try:
        fi = repo.find_func(t.func)
        if fi is None:
            res['status'] = 'missing'
            res['reason'] = f'{t.func} is not in the source any more'
            return res
        eng = Engine(repo)
        if t.config:
            t.config(eng)
        st = eng.new_state(fi.module, fi.cls)
        ctx = Ctx(eng, st)
        ctx.bound = bound
        args = t.setup(ctx, eng, st)
        kwargs = {}
        if isinstance(args, tuple) and len(args) == 2 and isinstance(args[1], dict):
            args, kwargs = args
        ctx.args = args
        ctx.pre_len = len(st.pc)
        # vacuity: the precondition is satisfiable as far as the solver can tell
        if not feasible(st.pc, 4000):
            res['status'] = 'vacuous'
            res['reason'] = 'contradictory precondition'
            return res
        ctx.st0 = st.copy()
        outs = eng.call_func(st.copy(), fi, args, kwargs, force_inline=True)
        res['paths'] = len(outs)
        res['inlined'] = sorted(eng.inlined)
        res['fingerprint'] = fingerprint(repo, eng.inlined | {fi.key})
        res['contracts'] = sorted(eng.used_contracts)
        normal = live = 0
        for pi, (s, v) in enumerate(outs):
            if not feasible(s.pc, 1000):
                continue
            if isinstance(v, Raised):
                goals = None
                if t.allow_raise is True:
                    continue
                if callable(t.allow_raise):
                    goals = t.allow_raise(ctx, s, v)
                    if goals is True:
                        continue
                    if goals is False:
                        goals = None
                if goals is None:
                    goals = [(f'no-{v.exc}', BoolVal(False))]
            else:
                normal += 1
                goals = t.post(ctx, s, v)
                if live == 0 and not contradictory(s.pc):
                    live += 1
            for gname, goal in goals:
                r = prove(s.pc, goal, t.timeout)
                ob = dict(id=f'{t.name}/{gname}/path{pi}', status=r[0], backend=r[1] if r[0] == 'proved' else (r[2] if r[0] == 'refuted' else ''))
                if r[0] == 'refuted':
                    ob['model'] = str(r[1])[:1500]
                    if t.decode is not None:
                        try:
                            ob['inputs'] = t.decode(ctx, r[1])
                        except Exception as e:   # decoding is best effort
                            ob['decode_error'] = repr(e)
                elif r[0] == 'unknown':
                    ob['reason'] = r[1]
                ob['raised'] = v.exc if isinstance(v, Raised) else None
                res['obligations'].append(ob)
        for oi, (gname, pc, goal) in enumerate(eng.obligations):
            r = prove(pc, goal, t.timeout)
            ob = dict(id=f'{t.name}/call:{gname}/{oi}', status=r[0], backend=r[1] if r[0] == 'proved' else '', raised=None)
            if r[0] == 'unknown':
                ob['reason'] = r[1]
            res['obligations'].append(ob)
        if normal < t.min_paths:
            res['status'] = 'vacuous'
            res['reason'] = 'no normal path'
        elif normal and not live:
            res['status'] = 'vacuous'
            res['reason'] = 'the facts of every normal path are contradictory'
        res['assumptions'] = sorted(eng.assumptions)
        res['opaque'] = sorted(eng.opaque)
    except (Unsupported, Budget) as e:
        res['status'] = 'unsupported'
        res['reason'] = f'{type(e).__name__}: {e}'
    except Exception as e:
        res['status'] = 'error'
        res['reason'] = traceback.format_exc()[-1500:]
    res['queries'], res['solver_s'] = STATS.queries - q0, STATS.solver_s - s0
    res['wall_s'] = time.time() - t0
    return res


def contradictory(pc):
    s = Solver()
    s.set('smt.mbqi', False)
    s.set('timeout', 1500)
    s.add(*pc)
    STATS.queries += 1
    return s.check() == unsat


def fingerprint(repo, keys):
    """hash of the syntax trees (comments, layout and docstrings left out) the obligations were generated from"""
    import ast
    import hashlib
    h = hashlib.sha256()
    for k in sorted(keys):
        fi = repo.find_func(k)
        if fi is None:
            h.update(k.encode())
            continue
        body = fi.node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        h.update((k + ast.dump(fi.node.args) + ''.join(ast.dump(x) for x in body)).encode())
    return h.hexdigest()[:16]


def run_lemma(l):
    t0 = time.time()
    hyps, goal = l.fn()
    r = prove(hyps, goal, l.timeout)
    return dict(name=l.name, func='(lemma)', status='ok', obligations=[dict(id=l.name, status=r[0], backend=r[1] if r[0] == 'proved' else '')],
                inlined=[], contracts=[], assumptions=[], opaque=[], wall_s=time.time() - t0, queries=1, solver_s=time.time() - t0)


# ---- decoding models into plain data --------------------------------------------------------------------------
def decode_value(model, eng, st, v, depth=0, ty=None):
    ev = lambda e: model.eval(e, model_completion=True)
    x = ev(v)
    d = x.decl().name()
    if d == 'none':
        return None
    if d == 'b':
        return z3.is_true(ev(V.bv(x)))
    if d == 'i':
        return ev(V.iv(x)).as_long()
    if d == 'f':
        r = ev(V.fv(x))
        return float(r.as_fraction()) if z3.is_rational_value(r) else float(r.approx(20).as_fraction())
    if d == 's':
        return ev(V.sv(x)).as_string()
    if d == 'c':
        return {'$class': ev(V.cv(x)).as_long()}
    a = ev(V.rv(x))
    tag = ev(TAG(a)).as_long()
    if depth > 6:
        return {'$deep': True}
    h0 = lambda n: st.heap.get(n) if st.heap.get(n) is not None else Const(f'H0_{n}', heap_sort(n))
    if tag in (T_LIST, T_TUPLE):
        n = ev(Select(h0('len'), a)).as_long()
        if n > 20:
            raise ValueError('long list in model')
        return [decode_value(model, eng, st, Select(Select(h0('item'), a), i), depth + 1) for i in range(n)]
    if tag in (T_DICT, T_SET):
        n = ev(Select(h0('len'), a)).as_long()
        if n > 20:
            raise ValueError('long dict in model')
        ks = [Select(Select(h0('item'), a), i) for i in range(n)]
        if tag == T_SET:
            return {'$set': [decode_value(model, eng, st, k, depth + 1) for k in ks]}
        return {'$dict': [[decode_value(model, eng, st, k, depth + 1),
                           decode_value(model, eng, st, Select(Select(h0('get'), a), k), depth + 1)] for k in ks]}
    obj = {'$obj': tag, '$cls': class_name(tag), '$adr': a.as_long()}
    for hn in st.heap:
        if hn.startswith('a:'):
            obj[hn[2:]] = decode_value(model, eng, st, Select(h0(hn), a), depth + 1)
    return obj


def decode_args(names):
    def f(ctx, model):
        return {n: decode_value(model, ctx.eng, ctx.st0, v) for n, v in zip(names, ctx.args)}
    return f


# ---- contracts ------------------------------------------------------------------------------------------------
class Contract:
    """what callers see of a function: fn(eng, st, named arguments) -> [(state, value or Raised)]"""

    def __init__(self, fn):
        self.fn = fn

    def apply(self, eng, st, env):
        return self.fn(eng, st, env)


def pure(fn):
    """contract of a function without effects whose result is fn(eng, st, env), a value"""
    return Contract(lambda eng, st, env: [(st, fn(eng, st, env))])


class View:
    """read access to lists, tuples and dictionaries in one heap, for specifications"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def rd(self, name, v):
        a = arg(v, 'r')
        return self.eng.sel(self.st, name, a) if self.eng is not None else Select(self.st.h(name), a)

    def len(self, v):
        return self.rd('len', v)

    def item(self, v, i):
        return Select(self.rd('item', v), i)

    def has(self, v, k):
        return Select(self.rd('has', v), k)

    def get(self, v, k):
        return Select(self.rd('get', v), k)

    def attr(self, v, name):
        return self.rd('a:' + name, v)

    def tag(self, v, *ts):
        return And(is_kind(v, 'r'), Or(*[TAG(arg(v, 'r')) == t for t in ts]))

    def seq(self, v):
        return self.tag(v, T_LIST, T_TUPLE)

    def dict(self, v):
        return self.tag(v, T_DICT)

    def obj(self, v):
        return And(is_kind(v, 'r'), TAG(arg(v, 'r')) >= FIRST_CLASS_ID)


def forall_in(lo, hi, body, pat=None, name='jq'):
    j = Int(name)
    b = body(j)
    return ForAll([j], Implies(And(lo <= j, j < hi), b), **({'patterns': [pat(j)]} if pat else {}))
