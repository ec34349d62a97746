"""C18 Pareto front: soundness and completeness of pareto_indexes for any number of points and costs; fronts of datasets.

LT(p, q): point p has a cost smaller than point q has.  q dominates p when LT(q, p) and not LT(p, q).
"""
from pyvc.verify import *
from pyvc.specs import *
from pyvc import interp as I, npmodel
from contracts.c01 import frame
from contracts import c10

DS = 'dessia_common.datatools.dataset:Dataset'
LT = Function('has_a_smaller_cost', IntSort(), IntSort(), BoolSort())
TRUE = vb(BoolVal(True))


def cfg(eng):
    eng.specs.update(npmodel.SPECS)
    eng.invariants.append(loops)
    eng.name_parts = True


def costs(ctx, eng, st, name='costs'):
    c = param(eng, st, name, LIST(LIST(FLOAT)))
    w = View(eng, st.copy())
    n, m = ctx.n, ctx.m = w.len(c), Int('number_of_costs')
    i, k, p, q = Int('ci'), Int('ck'), Int('cp'), Int('cq')
    cell = lambda i, k: V.fv(w.item(w.item(c, i), k))
    st.assume(m >= 1, ForAll([i], Implies(And(0 <= i, i < n), And(w.tag(w.item(c, i), T_LIST), arg(w.item(c, i), 'r') <= Int('WM0'), w.len(w.item(c, i)) == m)), patterns=[w.item(c, i)]))
    inside = lambda x: And(0 <= x, x < n)
    st.assume(ForAll([p, q], Implies(And(inside(p), inside(q)), LT(p, q) == z3.Exists([k], And(0 <= k, k < m, cell(p, k) < cell(q, k)))), patterns=[LT(p, q)]))
    r = Int('cr')
    st.assume(ForAll([p, q, r], Implies(And(inside(p), inside(q), inside(r), Not(LT(p, q)), Not(LT(q, r))), Not(LT(p, r))), patterns=[z3.MultiPattern(LT(p, q), LT(q, r))]))   # lemma not-smaller-is-transitive
    ctx.costs, ctx.inside = c, inside
    return c


def front_setup(ctx, eng, st):
    c = costs(ctx, eng, st)
    eng.ghost = ctx
    return [c]


def dominates(q, p):
    return And(LT(q, p), Not(LT(p, q)))


def front_facts(w, l, n, LT=LT):
    """of a list of truth values, one per point: no point of the front is dominated, every other is matched by one of the front"""
    p, q = Int('fp'), Int('fq')
    dominates = lambda q, p: And(LT(q, p), Not(LT(p, q)))
    inside = lambda x: And(0 <= x, x < n)
    E = lambda x: w.item(l, x) == TRUE
    return [('one-truth-value-per-point', And(w.len(l) == n, ForAll([p], Implies(inside(p), is_kind(w.item(l, p), 'b')), patterns=[w.item(l, p)]))),
            ('front-not-dominated', z3.ForAll([p, q], Implies(And(inside(p), inside(q), E(p)), Not(dominates(q, p))))),
            ('others-matched', z3.ForAll([p], Implies(And(inside(p), Not(E(p))), z3.Exists([q], And(inside(q), E(q), Not(LT(p, q)))))))]


def front_post(ctx, s, r):
    return front_facts(View(ctx.eng, s), r, ctx.n) + [frame(ctx, s)]


def loops(info):
    ctx = info.eng.ghost
    e = info.frame_env = info.st.env
    if info.func is None or not info.func.endswith('pareto_indexes'):
        return None
    ms = [v for v in e.values() if isinstance(v, npmodel.EMask) and v.where is not None]
    if len(ms) != 1:
        return None
    l, n, inside = ms[0].where, ctx.n, ctx.inside

    def phi(st, i):
        w, p, q = View(info.eng, st), Int('fp'), Int('fq')
        E = lambda x: w.item(l, x) == TRUE
        return [w.len(l) == n, ForAll([p], Implies(inside(p), is_kind(w.item(l, p), 'b')), patterns=[w.item(l, p)]),
                z3.ForAll([p, q], Implies(And(0 <= q, q < i, inside(p), E(q), E(p), p != q), LT(p, q))),
                z3.ForAll([p], Implies(And(inside(p), Not(E(p))), z3.Exists([q], And(inside(q), E(q), Not(LT(p, q))))))]
    return phi


def transitive():
    C = Function('l_cost', IntSort(), IntSort(), RealSort())
    p, q, r, k, m = z3.Ints('p q r k m')
    lt = lambda a, b: z3.Exists([k], And(0 <= k, k < m, C(a, k) < C(b, k)))
    return [Not(lt(p, q)), Not(lt(q, r))], Not(lt(p, r))


def monotone():
    """the order kept by a division: what npmodel assumes of a quotient"""
    a, b, d = z3.Reals('a b d')
    return [], And(Implies(d > 0, (a / d < b / d) == (a < b)), Implies(d < 0, (a / d < b / d) == (a > b)))


# ---- the front of a dataset ----
z3.set_param('smt.solve_eqs.non_ground', False)      # eliminating a heap by its frame condition would destroy the patterns
ROWN = Function('row_number', V, IntSort())


def data_costs(ctx, eng, st):
    """a dataset that is not empty, and what _compute_costs returns of it: one row of numbers per object"""
    d = ctx.d = c10.dataset(ctx, eng, st)
    c = costs(ctx, eng, st)
    w, i = View(eng, st.copy()), Int('di')
    st.assume(ctx.n == c10.Data(eng, st, d).n, ctx.n > 0, ForAll([i], Implies(And(0 <= i, i < ctx.n), ROWN(w.item(c, i)) == i), patterns=[w.item(c, i)]))
    eng.ghost = ctx
    return d


def costs_contract(eng, st, env):
    """assumed: one row of numbers per object, the rows being distinct lists (proved of the parts in C10: columns, matrix)"""
    ctx = eng.ghost
    eng.obligate(st, 'costs-of-the-dataset', list(env.values())[0] == ctx.d)
    return [(st, ctx.costs)]


def indexes_contract(eng, st, env):
    """pareto_indexes, as proved by the target front"""
    ctx, st = eng.ghost, st.copy()
    l = eng.reify(st, list(env.values())[-1])
    w, j = View(eng, st), Int('rj')
    n, row = w.len(l), w.item(l, j)
    kept = conj([Select(st.h(h), arg(row, 'r')) == Select(Const(f'H0_{h}', st.h(h).sort()), arg(row, 'r')) for h in ('len', 'item')])
    eng.obligate(st, 'rows-of-the-costs', ForAll([j], Implies(And(0 <= j, j < n), And(0 <= ROWN(row), ROWN(row) < ctx.n, row == ctx.w0.item(ctx.costs, ROWN(row)), kept))))
    f = eng.new_seq(st, n, eng.fresh('flags', ArraySort(IntSort(), V)), T_LIST, LIST(BOOL))
    w = View(eng, st)
    ctx.front = [g for _, g in front_facts(w, f, n, lambda p, q: LT(ROWN(w.item(l, p)), ROWN(w.item(l, q))))]
    st.assume(*ctx.front)
    ctx.flags = w.rd('item', f)
    return [(st, f)]


def data_cfg(eng):
    c10.bool_cfg(eng)
    eng.name_parts = True
    eng.contracts[DS + '._compute_costs'] = Contract(costs_contract)
    eng.contracts[DS + '.pareto_indexes'] = Contract(indexes_contract)


def points_setup(ctx, eng, st):
    d = data_costs(ctx, eng, st)
    ctx.w0 = View(eng, st.copy())
    ctx.flags = Const('the_front', ArraySort(IntSort(), V))
    return [d, param(eng, st, 'costs_attributes', LIST(STR))]


def points_post(ctx, s, r):
    """the result picks the objects of the front, in order"""
    arr, p, q = ctx.flags, Int('fp'), Int('fq')
    E = lambda x: Select(arr, x) == TRUE
    inside = ctx.inside
    return [('front-not-dominated', z3.ForAll([p, q], Implies(And(inside(p), inside(q), E(p)), Not(dominates(q, p))))),
            ('others-matched', z3.ForAll([p], Implies(And(inside(p), Not(E(p))), z3.Exists([q], And(inside(q), E(q), Not(LT(p, q)))))))] + \
        c10.picked(ctx, s, r, lambda n: c10.COUNT(arr, n), lambda n, j: c10.POSN(arr, n, j), DS)


TARGETS = [
    Lemma('not-smaller-is-transitive', transitive),
    Lemma('division-keeps-the-order', monotone),
    Target('front', DS + '.pareto_indexes', front_setup, front_post, config=cfg),
    Target('front_of_dataset', DS + '.pareto_points', points_setup, points_post, config=data_cfg),
]
