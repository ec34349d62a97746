"""C08 filters: contracts on DessiaFilter, FiltersList and Dataset.filtering"""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame

M = 'dessia_common.core:'
F, FL = M + 'DessiaFilter', M + 'FiltersList'
ATTR = Function('value_at', V, StringSort(), V)


def apply_setup(ctx, eng, st):
    vals = param(eng, st, 'values', LIST(ANY))
    bl = param(eng, st, 'booleans_list', LIST(BOOL))
    w = View(eng, st)
    if ctx.bound:
        concretize(eng, st, vals, ctx.bound)
    st.assume(w.len(vals) == w.len(bl))
    ctx.v, ctx.b = vals, bl
    return [vals, bl]


def apply_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n = w0.len(ctx.v)
    return filter_goals(s, 'G_apply', n, lambda i: V.bv(w0.item(ctx.b, i)), lambda i: w0.item(ctx.v, i), w.len(r), lambda j: w.item(r, j)) + [frame(ctx, s)]


def index_setup(ctx, eng, st):
    bl = param(eng, st, 'booleans_list', LIST(BOOL))
    if ctx.bound:
        concretize(eng, st, bl, ctx.bound)
    ctx.b = bl
    return [bl]


def index_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n = w0.len(ctx.b)
    return filter_goals(s, 'G_index', n, lambda i: V.bv(w0.item(ctx.b, i)), None, w.len(r), lambda j: w.item(r, j), lambda i: V.i(i)) + [frame(ctx, s)]


# ---- one filter on a list of values: the attribute compared with the bound ----
NUMV = Function('number_at', V, V, RealSort())
OPS = {'>': '>', '<': '<', '>=': '>=', '<=': '<=', '==': '==', '!=': '!=', 'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<=', 'eq': '==',
       'ne': '!=', 'gte': '>=', 'lte': '<='}
REL = {'>': lambda a, b: a > b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def path_cfg(eng):
    """reading an attribute path of an object: a number, a function of the object and the path"""
    eng.contracts['dessia_common.utils.helpers:get_in_object_from_path'] = pure(
        lambda eng, st, env: V.f(NUMV(eng.reify(st, env['object_']), eng.reify(st, env['path']))))
    eng.field_types['attribute'] = STR
    eng.field_types['bound'] = FLOAT
    eng.field_types['comparison_operator'] = STR


def read(eng, st, o, name):
    r = eng.get_attr(st, o, name)
    assert len(r) == 1
    st.pc, st.hints, st.heap, st.wm = r[0][0].pc, r[0][0].hints, r[0][0].heap, r[0][0].wm
    return r[0][1]


def one_setup(op):
    def setup(ctx, eng, st):
        f = param(eng, st, 'self', OBJ(F, True))
        vals = param(eng, st, 'values', LIST(ANY))
        ctx.attr, ctx.bnd = read(eng, st, f, 'attribute'), read(eng, st, f, 'bound')
        st.assume(read(eng, st, f, 'comparison_operator') == vs(op))
        ctx.v = vals
        return [f, vals]
    return setup


def one_post(op):
    def post(ctx, s, r):
        w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
        n = w0.len(ctx.v)
        path = V.s(z3.Concat(StringVal('#/'), V.sv(ctx.attr)))
        j = Int('j1')
        keep = lambda i: REL[OPS[op]](NUMV(w0.item(ctx.v, i), path), V.fv(ctx.bnd))
        return [('one-answer-per-value', w.len(r) == n),
                ('comparison', ForAll([j], Implies(And(0 <= j, j < n), w.item(r, j) == vb(keep(j))))), frame(ctx, s)]
    return post


# ---- combination ----
def comb_setup(op, two=False):
    def setup(ctx, eng, st):
        ls = param(eng, st, 'booleans_lists', LIST(LIST(BOOL)))
        w = View(eng, st)
        n = Int('n_values')
        k = Int('k_l')
        m = w.len(ls)
        if ctx.bound:
            concretize(eng, st, ls, 2)
            st.assume(n <= ctx.bound)
        st.assume(m == 2 if two else m >= 1, n >= 0,
                  ForAll([k], Implies(And(0 <= k, k < m), w.len(w.item(ls, k)) == n), patterns=[w.item(ls, k)]))
        if two:
            for q in range(2):
                st.assume(w.len(w.item(ls, IntVal(q))) == n)
        ctx.ls, ctx.n = ls, n
        return [ls, vs(op)]
    return setup


def comb_post(op):
    def post(ctx, s, r):
        w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
        m = w0.len(ctx.ls)
        j, k = Int('j1'), Int('k1')
        at = lambda i, l: V.bv(w0.item(w0.item(ctx.ls, l), i))
        want = {'and': lambda i: ForAll([k], Implies(And(0 <= k, k < m), at(i, k))),
                'or': lambda i: Exists([k], And(0 <= k, k < m, at(i, k))),
                'xor': lambda i: at(i, IntVal(0)) != at(i, IntVal(1))}[op]
        return [('one-answer-per-value', w.len(r) == ctx.n),
                ('combination', ForAll([j], Implies(And(0 <= j, j < ctx.n), And(is_kind(w.item(r, j), 'b'), V.bv(w.item(r, j)) == want(j))))), frame(ctx, s)]
    return post


def unknown_setup(ctx, eng, st):
    ls = param(eng, st, 'booleans_lists', LIST(LIST(BOOL)))
    op = param(eng, st, 'logical_operator', STR)
    st.assume(*[op != vs(x) for x in ('and', 'or', 'xor')])
    return [ls, op]


# ---- a list of filters on a list of objects, over the contract of each filter ----
KEEP = Function('kept_by', V, V, BoolSort())


def bools_of_values(eng, st, env):
    """contract of DessiaFilter.get_booleans_index (targets one_filter): one fresh list with an answer per value"""
    st = st.copy()
    vals, f = env['values'], eng.reify(st, env['self'])
    n, src = eng.sel(st, 'len', arg(vals, 'r')), eng.sel(st, 'item', arg(vals, 'r'))
    arr = eng.fresh('bools', ArraySort(IntSort(), V))
    j = Int('jb')
    st.assume(ForAll([j], Select(arr, j) == vb(KEEP(f, Select(src, j))), patterns=[Select(arr, j)]))
    return [(st, eng.new_seq(st, n, arr, T_LIST, LIST(BOOL)))]


def combine_contract(eng, st, env):
    """contract of combine_booleans_lists (targets combine): requires lists of one length, gives a fresh list"""
    ls, op = env['booleans_lists'], env['logical_operator']
    w = View(eng, st)
    m, k, j = w.len(ls), Int('k_l'), Int('j_l')
    n = w.len(w.item(ls, IntVal(0)))
    eng.obligate(st, 'combine_booleans_lists requires lists of one length',
                 And(m >= 1, ForAll([k], Implies(And(0 <= k, k < m), w.len(w.item(ls, k)) == n))))
    at = lambda i, l: V.bv(w.item(w.item(ls, l), i))
    out = []
    for name in ('and', 'or', 'xor'):
        s = st.copy()
        s.assume(op == vs(name))
        if not feasible(s.pc):
            continue
        if name == 'xor':
            eng.obligate(s, 'combine_booleans_lists xor of two lists', m == 2)
        arr = eng.fresh('bools', ArraySort(IntSort(), V))
        want = {'and': lambda i: ForAll([k], Implies(And(0 <= k, k < m), at(i, k))),
                'or': lambda i: Exists([k], And(0 <= k, k < m, at(i, k))),
                'xor': lambda i: at(i, IntVal(0)) != at(i, IntVal(1))}[name]
        s.assume(ForAll([j], Implies(And(0 <= j, j < n), And(V.is_b(Select(arr, j)), V.bv(Select(arr, j)) == want(j))), patterns=[Select(arr, j)]))
        out.append((s, eng.new_seq(s, n, arr, T_LIST, LIST(BOOL))))
    return out


def list_cfg(eng):
    eng.contracts[FL + '.combine_booleans_lists'] = Contract(combine_contract)
    eng.contracts[F + '.get_booleans_index'] = Contract(bools_of_values)
    eng.field_types['filters'] = LIST(OBJ(F))
    eng.field_types['logical_operator'] = STR


def list_setup(op):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(FL, True))
        vals = param(eng, st, 'dobjects_list', LIST(ANY))
        w = View(eng, st)
        ctx.fs = read(eng, st, o, 'filters')
        st.assume(read(eng, st, o, 'logical_operator') == vs(op))
        st.assume(w.len(ctx.fs) == 2 if op == 'xor' else w.len(ctx.fs) >= 1)
        ctx.v = vals
        return [o, vals]
    return setup


def wanted(ctx, op):
    w0 = View(ctx.eng, ctx.st0)
    m, k = w0.len(ctx.fs), Int('k1')
    kept = lambda i, l: KEEP(w0.item(ctx.fs, l), w0.item(ctx.v, i))
    return {'and': lambda i: ForAll([k], Implies(And(0 <= k, k < m), kept(i, k))),
            'or': lambda i: Exists([k], And(0 <= k, k < m, kept(i, k))),
            'xor': lambda i: kept(i, IntVal(0)) != kept(i, IntVal(1))}[op]


def list_post(op):
    def post(ctx, s, r):
        w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
        j, n = Int('j1'), w0.len(ctx.v)
        return [('one-answer-per-value', w.len(r) == n),
                ('combination', ForAll([j], Implies(And(0 <= j, j < n), And(is_kind(w.item(r, j), 'b'), V.bv(w.item(r, j)) == wanted(ctx, op)(j))))), frame(ctx, s)]
    return post


def list_apply_cfg(eng):
    list_cfg(eng)

    def combined(eng, st, env):
        """contract of FiltersList.get_booleans_index (targets list_booleans)"""
        st = st.copy()
        vals = env['dobjects_list']
        n, src = eng.sel(st, 'len', arg(vals, 'r')), eng.sel(st, 'item', arg(vals, 'r'))
        arr = eng.fresh('bools', ArraySort(IntSort(), V))
        j = Int('jb')
        st.assume(ForAll([j], Select(arr, j) == vb(KEEP(eng.reify(st, env['self']), Select(src, j))), patterns=[Select(arr, j)]))
        return [(st, eng.new_seq(st, n, arr, T_LIST, LIST(BOOL)))]
    eng.contracts[FL + '.get_booleans_index'] = Contract(combined)


def list_apply_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(FL, True))
    vals = param(eng, st, 'dobjects_list', LIST(ANY))
    ctx.o, ctx.v = o, vals
    return [o, vals]


def list_apply_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    return filter_goals(s, 'G_list', w0.len(ctx.v), lambda i: KEEP(ctx.o, w0.item(ctx.v, i)), lambda i: w0.item(ctx.v, i), w.len(r),
                        lambda j: w.item(r, j)) + [frame(ctx, s)]


TARGETS = [
    Target('filter_apply', F + '.apply', apply_setup, apply_post, bound=(2, 3), decode=decode_args(['values', 'booleans_list'])),
    Target('index_list', F + '.booleanlist_to_indexlist', index_setup, index_post, bound=(2, 3), decode=decode_args(['booleans_list'])),
    *[Target(f'one_filter[{op}]', F + '.get_booleans_index', one_setup(op), one_post(op), config=path_cfg) for op in OPS],
    *[Target(f'combine[{op}]', FL + '.combine_booleans_lists', comb_setup(op, op == 'xor'), comb_post(op), bound=(1, 2)) for op in ('and', 'or', 'xor')],
    Target('combine[unknown]', FL + '.combine_booleans_lists', unknown_setup, lambda c, s, r: [('refused', BoolVal(False))],
           allow_raise=lambda c, s, v: [('refused', BoolVal(v.exc == 'NotImplementedError'))], min_paths=0),
    *[Target(f'list_booleans[{op}]', FL + '.get_booleans_index', list_setup(op), list_post(op), config=list_cfg) for op in ('and', 'or', 'xor')],
    Target('list_apply', FL + '.apply', list_apply_setup, list_apply_post, config=list_apply_cfg),
]
