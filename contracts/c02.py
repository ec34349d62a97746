"""C02 difference reports: contracts on dessia_common.utils.diff.

NODIFF(a, b) stands for "diff(a, b) is empty"; REAL(e, a, b, p) for "the reported entry e is a real difference of a and b,
compared at path p".  diff's contract: a fresh report, empty exactly when NODIFF(a, b), all its entries real; the bodies
must establish the documented recursive definition of both, recursive calls (on strict parts) using the contract.
"""
from pyvc.verify import *
from contracts.c01 import frame, scalar, value_kinds, DEQ, spec as deq_spec, isclose, seq_deq, dict_deq, h0

M = 'dessia_common.utils.diff:'
S = StringSort()
NODIFF = Function('no_diff', V, V, BoolSort())
REAL = Function('real_difference', V, V, V, S, BoolSort())
EPATH = Function('entry_path', V, S)
EV1, EV2 = Function('entry_value1', V, V), Function('entry_value2', V, V)
MISS1 = Function('entry_missing_in_first', V, BoolSort())
KIND = Function('entry_kind', V, IntSort())
FIELDS = ('different_values', 'missing_attributes', 'invalid_types')


def sub_path(p, k):
    return z3.Concat(p, StringVal('/'), k)


def key_text(k):
    return If(V.is_s(k), V.sv(k), STR_OF(k))


def position_text(i):
    return z3.IntToStr(i)


def reality(st, w, a, b, p):
    """what makes a reported entry a real difference of a and b at path p (only these facts are available)"""
    e, k, j, q = Const('re', V), Const('rk', V), Int('rj'), z3.String('rq')
    ints = lambda v: Or(V.is_i(v), V.is_b(v))
    st.assume(
        # different scalars, sequences of different lengths
        ForAll([e], Implies(And(KIND(e) == 1, EPATH(e) == p, EV1(e) == a, EV2(e) == b,
                                Or(And(scalar(a), scalar(b), Not(deq_spec(w, a, b))), And(w.seq(a), w.seq(b), w.len(a) != w.len(b)))), REAL(e, a, b, p)), patterns=[REAL(e, a, b, p)]),
        # a key that only one has
        ForAll([e, k], Implies(And(KIND(e) == 2, w.dict(a), w.dict(b), EPATH(e) == sub_path(p, key_text(k)), w.has(a, k) == Not(w.has(b, k)), MISS1(e) == w.has(b, k)), REAL(e, a, b, p)),
               patterns=[z3.MultiPattern(REAL(e, a, b, p), w.has(a, k)), z3.MultiPattern(REAL(e, a, b, p), w.has(b, k))]),
        # other types
        ForAll([e], Implies(And(KIND(e) == 3, EPATH(e) == p, EV1(e) == a, EV2(e) == b, other_types(w, a, b)), REAL(e, a, b, p)), patterns=[REAL(e, a, b, p)]),
        # a difference of two corresponding parts
        ForAll([e, k, q], Implies(And(w.dict(a), w.dict(b), w.has(a, k), w.has(b, k), q == sub_path(p, key_text(k)), REAL(e, w.get(a, k), w.get(b, k), q)), REAL(e, a, b, p)),
               patterns=[REAL(e, w.get(a, k), w.get(b, k), q)]),
        ForAll([e, j, q], Implies(And(w.seq(a), w.seq(b), w.len(a) == w.len(b), 0 <= j, j < w.len(a), q == sub_path(p, position_text(j)), REAL(e, w.item(a, j), w.item(b, j), q)), REAL(e, a, b, p)),
               patterns=[REAL(e, w.item(a, j), w.item(b, j), q)]))


def other_types(w, a, b):
    ints = lambda v: Or(V.is_i(v), V.is_b(v))
    return Not(Or(And(ints(a), ints(b)), And(V.is_f(a), V.is_f(b)), And(V.is_s(a), V.is_s(b)), And(V.is_none(a), V.is_none(b)),
                  And(w.seq(a), w.seq(b)), And(w.dict(a), w.dict(b)), And(V.is_c(a), V.is_c(b))))


# ---- reports ----
def lists(eng, s, d):
    return [eng.sel(s, 'a:' + f, arg(d, 'r')) for f in FIELDS]


def empty(eng, s, d):
    return And(*[eng.sel(s, 'len', arg(l, 'r')) == 0 for l in lists(eng, s, d)])


def all_real(eng, s, d, a, b, p):
    j = Int('aj')
    out = []
    for l in lists(eng, s, d):
        items, n = eng.sel(s, 'item', arg(l, 'r')), eng.sel(s, 'len', arg(l, 'r'))
        out.append(ForAll([j], Implies(And(0 <= j, j < n), REAL(Select(items, j), a, b, p)), patterns=[Select(items, j)]))
    return And(*out)


def shape(eng, s, d):
    """a report made since the call, with three lists of its own"""
    ls = lists(eng, s, d)
    a = [arg(l, 'r') for l in ls]
    wm = Int('WM0')
    return And(arg(d, 'r') > wm, *[And(V.is_r(l), TAG(x) == T_LIST, x > wm, x <= s.wm, eng.sel(s, 'len', x) >= 0) for l, x in zip(ls, a)],
               a[0] != a[1], a[0] != a[2], a[1] != a[2])


def new_report(eng, st, none, a, b, p):
    d, ad = eng.alloc(st, class_id(M + 'Diff'), OBJ(M + 'Diff', exact=True))
    st.hints[('adr', ad.get_id())] = OBJ(M + 'Diff', exact=True)
    for f in FIELDS:
        n, arr = eng.fresh('rn', IntSort()), eng.fresh('ritem', ArraySort(IntSort(), V))
        st.assume(n >= 0)
        l = eng.new_seq(st, n, arr, T_LIST, LIST(ANY))
        eng.sto(st, 'a:' + f, ad, l)
    st.assume(empty(eng, st, d) == none, all_real(eng, st, d, a, b, p))
    return d


def diff_contract(eng, st, env):
    a, b, path = (eng.reify(st, v) for v in list(env.values())[:3])
    st = st.copy()
    eng.obligate(st, 'path-is-text', V.is_s(path))
    return [(st, new_report(eng, st, NODIFF(a, b), a, b, V.sv(path) if not is_kind_s(path) else arg(path, 's')))]


def is_kind_s(v):
    return ctor(v) == 's'


def entry(kind, key):
    def make(eng, st, args, kwargs):
        st = st.copy()
        names = ['path', 'value1', 'value2'] if kind != 2 else ['path', 'missing_in_first_object']
        env = dict(zip(names, args), **kwargs)
        v, a = eng.alloc(st, class_id(M + key), OBJ(M + key, exact=True))
        path = eng.reify(st, env['path'])
        st.assume(KIND(v) == kind, EPATH(v) == arg(path, 's'))
        if kind == 2:
            st.assume(MISS1(v) == arg(eng.reify(st, env['missing_in_first_object']), 'b'))
        else:
            st.assume(EV1(v) == eng.reify(st, env['value1']), EV2(v) == eng.reify(st, env['value2']))
        return [(st, v)]
    return make


def cfg(inner=True, parts=False):
    def f(eng):
        eng.contracts[M + 'diff'] = Contract(diff_contract)
        for k, key in ((1, 'DifferentValues'), (2, 'MissingAttribute'), (3, 'DifferentType')):
            eng.specs[M + key] = entry(k, key)
        for x in FIELDS:
            eng.field_types[x] = LIST(ANY)
        eng.invariants.append(invariant)
    return f


def report_setup(kind):
    def setup(ctx, eng, st):
        ty = {'seq': LIST(ANY), 'dict': DICT(ANY, ANY)}[kind]
        a, b, p = param(eng, st, 'a', ty), param(eng, st, 'b', ty), param(eng, st, 'path', STR)
        w = View(eng, st)
        reality(st, w, a, b, arg(p, 's'))
        ctx.a, ctx.b, ctx.p = a, b, arg(p, 's')
        eng.ghost = ctx
        return [a, b, p]
    return setup


def invariant(info):
    """loops that accumulate a report over the elements (of a sequence) or over the keys (of a dictionary)"""
    eng = info.eng
    acc = info.carried(info.st, cls=M + 'Diff')
    ctx = eng.ghost
    w = View(eng, ctx.st0)
    a, b = ctx.a, ctx.b
    touched = [info.st.env[n] for n in info.st.env if z3.is_expr(info.st.env[n]) and (h := eng.hint(info.st, info.st.env[n])) is not None and h.kind == 'obj' and h.cls == M + 'Diff']
    if not touched:
        return None
    info.frame = Int('WM0')
    start = touched[0]
    name = [n for n in info.st.env if z3.is_expr(info.st.env[n]) and info.st.env[n].eq(start)][0]
    e0 = empty(eng, info.st, start)
    ad = getattr(info.it, 'addr', None)
    j = Int('ij')

    def ok(i):
        if ctx.kind == 'seq':
            return ForAll([j], Implies(And(0 <= j, j < i), NODIFF(w.item(a, j), w.item(b, j))))
        x, y = (a, b) if ad is not None and ad.eq(arg(a, 'r')) else (b, a)
        k = lambda j: w.item(x, j)
        if x is a:
            return ForAll([j], Implies(And(0 <= j, j < i), And(w.has(b, k(j)), NODIFF(w.get(a, k(j)), w.get(b, k(j))))))
        return ForAll([j], Implies(And(0 <= j, j < i), w.has(a, k(j))))

    def phi(s, i):
        d = s.env[name]
        return [is_kind(d, 'r'), TAG(arg(d, 'r')) == class_id(M + 'Diff'), shape(eng, s, d), empty(eng, s, d) == And(e0, ok(i)), all_real(eng, s, d, a, b, ctx.p)]
    return phi


def with_kind(kind, setup):
    def f(ctx, eng, st):
        ctx.kind = kind
        return setup(ctx, eng, st)
    return f


def report_post(ctx, s, r):
    eng = ctx.eng
    w = View(eng, ctx.st0)
    a, b = ctx.a, ctx.b
    k = Const('kq', V)
    if ctx.kind == 'seq':
        none = And(w.len(a) == w.len(b), forall_in(0, w.len(a), lambda j: NODIFF(w.item(a, j), w.item(b, j))))
    else:
        none = And(ForAll([k], Implies(w.has(a, k), And(w.has(b, k), NODIFF(w.get(a, k), w.get(b, k))))), ForAll([k], Implies(w.has(b, k), w.has(a, k))))
    return [('empty-exactly-without-difference', empty(eng, s, r) == none), ('every-entry-is-real', all_real(eng, s, r, a, b, ctx.p)),
            ('report', And(shape(eng, s, r))), frame(ctx, s)]


# ---- diff itself ----
def seq_none(w, a, b):
    return And(w.len(a) == w.len(b), forall_in(0, w.len(a), lambda j: NODIFF(w.item(a, j), w.item(b, j))))


def dict_none(w, a, b):
    k = Const('kq', V)
    return And(ForAll([k], Implies(w.has(a, k), And(w.has(b, k), NODIFF(w.get(a, k), w.get(b, k))))), ForAll([k], Implies(w.has(b, k), w.has(a, k))))


def no_diff_spec(w, a, b):
    """the definition of data equality (C01), with NODIFF on the parts"""
    ints = lambda v: Or(is_kind(v, 'i'), is_kind(v, 'b'))
    iv = lambda v: If(is_kind(v, 'b'), If(V.bv(v), IntVal(1), IntVal(0)), V.iv(v))
    return Or(And(w.seq(a), w.seq(b), seq_none(w, a, b)),
              And(w.dict(a), w.dict(b), dict_none(w, a, b)),
              And(V.is_none(a), V.is_none(b)),
              And(V.is_s(a), V.is_s(b), V.sv(a) == V.sv(b)),
              And(V.is_f(a), V.is_f(b), isclose(V.fv(a), V.fv(b))),
              And(ints(a), ints(b), iv(a) == iv(b)))


def part_contract(none):
    def f(eng, st, env):
        a, b, path = (eng.reify(st, v) for v in list(env.values())[:3])
        st = st.copy()
        return [(st, new_report(eng, st, none(View(eng, st), a, b), a, b, arg(path, 's')))]
    return Contract(f)


def diff_cfg(eng):
    cfg()(eng)
    eng.contracts[M + 'sequence_diff'] = part_contract(seq_none)
    eng.contracts[M + 'dict_diff'] = part_contract(dict_none)


def diff_setup(ka, kb):
    def setup(ctx, eng, st):
        a, b, p = param(eng, st, 'value1', ANY), param(eng, st, 'value2', ANY), param(eng, st, 'path', STR)
        w = View(eng, st)
        st.assume(value_kinds(w, a, *ka), value_kinds(w, b, *kb))
        for v in (a, b):
            st.assume(Implies(is_kind(v, 'r'), w.len(v) >= 0))
        reality(st, w, a, b, arg(p, 's'))
        ctx.a, ctx.b, ctx.p = a, b, arg(p, 's')
        eng.ghost = ctx
        return [a, b, p]
    return setup


def diff_post(ctx, s, r):
    eng = ctx.eng
    w = View(eng, ctx.st0)
    return [('empty-exactly-without-difference', empty(eng, s, r) == no_diff_spec(w, ctx.a, ctx.b)), ('every-entry-is-real', all_real(eng, s, r, ctx.a, ctx.b, ctx.p)),
            ('report', shape(eng, s, r)), frame(ctx, s)]


# ---- objects ----
DO = 'dessia_common.core:DessiaObject'
ODATA = Function('data_of', V, V)          # the dictionary of the attributes that take part in data equality
CLASS_NAME = Function('full_classname', V, S)


def object_cfg(eng):
    diff_cfg(eng)
    eng.contracts[DO + '._data_eq'] = pure(lambda eng, st, env: vb(DEQ(*[eng.reify(st, v) for v in list(env.values())[:2]])))

    def data(eng, st, env):
        st = st.copy()
        d = ODATA(eng.reify(st, list(env.values())[0]))
        eng.assume_type(st, d, DICT(STR, ANY), old=True)
        return [(st, d)]
    eng.contracts[DO + '._data_eq_dict'] = Contract(data)
    eng.contracts['dessia_common.utils.helpers:full_classname'] = pure(lambda eng, st, env: V.s(CLASS_NAME(eng.reify(st, list(env.values())[0]))))


def object_setup(ctx, eng, st):
    a, b, p = param(eng, st, 'value1', OBJ(DO)), param(eng, st, 'value2', OBJ(DO)), param(eng, st, 'path', STR)
    e = Const('re', V)
    w = View(eng, st)
    ctx.a, ctx.b, ctx.p = a, b, arg(p, 's')
    eng.ghost = ctx
    sub = lambda x, y: Or(x == y, SUB(x, y))
    ta, tb = TAG(arg(a, 'r')), TAG(arg(b, 'r'))
    st.assume(ForAll([e], Implies(And(CLASS_NAME(a) == CLASS_NAME(b), Not(DEQ(a, b)), REAL(e, ODATA(a), ODATA(b), ctx.p)), REAL(e, a, b, ctx.p)), patterns=[REAL(e, ODATA(a), ODATA(b), ctx.p)]),
              ForAll([e], Implies(And(KIND(e) == 3, EPATH(e) == ctx.p, EV1(e) == a, EV2(e) == b, Or(CLASS_NAME(a) != CLASS_NAME(b), Not(Or(sub(ta, tb), sub(tb, ta))))), REAL(e, a, b, ctx.p)), patterns=[REAL(e, a, b, ctx.p)]),
              # objects are data-equal only when one class is the other or derives from it
              Implies(DEQ(a, b), Or(sub(ta, tb), sub(tb, ta))))
    return [a, b, p]


def object_post(ctx, s, r):
    eng = ctx.eng
    w = View(eng, ctx.st0)
    a, b = ctx.a, ctx.b
    sub = lambda x, y: Or(x == y, SUB(x, y))
    ta, tb = TAG(arg(a, 'r')), TAG(arg(b, 'r'))
    related = Or(sub(ta, tb), sub(tb, ta))
    return [('empty-exactly-without-difference', empty(eng, s, r) == Or(DEQ(a, b), And(related, CLASS_NAME(a) == CLASS_NAME(b), dict_none(w, ODATA(a), ODATA(b))))),
            ('every-entry-is-real', all_real(eng, s, r, a, b, ctx.p)), ('report', shape(eng, s, r)), frame(ctx, s)]


# ---- reports on their own ----
def report_param(ctx, eng, st, name):
    d = param(eng, st, name, OBJ(M + 'Diff', exact=True))
    for f in FIELDS:
        eng.field_types[f] = LIST(ANY)
        l = eng.sel(st, 'a:' + f, arg(d, 'r'))
        eng.assume_type(st, l, LIST(ANY), old=True)
    return d


def is_empty_setup(ctx, eng, st):
    ctx.d = report_param(ctx, eng, st, 'self')
    return [ctx.d]


def is_empty_post(ctx, s, r):
    return [('empty-exactly-when-all-lists-are', And(V.is_b(r), V.bv(r) == empty(ctx.eng, ctx.st0, ctx.d))), frame(ctx, s)]


def entry_post(names):
    def post(ctx, s, r):
        return [('stored', And(*[ctx.eng.sel(s, 'a:' + n, arg(ctx.o, 'r')) == v for n, v in zip(names, ctx.vals)]))]
    return post


def entry_target(key, names):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(M + key, exact=True))
        ctx.vals = [param(eng, st, n, STR if n == 'path' else BOOL if n.startswith('missing') else ANY) for n in names]
        ctx.o = o
        return [o] + ctx.vals
    return Target('entry[' + key + ']', M + key + '.__init__', setup, entry_post(names))


# ---- no difference is data equality ----
def lemma_same_as_data_eq():
    w = h0()
    a, b, x, y = (Const(n, V) for n in ('a', 'b', 'x', 'y'))
    k = Const('k', V)
    pigeon = And(*[Implies(And(w.dict(u), w.dict(v), w.len(u) == w.len(v), ForAll([k], Implies(w.has(u, k), w.has(v, k)))), ForAll([k], Implies(w.has(v, k), w.has(u, k)))) for u, v in ((a, b),)],
                 Implies(And(w.dict(a), w.dict(b), ForAll([k], w.has(a, k) == w.has(b, k))), w.len(a) == w.len(b)))
    kinds = And(value_kinds(w, a, 'scalar', 'seq', 'dict'), value_kinds(w, b, 'scalar', 'seq', 'dict'))
    return [ForAll([x, y], NODIFF(x, y) == DEQ(x, y)), pigeon, kinds], no_diff_spec(w, a, b) == deq_spec(w, a, b)


TARGETS = [
    Target('sequence_diff', M + 'sequence_diff', with_kind('seq', report_setup('seq')), report_post, config=cfg()),
    Target('dict_diff', M + 'dict_diff', with_kind('dict', report_setup('dict')), report_post, config=cfg()),
    Target('diff_scalar', M + 'diff', diff_setup(('scalar',), ('scalar', 'seq', 'dict')), diff_post, config=diff_cfg),
    Target('diff_seq', M + 'diff', diff_setup(('seq',), ('scalar', 'seq', 'dict')), diff_post, config=diff_cfg),
    Target('diff_dict', M + 'diff', diff_setup(('dict',), ('scalar', 'seq', 'dict')), diff_post, config=diff_cfg),
    Target('diff_object', M + 'diff', object_setup, object_post, config=object_cfg),
    Target('is_empty', M + 'Diff.is_empty', is_empty_setup, is_empty_post),
    entry_target('DifferentValues', ['path', 'value1', 'value2']),
    entry_target('MissingAttribute', ['path', 'missing_in_first_object']),
    entry_target('DifferentType', ['path', 'value1', 'value2']),
    Lemma('no-difference-is-data-equality', lemma_same_as_data_eq),
]
