"""C04 deep copies: contracts on dessia_common.utils.copy.

COPY(a, b) stands for "b is a copy of a made by deepcopy_value": the contract of deepcopy_value, used for the parts.  The
bodies must establish its definition on each kind of value: scalars and classes are themselves; a sequence gives a list of
its own with a copy at each position; a dictionary gives a dictionary of its own with the copied keys and values; an
object gives the copy already made of it, or what its copy method makes, which is remembered.  PART(x) is the (ghost) set
of the locations of the original: everything the copy owns lies outside.
"""
from pyvc.verify import *
from contracts.c01 import frame, scalar

M = 'dessia_common.utils.copy:'
DO = 'dessia_common.core:DessiaObject'
COPY = Function('copy_of', V, V, BoolSort())
PART = Function('part_of_the_original', IntSort(), BoolSort())


def memo_ok(eng, st, memo):
    """what the memo holds under the id of a part of the original is a copy of that part"""
    w = View(eng, st)
    x = Int('mx')
    g = w.get(memo, V.i(x))
    return ForAll([x], Implies(And(PART(x), w.has(memo, V.i(x))), And(COPY(V.r(x), g), V.is_r(g), Not(PART(V.rv(g))))), patterns=[w.has(memo, V.i(x)), g])


def kept(eng, st0, st1, memo):
    w0, w1 = View(eng, st0), View(eng, st1)
    x = Int('mx')
    k = V.i(x)
    return ForAll([x], Implies(And(PART(x), w0.has(memo, k)), And(w1.has(memo, k), w1.get(memo, k) == w0.get(memo, k))), patterns=[w0.has(memo, k), w1.has(memo, k)])


def part_axioms(st):
    x = Int('px')
    st.assume(ForAll([x], Implies(PART(x), x <= Int('WM0')), patterns=[PART(x)]))


def owned(eng, st, v, r):
    """a list, dictionary or object has a copy outside the original"""
    w = View(eng, st)
    return Implies(And(V.is_r(v), Or(w.seq(v), w.dict(v), w.obj(v))), And(V.is_r(r), Not(PART(V.rv(r)))))


def copy_contract(eng, st, env):
    st = st.copy()
    d = list(env.values())
    v, memo = eng.reify(st, d[0]), eng.reify(st, env['memo'])
    eng.obligate(st, 'memo-holds-copies', memo_ok(eng, st, memo))
    st0 = st.copy()
    a = arg(memo, 'r')
    for h in ('has', 'get', 'idx', 'len', 'item'):
        eng.sto(st, h, a, eng.fresh('memo_' + h, st.h(h).sort().range()))
    eng.dict_wf(st, a)
    wm = eng.fresh('wmc', IntSort())
    st.assume(wm >= st.wm)
    st.wm = wm
    r = eng.fresh('copied', V)
    eng.known_ref(r)
    st.assume(memo_ok(eng, st, memo), kept(eng, st0, st, memo), COPY(v, r), owned(eng, st, v, r), Implies(scalar(v), r == v), Implies(V.is_r(r), V.rv(r) <= wm))
    return [(st, r)]


def made_contract(rel):
    def f(eng, st, env):
        (st, r), = copy_contract(eng, st, env)
        st.assume(rel(eng.reify(st, list(env.values())[0]), r))
        return [(st, r)]
    return Contract(f)


SEQ_COPY, DICT_COPY, OBJ_COPY = (Function(n, V, V, BoolSort()) for n in ('made_by_deepcopy_sequence', 'made_by_deepcopy_dict', 'made_by_copy'))


IS_TYPING = Function('is_typing', V, BoolSort())
CLASS_NAME = Function('class_name', IntSort(), StringSort())
GEOMETRY = ('Point2D', 'Point3D', 'Vector2D', 'Vector3D')


def value_cfg(eng):
    eng.contracts['dessia_common.schemas.core:is_typing'] = pure(lambda eng, st, env: vb(IS_TYPING(eng.reify(st, list(env.values())[0]))))
    eng.contracts[M + 'deepcopy_sequence'] = made_contract(SEQ_COPY)
    eng.contracts[M + 'deepcopy_dict'] = made_contract(DICT_COPY)
    eng.contracts[DO + '.copy'] = made_contract(OBJ_COPY)


def value_post(ctx, s, r):
    eng = ctx.eng
    w0, w = View(eng, ctx.st0), View(eng, s)
    v, m = ctx.v, ctx.memo
    if ctx.kind == 'obj':
        k = V.i(arg(v, 'r'))
        out = [('made-once', If(w0.has(m, k), r == w0.get(m, k), And(w.has(m, k), w.get(m, k) == r))), ('a-copy', Implies(Not(w0.has(m, k)), OBJ_COPY(v, r)))]
    else:
        out = [('made-by-the-right-function', And(Implies(w0.seq(v), SEQ_COPY(v, r)), Implies(w0.dict(v), DICT_COPY(v, r))))]
    return out + [('owned', owned(eng, ctx.st0, v, r)), ('memo-holds-copies', memo_ok(eng, s, m)), ('memo-kept', kept(eng, ctx.st0, s, m)), memo_frame(ctx, s)]


def cfg(*names):
    def f(eng):
        for n in names:
            eng.contracts[n] = Contract(copy_contract)
        eng.invariants.append(invariant)
    return f


def setup(ty, *kinds):
    def f(ctx, eng, st):
        v = param(eng, st, 'value', ty)
        memo = param(eng, st, 'memo', DICT(ANY, ANY))
        w = View(eng, st)
        if kinds:
            st.assume(Or(*[{'scalar': scalar(v), 'class': V.is_c(v), 'seq': w.seq(v), 'dict': w.dict(v)}[k] for k in kinds]))
        if 'seq' in kinds or ty.kind == 'list':
            st.assume(w.len(v) >= 0)
        if 'dict' in kinds or ty.kind == 'dict':
            k = Const('sk', V)
            st.assume(ForAll([k], Implies(w.has(v, k), scalar(k)), patterns=[w.has(v, k)]))
        part_axioms(st)
        st.assume(memo_ok(eng, st, memo))
        st.assume(Implies(V.is_r(v), And(PART(V.rv(v)), V.rv(v) != V.rv(memo), Not(PART(V.rv(memo))))))
        if not kinds or 'seq' in kinds or 'dict' in kinds:
            st.assume(Not(IS_TYPING(v)))
        if ty.kind == 'obj':
            st.assume(*[CLASS_NAME(TAG(V.rv(v))) != StringVal(n) for n in GEOMETRY])
        ctx.v, ctx.memo = v, memo
        eng.ghost = ctx
        return [v, memo]
    return f


def invariant(info):
    eng, ctx = info.eng, info.eng.ghost
    w0 = View(eng, ctx.st0)
    v, memo = ctx.v, ctx.memo
    acc = [n for n in info.st.env if z3.is_expr(info.st.env[n]) and ctor(info.st.env[n]) == 'r' and arg(info.st.env[n], 'r').get_id() in eng.fresh_addrs]
    if len(acc) != 1:
        return None
    name = acc[0]
    k, j = Const('ck', V), Int('ij')

    def phi(s, i):
        w = View(eng, s)
        c = s.env[name]
        out = [memo_ok(eng, s, memo), kept(eng, ctx.st0, s, memo)]
        if ctx.kind == 'seq':
            out += [w.len(c) == i, ForAll([j], Implies(And(0 <= j, j < i), COPY(w0.item(v, j), w.item(c, j))), patterns=[w.item(c, j)])]
        else:
            idx = lambda k: Select(eng.sel(ctx.st0, 'idx', V.rv(v)), k)
            out += [w.len(c) == i, ForAll([k], w.has(c, k) == And(w0.has(v, k), idx(k) < i), patterns=[w.has(c, k)]),
                    ForAll([k], Implies(And(w0.has(v, k), idx(k) < i), COPY(w0.get(v, k), w.get(c, k))), patterns=[w.get(c, k)]),
                    ForAll([j], Implies(And(0 <= j, j < i), w.item(c, j) == w0.item(v, j)), patterns=[w0.item(v, j)])]
        return out
    return phi


def dict_post(ctx, s, r):
    eng = ctx.eng
    w0, w = View(eng, ctx.st0), View(eng, s)
    k = Const('kq', V)
    known = remembered(ctx, r)
    return [(n, Or(known, g)) for n, g in [
            ('a-dictionary-of-its-own', And(w.tag(r, T_DICT), arg(r, 'r') > Int('WM0'), Not(PART(arg(r, 'r'))), w.len(r) == w0.len(ctx.v))),
            ('the-same-keys', ForAll([k], w.has(r, k) == w0.has(ctx.v, k))),
            ('in-the-same-order', forall_in(0, w0.len(ctx.v), lambda j: w.item(r, j) == w0.item(ctx.v, j))),
            ('copies-of-all-values', ForAll([k], Implies(w0.has(ctx.v, k), COPY(w0.get(ctx.v, k), w.get(r, k)))))]] + [
            ('memo-holds-copies', memo_ok(eng, s, ctx.memo)), ('memo-kept', kept(eng, ctx.st0, s, ctx.memo)), memo_frame(ctx, s)]


def remembered(ctx, r):
    w0 = View(ctx.eng, ctx.st0)
    k = V.i(arg(ctx.v, 'r'))
    return And(w0.has(ctx.memo, k), r == w0.get(ctx.memo, k))


def seq_post(ctx, s, r):
    eng = ctx.eng
    w0, w = View(eng, ctx.st0), View(eng, s)
    known = remembered(ctx, r)
    return [('a-list-of-its-own', Or(known, And(w.tag(r, T_LIST), arg(r, 'r') > Int('WM0'), Not(PART(arg(r, 'r'))), w.len(r) == w0.len(ctx.v)))),
            ('copies-of-all-elements', Or(known, forall_in(0, w0.len(ctx.v), lambda j: COPY(w0.item(ctx.v, j), w.item(r, j))))),
            ('memo-holds-copies', memo_ok(eng, s, ctx.memo)), ('memo-kept', kept(eng, ctx.st0, s, ctx.memo)), memo_frame(ctx, s)]


def memo_frame(ctx, s):
    """nothing but the memo is modified"""
    x = Int('fx')
    m = arg(ctx.memo, 'r')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = ctx.st0.heap.get(hn)
        h0 = h0 if h0 is not None else Const(f'H0_{hn}', h.sort())
        if not h.eq(h0):
            out.append(ForAll([x], Implies(And(x <= Int('WM0'), x != m), Select(h, x) == Select(h0, x))))
    return ('only-the-memo-is-modified', conj(out))


def same_post(ctx, s, r):
    return [('itself', r == ctx.v), frame(ctx, s)]


def kind(k, f):
    def g(ctx, eng, st):
        ctx.kind = k
        return f(ctx, eng, st)
    return g


TARGETS = [
    Target('copy_scalar', M + 'deepcopy_value', setup(ANY, 'scalar', 'class'), same_post),
    Target('copy_value', M + 'deepcopy_value', kind('part', setup(ANY, 'seq', 'dict')), value_post, config=value_cfg),
    Target('copy_object', M + 'deepcopy_value', kind('obj', setup(OBJ(DO))), value_post, config=value_cfg),
    Target('copy_sequence', M + 'deepcopy_sequence', kind('seq', setup(ANY, 'seq')), seq_post, config=cfg(M + 'deepcopy_value')),
    Target('copy_dict', M + 'deepcopy_dict', kind('dict', setup(DICT(ANY, ANY))), dict_post, config=cfg(M + 'deepcopy_value'), note='the keys are numbers, strings or None'),
]
