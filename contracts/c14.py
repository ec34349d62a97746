"""C14 checks: contracts on CheckList, the type checks and DessiaObject.is_valid"""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame

M = 'dessia_common.checks:'
CL, PC, FC = M + 'CheckList', M + 'PassedCheck', M + 'FailedCheck'
LEVEL = Function('level_of', V, StringSort())
LEVELS = ('debug', 'info', 'warning', 'error')


def rank(s):
    return If(s == StringVal('debug'), 0, If(s == StringVal('info'), 1, If(s == StringVal('warning'), 2, If(s == StringVal('error'), 3, IntVal(99)))))


def level_attr(eng, st, o):
    """the level of a check: any of the four, a function of the check"""
    st = st.copy()
    v = eng.reify(st, o)
    st.assume(Or(*[LEVEL(v) == StringVal(x) for x in LEVELS]))
    return [(st, V.s(LEVEL(v)))]


def cfg(eng):
    eng.class_attrs[(PC, 'level')] = level_attr
    eng.field_types['checks'] = LIST(OBJ(PC))


def read(eng, st, o, name):
    r = eng.get_attr(st, o, name)
    assert len(r) == 1
    st.pc, st.hints, st.heap, st.wm = r[0][0].pc, r[0][0].hints, r[0][0].heap, r[0][0].wm
    return r[0][1]


def above_setup(level):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(CL, True))
        ctx.c = read(eng, st, o, 'checks')
        w = View(eng, st)
        j = Int('jl')
        # levels are among the documented four
        st.assume(ForAll([j], Or(*[LEVEL(w.item(ctx.c, j)) == StringVal(x) for x in LEVELS]), patterns=[w.item(ctx.c, j)]))
        return [o, vs(level)] if level != 'default' else [o]
    return setup


def above_post(level):
    lv = 'error' if level == 'default' else level

    def post(ctx, s, r):
        w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
        return filter_goals(s, 'G_above', w0.len(ctx.c), lambda i: rank(LEVEL(w0.item(ctx.c, i))) >= LEVELS.index(lv), lambda i: w0.item(ctx.c, i),
                            w.len(r), lambda j: w.item(r, j)) + [frame(ctx, s)]
    return post


def some_above(ctx, lv):
    w0 = View(ctx.eng, ctx.st0)
    j = Int('js')
    return Exists([j], And(0 <= j, j < w0.len(ctx.c), rank(LEVEL(w0.item(ctx.c, j))) >= LEVELS.index(lv)))


def raise_post(lv):
    return lambda ctx, s, r: [('silent-only-without-such-check', Not(some_above(ctx, lv))), frame(ctx, s)]


def raise_exc(lv):
    return lambda ctx, s, v: [('raises-ValueError', BoolVal(v.exc == 'ValueError')), ('raises-only-with-such-check', some_above(ctx, lv)), frame(ctx, s)]


def add_setup(ctx, eng, st):
    a, b = (param(eng, st, n, OBJ(CL, True)) for n in ('self', 'other_checklist'))
    ctx.x, ctx.y = read(eng, st, a, 'checks'), read(eng, st, b, 'checks')
    return [a, b]


def add_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n, m = w0.len(ctx.x), w0.len(ctx.y)
    c = read(ctx.eng, s, r, 'checks')
    j = Int('ja')
    return [('length', w.len(c) == n + m), ('first', ForAll([j], Implies(And(0 <= j, j < n), w.item(c, j) == w0.item(ctx.x, j)))),
            ('second', ForAll([j], Implies(And(0 <= j, j < m), w.item(c, n + j) == w0.item(ctx.y, j)))), frame(ctx, s)]


# ---- type checks ----
KINDS = {'is_int': lambda v: Or(V.is_i(v), V.is_b(v)), 'is_float': V.is_f, 'is_str': V.is_s}


def type_cfg(eng):
    eng.field_types['checks'] = LIST(OBJ(PC))


def type_setup(ctx, eng, st):
    v, l = param(eng, st, 'value', ANY), param(eng, st, 'level', STR)
    ctx.v, ctx.l = v, l
    return [v, l]


def type_post(good):
    def post(ctx, s, r):
        w = View(ctx.eng, s)
        c = read(ctx.eng, s, r, 'checks')
        n = w.len(c)
        ok = good(ctx)
        first = TAG(arg(w.item(c, IntVal(0)), 'r'))
        fid, pid = class_id(FC), class_id(PC)
        return [('error-when-not-of-type', Implies(Not(ok), And(n == 1, first == fid))),
                ('no-error-when-of-type', Implies(ok, And(n <= 1, Implies(n == 1, And(first == pid, ctx.l == vs('info')))))),
                ('info-reports-success', Implies(And(ok, ctx.l == vs('info')), n == 1)), frame(ctx, s)]
    return post


def tc_setup(name):
    def setup(ctx, eng, st):
        v, l = param(eng, st, 'value', ANY), param(eng, st, 'level', STR)
        ctx.v, ctx.l = v, l
        return [v, EBuiltin(name), l]
    return setup


def tc_cls_setup(ctx, eng, st):
    v, t, l = param(eng, st, 'value', ANY), param(eng, st, 'expected_type', ANY), param(eng, st, 'level', STR)
    st.assume(V.is_c(t), *[V.cv(t) != x for x in (T_INT, T_FLOAT, T_STR)])
    ctx.v, ctx.l, ctx.t = v, l, t
    return [v, t, l]


# ---- is_valid ----
DO = 'dessia_common.core:DessiaObject'


def valid_cfg(eng):
    cfg(eng)

    def clist(eng, st, env):
        v = Const('p_check_list', V)
        st = st.copy()
        eng.assume_type(st, v, OBJ(CL, True), old=True)
        return [(st, v)]
    eng.contracts[DO + '.check_list'] = Contract(clist)


def valid_setup(level):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(DO))
        c = param(eng, st, 'check_list', OBJ(CL, True))
        ctx.c = read(eng, st, c, 'checks')
        w = View(eng, st)
        j = Int('jl')
        st.assume(ForAll([j], Or(*[LEVEL(w.item(ctx.c, j)) == StringVal(x) for x in LEVELS]), patterns=[w.item(ctx.c, j)]))
        return [o, vs(level)] if level != 'default' else [o]
    return setup


def valid_post(level):
    lv = 'error' if level == 'default' else level
    return lambda ctx, s, r: [('valid-iff-none-reaches-the-level', And(is_kind(r, 'b'), arg(r, 'b') == Not(some_above(ctx, lv)))), frame(ctx, s)]


# ---- the copy and serialization checks ----
FAILED = ('FailedCheck', 'NonSerializable', 'NonCopyable', 'BadType', 'BadStructure')
CDO = 'dessia_common.abstract:CoreDessiaObject'
DEQ = Function('DEQ', V, V, BoolSort())
COPY = Function('copy_of', V, V)
BACK = Function('restored_from', V, V)


def process_cfg(eng):
    new = lambda f: (lambda eng, st, args, kwargs: [(st, f(eng.reify(st, args[0])))])
    for cls in (CDO, DO):
        for nm, fn in (('copy', lambda eng, st, o: ESpec(lambda e, s, a, k: [(s, COPY(o))])),
                       ('_data_eq', lambda eng, st, o: ESpec(lambda e, s, a, k: [(s, vb(DEQ(o, e.reify(s, a[0]))))])),
                       ('_data_diff', lambda eng, st, o: ESpec(lambda e, s, a, k: [(s, e.fresh('diff', V))])),
                       ('to_dict', lambda eng, st, o: ESpec(lambda e, s, a, k: [(s, Function('dict_of', V, V)(o))])),
                       ('dict_to_object', lambda eng, st, o: ESpec(lambda e, s, a, k: [(s, BACK(e.reify(s, a[0])))]))):
            eng.class_attrs[(cls, nm)] = lambda eng, st, o, fn=fn: [(st, fn(eng, st, eng.reify(st, o)))]
    eng.specs['json.dumps'] = lambda eng, st, args, kwargs: [(st, V.s(Function('json_text', V, StringSort())(eng.reify(st, args[0]))))]
    eng.specs['json.loads'] = lambda eng, st, args, kwargs: [(st, Function('json_value', V, V)(eng.reify(st, args[0])))]
    eng.specs['time.time'] = lambda eng, st, args, kwargs: [(st, V.f(eng.fresh('now', RealSort())))]
    eng.specs['print'] = lambda eng, st, args, kwargs: [(st, V.none)]


def process_setup(kind):
    def setup(ctx, eng, st):
        o = param(eng, st, 'object_', OBJ(DO))
        ctx.o = o
        other = COPY(o) if kind == 'copy' else BACK(Function('json_value', V, V)(V.s(Function('json_text', V, StringSort())(Function('dict_of', V, V)(o)))))
        eng.assume_type(st, other, OBJ(DO), old=True)
        ctx.other = other
        return [o]
    return setup


def process_post(ctx, s, r):
    w = View(ctx.eng, s)
    c = w.get(r, vs('check'))
    same = DEQ(ctx.other, ctx.o)
    t = TAG(arg(c, 'r'))
    return [('fails-exactly-when-different', And(w.has(r, vs('check')), is_kind(c, 'r'), Implies(same, t == class_id(PC)),
                                                Implies(Not(same), Or(*[t == class_id(M + x) for x in FAILED])))), frame(ctx, s)]


L5 = LEVELS + ('default',)
TARGETS = [
    *[Target(f'above[{l}]', CL + '.checks_above_level', above_setup(l), above_post(l), config=cfg) for l in L5],
    *[Target(f'raise[{l}]', CL + '.raise_if_above_level', above_setup(l), raise_post('error' if l == 'default' else l), config=cfg,
             allow_raise=raise_exc('error' if l == 'default' else l)) for l in L5],
    Target('add', CL + '.__add__', add_setup, add_post, config=cfg),
    *[Target(k, M + k, type_setup, type_post(lambda ctx, k=k: KINDS[k](ctx.v)), config=type_cfg) for k in KINDS],
    *[Target(f'type_check[{b}]', M + 'type_check', tc_setup(b), type_post(lambda ctx, k=k: KINDS[k](ctx.v)), config=type_cfg)
      for b, k in (('int', 'is_int'), ('float', 'is_float'), ('str', 'is_str'))],
    *[Target(f'is_valid[{l}]', DO + '.is_valid', valid_setup(l), valid_post(l), config=valid_cfg) for l in L5],
    Target('check_copy', M + 'check_copy', process_setup('copy'), process_post, config=process_cfg),
    Target('check_serialization', M + 'check_serialization_process', process_setup('serialization'), process_post, config=process_cfg),
]
