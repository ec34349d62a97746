"""C01 data equality: contracts on dessia_common.core.data_eq and the DessiaObject methods around it.

DEQ(a, b) stands for the value of data_eq(a, b): its contract is `data_eq(a, b) == DEQ(a, b)` and the body must
establish that DEQ satisfies the documented recursive definition, so recursive calls (on strictly smaller values) are
replaced by the contract.
"""
from pyvc.verify import *

M = 'dessia_common.core:'
DO = M + 'DessiaObject'
DEQ = Function('DEQ', V, V, BoolSort())
CUSTOM = Function('has_custom_data_eq', V, BoolSort())
CNAME = Function('class_name', IntSort(), StringSort())
CMOD = Function('class_module', IntSort(), StringSort())
TOL = RealVal('1/1000000000')


def absr(x):
    return If(x >= 0, x, -x)


def isclose(x, y):
    m = If(absr(x) >= absr(y), absr(x), absr(y))
    return Or(x == y, absr(x - y) <= TOL * m, absr(x - y) <= TOL)


def scalar(v):
    return Or(is_kind(v, 'none'), is_kind(v, 'b'), is_kind(v, 'i'), is_kind(v, 'f'), is_kind(v, 's'))


def seq_deq(w, a, b):
    return And(w.len(a) == w.len(b), forall_in(0, w.len(a), lambda j: DEQ(w.item(a, j), w.item(b, j))))


def dict_deq(w, a, b):
    k = Const('kq', V)
    return And(w.len(a) == w.len(b), ForAll([k], Implies(w.has(a, k), And(w.has(b, k), DEQ(w.get(a, k), w.get(b, k))))))


def full_name(c):
    return z3.Concat(CMOD(c), StringVal('.'), CNAME(c))


def spec(w, a, b):
    """the documented definition on values that are not objects"""
    ints = lambda v: Or(is_kind(v, 'i'), is_kind(v, 'b'))
    iv = lambda v: If(is_kind(v, 'b'), If(V.bv(v), IntVal(1), IntVal(0)), V.iv(v))
    return Or(And(w.seq(a), w.seq(b), seq_deq(w, a, b)),
              And(w.dict(a), w.dict(b), dict_deq(w, a, b)),
              And(V.is_none(a), V.is_none(b)),
              And(V.is_s(a), V.is_s(b), V.sv(a) == V.sv(b)),
              And(V.is_f(a), V.is_f(b), isclose(V.fv(a), V.fv(b))),
              And(ints(a), ints(b), iv(a) == iv(b)),
              And(V.is_c(a), V.is_c(b), full_name(V.cv(a)) == full_name(V.cv(b))))


def data_eq_contract(eng, st, env):
    a, b = (eng.reify(st, env[k]) for k in list(env)[:2])
    return vb(DEQ(a, b))


def cfg(eng):
    eng.contracts[M + 'data_eq'] = pure(data_eq_contract)


def value_kinds(w, v, *kinds):
    return Or(*[{'scalar': scalar(v), 'seq': w.seq(v), 'dict': w.dict(v), 'class': V.is_c(v)}[k] for k in kinds])


def values_setup(ka, kb):
    def setup(ctx, eng, st):
        a, b = (param(eng, st, n, ANY) for n in ('value1', 'value2'))
        w = View(eng, st)
        st.assume(value_kinds(w, a, *ka), value_kinds(w, b, *kb))
        for v in (a, b):
            st.assume(Implies(is_kind(v, 'r'), w.len(v) >= 0))
        # a class is told from another by its module and name, builtin scalars are not subclasses of repository classes
        ctx.a, ctx.b = a, b
        return [a, b]
    return setup


def values_post(ctx, s, r):
    w = View(ctx.eng, ctx.st0)
    return [('definition', And(is_kind(r, 'b'), arg(r, 'b') == spec(w, ctx.a, ctx.b))), frame(ctx, s)]


def frame(ctx, s):
    """no location that existed before is written"""
    out = []
    x = Int('fx')
    for n in s.heap:
        h0 = ctx.st0.heap.get(n)
        h0 = h0 if h0 is not None else Const(f'H0_{n}', s.heap[n].sort())
        if not s.heap[n].eq(h0):
            out.append(ForAll([x], Implies(x <= Int('WM0'), Select(s.heap[n], x) == Select(h0, x))))
    return ('nothing-modified', conj(out))


# ---- sequences and dictionaries on their own ----
def seq_setup(ctx, eng, st):
    a, b = (param(eng, st, n, LIST(ANY)) for n in ('seq1', 'seq2'))
    ctx.a, ctx.b = a, b
    return [a, b]


def seq_post(ctx, s, r):
    w = View(ctx.eng, ctx.st0)
    return [('definition', arg(r, 'b') == seq_deq(w, ctx.a, ctx.b)), frame(ctx, s)]


def dict_setup(ctx, eng, st):
    a, b = (param(eng, st, n, DICT(ANY, ANY)) for n in ('dict1', 'dict2'))
    ctx.a, ctx.b = a, b
    return [a, b]


def dict_post(ctx, s, r):
    w = View(ctx.eng, ctx.st0)
    return [('definition', arg(r, 'b') == dict_deq(w, ctx.a, ctx.b)), frame(ctx, s)]


# ---- objects ----
DHAS = Function('data_has', V, V, BoolSort())
DGET = Function('data_get', V, V, V)


def obj_cfg(eng):
    cfg(eng)
    from pyvc.interp import EFunc, ESpec

    def data_dict(eng, st, env):
        st = st.copy()
        o = env['self']
        d, a = eng.alloc(st, T_DICT)
        has, get = eng.fresh('dhas', ArraySort(V, BoolSort())), eng.fresh('dget', ArraySort(V, V))
        n, item, idx = eng.fresh('m', IntSort()), eng.fresh('ditem', ArraySort(IntSort(), V)), eng.fresh('didx', ArraySort(V, IntSort()))
        k = Const('kd', V)
        st.assume(ForAll([k], Select(has, k) == DHAS(o, k), patterns=[Select(has, k)]), ForAll([k], Select(get, k) == DGET(o, k), patterns=[Select(get, k)]),
                  n == Function('data_len', V, IntSort())(o), n >= 0, Not(Select(has, vs('name'))))
        for nm, x in (('has', has), ('get', get), ('len', n), ('item', item), ('idx', idx)):
            eng.sto(st, nm, a, x)
        eng.dict_wf(st, a)
        st.hints[('tag', a.get_id())] = T_DICT
        return [(st, d)]
    eng.contracts[DO + '._data_eq_dict'] = Contract(data_dict)
    # the test "is _data_eq overridden" is an uninterpreted predicate of the object
    eng.class_attrs[(DO, '_data_eq')] = lambda eng, st, o: [(st, EMeth(o))]
    eng.opaque_code = True


from pyvc.interp import ESpec


class EMeth(ESpec):
    """the bound method _data_eq of an object whose class may override it"""

    def __init__(self, o):
        self.o = o
        super().__init__(lambda eng, st, args, kwargs: [(st, vb(Function('custom_data_eq', V, V, BoolSort())(o, eng.reify(st, args[0]))))])


def obj_setup(ctx, eng, st):
    a, b = (param(eng, st, n, OBJ(DO)) for n in ('value1', 'value2'))
    ctx.a, ctx.b = a, b
    return [a, b]


# ---- what takes part: the two dictionary filters ----
def dict_attr_cfg(eng):
    pass


def own_dict(name):
    """contract giving an arbitrary dictionary with string keys, a function of the object"""
    def fn(eng, st, env):
        st = st.copy()
        d = Const('p_' + name, V)
        eng.assume_type(st, d, DICT(STR, ANY), old=True)
        return [(st, d)]
    return Contract(fn)


def eqdict_cfg(eng):
    eng.contracts['dessia_common.serialization:SerializableObject._serializable_dict'] = own_dict('serializable')
    eng.field_types['_non_data_eq_attributes'] = LIST(STR)
    eng.class_attrs[(DO, '_non_data_eq_attributes')] = lambda eng, st, o: excluded(eng, st)


def excluded(eng, st):
    v = Const('p_non_data', V)
    st = st.copy()
    eng.assume_type(st, v, LIST(STR), old=True)
    return [(st, v)]


def eqdict_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(DO))
    return [o]


def eqdict_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    d, ex = Const('p_serializable', V), Const('p_non_data', V)
    k = Const('kq', V)
    j = Int('jx')
    inex = Exists([j], And(0 <= j, j < w0.len(ex), w0.item(ex, j) == k))
    keep = And(w0.has(d, k), Not(inex), k != vs('package_version'), k != vs('name'))
    return [('only-data-attributes', ForAll([k], Implies(And(V.is_s(k), w.has(r, k)), keep))),
            ('all-data-attributes', ForAll([k], Implies(And(V.is_s(k), keep), w.has(r, k)))),
            ('values', ForAll([k], Implies(w.has(r, k), w.get(r, k) == w0.get(d, k)))), frame(ctx, s)]


# ---- == ----
HASH = Function('hash_of', V, IntSort())


def eq_cfg(eng):
    from pyvc.interp import ESpec
    eng.contracts[DO + '.__hash__'] = pure(lambda eng, st, env: V.i(HASH(env['self'])))
    eng.contracts[DO + '._data_eq'] = pure(lambda eng, st, env: vb(DEQ(eng.reify(st, env['self']), eng.reify(st, env['other_object']))))
    eng.class_attrs[(DO, '_eq_is_data_eq')] = Const('p_eq_is_data_eq', V)


def eq_setup(ctx, eng, st):
    a = param(eng, st, 'self', OBJ(DO))
    b = param(eng, st, 'other_object', OBJ(DO))
    f = Const('p_eq_is_data_eq', V)
    st.assume(V.is_b(f))
    ctx.a, ctx.b = a, b
    return [a, b]


def eq_post(ctx, s, r):
    a, b, f = ctx.a, ctx.b, V.bv(Const('p_eq_is_data_eq', V))
    ok = arg(r, 'b')
    same = CNAME(TAG(arg(a, 'r'))) == CNAME(TAG(arg(b, 'r')))
    return [('equal-implies-same-hash', Implies(ok, HASH(a) == HASH(b))),
            ('equal-implies-equal-data', Implies(And(ok, f), And(DEQ(a, b), same))),
            ('equal-data-and-hash-implies-equal', Implies(And(f, DEQ(a, b), same, HASH(a) == HASH(b)), ok)),
            ('identity', Implies(Not(f), ok == (a == b)))]


# ---- lemmas over the definition ----
def h0():
    class S:
        def h(self, n):
            return Const(f'H0_{n}', heap_sort(n))
    return View(None, S())


def well_formed(w, v):
    """dictionaries: as many keys as their length, listed by position (the heap invariant of dict)"""
    k = Const('kw', V)
    return And(w.len(v) >= 0)


def lemma_reflexive():
    w = h0()
    a, x = Const('a', V), Const('x', V)
    return [ForAll([x], DEQ(x, x)), value_kinds(w, a, 'scalar', 'seq', 'dict', 'class')], spec(w, a, a)


def lemma_symmetric():
    """for dictionaries of the same length, keys of a in b gives keys of b in a by counting (assumed: pigeonhole)"""
    w = h0()
    a, b, x, y, k = (Const(n, V) for n in ('a', 'b', 'x', 'y', 'k'))
    pigeon = Implies(And(w.dict(a), w.dict(b), w.len(a) == w.len(b), ForAll([k], Implies(w.has(a, k), w.has(b, k)))),
                     ForAll([k], Implies(w.has(b, k), w.has(a, k))))
    return [ForAll([x, y], DEQ(x, y) == DEQ(y, x)), pigeon, spec(w, a, b)], spec(w, b, a)


C4 = ('scalar', 'seq', 'dict', 'class')
TARGETS = [
    Target('sequence_data_eq', M + 'sequence_data_eq', seq_setup, seq_post, config=cfg),
    Target('dict_data_eq', M + 'dict_data_eq', dict_setup, dict_post, config=cfg),
    Target('data_eq_scalar', M + 'data_eq', values_setup(('scalar',), C4), values_post, config=cfg),
    Target('data_eq_seq', M + 'data_eq', values_setup(('seq',), C4), values_post, config=cfg),
    Target('data_eq_dict', M + 'data_eq', values_setup(('dict',), C4), values_post, config=cfg),
    Target('data_eq_class', M + 'data_eq', values_setup(('class',), C4), values_post, config=cfg),
    Target('data_eq_dict_of', DO + '._data_eq_dict', eqdict_setup, eqdict_post, config=eqdict_cfg),
    Target('eq', DO + '.__eq__', eq_setup, eq_post, config=eq_cfg),
    Lemma('reflexive', lemma_reflexive),
    Lemma('symmetric', lemma_symmetric),
]
