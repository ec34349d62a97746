"""C17 storage predicates: contracts on dessia_common.utils.types and dessia_common.core.stringify_dict_keys.

BSON(v, a) stands for the verdict of is_bson_valid(v, a) on a part: the body must establish that the verdict on a value
is the documented definition in terms of the verdicts on its parts.
"""
from pyvc.verify import *
from contracts.c01 import frame, scalar, value_kinds

T = 'dessia_common.utils.types:'
C = 'dessia_common.core:'
BSON = Function('BSON', V, BoolSort(), BoolSort())
HINT = Function('BSON_hint', V, BoolSort(), StringSort())


def truth(v):
    return V.bv(v)


def bson_contract(eng, st, env):
    st = st.copy()
    value, allow = list(env.values())[:2]
    v = eng.reify(st, value)
    a = truth(eng.reify(st, allow))
    st.assume(BSON(v, a) == (HINT(v, a) == StringVal('')))
    r = (vb(BSON(v, a)), V.s(HINT(v, a)))
    return [(st, r)]


def key_ok(k, allow):
    return Or(And(V.is_s(k), Not(z3.Contains(V.sv(k), StringVal('.')))),
              And(Or(V.is_i(k), V.is_b(k)), allow))


def bson_spec(w, v, a):
    k = Const('kq', V)
    return Or(scalar(v),
              And(w.dict(v), ForAll([k], Implies(w.has(v, k), And(key_ok(k, a), BSON(w.get(v, k), a))))),
              And(w.seq(v), forall_in(0, w.len(v), lambda j: BSON(w.item(v, j), a))))


def bson_cfg(eng):
    eng.contracts[T + 'is_bson_valid'] = Contract(bson_contract)


def bson_setup(*kinds):
    def setup(ctx, eng, st):
        v = param(eng, st, 'value', ANY)
        a = param(eng, st, 'allow_nonstring_keys', BOOL)
        w = View(eng, st)
        st.assume(Or(*[w.obj(v) if k == 'obj' else value_kinds(w, v, k) for k in kinds]))
        st.assume(Implies(is_kind(v, 'r'), w.len(v) >= 0))
        ctx.v, ctx.a = v, truth(a)
        return [v, a]
    return setup


def bson_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    verdict, hint = r if isinstance(r, tuple) else (w.item(r, IntVal(0)), w.item(r, IntVal(1)))
    return [('verdict', And(V.is_b(verdict), V.bv(verdict) == bson_spec(w0, ctx.v, ctx.a))),
            ('explained', And(V.is_s(hint), V.bv(verdict) == (V.sv(hint) == StringVal('')))),
            frame(ctx, s)]


# ---- keys made strings ----
STRK = Function('stringified', V, V)


def strk_cfg(eng):
    eng.contracts[C + 'stringify_dict_keys'] = pure(lambda eng, st, env: STRK(eng.reify(st, list(env.values())[0])))


def strk_setup(kind):
    def setup(ctx, eng, st):
        v = param(eng, st, 'obj', {'list': LIST(ANY), 'tuple': ANY, 'dict': DICT(ANY, ANY), 'other': ANY}[kind])
        w = View(eng, st)
        if kind == 'tuple':
            st.assume(w.tag(v, T_TUPLE), w.len(v) >= 0)
        if kind == 'other':
            st.assume(Or(scalar(v), w.obj(v), V.is_c(v)))
        if kind == 'dict':
            k, l = Const('ka', V), Const('kb', V)
            st.assume(ForAll([k, l], Implies(And(w.has(v, k), w.has(v, l), to_str(eng, st, k) == to_str(eng, st, l)), k == l)))
        ctx.v = v
        return [v]
    return setup


def to_str(eng, st, v):
    return If(V.is_s(v), V.sv(v), STR_OF(v))


def strk_seq_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    return [('same-length', And(w.tag(r, T_LIST), w.len(r) == w0.len(ctx.v))),
            ('elements-converted', forall_in(0, w0.len(ctx.v), lambda j: w.item(r, j) == STRK(w0.item(ctx.v, j)))),
            ('fresh', arg(r, 'r') > Int('WM0')), frame(ctx, s)]


def strk_dict_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    k, l = Const('kq', V), Const('kr', V)
    S = lambda k: V.s(to_str(ctx.eng, s, k))
    return [('keys-are-strings', And(w.tag(r, T_DICT), ForAll([k], Implies(w.has(r, k), V.is_s(k))))),
            ('all-keys', ForAll([k], Implies(w0.has(ctx.v, k), w.has(r, S(k))))),
            ('only-keys', ForAll([k], Implies(w.has(r, k), Exists([l], And(w0.has(ctx.v, l), k == S(l)))))),
            ('values-converted', ForAll([k], Implies(w0.has(ctx.v, k), w.get(r, S(k)) == STRK(w0.get(ctx.v, k))))),
            ('same-size', w.len(r) == w0.len(ctx.v)),
            ('fresh', arg(r, 'r') > Int('WM0')), frame(ctx, s)]


def strk_other_post(ctx, s, r):
    return [('unchanged', r == ctx.v), frame(ctx, s)]


# ---- files ----
FSEQ = Function('file_or_files', V, BoolSort())
IS_FILE = Function('is_dessia_file', V, BoolSort())


def file_cfg(eng):
    eng.contracts[T + 'is_file_or_file_sequence'] = pure(lambda eng, st, env: vb(FSEQ(eng.reify(st, list(env.values())[0]))))


def file_setup(*kinds):
    def setup(ctx, eng, st):
        v = param(eng, st, 'object_', ANY)
        w = View(eng, st)
        st.assume(Or(*[w.obj(v) if k == 'obj' else value_kinds(w, v, k) for k in kinds]))
        st.assume(Implies(is_kind(v, 'r'), w.len(v) >= 0))
        ctx.v = v
        return [v]
    return setup


def file_post(ctx, s, r):
    w = View(ctx.eng, ctx.st0)
    v = ctx.v
    isfile = And(w.obj(v), Or(*[Or(SUB(TAG(arg(v, 'r')), i), TAG(arg(v, 'r')) == i) for i in (class_id('dessia_common.files:' + c) for c in ('BinaryFile', 'StringFile'))]))
    j = Int('jq')
    return [('definition', And(V.is_b(r), V.bv(r) == Or(isfile, And(w.seq(v), Exists([j], And(0 <= j, j < w.len(v), FSEQ(w.item(v, j)))))))), frame(ctx, s)]


TARGETS = [
    Target('bson_scalar', T + 'is_bson_valid', bson_setup('scalar'), bson_post, config=bson_cfg),
    Target('bson_dict', T + 'is_bson_valid', bson_setup('dict'), bson_post, config=bson_cfg),
    Target('bson_sequence', T + 'is_bson_valid', bson_setup('seq'), bson_post, config=bson_cfg),
    Target('bson_object', T + 'is_bson_valid', bson_setup('obj'), bson_post, config=bson_cfg),
    Target('stringify_list', C + 'stringify_dict_keys', strk_setup('list'), strk_seq_post, config=strk_cfg),
    Target('stringify_tuple', C + 'stringify_dict_keys', strk_setup('tuple'), strk_seq_post, config=strk_cfg),
    Target('stringify_dict', C + 'stringify_dict_keys', strk_setup('dict'), strk_dict_post, config=strk_cfg),
    Target('stringify_other', C + 'stringify_dict_keys', strk_setup('other'), strk_other_post, config=strk_cfg),
    Target('files_sequence', T + 'is_file_or_file_sequence', file_setup('seq'), file_post, config=file_cfg),
    Target('files_other', T + 'is_file_or_file_sequence', file_setup('scalar', 'dict', 'obj', 'class'), file_post, config=file_cfg),
]
