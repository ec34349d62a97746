"""C19 type matching: contracts on dessia_common.utils.types.typematch and what it calls.

An annotation is a value of kind class (equal annotations are one value), with uninterpreted TYPING (is it a typing
construct), ORIGIN and ARGS, the trusted contracts of is_typing's attribute tests, typing.get_origin and typing.get_args.
IN(x, a) is membership of a value in an annotation, defined below by the meaning of each construct. MATCH(a, b) is the
value of typematch(a, b): recursive calls (on strict parts) are replaced by the contract `MATCH(a, b) implies that every
value of a is a value of b`.
"""
from pyvc.verify import *
from contracts.c01 import frame

T = 'dessia_common.utils.types:'
B = BoolSort()
TYPING = Function('is_typing', V, B)
OID = Function('origin_id', V, IntSort())
ORIGIN = lambda a: V.c(OID(a))    # of a typing construct
ARGS = Function('args', V, V)
IN = Function('in_type', IntSort(), V, B)        # values are left abstract
VLEN = Function('v_len', IntSort(), IntSort())
VITEM = Function('v_item', IntSort(), IntSort(), IntSort())
VLIST, VTUPLE, VDICT = (Function('v_' + n, IntSort(), B) for n in ('list', 'tuple', 'dict'))
VKEY, VVAL = (Function(n, IntSort(), IntSort(), IntSort()) for n in ('v_key', 'v_val'))
MATCH = Function('typematch', V, V, B)
cls = lambda n: V.c(IntVal(BUILTIN_TYPES[n]))
ANYT = lambda: V.c(IntVal(class_id('ext:typing.Any')))
UNION = lambda: V.c(IntVal(class_id('ext:typing.Union')))
NONET = cls('NoneType')


def meaning(eng, st, w):
    """what the annotations mean, for every annotation a and value x"""
    a, b, = Const('ta', V), Const('tb', V)
    x, i = Int('tx'), Int('ti')
    n = lambda a: w.len(ARGS(a))
    t = lambda a, i: w.item(ARGS(a), i)
    org = lambda a, c: And(TYPING(a), ORIGIN(a) == c)
    default = lambda a: And(org(a, UNION()), n(a) == 2, Or(t(a, IntVal(0)) == NONET, t(a, IntVal(1)) == NONET))
    st.assume(
        ForAll([x], IN(x, ANYT()), patterns=[IN(x, ANYT())]),
        ForAll([x], Implies(IN(x, cls('int')), IN(x, cls('float'))), patterns=[IN(x, cls('int'))]),
        ForAll([x, a, b], Implies(And(Not(TYPING(a)), Not(TYPING(b)), V.is_c(a), V.is_c(b), subtype(V.cv(a), V.cv(b)), IN(x, a)), IN(x, b)), patterns=[z3.MultiPattern(IN(x, a), IN(x, b))]),
        ForAll([x, a], Implies(org(a, cls('list')), And(n(a) == 1, IN(x, a) == And(VLIST(x), ForAll([i], Implies(And(0 <= i, i < VLEN(x)), IN(VITEM(x, i), t(a, IntVal(0)))))))), patterns=[IN(x, a)]),
        ForAll([x, a], Implies(org(a, cls('tuple')), IN(x, a) == And(VTUPLE(x), VLEN(x) == n(a), ForAll([i], Implies(And(0 <= i, i < n(a)), IN(VITEM(x, i), t(a, i)))))), patterns=[IN(x, a)]),
        ForAll([x, a], Implies(org(a, cls('dict')), And(n(a) == 2, IN(x, a) == And(VDICT(x), ForAll([i], Implies(And(0 <= i, i < VLEN(x)), And(IN(VKEY(x, i), t(a, IntVal(0))), IN(VVAL(x, i), t(a, IntVal(1)))))))),), patterns=[IN(x, a)]),
        # an optional counts as the type it makes optional
        ForAll([x, a], Implies(default(a), IN(x, a) == IN(x, If(t(a, IntVal(0)) == NONET, t(a, IntVal(1)), t(a, IntVal(0))))), patterns=[IN(x, a)]),
        ForAll([x, a], Implies(And(org(a, UNION()), Not(default(a))), IN(x, a) == Exists([i], And(0 <= i, i < n(a), IN(x, t(a, i))))), patterns=[IN(x, a)]),
        ForAll([a], Implies(V.is_c(a), And(V.is_r(ARGS(a)), TAG(V.rv(ARGS(a))) == T_LIST, V.rv(ARGS(a)) <= Int('WM0'), n(a) >= 0,
                                           Implies(org(a, cls('list')), n(a) == 1), Implies(org(a, cls('dict')), n(a) == 2))), patterns=[ARGS(a)]),
        ForAll([a, i], Implies(And(V.is_c(a), 0 <= i, i < n(a)), And(V.is_c(t(a, i)), t(a, i) != a)), patterns=[t(a, i)]),
        ForAll([a], Implies(V.is_c(a), Or(TYPING(a), n(a) == 0)), patterns=[ARGS(a)]),
        Not(TYPING(ANYT())))


HEAL = Function('heal', V, V)     # an optional without its None


def healed(w, a):
    n, t = w.len(ARGS(a)), lambda i: w.item(ARGS(a), IntVal(i))
    default = And(TYPING(a), ORIGIN(a) == UNION(), n == 2, Or(t(0) == NONET, t(1) == NONET))
    return If(default, If(t(0) == NONET, t(1), t(0)), a)


def heal_contract(eng, st, env):
    a = eng.reify(st, list(env.values())[0])
    st = st.copy()
    h = HEAL(a)
    eng.assume_type(st, h, CLS)
    eng.assume_type(st, ARGS(h), LIST(CLS), old=True)
    st.assume(h == healed(View(eng, st), a))
    return [(s, (h, ORIGIN(h) if yes else V.none, ARGS(h))) for s, yes in eng.branch(st, TYPING(h))]


def heal_setup(ctx, eng, st):
    a = param(eng, st, 'type_', CLS)
    meaning(eng, st, View(eng, st))
    ctx.a = a
    return [a]


def heal_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    h, o, g = r if isinstance(r, tuple) else [w.item(r, IntVal(i)) for i in range(3)]
    return [('healed', h == healed(w0, ctx.a)), ('origin', o == If(TYPING(h), ORIGIN(h), V.none)), ('arguments', g == ARGS(h)), frame(ctx, s)]


def subset(a, b):
    x = Int('sx')
    return ForAll([x], Implies(IN(x, a), IN(x, b)), patterns=[IN(x, a)])


def contract(eng, st, env):
    a, b = (eng.reify(st, v) for v in list(env.values())[:2])
    st = st.copy()
    st.assume(Implies(MATCH(a, b), subset(a, b)))
    return [(st, vb(MATCH(a, b)))]


def cfg(eng, heal=True):
    eng.contracts[T + 'typematch'] = Contract(contract)
    if heal:
        eng.contracts[T + 'heal_type'] = Contract(heal_contract)
    eng.contracts['dessia_common.schemas.core:is_typing'] = pure(lambda eng, st, env: vb(TYPING(eng.reify(st, list(env.values())[0]))))

    def origin(eng, st, args, kwargs):
        a = eng.reify(st, args[0])
        return [(s, ORIGIN(a) if yes else V.none) for s, yes in eng.branch(st, TYPING(a))]

    def arguments(eng, st, args, kwargs):
        v = ARGS(eng.reify(st, args[0]))
        st = st.copy()
        eng.assume_type(st, v, LIST(CLS), old=True)
        return [(st, v)]
    eng.specs['typing.get_origin'] = origin
    eng.specs['typing.get_args'] = arguments


def setup(ctx, eng, st):
    a, b = param(eng, st, 'type_', CLS), param(eng, st, 'match_against', CLS)
    meaning(eng, st, View(eng, st))
    ctx.a, ctx.b = a, b
    return [a, b]


def sound(ctx, s, r):
    return [('every-value-fits', And(V.is_b(r), Implies(V.bv(r), subset(ctx.a, ctx.b)))),
            frame(ctx, s)]


def accepts(case):
    def setup_(ctx, eng, st):
        args = setup(ctx, eng, st)
        a, b = args
        if case == 'itself':
            st.assume(a == b)
        elif case == 'any':
            st.assume(b == ANYT())
        elif case == 'base':
            st.assume(Not(TYPING(a)), Not(TYPING(b)), subtype(V.cv(a), V.cv(b)))
        elif case == 'union':
            w = View(eng, st)
            i, x = Int('u'), Const('tc', V)
            st.assume(Not(TYPING(a)), TYPING(b), ORIGIN(b) == UNION(), 0 <= i, i < w.len(ARGS(b)), w.item(ARGS(b), i) == a,
                      a != NONET, ForAll([x], MATCH(x, x)))
        return args
    return setup_


def yes(ctx, s, r):
    return [('accepted', And(V.is_b(r), V.bv(r))), frame(ctx, s)]


NI = lambda ctx, s, r: True if r.exc == 'NotImplementedError' else None
TARGETS = [
    Target('heal_type', T + 'heal_type', heal_setup, heal_post, config=lambda eng: cfg(eng, False)),
    Target('typematch', T + 'typematch', setup, sound, config=cfg, allow_raise=NI),
] + [Target(f'accepts[{c}]', T + 'typematch', accepts(c), yes, config=cfg) for c in ('itself', 'any', 'base', 'union')]
