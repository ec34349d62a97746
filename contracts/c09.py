"""C09 object paths: contracts on dessia_common.utils.helpers."""
from pyvc.verify import *
from contracts.c01 import frame

M = 'dessia_common.utils.helpers:'
S = StringSort()
PARSES, INT_OF = Function('int_parsable', S, BoolSort()), Function('int_of', S, IntSort())
OK_SEG, SEG = Function('segment_exists', V, S, BoolSort()), Function('part_at_segment', V, S, V)
OK_PATH, PART = Function('path_exists', V, S, BoolSort()), Function('part_at_path', V, S, V)
REF = OLD = V.s(StringVal('$ref'))   # OLD_REF_MARKER is the same text


# the attributes of an object whose names are not known are kept as the entries of a dictionary at its location
def dynamic_getattr(eng, st, args, kwargs):
    o, n = eng.reify(st, args[0]), eng.reify(st, args[1])
    w = View(eng, st)
    return [(s, w.get(o, n) if t else Raised('AttributeError')) for s, t in eng.branch(st, w.has(o, n))]


def dynamic_setattr(eng, st, args, kwargs):
    o, n, v = (eng.reify(st, x) for x in args)
    st = st.copy()
    a = arg(o, 'r')
    eng.sto(st, 'has', a, Store(eng.sel(st, 'has', a), n, BoolVal(True)))
    eng.sto(st, 'get', a, Store(eng.sel(st, 'get', a), n, v))
    return [(st, V.none)]


def attr_cfg(eng):
    eng.specs['getattr'] = dynamic_getattr
    eng.specs['setattr'] = dynamic_setattr


# ---- one segment ----
def segment_setup(kind):
    def f(ctx, eng, st):
        o = param(eng, st, 'object_', {'seq': ANY, 'dict': DICT(ANY, ANY), 'obj': OBJ('dessia_common.core:DessiaObject')}[kind])
        seg = param(eng, st, 'segment', STR)
        w = View(eng, st)
        if kind == 'seq':
            st.assume(w.seq(o), w.len(o) >= 0)
        t = arg(seg, 's')
        if kind == 'dict':
            st.assume(Not(And(z3.PrefixOf(StringVal('('), t), z3.SuffixOf(StringVal(')'), t), z3.Contains(t, StringVal(',')))))
        ctx.o, ctx.seg = o, t
        return [o, seg]
    return f


def number(t):
    return Or(PARSES(t), z3.StrToInt(t) >= 0), If(z3.StrToInt(t) >= 0, z3.StrToInt(t), INT_OF(t))


def found(w, o, t):
    ok, n = number(t)
    digits = z3.StrToInt(t) >= 0
    return dict(seq=And(ok, -w.len(o) <= n, n < w.len(o)),
                dict=Or(w.has(o, V.s(t)), And(digits, w.has(o, V.i(z3.StrToInt(t))))),
                obj=w.has(o, V.s(t)))


def part(w, o, t):
    ok, n = number(t)
    return dict(seq=w.item(o, If(n < 0, n + w.len(o), n)),
                dict=If(w.has(o, V.s(t)), w.get(o, V.s(t)), w.get(o, V.i(z3.StrToInt(t)))),
                obj=w.get(o, V.s(t)))


def segment_target(kind):
    def post(ctx, s, r):
        w = View(ctx.eng, ctx.st0)
        return [('exists', found(w, ctx.o, ctx.seg)[kind]), ('the-designated-part', r == part(w, ctx.o, ctx.seg)[kind]), frame(ctx, s)]

    def refused(ctx, s, r):
        if r.exc not in {'seq': ('ExtractionError', 'IndexError'), 'dict': ('ExtractionError',), 'obj': ('AttributeError',)}[kind]:
            return None
        return [('leads-nowhere', Not(found(View(ctx.eng, ctx.st0), ctx.o, ctx.seg)[kind])), frame(ctx, s)]
    return Target(f'segment[{kind}]', M + 'extract_segment_from_object', segment_setup(kind), post, config=attr_cfg, allow_raise=refused,
                  note='keys that are tuples are decided by the bounded check' if kind == 'dict' else '')


# ---- a path ----
AT = Function('after_segments', IntSort(), V)
OK_UP = Function('segments_exist_up_to', IntSort(), BoolSort())
MARK = Function('iteration', IntSort(), BoolSort())


def segment_contract(eng, st, env):
    o, seg = (eng.reify(st, v) for v in list(env.values())[:2])
    return [(s, SEG(o, arg(seg, 's')) if t else Raised('ExtractionError')) for s, t in eng.branch(st, OK_SEG(o, arg(seg, 's')))]


def path_contract(eng, st, env):
    o, p = (eng.reify(st, v) for v in list(env.values())[:2])
    p = V.sv(p) if ctor(p) is None else arg(p, 's')
    return [(s, PART(o, p) if t else Raised('ExtractionError')) for s, t in eng.branch(st, OK_PATH(o, p))]


def segments(path):
    """the list of segments: path.lstrip('#/').split('/')"""
    bare = Function('str_lstrip1', S, S, S)(path, StringVal('#/'))
    sep = StringVal('/')
    return Function('split_len', S, S, IntSort())(bare, sep), lambda i: V.sv(Select(Function('split_item', S, S, ArraySort(IntSort(), V))(bare, sep), i))


def path_setup(pointers):
    def f(ctx, eng, st):
        o, p = param(eng, st, 'object_', ANY), param(eng, st, 'path', STR)
        w = View(eng, st)
        n, seg = segments(arg(p, 's'))
        i = Int('si')
        x = AT(i)
        ref = lambda k: And(w.dict(x), w.has(x, k))
        to = lambda k: V.sv(w.get(x, k))
        if pointers:
            y = If(ref(REF), PART(o, to(REF)), If(ref(OLD), PART(o, to(OLD)), x))
            ok = And(Implies(ref(REF), OK_PATH(o, to(REF))), Implies(And(ref(OLD), Not(ref(REF))), OK_PATH(o, to(OLD))))
        else:
            y, ok = x, BoolVal(True)
        ctx.step = lambda k: z3.substitute(And(ok, OK_SEG(y, seg(i))), (i, k))
        st.assume(AT(0) == o, OK_UP(0),
                  ForAll([i], And(MARK(i), Implies(And(0 <= i, i < n), And(AT(i + 1) == SEG(y, seg(i)), OK_UP(i + 1) == And(OK_UP(i), ok, OK_SEG(y, seg(i)))))), patterns=[MARK(i)]))
        ctx.n, ctx.i = n, i
        eng.ghost = ctx
        return [o, p, vb(pointers)]
    return f


def path_inv(info):
    def phi(s, i):
        return [MARK(i), s.env['element'] == AT(i), OK_UP(i)]
    return phi if 'element' in info.st.env else None


def path_cfg(eng):
    eng.contracts[M + 'extract_segment_from_object'] = Contract(segment_contract)
    eng.contracts[M + 'get_in_object_from_path'] = Contract(path_contract)
    eng.invariants.append(path_inv)


def path_post(ctx, s, r):
    return [('follows-every-segment', And(r == AT(ctx.n), OK_UP(ctx.n))), frame(ctx, s)]


def path_refused(ctx, s, r):
    if r.exc != 'ExtractionError':
        return None
    i = Int('bad')
    return [('leads-nowhere', Exists([i], And(0 <= i, i < ctx.n, OK_UP(i), Not(ctx.step(i))))), frame(ctx, s)]


# ---- setting ----
PARENT_READ = Bool('parent_is_read')


def parent_contract(eng, st, env):
    out = path_contract(eng, st, env)
    for s, _ in out:
        s.assume(PARENT_READ)
    return out


def set_setup(kind):
    def f(ctx, eng, st):
        o, p, v = param(eng, st, 'object_', ANY), param(eng, st, 'path', STR), param(eng, st, 'value', ANY)
        l = Const('last_object', V)
        ty = {'seq': LIST(ANY), 'dict': DICT(ANY, ANY), 'obj': OBJ('dessia_common.core:DessiaObject')}[kind]
        eng.assume_type(st, l, ty, old=True)
        w = View(eng, st)
        ctx.o, ctx.v, ctx.l = o, v, l
        q = z3.String('lp')
        st.assume(ForAll([q], PART(o, q) == l, patterns=[PART(o, q)]))
        ln, it = Function('split_len', S, S, IntSort()), Function('split_item', S, S, ArraySort(IntSort(), V))
        sep = StringVal('/')
        ctx.seg = V.sv(Select(it(arg(p, 's'), sep), ln(arg(p, 's'), sep) - 1))
        eng.ghost = ctx
        return [o, p, v]
    return f


def set_cfg(eng):
    eng.name_parts = True
    attr_cfg(eng)
    eng.contracts[M + 'get_in_object_from_path'] = Contract(parent_contract)


def set_post(kind):
    def post(ctx, s, r):
        eng = ctx.eng
        w0, w = View(eng, ctx.st0), View(eng, s)
        l, t = ctx.l, ctx.seg
        x, k = Int('fx'), Const('fk', V)
        at = arg(l, 'r')
        a = at
        out = []
        if kind == 'seq':
            ok, n = number(t)
            pos = If(n < 0, n + w0.len(l), n)
            out += [('value-set', w.item(l, pos) == ctx.v), ('other-elements-kept', And(w.len(l) == w0.len(l), forall_in(0, w0.len(l), lambda j: Or(j == pos, w.item(l, j) == w0.item(l, j)))))]
        if kind == 'obj':
            out += [('value-set', And(w.has(l, V.s(t)), w.get(l, V.s(t)) == ctx.v)),
                    ('other-attributes-kept', ForAll([k], Or(k == V.s(t), And(w.has(l, k) == w0.has(l, k), Implies(w0.has(l, k), w.get(l, k) == w0.get(l, k))))))]
        if kind == 'dict':
            text = lambda k: If(V.is_s(k), V.sv(k), STR_OF(k))
            out += [('value-set', Exists([k], And(text(k) == t, w.has(l, k), w.get(l, k) == ctx.v, Or(w0.has(l, k), And(k == V.s(t), ForAll([Const('fm', V)], Not(And(w0.has(l, Const('fm', V)), text(Const('fm', V)) == t)))))))),
                    ('other-keys-kept', ForAll([k], Implies(text(k) != t, And(w.has(l, k) == w0.has(l, k), Implies(w0.has(l, k), w.get(l, k) == w0.get(l, k))))))]
        keep = []
        for hn, h in sorted(s.heap.items()):
            h0 = ctx.st0.heap.get(hn)
            h0 = h0 if h0 is not None else Const(f'H0_{hn}', h.sort())
            if not h.eq(h0):
                keep.append(ForAll([x], Implies(And(x <= Int('WM0'), x != at), Select(h, x) == Select(h0, x))))
        out.append(('nothing-else-modified', conj(keep)))
        # without a parent path the object itself is modified: l stands for it
        return out if any(f.eq(PARENT_READ) for f in s.pc) else [(n, Implies(ctx.o == l, g)) for n, g in out]
    return post


def set_refused(ctx, s, r):
    if r.exc == 'TypeError':    # what cannot be written to, a tuple for example
        return [('cannot-be-written-to', ctx.o != ctx.l), frame(ctx, s)] if not any(f.eq(PARENT_READ) for f in s.pc) else None
    return [('nothing-modified', frame(ctx, s)[1])] if r.exc in ('ExtractionError', 'ValueError', 'IndexError') else None


TARGETS = [segment_target(k) for k in ('seq', 'dict', 'obj')] + [
    Target(f'path[{n}]', M + 'get_in_object_from_path', path_setup(p), path_post, config=path_cfg, allow_raise=path_refused)
    for n, p in (('pointers', True), ('plain', False))] + [
    Target(f'set[{k}]', M + 'set_in_object_from_path', set_setup(k), set_post(k), config=set_cfg, allow_raise=set_refused) for k in ('seq', 'dict', 'obj')]
