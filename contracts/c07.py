"""C07 wizard steps: the partition of the workflow inputs as an invariant kept by every editing operation."""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame
from contracts.c08 import read

M = 'dessia_common.workflow.core:'
WF, VAR, STEP = M + 'Workflow', M + 'Variable', M + 'Step'
IX = Function('input_number', V, IntSort())
HASHV = Function('object_hash', V, IntSort())


def schemas(eng, st, o):
    """the run form: some dictionary with the entry 'run' (reads the workflow only)"""
    st = st.copy()
    d = eng.new_dict(st)
    eng.bm.dict_put(eng, st, arg(d, 'r'), vs('run'), eng.fresh('form', V))
    return [(st, d)]


def cfg(eng):
    eng.field_types['inputs'] = LIST(OBJ(VAR))
    eng.field_types['spare_inputs'] = LIST(OBJ(VAR))
    eng.field_types['steps'] = LIST(OBJ(STEP, True))
    for a in ('label', 'name', 'group_id', 'documentation', 'id_'):
        eng.field_types[a] = STR
    eng.class_attrs[(VAR, '=identity')] = True
    eng.class_attrs[(STEP, '=identity')] = True
    eng.specs['ext:uuid.uuid4'] = lambda e, st, a, k: [(st, V.s(e.fresh('uuid', StringSort())))]
    eng.class_attrs[(WF, 'method_schemas')] = schemas


def triggered(vs, f, patterns):
    """with the patterns when they can be stated (the same formula as a hypothesis then is the same term)"""
    if any(has_case(p) for p in patterns):
        return z3.ForAll(vs, f)
    try:
        return z3.ForAll(vs, f, patterns=patterns)
    except z3.Z3Exception:
        return z3.ForAll(vs, f)


def has_case(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return True
            stack.extend(x.children())
    return False


class Wiz:
    """the wizard of a workflow in one state; where / pos / order / owner: the ghost description of the partition"""

    def __init__(self, eng, st, wf, where=None, pos=None, order=None, owner=None):
        w = self.w = View(eng, st)
        self.inputs, self.steps, self.spare = (w.attr(wf, x) for x in ('inputs', 'steps', 'spare_inputs'))
        self.n, self.m = w.len(self.inputs), w.len(self.steps)
        self.where = where or (lambda v: V.iv(w.attr(v, '%where')))
        self.pos = pos or (lambda v: V.iv(w.attr(v, '%pos')))
        self.order = order or (lambda s: V.iv(w.attr(s, '%order')))
        self.owner = owner or (lambda l: V.iv(w.attr(l, '%owner')))

    def inp(self, j):
        return self.w.item(self.inputs, j)

    def step(self, p):
        return self.w.item(self.steps, p)

    def box(self, p):
        return self.w.attr(self.step(p), 'inputs')

    def holds(self, v):
        """v is an input, designated by its number"""
        return And(V.is_r(v), 0 <= IX(v), IX(v) < self.n, self.inp(IX(v)) == v)

    def partition(self, goal=False):
        ForAll = triggered if goal else z3.ForAll
        w, j, p, q = self.w, Int('ij'), Int('ip'), Int('iq')
        v, b, x, y = self.inp(j), self.box(p), w.item(self.spare, q), w.item(self.box(p), q)
        at, s = self.where(v), self.step(p)
        return [And(self.n >= 0, self.m >= 0, w.len(self.spare) >= 0),
                ForAll([j], Implies(And(0 <= j, j < self.n), And(V.is_r(v), IX(v) == j)), patterns=[v]),
                ForAll([p], Implies(And(0 <= p, p < self.m), And(V.is_r(s), TAG(arg(s, 'r')) == class_id(STEP), self.order(s) == p,
                                                                 w.tag(b, T_LIST), w.len(b) >= 0, self.owner(b) == p,
                                                                 b != self.spare, b != self.inputs, b != self.steps)), patterns=[s]),
                ForAll([j], Implies(And(0 <= j, j < self.n), And(-1 <= at, at < self.m, self.pos(v) >= 0,
                                                                 Implies(at == -1, And(self.pos(v) < w.len(self.spare), w.item(self.spare, self.pos(v)) == v)),
                                                                 Implies(at >= 0, And(self.pos(v) < w.len(self.box(at)), w.item(self.box(at), self.pos(v)) == v)))), patterns=[v]),
                ForAll([q], Implies(And(0 <= q, q < w.len(self.spare)), And(self.holds(x), self.where(x) == -1, self.pos(x) == q)), patterns=[x]),
                ForAll([p, q], Implies(And(0 <= p, p < self.m, 0 <= q, q < w.len(b)), And(self.holds(y), self.where(y) == p, self.pos(y) == q)), patterns=[y])]


NAMES = ('numbers', 'inputs-distinct', 'steps-distinct', 'every-input-somewhere', 'spare-ones-once', 'ones-in-steps-once')


def invariant(z):
    return list(zip(NAMES, z.partition(goal=True)))


def workflow(ctx, eng, st):
    wf = param(eng, st, 'self', OBJ(WF, True))
    for a in ('inputs', 'steps', 'spare_inputs'):
        read(eng, st, wf, a)
    z = Wiz(eng, st, wf)
    p, wm = Int('ip'), Int('WM0')
    st.assume(*z.partition())
    st.assume(z.inputs != z.spare, z.inputs != z.steps, z.spare != z.steps)
    b = z.box(p)
    st.assume(ForAll([p], Implies(And(0 <= p, p < z.m), And(arg(z.step(p), 'r') <= wm, arg(b, 'r') <= wm)), patterns=[z.step(p)]))
    st.assume(ForAll([p], Implies(And(0 <= p, p < z.n), arg(z.inp(p), 'r') <= wm), patterns=[z.inp(p)]))
    ctx.wf = wf
    eng.ghost = ctx
    return wf


def kept(ctx, s, free=()):
    """locations that existed keep their content, apart from free = {heap: [addresses]}"""
    x = Int('fa')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0) and not hn.startswith('a:%'):
            ex = dict(free).get(hn, [])
            if ex is not None:
                out.append(ForAll([x], Implies(And(x <= Int('WM0'), *[x != a for a in ex]), Select(h, x) == Select(h0, x))))
    return 'nothing-else-modified', conj(out)


# ---- the step of an input ----
def find_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.v = param(eng, st, 'input_', OBJ(VAR))
    st.assume(Wiz(eng, st, wf).holds(ctx.v))
    return [wf, ctx.v]


def find_post(ctx, s, r):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    at = z.where(ctx.v)
    return [('none-if-spare', Implies(at == -1, r == V.none)), ('its-step', Implies(at >= 0, r == z.step(at))), frame(ctx, s)]


def find_contract(eng, st, env):
    """what is discharged above; asked only for inputs, in a state where the partition holds"""
    wf, v = (eng.reify(st, x) for x in list(env.values())[:2])
    z = Wiz(eng, st, wf)
    for n, f in invariant(z):
        eng.obligate(st, 'partition-needed:' + n, f)
    eng.obligate(st, 'an-input', z.holds(v))
    out = []
    for s, t in eng.branch(st, z.where(v) == -1):
        s = s.copy()
        if t:
            out.append((s, V.none))
        else:
            r = z.step(z.where(v))
            s.assume(0 <= z.where(v), z.where(v) < z.m)
            eng.known_ref(r)
            eng.elem_facts(s, z.steps, r, z.where(v))
            out.append((s, r))
    return out


# ---- moving an input ----
def at(k, n):
    return If(k < 0, k + n, k)


def move_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.i, ctx.t = param(eng, st, 'input_index', INT), param(eng, st, 'new_step_index', INT)
    return [wf, ctx.i, ctx.t]


def move_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.find_input_step'] = Contract(find_contract)


def named(s, name, t):
    c = Const('the_' + name, t.sort())
    s.assume(c == t)
    return c


def moved(z, i, t, v, p, q):
    """where every input is once input i is moved to the end of place t (a step, or -1 for the spare ones)"""
    size = If(t == -1, z.w.len(z.spare), z.w.len(z.box(t)))
    where = lambda x: If(x == v, t, z.where(x))
    pos = lambda x: If(x == v, If(p == t, size - 1, size), If(And(z.where(x) == p, z.pos(x) > q), z.pos(x) - 1, z.pos(x)))
    return where, pos


def contents(s, z, z2, v, p, q, t):
    """intermediate assertions: the contents of every list, in terms of the earlier ones"""
    for c in consts(s.pc, IntSort()):
        if str(c).startswith('m!'):
            by(s, c == q, timeout=1500)
    a, k = Int('ca'), Int('ck')
    w, w2 = z.w, z2.w
    skip = lambda place, x: If(And(place == p, x >= q), x + 1, x)
    n2 = lambda a: w.len(z.box(a)) + If(a == t, 1, 0) - If(a == p, 1, 0)
    facts = [And(z2.inputs == z.inputs, z2.steps == z.steps, z2.spare == z.spare, z2.n == z.n, z2.m == z.m, w2.len(z.spare) == w.len(z.spare) - If(p == -1, 1, 0) + If(t == -1, 1, 0)),
             ForAll([a], Implies(And(0 <= a, a < z.n), z2.inp(a) == z.inp(a))), ForAll([a], Implies(And(0 <= a, a < z.m), z2.step(a) == z.step(a))),
             ForAll([a], Implies(And(0 <= a, a < z.m), And(z2.box(a) == z.box(a), w2.len(z.box(a)) == n2(a)))),
             ForAll([k], Implies(And(0 <= k, k < w2.len(z.spare)), w2.item(z.spare, k) == If(And(t == -1, k == w2.len(z.spare) - 1), v, w.item(z.spare, skip(-1, k))))),
             ForAll([a, k], Implies(And(0 <= a, a < z.m, 0 <= k, k < n2(a)), w2.item(z.box(a), k) == If(And(a == t, k == n2(t) - 1), v, w.item(z.box(a), skip(a, k)))))]
    return by(s, *facts)


def places(z, i, t):
    """addresses of the lists that change"""
    p = z.where(z.inp(i))
    return [arg(If(k == -1, z.spare, z.box(k)), 'r') for k in (t, p)]


def move_to(ctx, s, t, idx):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    i, t = named(s, 'i', at(V.iv(ctx.i), z.n)), named(s, 't', t)
    v = named(s, 'v', z.inp(i))
    p, q = named(s, 'p', z.where(v)), named(s, 'q', z.pos(v))
    where, pos = moved(z, i, t, v, p, q)
    z2 = Wiz(ctx.eng, s, ctx.wf, where, pos, z.order, z.owner)
    contents(s, z, z2, v, p, q, t)
    free = places(z, i, t)
    a = Int('ca')
    sizes = ForAll([a], Implies(And(0 <= a, a < z.m), z2.w.len(z.box(a)) == z.w.len(z.box(a)) + If(a == t, 1, 0) - If(a == p, 1, 0)))
    return [('indices', And(0 <= i, i < z.n, -1 <= t, t < z.m)), ('sizes', sizes)] + invariant(z2) + [kept(ctx, s, dict(len=free, item=free))]


def move_post(ctx, s, r):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    return move_to(ctx, s, at(V.iv(ctx.t), z.m), ctx.i) + [('a-step', at(V.iv(ctx.t), z.m) >= 0)]


def move_refused(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    i, t = V.iv(ctx.i), V.iv(ctx.t)
    return [('no-such-input-or-step', Or(i >= z.n, i < -z.n, t >= z.m, t < -z.m)), kept(ctx, s)]


def change(eng, st, wf, where, pos, extra=()):
    """the effect of an operation that moves inputs between the lists of a wizard: the lists are rearranged so that
    every input is at the given place, nothing else is written"""
    st = st.copy()
    z = Wiz(eng, st, wf)
    x, v, p = Int('fa'), Const('cv', V), Int('ip')
    st2 = st.copy()
    old = {hn: eng.havoc_heap(st2, hn) for hn in ('len', 'item', 'a:%where', 'a:%pos')}
    z2 = Wiz(eng, st2, wf)
    for hn in ('len', 'item'):
        h, h2 = old[hn]
        st2.assume(ForAll([x], Implies(Or(x > st.wm, And(x != arg(z.spare, 'r'), Not(is_box(z, x)))), Select(h2, x) == Select(h, x)), patterns=[Select(h2, x)]))
    st2.assume(*[ForAll([v], Implies(z.holds(v), z2.where(v) == where(v)), patterns=[z2.where(v)])] if where else [])
    st2.assume(*[ForAll([v], Implies(z.holds(v), z2.pos(v) == pos(v)), patterns=[z2.pos(v)])] if pos else [])
    st2.assume(*z2.partition())
    same_shape(st2, z, z2)
    return st2, z, z2


def is_box(z, x):
    """x is the address of the list of inputs of one of the steps"""
    k = z.owner(V.r(x))
    return And(0 <= k, k < z.m, z.box(k) == V.r(x))


def same_shape(st, z, z2):
    st.assume(z2.n == z.n, z2.m == z.m, z.w.rd('item', z.inputs) == z2.w.rd('item', z.inputs), z.w.rd('item', z.steps) == z2.w.rd('item', z.steps))


def indices(eng, st, z, *pairs):
    """-> [(state, indices or None)]: indices counted from the start, None when one is out of range"""
    ok = And(*[And(-n <= i, i < n) for i, n in pairs])
    return [(s, t) for s, t in eng.branch(st, ok)]


def needs(eng, st, z):
    for n, f in invariant(z):
        eng.obligate(st, 'partition-needed:' + n, f)


def move_contract(eng, st, env):
    """what is discharged for change_input_step"""
    wf, i, t = (eng.reify(st, x) for x in list(env.values())[:3])
    z = Wiz(eng, st, wf)
    needs(eng, st, z)
    i, t = V.iv(i), V.iv(t)
    out = []
    for s, ok in eng.branch(st, And(-z.n <= i, i < z.n, -z.m <= t, t < z.m)):
        if not ok:
            out.append((s, Raised('IndexError')))
            continue
        s = s.copy()
        i2, t2 = at(i, z.n), at(t, z.m)
        v = z.inp(i2)
        where, pos = moved(z, i2, t2, v, z.where(v), z.pos(v))
        s2, _, _ = change(eng, s, wf, where, pos)
        out.append((s2, V.none))
    return out


# ---- taking an input out of its step ----
def out_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.i = param(eng, st, 'input_index', INT)
    return [wf, ctx.i]


def out_post(ctx, s, r):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    return [('was-in-a-step', z.where(z.inp(at(V.iv(ctx.i), z.n))) >= 0)] + move_to(ctx, s, IntVal(-1), ctx.i)


def out_refused(ctx, s, r):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    i = V.iv(ctx.i)
    known = And(-z.n <= i, i < z.n)
    if r.exc == 'IndexError':
        return [('no-such-input', Not(known)), kept(ctx, s)]
    if r.exc == 'ValueError':
        return [('in-no-step', And(known, z.where(z.inp(at(i, z.n))) == -1)), kept(ctx, s)]


def out_contract(eng, st, env):
    """what is discharged for remove_input_from_step"""
    wf, i = (eng.reify(st, x) for x in list(env.values())[:2])
    z = Wiz(eng, st, wf)
    needs(eng, st, z)
    i = V.iv(i)
    out = []
    for s, ok in eng.branch(st, And(-z.n <= i, i < z.n)):
        if not ok:
            out.append((s, Raised('IndexError')))
            continue
        i2 = at(i, z.n)
        v = z.inp(i2)
        for s2, spare in eng.branch(s, z.where(v) == -1):
            if spare:
                out.append((s2, Raised('ValueError')))
                continue
            where, pos = moved(z, i2, IntVal(-1), v, z.where(v), z.pos(v))
            s3, _, z3_ = change(eng, s2, wf, where, pos)
            w, w2, p, q, k, b = z.w, z3_.w, z.where(v), z.pos(v), Int('ck'), Int('cb')
            s3.assume(ForAll([b], Implies(And(0 <= b, b < z.m), w2.len(z.box(b)) == w.len(z.box(b)) - If(b == p, 1, 0)), patterns=[z.step(b)]))
            out.append((s3, eng.fresh('form', V)))
    return out


# ---- moving several inputs ----
def several_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.ix, ctx.t = param(eng, st, 'input_indices', LIST(INT)), param(eng, st, 'new_step_index', INT)
    z = Wiz(eng, st, wf)
    st.assume(ctx.ix != z.spare, ctx.ix != z.inputs, ctx.ix != z.steps, Not(is_box(z, arg(ctx.ix, 'r'))))
    ctx.k = lambda k: at(V.iv(z.w.item(ctx.ix, k)), z.n)
    ctx.N = z.w.len(ctx.ix)
    ctx.st0 = st
    return [wf, ctx.ix, ctx.t]


def untouched(ctx, s):
    """apart from the lists of the wizard, nothing that existed is written"""
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    x = Int('fa')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0) and not hn.startswith('a:%'):
            lists = [x != arg(z.spare, 'r'), Not(is_box(z, x))] if hn in ('len', 'item') else []
            out.append(ForAll([x], Implies(And(x <= Int('WM0'), *lists), Select(h, x) == Select(h0, x))))
    return out


def several_inv(info):
    ctx, eng = info.eng.ghost, info.eng
    z = Wiz(eng, ctx.st0, ctx.wf)
    info.free = {'len', 'item', 'a:%where', 'a:%pos'}
    t, k, v = at(V.iv(ctx.t), z.m), Int('lk'), Const('lv', V)

    def phi(s, i):
        z2 = Wiz(eng, s, ctx.wf)
        among = Exists([k], And(0 <= k, k < i, z.inp(ctx.k(k)) == v))
        return z2.partition() + untouched(ctx, s) + [
            forall_in(0, i, lambda k: And(0 <= ctx.k(k), ctx.k(k) < z.n, z2.where(z.inp(ctx.k(k))) == t)),
            ForAll([v], Implies(And(z.holds(v), z2.where(v) != z.where(v)), And(z2.where(v) == t, among)))]
    return phi


def several_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.change_input_step'] = Contract(move_contract)
    eng.invariants.append(several_inv)


def several_post(ctx, s, r):
    z, z2 = Wiz(ctx.eng, ctx.st0, ctx.wf), Wiz(ctx.eng, s, ctx.wf)
    t, k, v = at(V.iv(ctx.t), z.m), Int('lk'), Const('lv', V)
    among = Exists([k], And(0 <= k, k < ctx.N, z.inp(ctx.k(k)) == v))
    return invariant(z2) + [('in-the-step', forall_in(0, ctx.N, lambda k: z2.where(z.inp(ctx.k(k))) == t)),
                            ('others-stay', ForAll([v], Implies(And(z.holds(v), Not(among)), z2.where(v) == z.where(v)))),
                            ('nothing-else-modified', conj(untouched(ctx, s)))]


def several_refused(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    for hn in ('item', 'len'):
        by(s, *[Select(s.h(hn), arg(l, 'r')) == z.w.rd(hn, l) for l in (z.inputs, z.steps)])
    return invariant(Wiz(ctx.eng, s, ctx.wf)) + [('nothing-else-modified', conj(untouched(ctx, s)))]


# ---- steps: insertion, label, removal, order ----
def label_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.i, ctx.l = param(eng, st, 'step_index', INT), param(eng, st, 'label', STR)
    return [wf, ctx.i, ctx.l]


def label_post(ctx, s, r):
    z, z2 = Wiz(ctx.eng, ctx.st0, ctx.wf), Wiz(ctx.eng, s, ctx.wf)
    i = at(V.iv(ctx.i), z.m)
    return [('the-step', And(0 <= i, i < z.m, z2.w.attr(z.step(i), 'label') == ctx.l))] + invariant(z2) + [kept(ctx, s, {'a:label': [arg(z.step(i), 'r')]})]


def no_step(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    z, i = Wiz(ctx.eng, ctx.st0, ctx.wf), V.iv(ctx.i)
    return [('no-such-step', Not(And(-z.m <= i, i < z.m))), kept(ctx, s)]


def insert_setup(given):
    def f(ctx, eng, st):
        wf = workflow(ctx, eng, st)
        ctx.l = param(eng, st, 'label', STR)
        ctx.i = param(eng, st, 'step_index', INT) if given else None
        return [wf, ctx.l] + ([ctx.i] if given else [])
    return f


def insert_post(ctx, s, r):
    eng = ctx.eng
    z, w2 = Wiz(eng, ctx.st0, ctx.wf), View(eng, s)
    steps = w2.attr(ctx.wf, 'steps')
    k = at(V.iv(ctx.i), z.m) if ctx.i is not None else z.m
    k = named(s, 'k', If(k < 0, IntVal(0), If(k > z.m, z.m, k)))
    new = w2.item(steps, k)
    mine = w2.attr(new, 'inputs')
    up = lambda x: If(x >= k, x + 1, x)
    z2 = Wiz(eng, s, ctx.wf, lambda v: up(z.where(v)), z.pos, lambda x: If(x == new, k, up(z.order(x))), lambda x: If(x == mine, k, up(z.owner(x))))
    a = Int('ca')
    old = ForAll([a], Implies(And(0 <= a, a < z.m), z2.step(up(a)) == z.step(a)))
    return [('new-step', And(V.is_r(new), arg(new, 'r') > Int('WM0'), w2.attr(new, 'label') == ctx.l, w2.tag(mine, T_LIST), arg(mine, 'r') > Int('WM0'), w2.len(mine) == 0)),
            ('other-steps-in-order', And(z2.m == z.m + 1, old))] + invariant(z2) + [
        kept(ctx, s, {'len': [arg(z.steps, 'r')], 'item': [arg(z.steps, 'r')]})]


def remove_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.i = param(eng, st, 'step_index', INT)
    ctx.st0 = st
    return [wf, ctx.i]


def remove_inv(info):
    ctx, eng = info.eng.ghost, info.eng
    z = Wiz(eng, ctx.st0, ctx.wf)
    info.free = {'len', 'item', 'a:%where', 'a:%pos'}
    k, b, v = at(V.iv(ctx.i), z.m), Int('ca'), Const('lv', V)

    def phi(s, i):
        z2 = Wiz(eng, s, ctx.wf)
        return z2.partition() + untouched(ctx, s) + [
            z2.w.len(z.box(k)) == z.w.len(z.box(k)) - i,
            ForAll([b], Implies(And(0 <= b, b < z.m, b != k), z2.w.len(z.box(b)) == z.w.len(z.box(b)))),
            ForAll([v], Implies(And(z.holds(v), z.where(v) != k), And(z2.where(v) == z.where(v), z2.pos(v) == z.pos(v)))),
            ForAll([v], Implies(And(z.holds(v), z.where(v) == k), Or(z2.where(v) == k, z2.where(v) == -1)))]
    return phi


def remove_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.remove_input_from_step'] = Contract(out_contract)
    eng.invariants.append(remove_inv)


def remove_post(ctx, s, r):
    eng = ctx.eng
    z, zf = Wiz(eng, ctx.st0, ctx.wf), Wiz(eng, s, ctx.wf)
    k = named(s, 'k', at(V.iv(ctx.i), z.m))
    gone = z.step(k)
    down = lambda x: If(x > k, x - 1, x)
    z2 = Wiz(eng, s, ctx.wf, lambda v: down(zf.where(v)), zf.pos, lambda x: down(z.order(x)), lambda x: down(z.owner(x)))
    a, v = Int('ca'), Const('lv', V)
    before = Wiz(eng, s, ctx.wf)           # the lists as they are now, with the steps as they were
    before.step, before.m, before.order, before.owner = z.step, z.m, z.order, z.owner
    up = lambda x: If(x >= k, x + 1, x)
    facts = before.partition() + [
        And(0 <= k, k < z.m), And(z2.inputs == z.inputs, z2.steps == z.steps, z2.spare == z.spare, z2.n == z.n, z2.m == z.m - 1, zf.w.len(z.box(k)) == 0),
        ForAll([a], Implies(And(0 <= a, a < z.n), z2.inp(a) == z.inp(a)), patterns=[z2.inp(a)]),
        ForAll([a], Implies(And(0 <= a, a < z.m - 1), z2.step(a) == z.step(up(a))), patterns=[z2.step(a)])]
    done = by(s, *facts)
    if done:
        by(s, *[g for _, g in invariant(z2)], only=facts)
    return [('one-step-less', And(0 <= k, k < z.m, z2.m == z.m - 1)),
            ('other-steps-in-order', ForAll([a], Implies(And(0 <= a, a < z.m, a != k), z2.step(down(a)) == z.step(a))))] + invariant(z2) + [
        ('its-inputs-spare', ForAll([v], Implies(And(z.holds(v), z.where(v) == k), z2.where(v) == -1))),
        ('others-stay', ForAll([v], Implies(And(z.holds(v), z.where(v) != k), And(z2.where(v) == down(z.where(v)), z2.pos(v) == z.pos(v))))),
        ('same-inputs', And(z2.n == z.n, z2.w.rd('item', z.inputs) == z.w.rd('item', z.inputs))),
        ('nothing-else-modified', conj(lists_only(ctx, s)))]


def remove_contract(eng, st, env):
    """what is discharged for remove_step"""
    wf, i = (eng.reify(st, x) for x in list(env.values())[:2])
    z = Wiz(eng, st, wf)
    needs(eng, st, z)
    i = V.iv(i)
    out = []
    for s, ok in eng.branch(st, And(-z.m <= i, i < z.m)):
        if not ok:
            out.append((s, Raised('IndexError')))
            continue
        s2 = s.copy()
        k = at(i, z.m)
        old = {hn: eng.havoc_heap(s2, hn) for hn in ('len', 'item', 'a:%where', 'a:%pos', 'a:%order', 'a:%owner')}
        x, v, a = Int('fa'), Const('lv', V), Int('ca')
        for hn in ('len', 'item'):
            h, h2 = old[hn]
            s2.assume(ForAll([x], Implies(Or(x > s.wm, And(x != arg(z.spare, 'r'), x != arg(z.steps, 'r'), Not(is_box(z, x)))), Select(h2, x) == Select(h, x)), patterns=[Select(h2, x)]))
        z2 = Wiz(eng, s2, wf)
        down = lambda x: If(x > k, x - 1, x)
        s2.assume(*z2.partition())
        s2.assume(z2.n == z.n, z2.m == z.m - 1, z.w.rd('item', z.inputs) == z2.w.rd('item', z.inputs))
        s2.assume(ForAll([a], Implies(And(0 <= a, a < z.m, a != k), z2.step(down(a)) == z.step(a)), patterns=[z.step(a)]),
                  ForAll([a], Implies(And(0 <= a, a < z.m - 1), z2.step(a) == z.step(If(a >= k, a + 1, a))), patterns=[z2.step(a)]),
                  ForAll([v], Implies(z.holds(v), z2.where(v) == If(z.where(v) == k, -1, down(z.where(v)))), patterns=[z2.where(v)]))
        out.append((s2, eng.fresh('form', V)))
    return out


def reset_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.st0 = st
    return [wf]


def lists_only(ctx, s):
    """apart from the lists of the wizard and its list of steps, nothing that existed is written"""
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    x = Int('fa')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0) and not hn.startswith('a:%'):
            lists = [x != arg(z.spare, 'r'), x != arg(z.steps, 'r'), Not(is_box(z, x))] if hn in ('len', 'item') else []
            out.append(ForAll([x], Implies(And(x <= Int('WM0'), *lists), Select(h, x) == Select(h0, x))))
    return out


def reset_inv(info):
    ctx, eng = info.eng.ghost, info.eng
    z = Wiz(eng, ctx.st0, ctx.wf)
    info.free = {'len', 'item', 'a:%where', 'a:%pos', 'a:%order', 'a:%owner'}
    a = Int('ca')

    def phi(s, i):
        z2 = Wiz(eng, s, ctx.wf)
        return z2.partition() + lists_only(ctx, s) + [z2.m == z.m - i, z2.w.rd('item', z.inputs) == z.w.rd('item', z.inputs), z2.n == z.n,
                                                      ForAll([a], Implies(And(0 <= a, a < z2.m), z2.step(a) == z.step(a)), patterns=[z2.step(a)])]
    return phi


def reset_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.remove_step'] = Contract(remove_contract)
    eng.invariants.append(reset_inv)


def reset_post(ctx, s, r):
    z, z2 = Wiz(ctx.eng, ctx.st0, ctx.wf), Wiz(ctx.eng, s, ctx.wf)
    v = Const('lv', V)
    return [('no-step', z2.m == 0), ('all-inputs-spare', ForAll([v], Implies(z.holds(v), And(z2.holds(v), z2.where(v) == -1))))] + invariant(z2) + [
        ('nothing-else-modified', conj(lists_only(ctx, s)))]


INVERSE = Function('position_in_order', IntSort(), IntSort())


def order_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.o = param(eng, st, 'order', LIST(INT))
    z = Wiz(eng, st, wf)
    ctx.k = lambda k: V.iv(z.w.item(ctx.o, k))
    # lemma 'injective-is-onto' (below) for this list of numbers: INVERSE is a name for the positions
    j, a, b = Int('oj'), Int('oa'), Int('ob')
    inj = ForAll([a, b], Implies(And(0 <= a, a < b, b < z.m), ctx.k(a) != ctx.k(b)))
    within = ForAll([a], Implies(And(0 <= a, a < z.m), And(0 <= ctx.k(a), ctx.k(a) < z.m)))
    ctx.perm = And(inj, within)
    st.assume(Implies(ctx.perm, ForAll([j], Implies(And(0 <= j, j < z.m), And(0 <= INVERSE(j), INVERSE(j) < z.m, ctx.k(INVERSE(j)) == j)), patterns=[INVERSE(j)])))
    return [wf, ctx.o]


def order_post(ctx, s, r):
    eng = ctx.eng
    z = Wiz(eng, ctx.st0, ctx.wf)
    a, b = Int('oa'), Int('ob')
    inv = lambda x: If(x < 0, x, INVERSE(x))
    by(s, And(*ctx.perm.children()))
    by(s, ForAll([a], Implies(And(0 <= a, a < z.m), INVERSE(ctx.k(a)) == a), patterns=[ctx.k(a)]))
    z2 = Wiz(eng, s, ctx.wf, lambda v: inv(z.where(v)), z.pos, lambda x: INVERSE(z.order(x)), lambda x: INVERSE(z.owner(x)))
    return [('a-permutation', And(z.w.len(ctx.o) == z.m, ctx.perm)),
            ('steps-in-that-order', And(z2.m == z.m, ForAll([a], Implies(And(0 <= a, a < z.m), z2.step(a) == z.step(ctx.k(a))))))] + invariant(z2) + [
        kept(ctx, s, {'a:steps': [arg(ctx.wf, 'r')]})]


def order_refused(ctx, s, r):
    if r.exc != 'ValueError':
        return None
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    return [('not-a-permutation', Not(And(z.w.len(ctx.o) == z.m, ctx.perm))), kept(ctx, s)]


def onto():
    """an injective map of the numbers below n to themselves reaches all of them: induction step (n -> n + 1)"""
    A = z3.ArraySort(IntSort(), IntSort())
    a, n, q = Const('pa', A), Int('pn'), Int('pq')
    x, y, j = Int('px'), Int('py'), Int('pj')
    into = lambda a, n: And(ForAll([x], Implies(And(0 <= x, x < n), And(0 <= Select(a, x), Select(a, x) < n))),
                            ForAll([x, y], Implies(And(0 <= x, x < y, y < n), Select(a, x) != Select(a, y))))
    on = lambda a, n: ForAll([j], Implies(And(0 <= j, j < n), Exists([x], And(0 <= x, x < n, Select(a, x) == j))))
    b = Store(a, q, Select(a, n))        # where n sits, the last value instead
    ih = [Implies(into(c, n), on(c, n)) for c in (a, b)]
    return [n >= 0, into(a, n + 1), Implies(Exists([x], And(0 <= x, x <= n, Select(a, x) == n)), And(0 <= q, q <= n, Select(a, q) == n))] + ih, on(a, n + 1)


# ---- order of the inputs of a step ----
PIPE = M + 'Pipe'


def number_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.v = param(eng, st, 'variable', OBJ(VAR))
    pipes, nbvs = read(eng, st, wf, 'pipes'), read(eng, st, wf, 'nonblock_variables')
    w, j = View(eng, st), Int('pj')
    # an input is a variable that no pipe leads to
    st.assume(Wiz(eng, st, wf).holds(ctx.v), ForAll([j], Implies(And(0 <= j, j < w.len(pipes)), w.attr(w.item(pipes, j), 'output_variable') != ctx.v), patterns=[w.item(pipes, j)]))
    return [wf, ctx.v]


def number_cfg(eng):
    cfg(eng)
    eng.field_types['pipes'] = LIST(OBJ(PIPE))
    eng.field_types['nonblock_variables'] = LIST(OBJ(VAR))
    eng.field_types['input_variable'] = eng.field_types['output_variable'] = OBJ(VAR)
    eng.class_attrs[(PIPE, '=identity')] = True


def number_post(ctx, s, r):
    return [('its-position', r == V.i(IX(ctx.v))), frame(ctx, s)]


def number_contract(eng, st, env):
    wf, v = (eng.reify(st, x) for x in list(env.values())[:2])
    eng.obligate(st, 'an-input', Wiz(eng, st, wf).holds(v))
    return V.i(IX(v))


def sort_setup(ctx, eng, st):
    wf = workflow(ctx, eng, st)
    ctx.i, ctx.o = param(eng, st, 'step_index', INT), param(eng, st, 'order', LIST(INT))
    z = Wiz(eng, st, wf)
    ctx.n = lambda k: V.iv(z.w.item(ctx.o, k))
    return [wf, ctx.i, ctx.o]


def sort_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.input_index'] = pure(number_contract)


def sort_post(ctx, s, r):
    eng = ctx.eng
    z = Wiz(eng, ctx.st0, ctx.wf)
    k = named(s, 'k', at(V.iv(ctx.i), z.m))
    L = z.w.len(z.box(k))
    w2 = View(eng, s)
    mine = w2.attr(z.step(k), 'inputs')
    # where the sorted lists put things: the names of the engine, found in the facts
    fs = int_functions(s.pc, IntSort(), 'sorted')
    frm, to = [f for f in fs if f.name().startswith('sortedfrom')], [f for f in fs if f.name().startswith('sortedto')]
    new_pos = lambda q: q
    for fa, fb in [(a, b) for a in frm for b in to if a.name().split('!')[1] != b.name().split('!')[1]]:
        j = Int('sj')
        cand = ForAll([j], Implies(And(0 <= j, j < L), And(0 <= fa(fb(j)), fa(fb(j)) < L, ctx.n(fa(fb(j))) == IX(z.w.item(z.box(k), j)))))
        if prove(s.pc, cand, 4000)[0] == 'proved':
            s.assume(cand)
            new_pos = lambda q, fa=fa, fb=fb: fa(fb(q))
            break
    z2 = Wiz(eng, s, ctx.wf, z.where, lambda v: If(z.where(v) == k, new_pos(z.pos(v)), z.pos(v)), z.order, lambda l: If(l == mine, k, z.owner(l)))
    return [('in-that-order', And(0 <= k, k < z.m, z.w.len(ctx.o) == L, w2.len(mine) == L, forall_in(0, L, lambda q: And(0 <= ctx.n(q), ctx.n(q) < z.n, w2.item(mine, q) == z.inp(ctx.n(q))))))] + invariant(z2) + [
        kept(ctx, s, {'a:inputs': [arg(z.step(k), 'r')]})]


def sort_refused(ctx, s, r):
    z = Wiz(ctx.eng, ctx.st0, ctx.wf)
    i = V.iv(ctx.i)
    if r.exc == 'IndexError':
        return [('no-such-step', Not(And(-z.m <= i, i < z.m))), kept(ctx, s)]
    if r.exc == 'ValueError':
        return [kept(ctx, s)]


TARGETS = [Target('find_step', WF + '.find_input_step', find_setup, find_post, config=cfg),
           Target('move', WF + '.change_input_step', move_setup, move_post, config=move_cfg, allow_raise=move_refused),
           Target('take_out', WF + '.remove_input_from_step', out_setup, out_post, config=move_cfg, allow_raise=out_refused),
           Target('move_several', WF + '.change_inputs_step', several_setup, several_post, config=several_cfg, allow_raise=several_refused),
           Target('rename', WF + '.rename_step', label_setup, label_post, config=cfg, allow_raise=no_step),
           Target('insert[at]', WF + '.insert_step', insert_setup(True), insert_post, config=cfg),
           Target('insert[end]', WF + '.insert_step', insert_setup(False), insert_post, config=cfg),
           Target('remove', WF + '.remove_step', remove_setup, remove_post, config=remove_cfg, allow_raise=no_step),
           Target('reset', WF + '.reset_steps', reset_setup, reset_post, config=reset_cfg),
           Target('reorder', WF + '.reorder_steps', order_setup, order_post, config=cfg, allow_raise=order_refused),
           Target('number_of_input', WF + '.input_index', number_setup, number_post, config=number_cfg),
           Target('reorder_inputs', WF + '.reorder_step_inputs', sort_setup, sort_post, config=sort_cfg, allow_raise=sort_refused),
           Lemma('injective-is-onto', onto)]
