"""C16 addresses of workflow variables: contracts on the functions that give and follow them."""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame
from contracts.c08 import read
from contracts import c06
from contracts.c06 import WF, VAR, PIPE, BLOCK, FEED, NB, Net, answer, unmodified

BLK, SIDE, PORT = (Function(n, V, IntSort()) for n in ('block_of', 'side_of', 'port_of'))


class Ports(Net):
    def block(self, b):
        return self.w.item(self.blocks, b)

    def ports(self, b, side):
        return self.w.attr(self.block(b), ('inputs', 'outputs')[side])

    def facts(self):
        """every port is one variable, which nothing else is: the ghost functions tell where a variable is"""
        b, i, v = Int('pb'), Int('pi'), Const('pv', V)
        w = self.w
        out = []
        for side in (0, 1):
            l = self.ports(b, side)
            x = w.item(l, i)
            out.append(ForAll([b], Implies(And(0 <= b, b < w.len(self.blocks)), And(w.tag(l, T_LIST), w.len(l) >= 0, arg(l, 'r') <= Int('WM0'))), patterns=[l]))
            out.append(ForAll([b, i], Implies(And(0 <= b, b < w.len(self.blocks), 0 <= i, i < w.len(l)),
                                              And(BLK(x) == b, SIDE(x) == side, PORT(x) == i, NB(x) == -1, V.is_r(x), arg(x, 'r') <= Int('WM0'))), patterns=[x]))
        return Net.facts(self) + out

    def is_port(self, v):
        b, p = BLK(v), PORT(v)
        here = lambda side: And(SIDE(v) == side, p < self.w.len(self.ports(b, side)), self.w.item(self.ports(b, side), p) == v)
        return And(0 <= b, b < self.w.len(self.blocks), 0 <= p, Or(here(0), here(1)))


def setup(*params):
    def f(ctx, eng, st):
        c06.undefined(st)
        wf = ctx.wf = param(eng, st, 'self', OBJ(WF, True))
        for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks'):
            read(eng, st, wf, a)
        z = ctx.z = Ports(eng, st.copy(), wf)
        st.assume(*z.facts())
        k = Int('ek')
        for l in (z.pipes, z.nbv, z.inputs, z.blocks):
            st.assume(z.w.len(l) >= 0, ForAll([k], Implies(And(0 <= k, k < z.w.len(l)), And(V.is_r(z.w.item(l, k)), arg(z.w.item(l, k), 'r') <= Int('WM0'))), patterns=[z.w.item(l, k)]))
        ctx.p = [param(eng, st, n, t) for n, t in params]
        eng.ghost = ctx
        return [wf] + ctx.p
    return f


def cfg(*names):
    def c(eng):
        c06.q_cfg(*names)(eng)
    return c


def parts(ctx, s, r):
    """the elements of a returned tuple"""
    if isinstance(r, tuple):
        return [ctx.eng.reify(s, x) for x in r]
    w = View(ctx.eng, s)
    return [w.item(r, IntVal(i)) for i in range(3)]


def address_post(ctx, s, r):
    z, v = ctx.z, ctx.p[0]
    k = NB(z.source(v))
    if isinstance(r, tuple):
        b, side, p = parts(ctx, s, r)
        return [('block-side-port', And(z.is_port(v), b == V.i(BLK(v)), side == V.i(SIDE(v)), p == V.i(PORT(v)))), frame(ctx, s)]
    return [('number-of-the-free-variable', And(Not(z.is_port(v)), k >= 0, r == V.i(k))), frame(ctx, s)]


def address_raise(ctx, s, r):
    if r.exc == 'WorkflowError':
        z, v = ctx.z, ctx.p[0]
        return [('only-for-a-variable-of-nothing', And(Not(z.is_port(v)), NB(z.source(v)) == -1)), frame(ctx, s)]


def follow_setup(kind):
    def f(ctx, eng, st):
        r = setup()(ctx, eng, st)
        v = ctx.v = param(eng, st, 'variable', OBJ(VAR))
        z = ctx.z
        if kind == 'port':
            st.assume(z.is_port(v))
            index = (V.i(BLK(v)), V.i(SIDE(v)), V.i(PORT(v)))
        else:
            st.assume(NB(v) >= 0)
            index = V.i(NB(v))
        return r + [index]
    return f


def follow_post(ctx, s, r):
    return [('the-variable-of-the-address', r == ctx.v), frame(ctx, s)]


# ---- the same address in a copied workflow ----
STEP = c06.M + 'Step'


def address_contract(eng, st, env):
    """what is discharged above (a WorkflowError for a variable of nothing)"""
    ctx = eng.ghost
    wf, v = [eng.reify(st, x) for x in list(env.values())[:2]]
    if not wf.eq(ctx.wf):
        raise Unsupported('address in another workflow')
    unmodified(eng, st, ctx)
    z = ctx.z
    out = []
    k = NB(z.source(v))
    for s, t in eng.branch(st, z.is_port(v)):
        if t:
            out.append((s.copy(), (V.i(BLK(v)), V.i(SIDE(v)), V.i(PORT(v)))))
        else:
            for s2, t2 in eng.branch(s, k >= 0):
                out.append((s2.copy(), V.i(k) if t2 else Raised('WorkflowError')))
    return out


def step_cfg(eng):
    cfg()(eng)
    eng.contracts[WF + '.variable_indices'] = Contract(address_contract)
    eng.field_types['steps'] = LIST(OBJ(STEP, True))
    eng.field_types['group_inputs'] = LIST(OBJ(VAR))
    for a in ('group_id', 'id_'):
        eng.field_types[a] = STR
    eng.field_types['documentation'] = STR
    eng.field_types['display_variable_index'] = ANY
    eng.field_types['display_setting'] = ANY
    eng.class_attrs[(STEP, '=identity')] = True
    eng.specs['ext:uuid.uuid4'] = lambda e, st, a, k: [(st, V.s(e.fresh('uuid', StringSort())))]
    eng.invariants.append(copied_so_far)


class Image:
    """the variable of the copied workflow at the address of a variable"""

    def __init__(self, ctx, z, cw):
        self.z, self.cw, self.w = z, cw, z.w
        self.blocks, self.nbv = self.w.attr(cw, 'blocks'), self.w.attr(cw, 'nonblock_variables')

    def __call__(self, v):
        w, b = self.w, self.w.item(self.blocks, BLK(v))
        port = lambda side: w.item(w.attr(b, side), PORT(v))
        return If(self.z.is_port(v), If(SIDE(v) == 0, port('inputs'), port('outputs')), w.item(self.nbv, NB(self.z.source(v))))

    def parallel(self):
        """the copied workflow has the same blocks with as many ports, and as many free variables"""
        z, w, b, k, side = self.z, self.w, Int('qb'), Int('qk'), 0
        out = [w.len(self.blocks) == w.len(z.blocks), w.len(self.nbv) == w.len(z.nbv)]
        for s, n in ((0, 'inputs'), (1, 'outputs')):
            l = w.attr(w.item(self.blocks, b), n)
            out.append(ForAll([b], Implies(And(0 <= b, b < w.len(z.blocks)), And(w.tag(l, T_LIST), w.len(l) == w.len(z.ports(b, s)), arg(l, 'r') <= Int('WM0'))), patterns=[l]))
            x = w.item(l, k)
            out.append(ForAll([b, k], Implies(And(0 <= b, b < w.len(z.blocks), 0 <= k, k < w.len(l)), And(V.is_r(x), arg(x, 'r') <= Int('WM0'))), patterns=[x]))
        out.append(ForAll([b], Implies(And(0 <= b, b < w.len(self.blocks)), And(V.is_r(w.item(self.blocks, b)), arg(w.item(self.blocks, b), 'r') <= Int('WM0'))), patterns=[w.item(self.blocks, b)]))
        out.append(ForAll([b], Implies(And(0 <= b, b < w.len(self.nbv)), And(V.is_r(w.item(self.nbv, b)), arg(w.item(self.nbv, b), 'r') <= Int('WM0'))), patterns=[w.item(self.nbv, b)]))
        return out


def copied_setup(what):
    def f(ctx, eng, st):
        r = setup()(ctx, eng, st)
        z = ctx.z
        cw = ctx.cw = param(eng, st, 'copied_workflow', OBJ(WF, True))
        for a in ('nonblock_variables', 'blocks'):
            read(eng, st, cw, a)
        o = ctx.o = param(eng, st, 'original', OBJ(what, True))
        if what == STEP:
            for a in ('inputs', 'group_inputs', 'label', 'group_id', 'documentation', 'id_', 'display_variable_index', 'display_setting'):
                read(eng, st, o, a)
        else:
            for a in ('input_variable', 'output_variable'):
                read(eng, st, o, a)
        z = ctx.z = Ports(eng, st.copy(), ctx.wf)
        ctx.image = Image(ctx, z, cw)
        st.assume(*ctx.image.parallel())
        if what == STEP:
            for a in ('inputs', 'group_inputs'):
                l, k = z.w.attr(o, a), Int('ek')
                x = z.w.item(l, k)
                st.assume(z.w.len(l) >= 0, ForAll([k], Implies(And(0 <= k, k < z.w.len(l)), And(V.is_r(x), arg(x, 'r') <= Int('WM0'), Or(z.is_port(x), NB(z.source(x)) >= 0))), patterns=[x]))
        else:
            for a in ('input_variable', 'output_variable'):
                x = z.w.attr(o, a)
                st.assume(V.is_r(x), arg(x, 'r') <= Int('WM0'), Or(z.is_port(x), NB(z.source(x)) >= 0))
        return r + [cw, o]
    return f


def copied_so_far(info):
    ctx = info.eng.ghost
    if ctx is None or not hasattr(ctx, 'image') or 'group_inputs' not in info.st.env or 'copied_input' in ():
        return None
    which = [a for a in ('inputs', 'group_inputs') if info.it.addr is not None and info.it.addr.eq(arg(ctx.z.w.attr(ctx.o, a), 'r'))]
    if not which:
        return None
    src = ctx.z.w.attr(ctx.o, which[0])
    dst = info.st.env[which[0]]

    def phi(st, i):
        w, j = View(info.eng, st), Int('cj')
        return [w.len(dst) == i, ForAll([j], Implies(And(0 <= j, j < i), w.item(dst, j) == ctx.image(ctx.z.w.item(src, j))))]
    return phi


def copy_step_post(ctx, s, r):
    z, w = ctx.z, View(ctx.eng, s)
    out = []
    for a in ('inputs', 'group_inputs'):
        src, dst = z.w.attr(ctx.o, a), w.attr(r, a)
        j = Int('cj')
        out.append((a, And(w.len(dst) == z.w.len(src), ForAll([j], Implies(And(0 <= j, j < z.w.len(src)), w.item(dst, j) == ctx.image(z.w.item(src, j)))))))
        out.append((a + '-own-list', arg(dst, 'r') > Int('WM0')))
    for a in ('label', 'group_id', 'documentation', 'id_', 'display_variable_index', 'display_setting'):
        if a in ('group_id', 'id_'):
            out.append((a, Implies(V.is_s(z.w.attr(ctx.o, a)), w.attr(r, a) == z.w.attr(ctx.o, a))))
        else:
            out.append((a, w.attr(r, a) == z.w.attr(ctx.o, a)))
    return out + [('a-step-of-its-own', arg(r, 'r') > Int('WM0')), frame(ctx, s)]


def copy_pipe_post(ctx, s, r):
    z, w = ctx.z, View(ctx.eng, s)
    return [(a, w.attr(r, a) == ctx.image(z.w.attr(ctx.o, a))) for a in ('input_variable', 'output_variable')] + [('a-pipe-of-its-own', arg(r, 'r') > Int('WM0')), frame(ctx, s)]


def copy_pipe_refused(ctx, s, r):
    if r.exc == 'CopyError':
        return [('only-from-a-free-variable', Not(ctx.z.is_port(ctx.z.w.attr(ctx.o, 'input_variable')))), frame(ctx, s)]


TARGETS = [
    Target('address', WF + '.variable_indices', setup(c06.VPAR), address_post, config=cfg('get_upstream_nbv'), allow_raise=address_raise),
    Target('follow[port]', WF + '.variable_from_index', follow_setup('port'), follow_post, config=cfg()),
    Target('follow[free]', WF + '.variable_from_index', follow_setup('free'), follow_post, config=cfg()),
    Target('copy_step', WF + '.copy_step', copied_setup(STEP), copy_step_post, config=step_cfg),
    Target('copy_pipe', WF + '.copy_pipe', copied_setup(PIPE), copy_pipe_post, config=step_cfg, allow_raise=copy_pipe_refused),
]
