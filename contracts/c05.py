"""C05 workflow runs: what a variable holds, as an invariant kept by every activation and evaluation.

VAL(v) is the value the workflow gives to variable v: the given (or default) value of an input, the value at the start of
the pipe that ends at v, the value its block computes from the values of its inputs.  The invariant says that whatever
the state remembers is VAL; the ghost counter %count of a block is written by the contract of Block.evaluate only.
"""
from pyvc.verify import *
from pyvc.specs import *
from pyvc import interp as I
from contracts.c01 import frame
from contracts.c08 import read
from contracts import c06
from contracts.c06 import M, WF, VAR, PIPE, BLOCK, UNDEF, FEED, NB, INP, Net, answer, unmodified, kept

WS = M + 'WorkflowState'
VAL = Function('value_of_variable', V, V)
ITEM = Function('item_of_the_workflow', V, BoolSort())
KIND = Function('kind_of_item', V, IntSort())          # 0: variable, 1: pipe, 2: block
PN, BN = Function('number_of_pipe', V, IntSort()), Function('number_of_block', V, IntSort())
RUN = Function('leads_to_the_output', V, BoolSort())
MAP = ArraySort(V, V)
READY = Function('inputs_active', MAP, V, BoolSort())
TRUE = vb(BoolVal(True))


def ForAll(vs, f, patterns=()):
    from contracts.c07 import triggered
    return triggered(vs, f, list(patterns)) if patterns else z3.ForAll(vs, f)


MEM = ('before_block_memory_usage', 'after_block_memory_usage')


class State(Net):
    """a state of a run, in one heap"""

    def __init__(self, eng, st, ws, wf=None):
        w = self.w = View(eng, st)
        self.ws, self.eng, self.st = ws, eng, st
        self.wf = w.attr(ws, 'workflow') if wf is None else wf
        self.A, self.W, self.I = (w.attr(ws, a) for a in ('activated_items', 'values', 'input_values'))
        self.pipes, self.nbv, self.inputs, self.blocks = (w.attr(self.wf, a) for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks'))
        self.output = w.attr(self.wf, 'output')

    # the workflow
    def np(self):
        return self.w.len(self.pipes)

    def nb(self):
        return self.w.len(self.blocks)

    def ni(self):
        return self.w.len(self.inputs)

    def block(self, b):
        return self.w.item(self.blocks, b)

    def input(self, i):
        return self.w.item(self.inputs, i)

    def ports(self, b, side):
        return self.w.attr(b, ('inputs', 'outputs')[side])

    def default(self, i):
        return self.w.attr(self.input(i), 'default_value')

    # the state
    def map(self):
        return self.w.rd('get', self.A)

    def act(self, x):
        return Select(self.map(), x) == TRUE

    def count(self, b):
        return V.iv(self.w.attr(b, '%count'))

    def kept_values(self):
        """what is remembered is what the workflow gives"""
        w, k, i, x = self.w, Int('sk'), Int('si'), Const('sx', V)
        p = self.pipe(k)
        return [('every-item-listed', ForAll([x], Implies(ITEM(x), And(w.has(self.A, x), is_kind(w.get(self.A, x), 'b'))), patterns=[ITEM(x)])),
                ('pipes-carry-their-value', ForAll([k], Implies(And(0 <= k, k < self.np(), self.act(p)), And(w.has(self.W, p), w.get(self.W, p) == VAL(self.start(k)))), patterns=[p])),
                ('values-propagated', ForAll([k], Implies(And(0 <= k, k < self.np(), self.act(self.start(k))), And(self.act(p), self.act(self.end(k)))), patterns=[p])),
                ('fed-by-an-active-pipe', ForAll([k], Implies(And(0 <= k, k < self.np(), self.act(self.end(k))), self.act(p)), patterns=[p])),
                ('output-of-the-run', Implies(And(self.output != V.none, self.act(self.output)), w.attr(self.ws, 'output_value') == VAL(self.output))),
                ('input-values', ForAll([i], Implies(And(0 <= i, i < self.ni()), And(Implies(w.has(self.I, V.i(i)), w.get(self.I, V.i(i)) == VAL(self.input(i))),
                                                                                  Implies(self.act(self.input(i)), w.has(self.I, V.i(i))),
                                                                                  Implies(And(Not(w.has(self.I, V.i(i))), self.default(i) != UNDEF), VAL(self.input(i)) == self.default(i)))), patterns=[self.input(i)]))]

    def kept_blocks(self):
        """evaluated blocks had all their inputs, gave all their outputs, and (those of the main branch) were evaluated once"""
        w, b, i = self.w, Int('sb'), Int('si')
        x = self.block(b)
        out = []
        for side, n in ((0, 'after-its-inputs'), (1, 'outputs-given')):
            l = self.ports(x, side)
            out.append((n, ForAll([b, i], Implies(And(0 <= b, b < self.nb(), 0 <= i, i < w.len(l), self.act(x)), self.act(w.item(l, i))), patterns=[w.item(l, i)])))
        out.append(('evaluated-once', ForAll([b], Implies(And(0 <= b, b < self.nb()), And(self.count(x) >= 0, self.act(x) == (self.count(x) >= 1), Implies(RUN(x), self.count(x) <= 1))), patterns=[x])))
        return out

    def workflow_facts(self):
        """the workflow: ports, pipes and inputs are its variables; inputs are what nothing feeds; VAL is what it computes"""
        w, b, i, k = self.w, Int('sb'), Int('si'), Int('sk')
        x, p, v = self.block(b), self.pipe(k), self.input(i)
        wm = Int('WM0')
        old = lambda y: And(V.is_r(y), 1 <= arg(y, 'r'), arg(y, 'r') <= wm)
        out = Net.facts(self)
        for l in (self.pipes, self.nbv, self.inputs, self.blocks):
            out.append(w.len(l) >= 0)
        out.append(ForAll([b], Implies(And(0 <= b, b < self.nb()), And(ITEM(x), KIND(x) == 2, BN(x) == b, old(x))), patterns=[x]))
        out.append(ForAll([k], Implies(And(0 <= k, k < self.np()), And(ITEM(p), KIND(p) == 1, 0 <= PN(p), PN(p) < self.np(), self.pipe(PN(p)) == p, old(p),
                                                                       ITEM(self.start(k)), KIND(self.start(k)) == 0, old(self.start(k)),
                                                                       ITEM(self.end(k)), KIND(self.end(k)) == 0, old(self.end(k)), INP(self.end(k)) == -1, FEED(self.end(k)) == k,
                                                                       VAL(self.end(k)) == VAL(self.start(k)))), patterns=[p]))
        out.append(ForAll([i], Implies(And(0 <= i, i < self.ni()), And(ITEM(v), KIND(v) == 0, old(v), FEED(v) == -1, INP(v) == i,
                                                                       is_kind(w.attr(v, '_locked'), 'b'), Implies(V.bv(w.attr(v, '_locked')), self.default(i) != UNDEF))), patterns=[v]))
        for side in (0, 1):
            l = self.ports(x, side)
            y = w.item(l, i)
            out.append(ForAll([b], Implies(And(0 <= b, b < self.nb()), And(w.tag(l, T_LIST), w.len(l) >= 0, arg(l, 'r') <= wm, Not(IS_LOG(l)))), patterns=[l]))
            fed = And(Implies(FEED(y) == -1, INP(y) >= 0), Implies(INP(y) >= 0, FEED(y) == -1)) if side == 0 else And(INP(y) == -1, FEED(y) == -1)
            out.append(ForAll([b, i], Implies(And(0 <= b, b < self.nb(), 0 <= i, i < w.len(l)), And(ITEM(y), KIND(y) == 0, old(y), fed)), patterns=[y]))
        return out


IS_LOG = Function('log_of_memory', V, BoolSort())


def cfg(eng):
    eng.name_parts = True
    c06.q_cfg('variable_input_pipe', 'input_index')(eng)
    eng.field_types['workflow'] = OBJ(WF, True)
    eng.field_types['activated_items'] = DICT(ANY, BOOL)
    eng.field_types['values'] = DICT(OBJ(PIPE, True), ANY)
    eng.field_types['input_values'] = DICT(INT, ANY)
    eng.field_types['output'] = OBJ(VAR)     # runs need an output
    eng.field_types['output_value'] = ANY
    eng.field_types['type_'] = ANY
    eng.field_types['execution_info'] = OBJ(M + 'ExecutionInfo', True)
    for a in MEM:
        eng.field_types[a] = LIST(ANY)
    eng.contracts[WF + '.variable_output_pipes'] = Contract(output_pipes)
    eng.invariants.append(loops)


def output_pipes(eng, st, env):
    """discharged in c06: the pipes that start at the variable, all of them"""
    z, v = eng.ghost.z, eng.reify(st, list(env.values())[1])
    unmodified(eng, st, eng.ghost)
    st = st.copy()
    arr, n = eng.fresh('out_pipes', ArraySort(IntSort(), V)), eng.fresh('n_out', IntSort())
    eng.counter += 1
    pos, j, k = Function(f'place_out!{eng.counter}', IntSort(), IntSort()), Int('oj'), Int('ok')
    l = eng.new_seq(st, n, arr, T_LIST, LIST(OBJ(PIPE, True)))
    x, p = Select(arr, j), z.pipe(k)
    st.assume(n >= 0, ForAll([j], Implies(And(0 <= j, j < n), And(0 <= PN(x), PN(x) < z.np(), z.pipe(PN(x)) == x, z.start(PN(x)) == v, arg(x, 'r') <= Int('WM0'), V.is_r(x))), patterns=[x]),
              ForAll([k], Implies(And(0 <= k, k < z.np(), z.start(k) == v), And(0 <= pos(k), pos(k) < n, Select(arr, pos(k)) == p)), patterns=[p]))
    return [(st, l)]


def grown(z, z2):
    """items stay active, and the blocks' activation is untouched"""
    x = Const('gx', V)
    return [ForAll([x], Implies(And(ITEM(x), z.act(x)), z2.act(x)), patterns=[Select(z2.map(), x)]),
            ForAll([x], Implies(KIND(x) == 2, Select(z2.map(), x) == Select(z.map(), x)), patterns=[Select(z2.map(), x)]),
            Implies(z.w.attr(z.ws, 'output_value') == VAL(z.output), z2.w.attr(z.ws, 'output_value') == VAL(z.output))]


def more_given(z, z2):
    x = Const('gx', V)
    return [ForAll([x], Implies(z.w.has(z.I, x), z2.w.has(z2.I, x)), patterns=[z2.w.has(z2.I, x)])]


def activation(eng, st, ws, inputs=False):
    """the effect of an activation: the two dictionaries of the state (and its output) are rewritten -> state, before, after"""
    st = st.copy()
    z = State(eng, st.copy(), ws)
    for d in (z.A, z.W) + ((z.I,) if inputs else ()):
        for h in ('has', 'get', 'idx', 'len', 'item'):
            eng.sto(st, h, arg(d, 'r'), eng.fresh('run_' + h, st.h(h).sort().range()))
        eng.dict_wf(st, arg(d, 'r'))
    st.h('a:output_value')
    eng.sto(st, 'a:output_value', arg(ws, 'r'), eng.fresh('run_output', V))
    z2 = State(eng, st.copy(), ws)
    st.assume(*[f for _, f in z2.kept_values()], *grown(z, z2))
    if inputs:
        st.assume(*more_given(z, z2))
    wm = eng.fresh('wmc', IntSort())
    st.assume(wm >= st.wm)
    st.wm = wm
    return st, z, z2


def needs(eng, st, z, blocks=False):
    for n, f in z.kept_values() + (z.kept_blocks() if blocks else []):
        eng.obligate(st, 'needed:' + n, f)


def may_activate(z, v):
    return And(ITEM(v), KIND(v) == 0, Implies(FEED(v) >= 0, z.act(z.pipe(FEED(v)))), Implies(INP(v) >= 0, And(INP(v) < z.ni(), z.w.has(z.I, V.i(INP(v))))))


def variable_contract(eng, st, env):
    ws, v, x = [eng.reify(st, y) for y in list(env.values())[:3]]
    z = State(eng, st, ws)
    needs(eng, st, z)
    eng.obligate(st, 'a-variable-that-may-be-active', may_activate(z, v))
    eng.obligate(st, 'its-value', x == VAL(v))
    st, z, z2 = activation(eng, st, ws)
    st.assume(z2.act(v))
    return [(st, V.none)]


def pipe_contract(eng, st, env):
    ws, p, x = [eng.reify(st, y) for y in list(env.values())[:3]]
    z = State(eng, st, ws)
    needs(eng, st, z)
    k = PN(p)
    eng.obligate(st, 'a-pipe-of-the-workflow', And(0 <= k, k < z.np(), z.pipe(k) == p))
    eng.obligate(st, 'its-value', x == VAL(z.start(k)))
    st, z, z2 = activation(eng, st, ws)
    st.assume(z2.act(p), z2.act(z2.end(k)))
    return [(st, V.none)]


def run_state(ctx, eng, st, blocks=True):
    c06.undefined(st)
    ws = ctx.ws = param(eng, st, 'self', OBJ(WS, True))
    wf = ctx.wf = read(eng, st, ws, 'workflow')
    for a in ('activated_items', 'values', 'input_values', 'output_value', 'execution_info'):
        read(eng, st, ws, a)
    for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks', 'output'):
        read(eng, st, wf, a)
    for h in ('a:input_variable', 'a:output_variable', 'a:inputs', 'a:outputs', 'a:%count', 'a:default_value', 'a:_locked'):
        st.h(h)
    z = State(eng, st.copy(), ws)
    w = z.w
    st.assume(*z.workflow_facts(), *[f for _, f in z.kept_values()], *([f for _, f in z.kept_blocks()] if blocks else []))
    ds = [arg(d, 'r') for d in (z.A, z.W, z.I)]
    st.assume(z3.Distinct(*ds), *[And(d >= 1, d <= Int('WM0')) for d in ds])
    st.assume(*[Not(IS_LOG(l)) for l in (z.pipes, z.nbv, z.inputs, z.blocks)])
    st.assume(Implies(z.output != V.none, And(ITEM(z.output), KIND(z.output) == 0)))
    ei = w.attr(ws, 'execution_info')
    logs = [read(eng, st, ei, a) for a in MEM]
    st.assume(*[And(IS_LOG(l), arg(l, 'r') <= Int('WM0')) for l in logs])
    ctx.logs = [arg(l, 'r') for l in logs]
    ctx.z = State(eng, st.copy(), ws)
    eng.ghost = ctx
    return ws


def free(ctx, *more):
    z = ctx.z
    d = [arg(z.A, 'r'), arg(z.W, 'r')] + [arg(x, 'r') for x in more]
    return {**{h: d for h in ('has', 'get', 'idx', 'len', 'item')}, 'a:output_value': [arg(ctx.ws, 'r')]}


def after(ctx, s):
    return State(ctx.eng, s, ctx.ws)


def activated(ctx, s, z2):
    return z2.kept_values() + list(zip(('active-ones-stay', 'blocks-untouched', 'output-stays'), grown(ctx.z, z2)))


def variable_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st, blocks=False)
    v, x = param(eng, st, 'variable', OBJ(VAR)), param(eng, st, 'value', ANY)
    ctx.v = v
    st.assume(may_activate(ctx.z, v), x == VAL(v))
    return [ws, v, x]


def variable_post(ctx, s, r):
    z2 = after(ctx, s)
    return activated(ctx, s, z2) + [('active', z2.act(ctx.v)), kept(ctx, s, free(ctx))]


def pipe_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st, blocks=False)
    p, x = param(eng, st, 'pipe', OBJ(PIPE, True)), param(eng, st, 'value', ANY)
    ctx.p = p
    z, k = ctx.z, PN(p)
    read(eng, st, p, 'output_variable')
    st.assume(0 <= k, k < z.np(), z.pipe(k) == p, x == VAL(z.start(k)))
    return [ws, p, x]


def pipe_post(ctx, s, r):
    z2 = after(ctx, s)
    return activated(ctx, s, z2) + [('active', And(z2.act(ctx.p), z2.act(ctx.z.end(PN(ctx.p))))), kept(ctx, s, free(ctx))]


def loops(info):
    ctx = info.eng.ghost
    if ctx is None or info.func is None:
        return None
    f = LOOPS.get(info.func.split('.')[-1])
    return f(ctx, info) if f else None


def over_pipes(ctx, info):
    """activating the pipes of a list, one after the other"""
    eng = info.eng
    if info.it.addr is None:
        return None
    l = V.r(info.it.addr)
    z0 = State(eng, info.st, ctx.ws)

    def phi(st, i):
        z, j = State(eng, st, ctx.ws), Int('lj')
        p = z0.w.item(l, j)
        return [f for _, f in z.kept_values()] + grown(z0, z) + [ForAll([j], Implies(And(0 <= j, j < i), And(z.act(p), z.act(z.end(PN(p))))), patterns=[p])]
    return phi


# ---- the outputs of an evaluated block ----
def output_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st, blocks=False)
    b = ctx.b = param(eng, st, 'block', OBJ(BLOCK))
    o = ctx.o = param(eng, st, 'output_values', LIST(ANY))
    z, j = ctx.z, Int('oj')
    read(eng, st, b, 'outputs')
    outs = z.ports(b, 1)
    st.assume(0 <= BN(b), BN(b) < z.nb(), z.block(BN(b)) == b, z.w.len(o) >= z.w.len(outs),
              ForAll([j], Implies(And(0 <= j, j < z.w.len(outs)), z.w.item(o, j) == VAL(z.w.item(outs, j))), patterns=[z.w.item(outs, j)]))
    return [ws, b, o]


def block_activated(z, z2, b):
    """items stay active, and the activation of the other blocks is untouched"""
    x, j = Const('gx', V), Int('oj')
    y = z.w.item(z.ports(b, 1), j)
    return [('active-ones-stay', ForAll([x], Implies(And(ITEM(x), z.act(x)), z2.act(x)), patterns=[Select(z2.map(), x)])),
            ('other-blocks-untouched', ForAll([x], Implies(And(KIND(x) == 2, x != b), Select(z2.map(), x) == Select(z.map(), x)), patterns=[Select(z2.map(), x)])),
            ('block-active', z2.act(b)),
            ('outputs-active', ForAll([j], Implies(And(0 <= j, j < z.w.len(z.ports(b, 1))), z2.act(y)), patterns=[y]))]


def output_post(ctx, s, r):
    z2 = after(ctx, s)
    return z2.kept_values() + block_activated(ctx.z, z2, ctx.b) + [kept(ctx, s, free(ctx))]


def over_outputs(ctx, info):
    eng = info.eng
    z0 = State(eng, info.st, ctx.ws)

    def phi(st, i):
        z, j = State(eng, st, ctx.ws), Int('lj')
        y = z0.w.item(z0.ports(ctx.b, 1), j)
        return [f for _, f in z.kept_values()] + grown(z0, z) + [ForAll([j], Implies(And(0 <= j, j < i), z.act(y)), patterns=[y])]
    return phi


def output_contract(eng, st, env):
    ws, b, o = [eng.reify(st, y) for y in list(env.values())[:3]]
    z, j = State(eng, st, ws), Int('oj')
    needs(eng, st, z)
    outs = z.ports(b, 1)
    eng.obligate(st, 'a-block-of-the-workflow', And(0 <= BN(b), BN(b) < z.nb(), z.block(BN(b)) == b))
    eng.obligate(st, 'a-value-per-output', And(z.w.len(o) >= z.w.len(outs), ForAll([j], Implies(And(0 <= j, j < z.w.len(outs)), z.w.item(o, j) == VAL(z.w.item(outs, j))))))
    st, z, z2 = block_activation(eng, st, ws, b)
    return [(st, V.none)]


def block_activation(eng, st, ws, b):
    st = st.copy()
    z = State(eng, st.copy(), ws)
    for d in (z.A, z.W):
        for h in ('has', 'get', 'idx', 'len', 'item'):
            eng.sto(st, h, arg(d, 'r'), eng.fresh('run_' + h, st.h(h).sort().range()))
        eng.dict_wf(st, arg(d, 'r'))
    eng.sto(st, 'a:output_value', arg(ws, 'r'), eng.fresh('run_output', V))
    z2 = State(eng, st.copy(), ws)
    st.assume(*[f for _, f in z2.kept_values()], *[f for _, f in block_activated(z, z2, b)])
    wm = eng.fresh('wmc', IntSort())
    st.assume(wm >= st.wm)
    st.wm = wm
    return st, z, z2


# ---- a given value ----
def input_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st, blocks=False)
    v, x = param(eng, st, 'input_', OBJ(VAR)), param(eng, st, 'value', ANY)
    ctx.v, z = v, ctx.z
    read(eng, st, v, 'type_')
    st.assume(0 <= INP(v), INP(v) < z.ni(), z.input(INP(v)) == v, x == VAL(v))
    return [ws, v, x]


def type_check(eng, st, env):
    """reads its arguments; a value of another type is refused with TypeError"""
    ok = eng.fresh('fits', BoolSort())
    return [(s.copy(), TRUE if t else I.Raised('TypeError')) for s, t in eng.branch(st, ok)]


def given(z, z2, v):
    """the value of the input is listed, as it is for the inputs that were"""
    x = Const('gx', V)
    return [('its-value-listed', z2.w.has(z.I, V.i(INP(v)))), ('given-ones-stay', more_given(z, z2)[0]),
            ('other-inputs-untouched', ForAll([x], Implies(x != V.i(INP(v)), And(z2.w.has(z.I, x) == z.w.has(z.I, x), z2.w.get(z.I, x) == z.w.get(z.I, x)))))]


def input_post(ctx, s, r):
    z2 = after(ctx, s)
    return activated(ctx, s, z2) + given(ctx.z, z2, ctx.v) + [('active', z2.act(ctx.v)), kept(ctx, s, free(ctx, ctx.z.I))]


def input_refused(ctx, s, r):
    if r.exc == 'TypeError':
        return [frame(ctx, s)]


def input_contract(eng, st, env):
    ws, v, x = [eng.reify(st, y) for y in list(env.values())[:3]]
    z = State(eng, st, ws)
    needs(eng, st, z)
    eng.obligate(st, 'an-input', And(0 <= INP(v), INP(v) < z.ni(), z.input(INP(v)) == v))
    eng.obligate(st, 'its-value', x == VAL(v))
    bad = st.copy()
    fits = eng.fresh('fits', BoolSort())
    bad.assume(Not(fits))
    st, z, z2 = activation(eng, st, ws, inputs=True)
    st.assume(fits, z2.act(v), *[f for _, f in given(z, z2, v)])
    return [(st, V.none), (bad, I.Raised('TypeError'))]


# ---- the values of the inputs ----
def provided(z, i):
    """input i has a value, given or by default"""
    return Or(z.w.has(z.I, V.i(i)), z.default(i) != UNDEF)


def inputs_setup(check):
    def f(ctx, eng, st):
        ws = run_state(ctx, eng, st, blocks=False)
        ctx.check = vb(BoolVal(check))
        return [ws, ctx.check]
    return f


def inputs_post(check):
    def f(ctx, s, r):
        z, z2, i = ctx.z, after(ctx, s), Int('ii')
        v = z.input(i)
        out = activated(ctx, s, z2) + [('given-ones-stay', more_given(z, z2)[0])]
        out.append(('provided-ones-active', ForAll([i], Implies(And(0 <= i, i < z.ni(), BoolVal(True) if check else provided(z, i)), z2.act(v)), patterns=[v])))
        return out + [kept(ctx, s, free(ctx, z.I))]
    return f


def inputs_refused(check):
    def f(ctx, s, r):
        if r.exc == 'TypeError':
            return [('kept:' + n, g) for n, g in after(ctx, s).kept_values()]
        if r.exc == 'ValueError' and check:
            z, i = ctx.z, Int('ii')
            return [('only-when-a-value-is-missing', z3.Exists([i], And(0 <= i, i < z.ni(), Not(provided(z, i)))))] + [('kept:' + n, g) for n, g in after(ctx, s).kept_values()]
    return f


def over_inputs(ctx, info):
    eng = info.eng
    z0 = State(eng, info.st, ctx.ws)
    must = info.st.env.get('check_all_inputs')

    def phi(st, i):
        z, j, x = State(eng, st, ctx.ws), Int('lj'), Const('gx', V)
        y = z0.input(j)
        req = V.bv(must) if must is not None and z3.is_expr(must) else BoolVal(False)
        return [f for _, f in z.kept_values()] + grown(z0, z) + more_given(z0, z) + [
            ForAll([j], Implies(And(0 <= j, j < i), And(Implies(Or(req, provided(z0, j)), z.act(y)), Implies(req, provided(z0, j)))), patterns=[y]),
            ForAll([j], Implies(And(i <= j, j < z0.ni()), z.w.has(z.I, V.i(j)) == z0.w.has(z0.I, V.i(j))), patterns=[z.w.has(z.I, V.i(j))])]
    return phi


def a_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._activate_input'] = Contract(input_contract)


def inputs_contract(eng, st, env):
    ws, check = [eng.reify(st, y) for y in list(env.values())[:2]]
    z0 = State(eng, st.copy(), ws)
    needs(eng, st, z0)
    i = Int('ii')
    v = z0.input(i)
    out = []
    bad, z, z2 = activation(eng, st, ws, inputs=True)
    kind = eng.fresh('refused', IntSort())
    bad.assume(kind == 1)
    out.append((bad, I.Raised('TypeError')))
    st, z, z2 = activation(eng, st, ws, inputs=True)
    st.assume(kind == 0, ForAll([i], Implies(And(0 <= i, i < z0.ni(), Or(V.bv(check), provided(z0, i))), z2.act(v)), patterns=[v]))
    out.append((st, V.none))
    c = simplify(V.bv(check))
    if not z3.is_false(c):
        b2, z, z2 = activation(eng, st, ws, inputs=True)
        b2.assume(kind == 2, c, z3.Exists([i], And(0 <= i, i < z0.ni(), Not(provided(z0, i)))))
        out.append((b2, I.Raised('ValueError')))
    return out


# ---- which blocks can be evaluated ----
def ready_def(st, z):
    """READY(map, b): the inputs of the block are active in that map"""
    b, i, g = Int('rb'), Int('ri'), z.map()
    x = z.block(b)
    l = z.ports(x, 0)
    st.assume(ForAll([b], Implies(And(0 <= b, b < z.nb()), READY(g, x) == z3.ForAll([i], Implies(And(0 <= i, i < z.w.len(l)), Select(g, z.w.item(l, i)) == TRUE))), patterns=[READY(g, x)]))


def all_active(z, b):
    i = Int('ri')
    l = z.ports(b, 0)
    return ForAll([i], Implies(And(0 <= i, i < z.w.len(l)), z.act(z.w.item(l, i))), patterns=[z.w.item(l, i)])


def a_block(z, b):
    return And(0 <= BN(b), BN(b) < z.nb(), z.block(BN(b)) == b)


def ready_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    b = ctx.b = param(eng, st, 'block', OBJ(BLOCK))
    read(eng, st, b, 'inputs')
    st.assume(a_block(ctx.z, b))
    return [ws, b]


def ready_post(ctx, s, r):
    return [('all-inputs-active', r == vb(all_active(ctx.z, ctx.b))), frame(ctx, s)]


def ready_contract(eng, st, env):
    ws, b = [eng.reify(st, y) for y in list(env.values())[:2]]
    z = State(eng, st, ws)
    eng.obligate(st, 'a-block-of-the-workflow', a_block(z, b))
    return vb(READY(z.map(), b))


def can_run(z, b):
    return And(READY(z.map(), b), Or(Not(z.act(b)), Not(RUN(b))))


def activable_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    ready_def(st, ctx.z)
    return [ws]


def activable_post(ctx, s, r):
    z, w = ctx.z, View(ctx.eng, s)
    return filter_goals(s, 'G_activable', z.nb(), lambda b: can_run(z, z.block(b)), z.block, w.len(r), lambda j: w.item(r, j)) + [frame(ctx, s)]


def activable_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._block_activable_by_inputs'] = pure(ready_contract)
    eng.contracts[WF + '.is_block_secondary'] = pure(lambda e, st, env: vb(Not(RUN(e.reify(st, list(env.values())[1])))))


# ---- one evaluation ----
def fed_correctly(z, w, d, b):
    """the values handed to a block are, for every input, the one the workflow gives"""
    i = Int('ei')
    x = z.w.item(z.ports(b, 0), i)
    return ForAll([i], Implies(And(0 <= i, i < z.w.len(z.ports(b, 0))), And(w.has(d, x), w.get(d, x) == VAL(x))), patterns=[x])


def evaluate_contract(eng, st, env):
    """assumed of every block: evaluate returns one value per output, the ones the workflow gives for these inputs; it leaves
    the workflow and the state alone; or it fails.  What it is given is an obligation, and every call that returns is counted."""
    args = [eng.reify(st, y) for y in list(env.values())[:2]]
    b, d = args
    ctx = eng.ghost
    z, j = State(eng, st, ctx.ws), Int('oj')
    eng.obligate(st, 'values-along-the-pipes', fed_correctly(z, z.w, d, b))
    eng.obligate(st, 'not-evaluated-before', Implies(RUN(b), z.count(b) == 0))
    failed = st.copy()
    st = st.copy()
    n0 = z.count(b)
    eng.sto(st, 'a:%count', arg(b, 'r'), V.i(n0 + 1))
    outs = z.ports(b, 1)
    arr, n = eng.fresh('block_out', ArraySort(IntSort(), V)), eng.fresh('n_block_out', IntSort())
    l = eng.new_seq(st, n, arr, T_LIST, LIST(ANY))
    w = z.w
    st.assume(n >= w.len(outs), ForAll([j], Implies(And(0 <= j, j < n), Implies(V.is_r(Select(arr, j)), arg(Select(arr, j), 'r') <= st.wm)), patterns=[Select(arr, j)]),
              ForAll([j], Implies(And(0 <= j, j < w.len(outs)), Select(arr, j) == VAL(w.item(outs, j))), patterns=[w.item(outs, j)]))
    return [(st, l), (failed, I.Raised('BlockFailure'))]


def progress(eng, st, o):
    """assumed: a number; the only thing written is the end time of the run"""
    st = st.copy()
    a = arg(View(eng, st).attr(o, 'execution_info'), 'r')
    st.h('a:end_time')
    eng.sto(st, 'a:end_time', a, eng.fresh('end_time', V))
    return [(st, V.f(eng.fresh('progress', RealSort())))]


def evaluation_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    b = ctx.b = param(eng, st, 'block', OBJ(BLOCK))
    read(eng, st, b, 'inputs')
    read(eng, st, b, 'outputs')
    z = ctx.z
    st.assume(a_block(z, b), all_active(z, b), Implies(RUN(b), Not(z.act(b))))
    return [ws, b], {}


def e_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._activate_variable'] = Contract(variable_contract)
    eng.contracts[WS + '._activate_block'] = Contract(output_contract)
    eng.contracts[BLOCK + '.evaluate'] = Contract(evaluate_contract)
    eng.class_attrs[(WS, 'progress')] = progress
    eng.specs['ext:psutil.Process'] = eng.specs['ext:psutil.Process.memory_info'] = lambda e, st, a, k: [(st, I.EExt('psutil.Process'))]
    builtin_int = eng.specs.get('int')
    eng.specs['int'] = lambda e, st, a, k: [(st, V.i(e.fresh('memory', IntSort())))] if isinstance(a[0], I.EExt) else e.bm.call_builtin(e, st, I.EBuiltin('int'), a, k)


def over_block_inputs(ctx, info):
    eng = info.eng
    z0 = State(eng, info.st, ctx.ws)
    b = ctx.b
    d = info.st.env['local_values']

    def phi(st, i):
        z, j, x = State(eng, st, ctx.ws), Int('lj'), Const('gx', V)
        y = z0.w.item(z0.ports(b, 0), j)
        return [f for _, f in z.kept_values()] + grown(z0, z) + [
            ForAll([j], Implies(And(0 <= j, j < i), And(z.w.has(d, y), z.w.get(d, y) == VAL(y))), patterns=[y])]
    return phi


def evaluated(z, z2, b):
    """one more evaluation of the block, none of the others"""
    x = Const('gx', V)
    return [('counted-once', z2.count(b) == z.count(b) + 1), ('others-not-counted', ForAll([x], Implies(And(KIND(x) == 2, V.is_r(x), x != b), z2.count(x) == z.count(x)), patterns=[z2.w.attr(x, '%count')]))]


def evaluation_free(ctx):
    f = free(ctx)
    for h in ('len', 'item'):
        f[h] = f[h] + ctx.logs
    return {**f, 'a:end_time': [arg(ctx.z.w.attr(ctx.ws, 'execution_info'), 'r')]}


def evaluation_post(ctx, s, r):
    z, z2, w, j = ctx.z, after(ctx, s), View(ctx.eng, s), Int('oj')
    outs = z.ports(ctx.b, 1)
    return z2.kept_values() + z2.kept_blocks() + block_activated(z, z2, ctx.b) + evaluated(z, z2, ctx.b) + [
        ('values-of-the-outputs', ForAll([j], Implies(And(0 <= j, j < z.w.len(outs)), w.item(r, j) == VAL(z.w.item(outs, j))))), kept(ctx, s, evaluation_free(ctx))]



def evaluation_failed(ctx, s, r):
    if r.exc == 'BlockFailure':
        z2 = after(ctx, s)
        return [('kept:' + n, g) for n, g in z2.kept_values() + z2.kept_blocks()] + [('unchanged:' + n, g) for n, g in zip(('active-ones-stay', 'blocks-untouched', 'output-stays'), grown(ctx.z, z2))] + [kept(ctx, s, evaluation_free(ctx))]


def touch(eng, st, ws, logs):
    """what an evaluation writes besides the two dictionaries: the counters, the memory logs, the end of the run"""
    z = View(eng, st)
    ei = z.attr(ws, 'execution_info')
    st.h('a:end_time'), st.h('a:%count')
    eng.sto(st, 'a:end_time', arg(ei, 'r'), eng.fresh('end_time', V))
    for a in logs:
        for h in ('len', 'item'):
            eng.sto(st, h, a, eng.fresh('log_' + h, st.h(h).sort().range()))
        st.assume(eng.sel(st, 'len', a) >= 0)


def recount(eng, st, z, b):
    """the counters after: one more for b, or the same for all (b None)"""
    c = eng.fresh('counters', st.h('a:%count').sort())
    x = Const('gx', V)
    st.assume(ForAll([x], Implies(And(KIND(x) == 2, V.is_r(x), *([x != b] if b is not None else [])), Select(c, arg(x, 'r')) == Select(st.h('a:%count'), arg(x, 'r'))), patterns=[Select(c, arg(x, 'r'))]))
    if b is not None:
        st.assume(Select(c, arg(b, 'r')) == V.i(z.count(b) + 1))
    st.heap['a:%count'] = c


def evaluation_contract(eng, st, env):
    ctx = eng.ghost
    ws, b = [eng.reify(st, y) for y in list(env.values())[:2]]
    z0 = State(eng, st.copy(), ws)
    needs(eng, st, z0, blocks=True)
    eng.obligate(st, 'a-block-of-the-workflow', a_block(z0, b))
    eng.obligate(st, 'its-inputs-active', all_active(z0, b))
    eng.obligate(st, 'not-evaluated-before', Implies(RUN(b), Not(z0.act(b))))
    st.h('a:%count')
    good, z, _ = block_activation(eng, st, ws, b)
    touch(eng, good, ws, ctx.logs)
    eng.sto(good, 'a:%count', arg(b, 'r'), V.i(z0.count(b) + 1))
    z2 = State(eng, good.copy(), ws)
    good.assume(*[f for _, f in z2.kept_values()], *[f for _, f in z2.kept_blocks()])
    bad, z, _ = activation(eng, st, ws)
    touch(eng, bad, ws, ctx.logs)
    z2 = State(eng, bad.copy(), ws)
    bad.assume(*[f for _, f in z2.kept_values()], *[f for _, f in z2.kept_blocks()])
    l = eng.new_seq(good, eng.fresh('n_outs', IntSort()), eng.fresh('outs', ArraySort(IntSort(), V)), T_LIST, LIST(ANY))
    return [(good, l), (bad, I.Raised('BlockFailure'))]


def activable_contract(eng, st, env):
    """discharged as 'activable': the blocks that can run, all of them"""
    ws = eng.reify(st, list(env.values())[0])
    log, eng.read_log = eng.read_log, None      # the clauses are about locations of the workflow and of the state, none newer
    z = State(eng, st.copy(), ws)
    needs(eng, st, z, blocks=True)
    st = st.copy()
    ready_def(st, z)
    eng.read_log = log
    arr, n = eng.fresh('activable', ArraySort(IntSort(), V)), eng.fresh('n_activable', IntSort())
    eng.counter += 1
    pos, j, b = Function(f'place_act!{eng.counter}', IntSort(), IntSort()), Int('aj'), Int('ab')
    l = eng.new_seq(st, n, arr, T_LIST, LIST(OBJ(BLOCK)))
    x, y = Select(arr, j), z.block(b)
    st.assume(n >= 0, ForAll([j], Implies(And(0 <= j, j < n), And(a_block(z, x), can_run(z, x), KIND(x) == 2, V.is_r(x), arg(x, 'r') <= Int('WM0'))), patterns=[x]),
              ForAll([b], Implies(And(0 <= b, b < z.nb(), can_run(z, y)), And(0 <= pos(b), pos(b) < n, Select(arr, pos(b)) == y)), patterns=[y]))
    return [(st, l)]


CALLBACK = I.EExt('callback')


def block_run_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    i = ctx.index = param(eng, st, 'block_index', INT)
    z = ctx.z
    st.assume(0 <= V.iv(i), V.iv(i) < z.nb())
    ctx.b = z.block(V.iv(i))
    ready_def(st, z)
    return [ws, i, CALLBACK]


def run_effect(z, z2, b):
    """the effect of block_evaluation for each answer: [(name, formula)] for True, for False"""
    x = Const('gx', V)
    outs = block_activated(z, z2, b)
    stay = [('active-ones-stay', outs[0][1]), ('given-ones-stay', more_given(z, z2)[0])]
    yes = stay + outs[1:] + evaluated(z, z2, b)
    no = stay + [('blocks-untouched', grown(z, z2)[1]),
                 ('none-counted', ForAll([x], Implies(And(KIND(x) == 2, V.is_r(x)), z2.count(x) == z.count(x)), patterns=[z2.w.attr(x, '%count')])),
                 ('it-cannot-run', Not(can_run(z2, b))), ('it-could-not', Not(can_run(z, b)))]
    return yes, no


def run_free(ctx):
    f = evaluation_free(ctx)
    for h in ('has', 'get', 'idx', 'len', 'item'):
        f[h] = f[h] + [arg(ctx.z.I, 'r')]
    return f


def block_run_post(ctx, s, r):
    z, z2 = ctx.z, after(ctx, s)
    ready_def(s, z2)
    yes, no = run_effect(z, z2, ctx.b)
    t = V.bv(r)
    out = [('a-truth-value', is_kind(r, 'b'))] + z2.kept_values() + z2.kept_blocks()
    return out + [('yes:' + n, Implies(t, g)) for n, g in yes] + [('no:' + n, Implies(Not(t), g)) for n, g in no] + [kept(ctx, s, run_free(ctx))]


def run_refused(ctx, s, r):
    """a value of the wrong type or a block that fails: the run can be taken up again, nothing is counted"""
    if r.exc in ('TypeError', 'BlockFailure'):
        z, z2 = ctx.z, after(ctx, s)
        return [('kept:' + n, g) for n, g in z2.kept_values() + z2.kept_blocks()] + [('active-ones-stay', block_activated(z, z2, V.none)[0][1])]


def r_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '.activate_inputs'] = Contract(inputs_contract)
    eng.contracts[WS + '._activable_blocks'] = Contract(activable_contract)
    eng.contracts[WS + '._evaluate_block'] = Contract(evaluation_contract)
    eng.class_attrs[(WS, 'progress')] = progress
    eng.specs['ext:callback'] = lambda e, st, a, k: [(st, V.none)]


# ---- a whole run ----
def block_run_contract(eng, st, env):
    ctx = eng.ghost
    ws, i = [eng.reify(st, y) for y in list(env.values())[:2]]
    z = State(eng, st.copy(), ws)
    needs(eng, st, z, blocks=True)
    k = V.iv(i)
    b = z.block(k)
    eng.obligate(st, 'index-of-a-block', And(0 <= k, k < z.nb()))
    st.h('a:%count')
    out = []
    for kind in ('yes', 'no', 'TypeError', 'BlockFailure'):
        s = st.copy()
        for d in (z.A, z.W, z.I):
            for h in ('has', 'get', 'idx', 'len', 'item'):
                eng.sto(s, h, arg(d, 'r'), eng.fresh('run_' + h, s.h(h).sort().range()))
            eng.dict_wf(s, arg(d, 'r'))
        s.h('a:output_value')
        eng.sto(s, 'a:output_value', arg(ws, 'r'), eng.fresh('run_output', V))
        touch(eng, s, ws, ctx.logs)
        recount(eng, s, z, b if kind == 'yes' else None)
        z2 = State(eng, s.copy(), ws)
        ready_def(s, z)
        ready_def(s, z2)
        s.assume(*[f for _, f in z2.kept_values()], *[f for _, f in z2.kept_blocks()])
        wm = eng.fresh('wmc', IntSort())
        s.assume(wm >= s.wm)
        s.wm = wm
        if kind in ('yes', 'no'):
            s.assume(*[f for _, f in run_effect(z, z2, b)[kind == 'no']])
            out.append((s, vb(BoolVal(kind == 'yes'))))
        else:
            s.assume(block_activated(z, z2, V.none)[0][1])
            out.append((s, I.Raised(kind)))
    return out


def runtime_blocks(eng, st, o):
    """RUN is by definition membership in this list, which starts with the block of the output"""
    ctx = eng.ghost
    z = ctx.z
    st = st.copy()
    arr, n = eng.fresh('runtime', ArraySort(IntSort(), V)), eng.fresh('n_runtime', IntSort())
    eng.counter += 1
    pos, j, b = Function(f'place_run!{eng.counter}', IntSort(), IntSort()), Int('rj'), Int('rb')
    l = eng.new_seq(st, n, arr, T_LIST, LIST(OBJ(BLOCK)))
    x, y = Select(arr, j), z.block(b)
    st.assume(n >= 1, ForAll([j], Implies(And(0 <= j, j < n), And(a_block(z, x), RUN(x), KIND(x) == 2, V.is_r(x), arg(x, 'r') <= Int('WM0'))), patterns=[x]),
              ForAll([b], Implies(And(0 <= b, b < z.nb(), RUN(y)), And(0 <= pos(b), pos(b) < n, Select(arr, pos(b)) == y)), patterns=[y]))
    return [(st, l)]


def continue_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    ready_def(st, ctx.z)
    return [ws, CALLBACK, param(eng, st, 'export', BOOL)]


def stuck(z):
    """no block of the run is left that could be evaluated"""
    b = Int('cb')
    x = z.block(b)
    return ForAll([b], Implies(And(0 <= b, b < z.nb(), RUN(x)), Not(And(READY(z.map(), x), Not(z.act(x))))), patterns=[x])


def continue_post(ctx, s, r):
    z, z2, i = ctx.z, after(ctx, s), Int('ii')
    ready_def(s, z2)
    v = z.input(i)
    return z2.kept_values() + z2.kept_blocks() + [
        ('active-ones-stay', block_activated(z, z2, V.none)[0][1]), ('given-ones-stay', more_given(z, z2)[0]),
        ('nothing-left-to-evaluate', stuck(z2)),
        ('provided-ones-active', ForAll([i], Implies(And(0 <= i, i < z.ni(), provided(z, i)), z2.act(v)), patterns=[v])), kept(ctx, s, run_free(ctx))]


def over_blocks(ctx, info):
    """both loops of continue_run: the state stays as described, whatever was evaluated"""
    if 'block_index' not in info.names:      # the comprehension
        return None
    eng = info.eng
    z0 = State(eng, info.st, ctx.ws)

    def phi(st, i):
        z = State(eng, st, ctx.ws)
        again = V.bv(st.env['something_activated'])
        n = info.it.n          # None for the while loop
        left = Or(again, stuck(z)) if n is None else Or(again, And(i == 0, Or(n > 0, stuck(z))))
        return [f for _, f in z.kept_values()] + [f for _, f in z.kept_blocks()] + [block_activated(z0, z, V.none)[0][1], more_given(z0, z)[0], left]
    info.free = {'a:%count'}
    return phi


def next_setup(ctx, eng, st):
    ws = run_state(ctx, eng, st)
    ready_def(st, ctx.z)
    return [ws, CALLBACK]


def next_post(ctx, s, r):
    z, z2, b = ctx.z, after(ctx, s), Int('cb')
    ready_def(s, z2)
    x = z.block(b)
    out = z2.kept_values() + z2.kept_blocks() + [('active-ones-stay', block_activated(z, z2, V.none)[0][1]), ('given-ones-stay', more_given(z, z2)[0])]
    none = r == V.none
    out.append(('none-only-if-nothing-can-run', Implies(none, ForAll([b], Implies(And(0 <= b, b < z.nb()), Not(can_run(z2, x))), patterns=[x]))))
    out.append(('one-block-evaluated', Implies(Not(none), And(a_block(z, r), z2.act(r), z2.count(r) == z.count(r) + 1))))
    y = Const('gx', V)
    out.append(('others-not-counted', ForAll([y], Implies(And(KIND(y) == 2, V.is_r(y), y != r), z2.count(y) == z.count(y)), patterns=[z2.w.attr(y, '%count')])))
    return out + [kept(ctx, s, run_free(ctx))]


def k_cfg(eng):
    r_cfg(eng)
    eng.contracts[WS + '.block_evaluation'] = Contract(block_run_contract)
    eng.class_attrs[(WF, 'runtime_blocks')] = runtime_blocks


# ---- a new state ----
def new_setup(given):
    def f(ctx, eng, st):
        c06.undefined(st)
        ws = ctx.ws = param(eng, st, 'self', OBJ(WS, True))
        wf = ctx.wf = param(eng, st, 'workflow', OBJ(WF, True))
        st.assume(arg(ws, 'r') != arg(wf, 'r'))
        values = param(eng, st, 'input_values', DICT(INT, ANY)) if given else V.none
        for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks', 'output', 'variables'):
            read(eng, st, wf, a)
        for h in ('a:input_variable', 'a:output_variable', 'a:inputs', 'a:outputs', 'a:%count', 'a:default_value', 'a:_locked', 'a:output_value'):
            st.h(h)
        z, w = State(eng, st.copy(), ws, wf), View(eng, st)
        x, b, i, j = Const('gx', V), Int('sb'), Int('si'), Int('sj')
        vs = w.attr(wf, 'variables')
        VN = Function('number_of_variable', V, IntSort())
        st.assume(*z.workflow_facts(), w.len(vs) >= 0, *[Not(IS_LOG(l)) for l in (z.pipes, z.nbv, z.inputs, z.blocks, vs)],
                  z.output != V.none, ITEM(z.output), KIND(z.output) == 0,
                  ForAll([x], Implies(ITEM(x), And(V.is_r(x), 0 <= KIND(x), KIND(x) <= 2, Implies(KIND(x) == 0, And(0 <= VN(x), VN(x) < w.len(vs), w.item(vs, VN(x)) == x)),
                                                   Implies(KIND(x) == 1, And(0 <= PN(x), PN(x) < z.np(), z.pipe(PN(x)) == x)), Implies(KIND(x) == 2, a_block(z, x)))), patterns=[ITEM(x)]),
                  ForAll([j], Implies(And(0 <= j, j < w.len(vs)), And(ITEM(w.item(vs, j)), KIND(w.item(vs, j)) == 0, V.is_r(w.item(vs, j)), arg(w.item(vs, j), 'r') <= Int('WM0'))), patterns=[w.item(vs, j)]),
                  ForAll([b], Implies(And(0 <= b, b < z.nb()), z.count(z.block(b)) == 0), patterns=[z.block(b)]))
        v = z.input(i)
        has = w.has(values, V.i(i)) if given else BoolVal(False)
        if given:
            st.assume(ForAll([i], Implies(And(0 <= i, i < z.ni(), has), w.get(values, V.i(i)) == VAL(v)), patterns=[v]))
        st.assume(ForAll([i], Implies(And(0 <= i, i < z.ni(), Not(has), z.default(i) != UNDEF), VAL(v) == z.default(i)), patterns=[v]))
        ctx.z, ctx.values, ctx.given = z, values, lambda i: has_of(w, values, i) if given else BoolVal(False)
        eng.ghost = ctx
        ctx.logs = []
        return [ws, wf, values] + [V.none] * 3
    return f


def has_of(w, d, i):
    return w.has(d, V.i(i))


def new_post(ctx, s, r):
    z, z2, b, i = ctx.z, after(ctx, s), Int('cb'), Int('ii')
    v, x = z.input(i), z.block(b)
    return z2.kept_values() + z2.kept_blocks() + [
        ('of-that-workflow', z2.wf == ctx.wf),
        ('no-block-evaluated', ForAll([b], Implies(And(0 <= b, b < z.nb()), Not(z2.act(x))), patterns=[x])),
        ('provided-ones-active', ForAll([i], Implies(And(0 <= i, i < z.ni(), Or(ctx.given(i), z.default(i) != UNDEF)), z2.act(v)), patterns=[v]))]


def new_refused(ctx, s, r):
    """a given value of another type than its input"""
    return True if r.exc == 'TypeError' else None


def n_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '.activate_inputs'] = Contract(inputs_contract)
    eng.specs['ext:time.time'] = lambda e, st, a, k: [(st, V.f(e.fresh('now', RealSort())))]


# ---- how far the run is ----
def progress_setup(ctx, eng, st):
    return [run_state(ctx, eng, st)]


def all_run(z):
    b = Int('cb')
    x = z.block(b)
    return ForAll([b], Implies(And(0 <= b, b < z.nb(), RUN(x)), z.act(x)), patterns=[x])


def progress_post(ctx, s, r):
    z = ctx.z
    ei = arg(z.w.attr(ctx.ws, 'execution_info'), 'r')
    return [('complete-when-all-are-evaluated', Implies(all_run(z), r == V.f(1))), ('only-then', Implies(r == V.f(1), all_run(z))), kept(ctx, s, {'a:end_time': [ei]})]


def adding(ctx, info):
    """the sum of the first i truth values is i if and only if they are all true"""
    if info.names != {'%sum'} or info.it.addr is None:
        return None
    eng, l = info.eng, V.r(info.it.addr)

    def phi(st, i):
        w, j, t = View(eng, st), Int('lj'), st.env['%sum']
        n = V.iv(t)
        return [is_kind(t, 'i'), 0 <= n, n <= i, (n == i) == z3.ForAll([j], Implies(And(0 <= j, j < i), w.item(l, j) == TRUE))]
    return phi


def g_cfg(eng):
    cfg(eng)
    eng.class_attrs[(WF, 'runtime_blocks')] = runtime_blocks
    eng.specs['ext:time.time'] = lambda e, st, a, k: [(st, V.f(e.fresh('now', RealSort())))]


# ---- Workflow.run ----
def rewritten(eng, st, ws, logs):
    """everything a run may write in a state, and the counters"""
    st = st.copy()
    z = State(eng, st.copy(), ws)
    for d in (z.A, z.W, z.I):
        for h in ('has', 'get', 'idx', 'len', 'item'):
            eng.sto(st, h, arg(d, 'r'), eng.fresh('run_' + h, st.h(h).sort().range()))
        eng.dict_wf(st, arg(d, 'r'))
    st.h('a:output_value')
    eng.sto(st, 'a:output_value', arg(ws, 'r'), eng.fresh('run_output', V))
    touch(eng, st, ws, logs)
    st.heap['a:%count'] = eng.fresh('counters', st.h('a:%count').sort())
    z2 = State(eng, st.copy(), ws)
    st.assume(*[f for _, f in z2.kept_values()], *[f for _, f in z2.kept_blocks()], block_activated(z, z2, V.none)[0][1], more_given(z, z2)[0])
    return st, z, z2


def continue_contract(eng, st, env):
    ctx = eng.ghost
    ws = eng.reify(st, list(env.values())[0])
    z0, i = State(eng, st.copy(), ws), Int('ii')
    needs(eng, st, z0, blocks=True)
    good, z, z2 = rewritten(eng, st, ws, ctx.logs)
    v = z.input(i)
    good.assume(stuck(z2), ForAll([i], Implies(And(0 <= i, i < z.ni(), provided(z, i)), z2.act(v)), patterns=[v]))
    l = eng.new_seq(good, eng.fresh('n_done', IntSort()), eng.fresh('done', ArraySort(IntSort(), V)), T_LIST, LIST(OBJ(BLOCK)))
    out = [(good, l)]
    for k in ('TypeError', 'BlockFailure'):
        bad, z, z2 = rewritten(eng, st, ws, ctx.logs)
        out.append((bad, I.Raised(k)))
    return out


def start_contract(eng, st, env):
    """discharged as 'new_state': a consistent state in which no block is evaluated, or TypeError for a value of another type"""
    ctx = eng.ghost
    wf, values = [eng.reify(st, y) for y in list(env.values())[:2]]
    st = st.copy()
    i = Int('si')
    z = State(eng, st.copy(), ctx.wf, wf=wf)
    w, v = z.w, z.input(i)
    eng.obligate(st, 'given-values', ForAll([i], Implies(And(0 <= i, i < z.ni(), w.has(values, V.i(i))), w.get(values, V.i(i)) == VAL(v)), patterns=[v]))
    bad = st.copy()
    fits = eng.fresh('fits', BoolSort())
    bad.assume(Not(fits))
    given = lambda i: w.has(values, V.i(i))
    ws = eng.alloc(st, class_id(WS), OBJ(WS, True))[0]
    ei = eng.alloc(st, class_id(M + 'ExecutionInfo'), OBJ(M + 'ExecutionInfo', True))[0]
    a = arg(ws, 'r')
    for n, x in (('workflow', wf), ('input_values', values), ('execution_info', ei)):
        st.h('a:' + n)
        eng.sto(st, 'a:' + n, a, x)
    A, W = eng.new_dict(st), eng.new_dict(st)
    ctx.logs = []
    for n, x in (('activated_items', A), ('values', W)):
        st.h('a:' + n)
        eng.sto(st, 'a:' + n, a, x)
    for n in MEM:
        l = eng.new_list(st, [])
        st.h('a:' + n)
        eng.sto(st, 'a:' + n, arg(ei, 'r'), l)
        st.assume(IS_LOG(l))
        ctx.logs.append(arg(l, 'r'))
    ctx.ws = ws
    for d in (A, W, values):
        for h in ('has', 'get', 'idx', 'len', 'item'):
            eng.sto(st, h, arg(d, 'r'), eng.fresh('run_' + h, st.h(h).sort().range()))
        eng.dict_wf(st, arg(d, 'r'))
    st.h('a:output_value')
    eng.sto(st, 'a:output_value', a, eng.fresh('run_output', V))
    z2, x = State(eng, st.copy(), ws), Const('gx', V)
    st.assume(fits, *[f for _, f in z2.kept_values()], *[f for _, f in z2.kept_blocks()], *[f for n, f in new_facts(z, z2, given)],
              ForAll([x], Implies(w.has(values, x), z2.w.has(z2.I, x)), patterns=[z2.w.has(z2.I, x)]))
    eng.set_hint(st, ws, OBJ(WS, True)) if hasattr(eng, 'set_hint') else None
    return [(st, ws), (bad, I.Raised('TypeError'))]


def new_facts(z, z2, given):
    b, i = Int('cb'), Int('ii')
    v, x = z.input(i), z.block(b)
    return [('no-block-evaluated', ForAll([b], Implies(And(0 <= b, b < z.nb()), Not(z2.act(x))), patterns=[x])),
            ('provided-ones-active', ForAll([i], Implies(And(0 <= i, i < z.ni(), Or(given(i), z.default(i) != UNDEF)), z2.act(v)), patterns=[v]))]


def values_contract(eng, st, env):
    """discharged in c06: a fresh dictionary, the given value of an input (unless locked), its default value otherwise"""
    ctx = eng.ghost
    u = eng.reify(st, list(env.values())[1])
    st = st.copy()
    bad = st.copy()
    st0 = st.copy()
    d = eng.new_dict(st)
    for h in ('has', 'get', 'idx', 'len', 'item'):
        eng.sto(st, h, arg(d, 'r'), eng.fresh('vals_' + h, st.h(h).sort().range()))
    eng.dict_wf(st, arg(d, 'r'))
    z, w, w2, i = State(eng, st0, ctx.wf, wf=ctx.wf), View(eng, st0), View(eng, st), Int('di')
    v = z.input(i)
    user = And(w.has(u, V.i(i)), Not(V.bv(w.attr(v, '_locked')))) if ctx.user else BoolVal(False)
    st.assume(ForAll([i], Implies(And(0 <= i, i < z.ni()), And(w2.has(d, V.i(i)) == Or(user, z.default(i) != UNDEF),
                                                               Implies(w2.has(d, V.i(i)), w2.get(d, V.i(i)) == (If(user, w.get(u, V.i(i)), z.default(i)) if ctx.user else z.default(i))))), patterns=[v]))
    eng.set_hint(st, d, DICT(INT, ANY))
    return [(st, d), (bad, I.Raised('IndexError'))] if ctx.user else [(st, d)]


def finish_contract(eng, st, env):
    """what the user gets: obligations on the state the result is made of"""
    ctx = eng.ghost
    ws = eng.reify(st, list(env.values())[0])
    z, i = State(eng, st.copy(), ws), Int('ii')
    v = z.input(i)
    every = ForAll([i], Implies(And(0 <= i, i < z.ni()), z.act(v)), patterns=[v])
    eng.obligate(st, 'of-this-workflow', z.wf == ctx.wf)
    eng.obligate(st, 'nothing-left-to-evaluate', stuck(z))
    eng.obligate(st, 'every-input-active', every)
    st = st.copy()
    st.assume(Implies(And(stuck(z), every), all_run(z)))      # the lemma 'all-blocks-run'
    eng.obligate(st, 'every-block-evaluated-once', And(all_run(z), *[f for n, f in z.kept_blocks() if n == 'evaluated-once']))
    ob, o = Int('output_block'), Int('output_number')
    outs = z.ports(z.block(ob), 1)
    for n, f in (('block-of-the-output', And(RUN(z.block(ob)), 0 <= ob, ob < z.nb(), 0 <= o, o < z.w.len(outs), z.w.item(outs, o) == z.output)), ('is-evaluated', z.act(z.block(ob))), ('its-output-active', z.act(z.w.item(outs, o)))):
        eng.obligate(st, n, f)
        st.assume(f)
    eng.obligate(st, 'output-of-the-workflow', st.h('a:output_value')[arg(ws, 'r')] == VAL(z.output))
    return [(st, eng.alloc(st, class_id(M + 'WorkflowRun'), OBJ(M + 'WorkflowRun', True))[0])]


def run_setup(user):
    def f(ctx, eng, st):
        c06.undefined(st)
        wf = ctx.wf = param(eng, st, 'self', OBJ(WF, True))
        ctx.user = user
        u = param(eng, st, 'input_values', DICT(INT, ANY)) if user else V.none
        for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks', 'output'):
            read(eng, st, wf, a)
        for h in ('a:input_variable', 'a:output_variable', 'a:inputs', 'a:outputs', 'a:%count', 'a:default_value', 'a:_locked', 'a:output_value', 'a:execution_info'):
            st.h(h)
        z, w = State(eng, st.copy(), wf, wf), View(eng, st)
        x, b, i, o, ob = Const('gx', V), Int('sb'), Int('si'), Int('output_number'), Int('output_block')
        v = z.input(i)
        outs = z.ports(z.block(ob), 1)
        st.assume(*z.workflow_facts(), *[Not(IS_LOG(l)) for l in (z.pipes, z.nbv, z.inputs, z.blocks)],
                  ITEM(z.output), KIND(z.output) == 0, 0 <= ob, ob < z.nb(), RUN(z.block(ob)), 0 <= o, o < w.len(outs), w.item(outs, o) == z.output,
                  ForAll([b], Implies(And(0 <= b, b < z.nb()), z.count(z.block(b)) == 0), patterns=[z.block(b)]))
        has = And(w.has(u, V.i(i)), Not(V.bv(w.attr(v, '_locked')))) if user else BoolVal(False)
        st.assume(ForAll([i], Implies(And(0 <= i, i < z.ni()), And(is_kind(w.attr(v, '_locked'), 'b'), *([Implies(has, w.get(u, V.i(i)) == VAL(v))] if user else []),
                                                                   Implies(And(Not(has), z.default(i) != UNDEF), VAL(v) == z.default(i)))), patterns=[v]))
        ctx.z, ctx.u, ctx.has = z, u, has
        eng.ghost = ctx
        return [wf, u, vb(BoolVal(False)), CALLBACK, param(eng, st, 'name', STR)]
    return f


def run_post(ctx, s, r):
    return [('a-finished-run', And(is_kind(r, 'r'), TAG(arg(r, 'r')) == class_id(M + 'WorkflowRun')))]


def run_stopped(ctx, s, r):
    """TypeError for a value of another type, the failure of a block, IndexError for a number that is none of an input;
    ValueError only if an input has neither a value nor a default"""
    if r.exc == 'ValueError':
        z, i = ctx.z, Int('ii')
        w = z.w
        has = And(w.has(ctx.u, V.i(i)), Not(V.bv(w.attr(z.input(i), '_locked')))) if ctx.user else BoolVal(False)
        return [('only-when-a-value-is-missing', z3.Exists([i], And(0 <= i, i < z.ni(), Not(has), z.default(i) == UNDEF)))]
    return True if r.exc in ('TypeError', 'BlockFailure', 'IndexError') else None


def run_cfg(eng):
    cfg(eng)
    eng.contracts[WF + '.input_values'] = Contract(values_contract)
    eng.contracts[WF + '.start_run'] = Contract(start_contract)
    eng.contracts[WS + '.activate_inputs'] = Contract(inputs_contract)
    eng.contracts[WS + '.continue_run'] = Contract(continue_contract)
    eng.contracts[WS + '.to_workflow_run'] = Contract(finish_contract)
    now = lambda e, st, a, k: [(st, V.f(e.fresh('now', RealSort())))]
    text = lambda e, st, a, k: [(st, V.s(e.fresh('text', StringSort())))]
    eng.specs['ext:time.time'] = now
    eng.specs['ext:time.gmtime'] = eng.specs['ext:datetime.datetime.now'] = lambda e, st, a, k: [(st, I.EExt('datetime.datetime.moment'))]
    eng.specs['ext:time.strftime'] = eng.specs['ext:datetime.datetime.moment.strftime'] = text


def all_blocks_run():
    """strong induction on the rank of a block: if every block of a smaller rank was evaluated, so was this one"""
    act, in_, out = Function('l_active', IntSort(), BoolSort()), Function('l_input_port', IntSort(), IntSort(), IntSort()), Function('l_output_port', IntSort(), IntSort(), IntSort())
    done, run, rank, nin, nout = Function('l_evaluated', IntSort(), BoolSort()), Function('l_run', IntSort(), BoolSort()), *[Function(n, IntSort(), IntSort()) for n in ('l_rank', 'l_n_in', 'l_n_out')]
    inp, feed, start, end = [Function(n, IntSort(), IntSort()) for n in ('l_input_number', 'l_feeding_pipe', 'l_start', 'l_end')]
    owner, oport = Function('l_owner', IntSort(), IntSort()), Function('l_owner_port', IntSort(), IntSort())
    b, i, k, v, r = z3.Ints('b i k v r')
    y, src = in_(b, i), start(feed(in_(b, i)))
    hyps = [z3.ForAll([b], Implies(And(run(b), z3.ForAll([i], Implies(And(0 <= i, i < nin(b)), act(in_(b, i))))), done(b))),       # stuck
            z3.ForAll([b, i], Implies(And(done(b), 0 <= i, i < nout(b)), act(out(b, i)))),                                       # outputs-given
            z3.ForAll([k], Implies(act(start(k)), act(end(k)))),                                                                 # values-propagated
            z3.ForAll([v], Implies(inp(v) >= 0, act(v))),                                                                        # every-input-active
            # the blocks of the run: what feeds them is an input or an output of a block of the run of a smaller rank
            z3.ForAll([b, i], Implies(And(run(b), 0 <= i, i < nin(b)), Or(inp(y) >= 0, And(end(feed(y)) == y, Or(inp(src) >= 0, And(run(owner(src)), rank(owner(src)) < rank(b), 0 <= oport(src), oport(src) < nout(owner(src)), out(owner(src), oport(src)) == src)))))),
            z3.ForAll([b], Implies(And(run(b), rank(b) < r), done(b)))]                                                          # induction hypothesis
    return hyps, z3.ForAll([b], Implies(And(run(b), rank(b) == r), done(b)))


LOOPS = {'progress': adding, 'continue_run': over_blocks, '_activate_variable': over_pipes, '_activate_input': over_pipes, '_activate_block': over_outputs, 'activate_inputs': over_inputs, '_evaluate_block': over_block_inputs}


def v_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._activate_pipe'] = Contract(pipe_contract)


def p_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._activate_variable'] = Contract(variable_contract)


def i_cfg(eng):
    cfg(eng)
    eng.contracts[WS + '._activate_pipe'] = Contract(pipe_contract)
    eng.contracts[WS + '._activate_variable'] = Contract(variable_contract)
    eng.contracts['dessia_common.utils.types:value_type_check'] = eng.contracts['dessia_common.typings:value_type_check'] = eng.contracts[M + 'value_type_check'] = Contract(type_check)


TARGETS = [
    Target('activate_variable', WS + '._activate_variable', variable_setup, variable_post, config=v_cfg),
    Target('activate_pipe', WS + '._activate_pipe', pipe_setup, pipe_post, config=p_cfg),
    Target('activate_block', WS + '._activate_block', output_setup, output_post, config=p_cfg),
    Target('activate_input', WS + '._activate_input', input_setup, input_post, config=i_cfg, allow_raise=input_refused),
    Target('activate_inputs', WS + '.activate_inputs', inputs_setup(False), inputs_post(False), config=a_cfg, allow_raise=inputs_refused(False)),
    Target('activate_inputs[all]', WS + '.activate_inputs', inputs_setup(True), inputs_post(True), config=a_cfg, allow_raise=inputs_refused(True)),
    Target('block_ready', WS + '._block_activable_by_inputs', ready_setup, ready_post, config=cfg),
    Target('activable', WS + '._activable_blocks', activable_setup, activable_post, config=activable_cfg),
    Target('block_evaluation', WS + '.block_evaluation', block_run_setup, block_run_post, config=r_cfg, allow_raise=run_refused),
    Target('next_block', WS + '.evaluate_next_block', next_setup, next_post, config=k_cfg, allow_raise=run_refused),
    Target('continue_run', WS + '.continue_run', continue_setup, continue_post, config=k_cfg, allow_raise=run_refused),
    Target('new_state', WS + '.__init__', new_setup(True), new_post, config=n_cfg, allow_raise=new_refused),
    Target('new_state[no value]', WS + '.__init__', new_setup(False), new_post, config=n_cfg, allow_raise=new_refused),
    Target('progress', WS + '.progress', progress_setup, progress_post, config=g_cfg),
    Lemma('all-blocks-run', all_blocks_run),
    Target('run', WF + '.run', run_setup(True), run_post, config=run_cfg, allow_raise=run_stopped),
    Target('run[no value]', WF + '.run', run_setup(False), run_post, config=run_cfg, allow_raise=run_stopped),
    Target('evaluate_block', WS + '._evaluate_block', evaluation_setup, evaluation_post, config=e_cfg, allow_raise=evaluation_failed),
]
