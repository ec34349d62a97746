"""C06 inputs, defaults and locks of a workflow: contracts on Variable and on the parts of Workflow that describe inputs."""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame
from contracts.c08 import read

M = 'dessia_common.workflow.core:'
WF, VAR, PIPE, BLOCK = M + 'Workflow', M + 'Variable', M + 'Pipe', M + 'Block'
UNDEF = V.r(Int('UNDEFINED_address'))
INTS = IntSort()


def cfg(eng):
    eng.specs['dessia_common.schemas.core:object()'] = UNDEF
    eng.field_types['inputs'] = LIST(OBJ(VAR))
    eng.field_types['outputs'] = LIST(OBJ(VAR))
    eng.field_types['pipes'] = LIST(OBJ(PIPE, True))
    eng.field_types['blocks'] = LIST(OBJ(BLOCK))
    eng.field_types['nonblock_variables'] = LIST(OBJ(VAR))
    eng.field_types['detached_variables'] = LIST(OBJ(VAR))
    eng.field_types['variables'] = LIST(OBJ(VAR))
    eng.field_types['input_variable'] = OBJ(VAR)
    eng.field_types['output_variable'] = OBJ(VAR)
    eng.field_types['_locked'] = BOOL
    for a in ('label', 'name', 'description', 'documentation'):
        eng.field_types[a] = STR
    for c in (VAR, PIPE, BLOCK):
        eng.class_attrs[(c, '=identity')] = True


def undefined(st):
    st.assume(UNDEF == V.r(Int('UNDEFINED_address')), 1 <= Int('UNDEFINED_address'), Int('UNDEFINED_address') <= Int('WM0'),
              TAG(Int('UNDEFINED_address')) == class_id('ext:object'))


def kept(ctx, s, free=()):
    """locations that existed keep their content, apart from free = {heap: [addresses]}"""
    x = Int('fa')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0) and not hn.startswith('a:%'):
            ex = dict(free).get(hn, [])
            if ex is not None:
                out.append(ForAll([x], Implies(And(x <= Int('WM0'), *[x != a for a in ex]), Select(h, x) == Select(h0, x))))
    return 'nothing-else-modified', conj(out)


# ---- one variable ----
def var_setup(*params):
    def setup(ctx, eng, st):
        undefined(st)
        v = ctx.v = param(eng, st, 'self', OBJ(VAR))
        ctx.default0, ctx.locked0 = read(eng, st, v, 'default_value'), read(eng, st, v, '_locked')
        ctx.p = [param(eng, st, n, t) for n, t in params]
        return [v] + ctx.p
    return setup


def has_default_post(ctx, s, r):
    return [('default-known', r == vb(ctx.default0 != UNDEF)), frame(ctx, s)]


def locked_post(ctx, s, r):
    return [('locked-says-the-lock', r == ctx.locked0), ('locked-implies-default', Implies(V.bv(r), ctx.default0 != UNDEF)), frame(ctx, s)]


def locked_raise(ctx, s, r):
    return [('only-when-locked-without-default', And(V.bv(ctx.locked0), ctx.default0 == UNDEF)), ('refused-with-ValueError', BoolVal(r.exc == "ValueError")), frame(ctx, s)]


def lock_post(ctx, s, r):
    w = View(ctx.eng, s)
    d, k, a = w.attr(ctx.v, 'default_value'), w.attr(ctx.v, '_locked'), arg(ctx.v, 'r')
    return [('locked', k == vb(BoolVal(True))), ('chosen-value', d == If(ctx.p[0] == UNDEF, ctx.default0, ctx.p[0])),
            ('locked-with-a-value', d != UNDEF), kept(ctx, s, {'a:default_value': [a], 'a:_locked': [a]})]


def lock_raise(ctx, s, r):
    return [('only-without-any-value', And(ctx.p[0] == UNDEF, ctx.default0 == UNDEF)), ('refused-with-ValueError', BoolVal(r.exc == "ValueError")), frame(ctx, s)]


def unlock_post(ctx, s, r):
    w = View(ctx.eng, s)
    d, k, a = w.attr(ctx.v, 'default_value'), w.attr(ctx.v, '_locked'), arg(ctx.v, 'r')
    return [('unlocked', k == vb(BoolVal(False))), ('default-kept-as-asked', d == If(V.bv(ctx.p[0]), ctx.default0, UNDEF)),
            kept(ctx, s, {'a:default_value': [a], 'a:_locked': [a]})]



# ---- the graph around a variable ----
FEED = Function('number_of_the_feeding_pipe', V, INTS)    # the first pipe that ends there, -1: none
NB = Function('number_of_nonblock_variable', V, INTS)     # its first place in the list of nonblock variables, -1: not there
INP = Function('number_of_input', V, INTS)                # its first place in the list of inputs, -1: not there


def first_place(f, l, w, hit=lambda x: x):
    """f is (by definition) the first place of l whose element hits, -1 when there is none"""
    v, k = Const('fv', V), Int('fk')
    x, n = w.item(l, k), w.len(l)
    return [ForAll([v], And(f(v) >= -1, Or(f(v) == -1, f(v) < n)), patterns=[f(v)]),
            ForAll([v], Implies(f(v) >= 0, hit(w.item(l, f(v))) == v), patterns=[f(v)]),
            ForAll([v, k], Implies(And(0 <= k, k < n, Or(f(v) == -1, k < f(v))), hit(x) != v), patterns=[z3.MultiPattern(f(v), x)])]


class Net:
    """the parts of a workflow in its initial state"""

    def __init__(self, eng, st, wf):
        w = self.w = View(eng, st)
        self.pipes, self.nbv, self.inputs, self.blocks = (w.attr(wf, a) for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks'))

    def pipe(self, k):
        return self.w.item(self.pipes, k)

    def start(self, k):
        return self.w.attr(self.pipe(k), 'input_variable')

    def end(self, k):
        return self.w.attr(self.pipe(k), 'output_variable')

    def facts(self):
        w = self.w
        return first_place(FEED, self.pipes, w, lambda p: w.attr(p, 'output_variable')) + first_place(NB, self.nbv, w) + first_place(INP, self.inputs, w)

    def fed_by_nbv(self, v):
        return And(FEED(v) >= 0, NB(self.start(FEED(v))) >= 0)

    def source(self, v):
        """the nonblock variable that feeds v, v itself when there is none"""
        return If(self.fed_by_nbv(v), self.start(FEED(v)), v)


def net_setup(*params):
    def setup(ctx, eng, st):
        undefined(st)
        wf = ctx.wf = param(eng, st, 'self', OBJ(WF, True))
        for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks'):
            read(eng, st, wf, a)
        st.assume(*Net(eng, st, wf).facts())
        z = ctx.z = Net(eng, st.copy(), wf)
        for l in (z.pipes, z.nbv, z.inputs, z.blocks):
            st.assume(z.w.len(l) >= 0)
            k = Int('ek')
            st.assume(ForAll([k], Implies(And(0 <= k, k < z.w.len(l)), And(V.is_r(z.w.item(l, k)), arg(z.w.item(l, k), 'r') <= Int('WM0'))), patterns=[z.w.item(l, k)]))
        ctx.p = [param(eng, st, n, t) for n, t in params]
        eng.ghost = ctx
        return [wf] + ctx.p
    return setup


VPAR = ('variable', OBJ(VAR))


def unmodified(eng, st, ctx):
    """the queries describe the workflow as it was when the function under contract was called"""
    z, wf = ctx.z, ctx.wf
    now, old = View(eng, st), z.w
    for a in ('pipes', 'nonblock_variables', 'inputs', 'blocks'):
        l = old.attr(wf, a)
        for f in (now.attr(wf, a) == l, now.len(l) == old.len(l), now.rd('item', l) == old.rd('item', l)):
            if not z3.is_true(simplify(f)):
                eng.obligate(st, f'unmodified:{a}', f)
    for a in ('input_variable', 'output_variable'):
        h, h0 = st.heap.get('a:' + a), z.w.st.heap.get('a:' + a)
        if h is not None and h0 is not None and not h.eq(h0):
            k = Int('ek')
            eng.obligate(st, f'unmodified:{a}', ForAll([k], Implies(And(0 <= k, k < old.len(z.pipes)), now.attr(z.pipe(k), a) == old.attr(z.pipe(k), a))))


def answer(eng, st, cases):
    """one path per case (condition, value, type or None)"""
    out = []
    for c, v, ty in cases:
        for s, t in eng.branch(st, c):
            if t:
                s = s.copy()
                if ty is not None:
                    eng.assume_type(s, v, ty, old=True)
                out.append((s, v))
    return out


def query(f):
    def c(eng, st, env):
        unmodified(eng, st, eng.ghost)
        return answer(eng, st, f(eng.ghost.z, *[eng.reify(st, x) for x in list(env.values())[1:]]))
    return Contract(c)


def input_pipe(z, v):
    return If(FEED(v) == -1, V.none, z.pipe(FEED(v)))


def input_pipe_post(ctx, s, r):
    z, v = ctx.z, ctx.p[0]
    return [('the-first-that-ends-there', r == input_pipe(z, v)), frame(ctx, s)]


def output_pipes_post(ctx, s, r):
    z, v, w = ctx.z, ctx.p[0], View(ctx.eng, s)
    n = z.w.len(z.pipes)
    return filter_goals(s, 'G_out', n, lambda k: z.start(k) == v, lambda k: z.pipe(k), w.len(r), lambda j: w.item(r, j)) + [frame(ctx, s)]


def q_cfg(*names):
    def c(eng):
        cfg(eng)
        for n in names:
            eng.contracts[WF + '.' + n] = QUERIES[n]
    return c


def upstream(z, v):
    return If(FEED(v) == -1, V.none, z.start(FEED(v)))


def upstream_post(ctx, s, r):
    return [('start-of-the-feeding-pipe', r == upstream(ctx.z, ctx.p[0])), frame(ctx, s)]


def nbv_post(ctx, s, r):
    return [('nonblock-variable-that-feeds', r == ctx.z.source(ctx.p[0])), frame(ctx, s)]


def input_index(z, v):
    i = INP(z.source(v))
    return If(i == -1, V.none, V.i(i))


def input_index_post(ctx, s, r):
    return [('place-of-its-source', r == input_index(ctx.z, ctx.p[0])), frame(ctx, s)]


QUERIES = dict(variable_input_pipe=query(lambda z, v: [(FEED(v) == -1, V.none, None), (FEED(v) >= 0, z.pipe(FEED(v)), OBJ(PIPE, True))]),
               upstream_variable=query(lambda z, v: [(FEED(v) == -1, V.none, None), (FEED(v) >= 0, z.start(FEED(v)), OBJ(VAR))]),
               get_upstream_nbv=query(lambda z, v: [(z.fed_by_nbv(v), z.start(FEED(v)), OBJ(VAR)), (Not(z.fed_by_nbv(v)), v, None)]),
               input_index=query(lambda z, v: [(INP(z.source(v)) == -1, V.none, None), (INP(z.source(v)) >= 0, V.i(INP(z.source(v))), None)]))


# ---- defaults, locks and given values ----
class Vals(Net):
    def input(self, i):
        return self.w.item(self.inputs, i)

    def n(self):
        return self.w.len(self.inputs)

    def default(self, i):
        return self.w.attr(self.input(i), 'default_value')

    def has(self, i):
        return self.default(i) != UNDEF

    def locked(self, i):
        return V.bv(self.w.attr(self.input(i), '_locked'))

    def sound(self):
        """what lock() keeps: a locked variable has a value"""
        i = Int('si')
        return ForAll([i], Implies(And(0 <= i, i < self.n()), And(is_kind(self.w.attr(self.input(i), '_locked'), 'b'), Implies(self.locked(i), self.has(i)))), patterns=[self.input(i)])


def vals_setup(*params):
    def setup(ctx, eng, st):
        r = net_setup(*params)(ctx, eng, st)
        ctx.z = z = Vals(eng, ctx.z.w.st, ctx.wf)
        st.assume(z.sound())
        return r
    return setup


def default_values_post(ctx, s, r):
    z, w, i, k = ctx.z, View(ctx.eng, s), Int('di'), Const('dk', V)
    return [('every-default', ForAll([i], Implies(And(0 <= i, i < z.n(), z.has(i)), And(w.has(r, V.i(i)), w.get(r, V.i(i)) == z.default(i))))),
            ('nothing-else', ForAll([k], Implies(w.has(r, k), And(V.is_i(k), 0 <= V.iv(k), V.iv(k) < z.n(), z.has(V.iv(k)))))), frame(ctx, s)]


def locked_inputs_post(ctx, s, r):
    z, w = ctx.z, View(ctx.eng, s)
    return filter_goals(s, 'G_lock', z.n(), lambda i: z.locked(i), lambda i: z.input(i), w.len(r), lambda j: w.item(r, j)) + [frame(ctx, s)]


def input_values_setup(none):
    def setup(ctx, eng, st):
        r = vals_setup()(ctx, eng, st)
        ctx.u = V.none if none else param(eng, st, 'user_values', DICT(INT, ANY))
        return r + [ctx.u]
    return setup


def input_values_post(none):
    def post(ctx, s, r):
        z, w, w0, i, k = ctx.z, View(ctx.eng, s), View(ctx.eng, ctx.st0), Int('di'), Const('dk', V)
        given = lambda i: BoolVal(False) if none else And(w0.has(ctx.u, V.i(i)), Not(z.locked(i)))
        value = lambda i: z.default(i) if none else If(given(i), w0.get(ctx.u, V.i(i)), z.default(i))
        out = [('a-value-when-given-or-default', ForAll([i], Implies(And(0 <= i, i < z.n()), w.has(r, V.i(i)) == Or(given(i), z.has(i))))),
               ('given-over-default-unless-locked', ForAll([i], Implies(And(0 <= i, i < z.n(), w.has(r, V.i(i))), w.get(r, V.i(i)) == value(i)))), frame(ctx, s)]
        return out
    return post


def input_values_raise(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    z, w0, k = ctx.z, View(ctx.eng, ctx.st0), Const('dk', V)
    return [('only-for-a-number-out-of-range', z3.Exists([k], And(w0.has(ctx.u, k), Or(V.iv(k) >= z.n(), V.iv(k) < -z.n())))), frame(ctx, s)]


# ---- the arguments described by a submitted form ----
DESER = Function('deserialized', V, V, StringSort(), V)    # what deserialize_argument makes of (type, argument, path)
RESULT = vs('_result_name_')


def args_cfg(eng):
    cfg(eng)
    eng.field_types['type_'] = ANY
    eng.contracts['dessia_common.serialization:deserialize_argument'] = pure(
        lambda eng, st, env: DESER(eng.reify(st, env['type_']), eng.reify(st, env['argument']), V.sv(eng.reify(st, env['path']))))
    eng.invariants.append(args_invariant)


class Form(Vals):
    def __init__(self, eng, st, wf, form, path):
        Vals.__init__(self, eng, st, wf)
        self.form, self.path = form, path

    def submitted(self, i):
        return self.w.has(self.form, V.i(i))

    def asked(self, i):
        """the form's value is read: the input is required, or its default is overwritten, and it is not locked"""
        return And(Or(Not(self.has(i)), self.submitted(i)), Not(self.locked(i)))

    def value(self, i):
        return DESER(self.w.attr(self.input(i), 'type_'), self.w.get(self.form, V.i(i)), z3.Concat(V.sv(self.path), StringVal('/inputs/'), z3.IntToStr(i)))

    def is_name(self, i):
        return self.w.attr(self.input(i), 'name') == RESULT


def args_invariant(info):
    ctx = info.eng.ghost
    if 'arguments_values' not in info.st.env:
        return None
    z = ctx.z
    d = info.st.env['arguments_values']

    def phi(st, i):
        w, j, k = View(info.eng, st), Int('aj'), Const('ak', V)
        out = [ForAll([j], Implies(And(0 <= j, j < i, z.asked(j)), And(w.has(d, V.i(j)), w.get(d, V.i(j)) == z.value(j)))),
               ForAll([k], Implies(w.has(d, k), And(V.is_i(k), 0 <= V.iv(k), V.iv(k) < i, z.asked(V.iv(k)), z.submitted(V.iv(k))))),
               ForAll([j], Implies(And(0 <= j, j < i, z.asked(j)), z.submitted(j)))]
        nm = st.env['name']
        out.append(Implies(ForAll([j], Implies(And(0 <= j, j < i, z.asked(j)), Not(z.is_name(j)))), nm == V.none))
        return out
    return phi


def args_setup(ctx, eng, st):
    r = vals_setup()(ctx, eng, st)
    ctx.form = param(eng, st, 'dict_', DICT(INT, ANY))
    ctx.path = param(eng, st, 'path', STR)
    read(eng, st, ctx.wf, 'name')
    ctx.z = Form(eng, ctx.z.w.st, ctx.wf, ctx.form, ctx.path)
    return [ctx.wf, ctx.form, vs('run'), V.none, V.none, ctx.path], {}


def args_post(ctx, s, r):
    z, w, i, k = ctx.z, View(ctx.eng, s), Int('di'), Const('dk', V)
    v = w.get(r, vs('input_values'))
    return [('has-values', And(w.has(r, vs('input_values')), w.has(r, vs('name')))),
            ('values-of-the-form', ForAll([i], Implies(And(0 <= i, i < z.n(), z.asked(i)), And(w.has(v, V.i(i)), w.get(v, V.i(i)) == z.value(i))))),
            ('nothing-else', ForAll([k], Implies(w.has(v, k), And(V.is_i(k), 0 <= V.iv(k), V.iv(k) < z.n(), z.asked(V.iv(k)))))),
            frame(ctx, s)]


def args_raise(ctx, s, r):
    if r.exc != 'KeyError':
        return None
    z, i = ctx.z, Int('di')
    return [('only-when-a-required-value-is-missing', z3.Exists([i], And(0 <= i, i < z.n(), Not(z.has(i)), Not(z.locked(i)), Not(z.submitted(i))))), frame(ctx, s)]


# ---- the described inputs ----
SATTR = 'dessia_common.schemas.core:SchemaAttribute'


def form_of(eng, st, o):
    """the run form: some dictionary with the entry 'run' (reads the workflow only)"""
    st = st.copy()
    d = eng.new_dict(st)
    eng.bm.dict_put(eng, st, arg(d, 'r'), vs('run'), eng.fresh('form', V))
    return [(st, d)]


def described_cfg(eng):
    q_cfg('input_index')(eng)
    text = lambda e, st, env: V.s(e.fresh('text', StringSort()))
    eng.field_types['documentation'] = ANY
    eng.specs["dessia_common.schemas.core:{'desc': '', 'type': '', 'annotation': ''}"] = V.r(Int('EMPTY_DOC'))
    eng.contracts['dessia_common.utils.helpers:prettyname'] = pure(text)
    eng.contracts[WF + '.block_from_variable'] = Contract(lambda e, st, env: answer(e, st, [(BoolVal(True), e.fresh('its_block', V), OBJ(BLOCK))]))
    eng.contracts[BLOCK + '.parse_input_doc'] = pure(lambda e, st, env: e.fresh('doc', V))
    eng.class_attrs[(WF, 'method_schemas')] = form_of


def schema_setup(ctx, eng, st):
    r = vals_setup()(ctx, eng, st)
    v = ctx.v = param(eng, st, 'input_', OBJ(VAR))
    z = ctx.z
    i = ctx.i = INP(v)
    st.assume(0 <= i, i < z.n(), z.input(i) == v, Not(z.fed_by_nbv(v)))    # an input of the workflow: nothing feeds it
    ctx.lab = read(eng, st, v, 'label')
    read(eng, st, v, 'name')
    return r + [v]


def schema_post(ctx, s, r):
    z, w = ctx.z, View(ctx.eng, s)
    i = ctx.i
    return [('named-by-its-number', w.attr(r, 'name') == V.s(z3.IntToStr(i))), ('its-default', w.attr(r, 'default_value') == z.default(i)),
            ('editable-unless-locked', w.attr(r, 'editable') == vb(Not(z.locked(i)))),
            ('its-label', Implies(V.sv(ctx.lab) != StringVal(''), w.attr(r, '_title') == ctx.lab)), frame(ctx, s)]


def notes_setup(ctx, eng, st):
    r = vals_setup()(ctx, eng, st)
    l = ctx.l = param(eng, st, 'inputs', LIST(OBJ(VAR)))
    z, k = ctx.z, Int('nk')
    x = z.w.item(l, k)
    st.assume(ForAll([k], Implies(And(0 <= k, k < z.w.len(l)), And(0 <= INP(x), INP(x) < z.n(), z.input(INP(x)) == x, Not(z.fed_by_nbv(x)))), patterns=[x]))
    return r + [l]


def notes_cfg(eng):
    described_cfg(eng)
    eng.field_types['type_'] = ANY


def notes_post(ctx, s, r):
    z, w, k, t = ctx.z, View(ctx.eng, s), Int('nk'), Const('nt', V)
    x = z.w.item(ctx.l, k)
    return [('type-of-each', ForAll([k], Implies(And(0 <= k, k < z.w.len(ctx.l)), w.has(r, V.s(z3.IntToStr(INP(x))))))), frame(ctx, s)]


def set_setup(*params):
    def setup(ctx, eng, st):
        undefined(st)
        wf = ctx.wf = param(eng, st, 'self', OBJ(WF, True))
        l = read(eng, st, wf, 'inputs')
        ctx.z = Vals(eng, st.copy(), wf) if False else None
        w, k = View(eng, st.copy()), Int('ek')
        ctx.w0, ctx.l, ctx.n = w, l, w.len(l)
        st.assume(ctx.n >= 0, ForAll([k], Implies(And(0 <= k, k < ctx.n), And(V.is_r(w.item(l, k)), arg(w.item(l, k), 'r') <= Int('WM0'))), patterns=[w.item(l, k)]))
        ctx.p = [param(eng, st, n, t) for n, t in params]
        i = V.iv(ctx.p[0])
        ctx.i = If(i < 0, i + ctx.n, i)
        ctx.inside = And(-ctx.n <= i, i < ctx.n)
        return [wf] + ctx.p
    return setup


def set_post(attr, value):
    def post(ctx, s, r):
        w = View(ctx.eng, s)
        v = ctx.w0.item(ctx.l, ctx.i)
        return [('that-input-alone', And(ctx.inside, w.attr(v, attr) == value(ctx))), kept(ctx, s, {'a:' + attr: [arg(v, 'r')]})]
    return post


def lock_input_post(ctx, s, r):
    w = View(ctx.eng, s)
    v = ctx.w0.item(ctx.l, ctx.i)
    a = arg(v, 'r')
    new = If(ctx.p[1] == UNDEF, ctx.w0.attr(v, 'default_value'), ctx.p[1])
    return [('locked-with-its-value', And(ctx.inside, w.attr(v, '_locked') == vb(BoolVal(True)), w.attr(v, 'default_value') == new, new != UNDEF)),
            kept(ctx, s, {'a:default_value': [a], 'a:_locked': [a]})]


def set_refused(ctx, s, r):
    if r.exc == 'IndexError':
        return [('no-such-input', Not(ctx.inside)), frame(ctx, s)]


def lock_input_refused(ctx, s, r):
    if r.exc == 'ValueError':
        return [('no-value-at-all', And(ctx.p[1] == UNDEF, ctx.w0.attr(ctx.w0.item(ctx.l, ctx.i), 'default_value') == UNDEF)), frame(ctx, s)]
    return set_refused(ctx, s, r)


TARGETS = [
    Target('has_default', VAR + '.has_default_value', var_setup(), has_default_post, config=cfg),
    Target('locked', VAR + '.locked', var_setup(), locked_post, config=cfg, allow_raise=locked_raise),
    Target('lock', VAR + '.lock', var_setup(('value', ANY)), lock_post, config=cfg, allow_raise=lock_raise),
    Target('unlock', VAR + '.unlock', var_setup(('keep_default', BOOL)), unlock_post, config=cfg),
    Target('input_pipe', WF + '.variable_input_pipe', net_setup(VPAR), input_pipe_post, config=cfg),
    Target('output_pipes', WF + '.variable_output_pipes', net_setup(VPAR), output_pipes_post, config=cfg),
    Target('upstream', WF + '.upstream_variable', net_setup(VPAR), upstream_post, config=q_cfg('variable_input_pipe')),
    Target('source', WF + '.get_upstream_nbv', net_setup(VPAR), nbv_post, config=q_cfg('upstream_variable')),
    Target('input_index', WF + '.input_index', net_setup(VPAR), input_index_post, config=q_cfg('get_upstream_nbv')),
    Target('default_values', WF + '.default_values', vals_setup(), default_values_post, config=cfg),
    Target('locked_inputs', WF + '.locked_inputs', vals_setup(), locked_inputs_post, config=cfg),
    Target('input_values[none]', WF + '.input_values', input_values_setup(True), input_values_post(True), config=cfg),
    Target('input_values', WF + '.input_values', input_values_setup(False), input_values_post(False), config=cfg, allow_raise=input_values_raise),
    Target('arguments', WF + '.dict_to_arguments', args_setup, args_post, config=args_cfg, allow_raise=args_raise),
    Target('input_schema', WF + '.input_schema', schema_setup, schema_post, config=described_cfg),
    Target('annotations', WF + '.input_annotations', notes_setup, notes_post, config=notes_cfg),
    Target('rename_input', WF + '.rename_input', set_setup(('input_index', INT), ('label', STR)), set_post('label', lambda c: c.p[1]), config=described_cfg, allow_raise=set_refused),
    Target('set_default', WF + '.set_input_default', set_setup(('input_index', INT), ('value', ANY)), set_post('default_value', lambda c: c.p[1]), config=described_cfg, allow_raise=set_refused),
    Target('reset_default', WF + '.reset_input_default', set_setup(('input_index', INT)), set_post('default_value', lambda c: UNDEF), config=described_cfg, allow_raise=set_refused),
    Target('lock_input', WF + '.lock_input', set_setup(('input_index', INT), ('default_value', ANY)), lock_input_post, config=described_cfg, allow_raise=lock_input_refused),
]
