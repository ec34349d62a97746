"""C15 optimisation variables, parameters and samples: contracts over the reals"""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame, absr
from contracts.c08 import read

O = 'dessia_common.optimization:'
B, FX, IMO = O + 'BoundedAttributeValue', O + 'FixedAttributeValue', O + 'InstantiatingModelOptimizer'
P = 'dessia_common.core:Parameter'


def cfg(eng):
    for a in ('min_value', 'max_value', 'interval_length', 'lower_bound', 'upper_bound', 'periodicity', 'value'):
        eng.field_types[a] = FLOAT
    eng.field_types['attribute_name'] = STR
    eng.field_types['number'] = INT
    eng.field_types['optimization_bounds'] = LIST(OBJ(B, True))
    eng.field_types['fixed_parameters'] = LIST(OBJ(FX, True))


def num(ctx, s, o, name):
    return num_kindless(read(ctx.eng, s, o, name))


# ---- one bounded attribute ----
def init_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(B, True))
    a, lo, hi = param(eng, st, 'attribute_name', STR), param(eng, st, 'min_value', FLOAT), param(eng, st, 'max_value', FLOAT)
    n = param(eng, st, 'number', INT)
    ctx.o, ctx.lo, ctx.hi, ctx.a, ctx.n = o, lo, hi, a, n
    return [o, a, lo, hi, n]


def init_post(ctx, s, r):
    g = lambda n: read(ctx.eng, s, ctx.o, n)
    return [('keeps-bounds', And(g('min_value') == ctx.lo, g('max_value') == ctx.hi, g('attribute_name') == ctx.a, g('number') == ctx.n)),
            ('interval', num_kindless(g('interval_length')) == V.fv(ctx.hi) - V.fv(ctx.lo))]


def bounds_setup(ctx, eng, st):
    o, x = param(eng, st, 'self', OBJ(B, True)), param(eng, st, 'value', FLOAT)
    ctx.lo, ctx.hi = num(ctx, st, o, 'min_value'), num(ctx, st, o, 'max_value')
    # class invariant established by __init__ (target bounded_init)
    st.assume(num(ctx, st, o, 'interval_length') == ctx.hi - ctx.lo, ctx.hi > ctx.lo)
    ctx.x = V.fv(x)
    return [o, x]


def to_value_post(ctx, s, r):
    y, x, lo, hi = num_kindless(r), ctx.x, ctx.lo, ctx.hi
    return [('affine', y == lo + x * (hi - lo)), ('ends', And(Implies(x == 0, y == lo), Implies(x == 1, y == hi))),
            ('inside-bounds', Implies(And(0 <= x, x <= 1), And(lo <= y, y <= hi))), frame(ctx, s)]


def to_dl_post(ctx, s, r):
    y, x, lo, hi = num_kindless(r), ctx.x, ctx.lo, ctx.hi
    return [('inverse', lo + y * (hi - lo) == x), ('ends', And(Implies(x == lo, y == 0), Implies(x == hi, y == 1))),
            ('inside-unit', Implies(And(lo <= x, x <= hi), And(0 <= y, y <= 1))), frame(ctx, s)]


def param_setup(periodic=None):
    def setup(ctx, eng, st):
        o, x = param(eng, st, 'self', OBJ(P, True)), param(eng, st, 'value', FLOAT)
        ctx.lo, ctx.hi = num(ctx, st, o, 'lower_bound'), num(ctx, st, o, 'upper_bound')
        st.assume(ctx.hi > ctx.lo)
        ctx.x = V.fv(x)
        return [o, x]
    return setup


def orig_post(ctx, s, r):
    return to_value_post(ctx, s, r)


# ---- periodic comparison ----
def peq_cfg(periodic):
    def f(eng):
        cfg(eng)
        eng.field_types['periodicity'] = FLOAT if periodic else Ty('none')
    return f


def peq_setup(periodic):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(P, True))
        a, b, t = (param(eng, st, n, FLOAT) for n in ('value1', 'value2', 'tol'))
        st.assume(V.fv(t) >= 0)
        p = read(eng, st, o, 'periodicity')
        if periodic:
            ctx.p = V.fv(p)
            st.assume(ctx.p > 0)
        else:
            st.assume(V.is_none(p))
        ctx.a, ctx.b, ctx.t = V.fv(a), V.fv(b), V.fv(t)
        return [o, a, b, t]
    return setup


def peq_post(ctx, s, r):
    """equal exactly when the difference is within tol of a multiple k*p of the period; k = q + m with q the quotient"""
    d, p, t = ctx.a - ctx.b, ctx.p, ctx.t
    q = ToInt(d / p)
    m, mp, qp = Int('m_p'), Real('mp_p'), Real('qp_p')
    s.assume(qp == ToReal(q) * p, mp == ToReal(m) * p)       # names for the two products
    by(s, And(qp <= d, d < qp + p), Implies(m <= 0, mp <= 0), Implies(m >= 1, mp >= p))
    near = lambda k: absr(d - k) <= t
    return [('near-a-multiple', Implies(arg(r, 'b'), Or(near(qp), near(qp + p)))),
            ('every-near-one-accepted', Implies(near(qp + mp), arg(r, 'b'))), frame(ctx, s)]


def eq_post(ctx, s, r):
    from contracts.c01 import TOL
    m = If(absr(ctx.a) >= absr(ctx.b), absr(ctx.a), absr(ctx.b))
    return [('close', arg(r, 'b') == Or(ctx.a == ctx.b, absr(ctx.a - ctx.b) <= TOL * m, absr(ctx.a - ctx.b) <= ctx.t)), frame(ctx, s)]


def obounds_setup(periodic):
    def setup(ctx, eng, st):
        o = param(eng, st, 'self', OBJ(P, True))
        p = read(eng, st, o, 'periodicity')
        ctx.lo, ctx.hi = num(ctx, st, o, 'lower_bound'), num(ctx, st, o, 'upper_bound')
        ctx.p = V.fv(p)
        return [o]
    return setup


def obounds_post(periodic):
    def post(ctx, s, r):
        if not periodic:
            return [('none', V.is_none(ctx.eng.reify(s, r)))]
        w = View(ctx.eng, s)
        v = ctx.eng.reify(s, r)
        a, b = (num_kindless(w.item(v, IntVal(i))) for i in (0, 1))
        return [('half-a-period-around', And(w.len(v) == 2, a == ctx.lo - ctx.p / 2, b == ctx.hi + ctx.p / 2))]
    return post


# ---- vectors ----
def inv(w, b):
    return w.attr


def vec_setup(ctx, eng, st):
    o, x = param(eng, st, 'self', OBJ(IMO)), param(eng, st, 'dl_vector', LIST(FLOAT))
    w = View(eng, st)
    bs = read(eng, st, o, 'optimization_bounds')
    j = Int('jb')
    a = lambda i, n: V.fv(w.attr(w.item(bs, i), n))
    st.assume(w.len(x) == w.len(bs),
              ForAll([j], Implies(And(0 <= j, j < w.len(bs)), And(a(j, 'interval_length') == a(j, 'max_value') - a(j, 'min_value'),
                                                                 a(j, 'max_value') > a(j, 'min_value'))), patterns=[w.item(bs, j)]))
    ctx.x, ctx.bs, ctx.a, ctx.o = x, bs, a, o
    return [o, x]


def vec_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n = w0.len(ctx.x)
    j = Int('jv')
    x = lambda i: V.fv(w0.item(ctx.x, i))
    y = lambda i: num_kindless(w.item(r, i))
    a = ctx.a
    return [('length', w.len(r) == n),
            ('each-its-own-bounds', ForAll([j], Implies(And(0 <= j, j < n), y(j) == a(j, 'min_value') + x(j) * (a(j, 'max_value') - a(j, 'min_value'))))),
            ('inside-bounds', ForAll([j], Implies(And(0 <= j, j < n, 0 <= x(j), x(j) <= 1), And(a(j, 'min_value') <= y(j), y(j) <= a(j, 'max_value'))))),
            frame(ctx, s)]


def attr_setup(ctx, eng, st):
    o, x = param(eng, st, 'self', OBJ(IMO)), param(eng, st, 'vector', LIST(FLOAT))
    w = View(eng, st)
    ctx.bs, ctx.fs, ctx.x = read(eng, st, o, 'optimization_bounds'), read(eng, st, o, 'fixed_parameters'), x
    nm = lambda l, i: w.attr(w.item(l, i), 'attribute_name')
    i, j = Int('ia'), Int('ja')
    st.assume(w.len(x) == w.len(ctx.bs),
              # the names are distinct (one value per attribute)
              ForAll([i, j], Implies(And(0 <= i, i < j, j < w.len(ctx.bs)), nm(ctx.bs, i) != nm(ctx.bs, j))),
              ForAll([i, j], Implies(And(0 <= i, i < j, j < w.len(ctx.fs)), nm(ctx.fs, i) != nm(ctx.fs, j))),
              ForAll([i, j], Implies(And(0 <= i, i < w.len(ctx.fs), 0 <= j, j < w.len(ctx.bs)), nm(ctx.fs, i) != nm(ctx.bs, j))))
    ctx.nm = nm
    return [o, x]


def attr_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    i = Int('ip')
    k = Const('kp', V)
    nb, nf = w0.len(ctx.bs), w0.len(ctx.fs)
    return [('bounded', ForAll([i], Implies(And(0 <= i, i < nb), And(w.has(r, ctx.nm(ctx.bs, i)), w.get(r, ctx.nm(ctx.bs, i)) == w0.item(ctx.x, i))))),
            ('fixed', ForAll([i], Implies(And(0 <= i, i < nf), And(w.has(r, ctx.nm(ctx.fs, i)),
                                                                  w.get(r, ctx.nm(ctx.fs, i)) == w0.attr(w0.item(ctx.fs, i), 'value'))))),
            ('nothing-else', ForAll([k], Implies(w.has(r, k), Or(Exists([i], And(0 <= i, i < nb, ctx.nm(ctx.bs, i) == k)),
                                                                 Exists([i], And(0 <= i, i < nf, ctx.nm(ctx.fs, i) == k)))))),
            frame(ctx, s)]


def b_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(IMO))
    ctx.bs = read(eng, st, o, 'optimization_bounds')
    return [o]


def scipy_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n, j = w0.len(ctx.bs), Int('jv')
    it = lambda i, k: w.item(w.item(r, i), IntVal(k))
    return [('unit-bounds', And(w.len(r) == n, ForAll([j], Implies(And(0 <= j, j < n), And(num_kindless(it(j, 0)) == 0, num_kindless(it(j, 1)) == 1)))))]


def cma_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    n, j = w0.len(ctx.bs), Int('jv')
    lo, hi = w.item(r, IntVal(0)), w.item(r, IntVal(1))
    return [('unit-bounds', And(w.len(r) == 2, w.len(lo) == n, w.len(hi) == n,
                                ForAll([j], Implies(And(0 <= j, j < n), And(num_kindless(w.item(lo, j)) == 0, num_kindless(w.item(hi, j)) == 1)))))]


# ---- the optimisers, over contracts of the conversions (above), the user's model and the numerical back ends ----
AI = ArraySort(IntSort(), V)
VEC = Function('values_of_vector', V, AI, IntSort(), AI)
AH, AG = Function('attr_has', V, AI, IntSort(), ArraySort(V, BoolSort())), Function('attr_get', V, AI, IntSort(), ArraySort(V, V))
MODEL = Function('model', V, ArraySort(V, BoolSort()), ArraySort(V, V), V)
COST = Function('cost', V, RealSort())


def vec_contract(eng, st, env):
    """dimensionless_vector_to_vector (target vector): a fresh list, a function of the object and the vector"""
    st = st.copy()
    w = View(eng, st)
    o, x = eng.reify(st, env['self']), eng.reify(st, env['dl_vector'])
    return [(st, eng.new_seq(st, w.len(x), VEC(o, w.rd('item', x), w.len(x)), T_LIST, LIST(FLOAT)))]


def attr_contract(eng, st, env):
    """vector_to_attributes_values (target attributes): a fresh dictionary, a function of the object and the vector"""
    st = st.copy()
    w = View(eng, st)
    o, x = eng.reify(st, env['self']), eng.reify(st, env['vector'])
    d = eng.new_dict(st)
    a = arg(d, 'r')
    eng.sto(st, 'has', a, AH(o, w.rd('item', x), w.len(x)))
    eng.sto(st, 'get', a, AG(o, w.rd('item', x), w.len(x)))
    return [(st, d)]


def model_contract(eng, st, env):
    w = View(eng, st)
    d = eng.reify(st, env['attributes_values'])
    return MODEL(eng.reify(st, env['self']), w.rd('has', d), w.rd('get', d))


def opt_cfg(eng):
    cfg(eng)
    eng.field_types['number_parameters'] = INT
    eng.contracts[IMO + '.dimensionless_vector_to_vector'] = Contract(vec_contract)
    eng.contracts[IMO + '.vector_to_attributes_values'] = Contract(attr_contract)
    eng.contracts[IMO + '.instantiate_model'] = pure(model_contract)                  # supplied by the user, deterministic
    eng.contracts[IMO + '.objective_from_model'] = pure(lambda eng, st, env: V.f(COST(eng.reify(st, env['model']))))
    for n in ('numpy.random.random',):
        eng.specs[n] = lambda eng, st, args, kwargs: fresh_vector(eng, st, args[0])

    def minimum(eng, st, f, n, bounds_ok):
        """the back end returns a point inside the bounds it was given and the value of the objective there"""
        eng.obligate(st, 'the bounds given to the optimiser are those of the unit cube', bounds_ok)
        st = st.copy()
        j = Int('jx')
        arr = eng.fresh('xopt', AI)
        st.assume(ForAll([j], Implies(And(0 <= j, j < n), And(V.is_f(Select(arr, j)), 0 <= V.fv(Select(arr, j)), V.fv(Select(arr, j)) <= 1)),
                         patterns=[Select(arr, j)]))
        x = eng.new_seq(st, n, arr, T_LIST, LIST(FLOAT))
        return x, eng.call(st, f, [x], {})

    def scipy_min(eng, st, args, kwargs):
        w = View(eng, st)
        b = eng.reify(st, kwargs['bounds'])
        n, j = Int('n_bounds'), Int('jy')
        it = lambda i, k: num_kindless(w.item(w.item(b, i), IntVal(k)))
        ok = And(w.len(b) == n, ForAll([j], Implies(And(0 <= j, j < n), And(it(j, 0) == 0, it(j, 1) == 1))))
        x, outs = minimum(eng, st, args[0], n, ok)
        res = []
        for s, v in outs:
            s = s.copy()
            r, a = eng.alloc(s, class_id('scipy:OptimizeResult'))
            eng.set_hint(s, r, OBJ('scipy:OptimizeResult', True))
            eng.sto(s, 'a:x', a, x)
            eng.sto(s, 'a:fun', a, v)
            res.append((s, r))
        return res
    eng.specs['scipy.optimize.minimize'] = scipy_min
    for nm in ('x', 'fun'):
        eng.class_attrs[('scipy:OptimizeResult', nm)] = lambda eng, st, o, nm=nm: [(st, eng.sel(st, 'a:' + nm, arg(o, 'r')))]

    def cma_min(eng, st, args, kwargs):
        w = View(eng, st)
        opt = eng.reify(st, kwargs['options'])
        b = w.get(opt, vs('bounds'))
        n, j = Int('n_bounds'), Int('jy')
        lo, hi = w.item(b, IntVal(0)), w.item(b, IntVal(1))
        ok = And(w.has(opt, vs('bounds')), w.len(b) == 2, w.len(lo) == n, w.len(hi) == n,
                 ForAll([j], Implies(And(0 <= j, j < n), And(num_kindless(w.item(lo, j)) == 0, num_kindless(w.item(hi, j)) == 1))))
        x, outs = minimum(eng, st, args[0], n, ok)
        return [(s, (x, v, V.none, V.none)) for s, v in outs]
    eng.specs['cma.fmin'] = cma_min


def fresh_vector(eng, st, n):
    st = st.copy()
    return [(st, eng.new_seq(st, arg(eng.reify(st, n), 'i'), eng.fresh('x0', AI), T_LIST, LIST(FLOAT)))]


def opt_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(IMO))
    w = View(eng, st)
    bs = read(eng, st, o, 'optimization_bounds')
    st.assume(w.len(bs) == Int('n_bounds'), read(eng, st, o, 'number_parameters') == V.i(w.len(bs)))
    ctx.o = o
    return [o]


def opt_post(ctx, s, r):
    v = ctx.eng.reify(s, r)
    w = View(ctx.eng, s)
    model, fun = w.item(v, IntVal(0)), w.item(v, IntVal(1))
    return [('cost-of-the-model', And(w.len(v) == 2, num_kindless(fun) == COST(model)))]


def both_cfg(eng):
    opt_cfg(eng)

    def best(name):
        def f(eng, st, env):
            st = st.copy()
            m, c = eng.fresh(name, V), eng.fresh('cost_' + name, RealSort())
            st.assume(c == COST(m))
            return [(st, (m, V.f(c)))]
        return Contract(f)
    eng.contracts[IMO + '.optimize_cma'] = best('m_cma')
    eng.contracts[IMO + '.optimize_gradient'] = best('m_grad')
    eng.specs['getattr'] = lambda eng, st, args, kwargs: [(st, V.f(Function('number_of', V, V, RealSort())(eng.reify(st, args[0]), eng.reify(st, args[1]))))]
    eng.specs['numpy.array'] = lambda eng, st, args, kwargs: [(st, args[0])]


def both_setup(ctx, eng, st):
    a = opt_setup(ctx, eng, st)
    w = View(eng, st)
    bs = read(eng, st, ctx.o, 'optimization_bounds')
    j = Int('jb')
    st.assume(ForAll([j], Implies(And(0 <= j, j < w.len(bs)), V.fv(w.attr(w.item(bs, j), 'interval_length')) != 0), patterns=[w.item(bs, j)]))
    return a


def both_post(ctx, s, r):
    v = ctx.eng.reify(s, r)
    w = View(ctx.eng, s)
    model, fun = w.item(v, IntVal(0)), w.item(v, IntVal(1))
    consts = {str(x): x for x in collect(s.pc) if str(x).startswith('cost_m_')}
    return [('cost-of-the-model', And(w.len(v) == 2, num_kindless(fun) == COST(model))),
            ('best-of-both', And(*[num_kindless(fun) <= c for c in consts.values()]))]


def collect(fs):
    out, seen, stack = [], set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            stack.append(x.body())
        elif is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


# ---- samplings: instances built by sampled_class(**values) ----
CS = 'dessia_common.datatools.sampling:ClassSampler'
IH, IG = Function('built_with', V, V, BoolSort()), Function('built_value', V, V, V)


def sample_cfg(eng):
    cfg(eng)
    eng.field_types.update(sampled_attributes=LIST(OBJ(B, True)), constant_attributes=LIST(OBJ(FX, True)), attributes=LIST(STR), sampled_class=ANY)

    def build(eng, st, f, e):
        """sampled_class(**values): an instance that remembers the arguments it was built with"""
        assert not e.args and len(e.keywords) == 1
        out = []
        for s, d in eng.ev(e.keywords[0].value, st):
            if isinstance(d, Raised):
                out.append((s, d))
                continue
            s = s.copy()
            w = View(eng, s)
            r, a = eng.alloc(s, class_id('sampled:Instance'))
            k = Const('kb', V)
            s.assume(ForAll([k], And(IH(r, k) == w.has(d, k), IG(r, k) == w.get(d, k)), patterns=[IH(r, k), IG(r, k)]))
            out.append((s, r))
        return out
    eng.specs['**'] = build

    def uniform(eng, st, args, kwargs):
        st = st.copy()
        a, b, x = num_kindless(args[0]), num_kindless(args[1]), eng.fresh('uniform', RealSort())
        st.assume(Implies(a <= b, And(a <= x, x <= b)))
        return [(st, V.f(x))]
    eng.specs['random.uniform'] = uniform

    def lhs(eng, st, args, kwargs):
        """pyDOE.lhs(n, samples): samples rows of n values in [0, 1]"""
        st = st.copy()
        n, m = arg(args[0], 'i'), arg(kwargs['samples'], 'i')
        rows = Function('lhs_row', IntSort(), IntSort())
        cell = Function('lhs_cell', IntSort(), ArraySort(IntSort(), V))
        i, j = Int('il'), Int('jl')
        arr = eng.fresh('rows', AI)
        st.assume(ForAll([i], And(Select(arr, i) == V.r(rows(i)), rows(i) <= Int('WM0'), TAG(rows(i)) == T_LIST, Select(st.h('len'), rows(i)) == n,
                                  Select(st.h('item'), rows(i)) == cell(i)), patterns=[Select(arr, i)]),
                  ForAll([i, j], And(V.is_f(Select(cell(i), j)), 0 <= V.fv(Select(cell(i), j)), V.fv(Select(cell(i), j)) <= 1), patterns=[Select(cell(i), j)]))
        return [(st, eng.new_seq(st, m, arr, T_LIST, LIST(LIST(FLOAT))))]
    eng.specs['pyDOE.lhs'] = lhs
    eng.specs['pyDOE2.lhs'] = lhs


def lhs_cfg(eng):
    """callers of dimensionless_to_value see its contract (proved: to_value/inside-bounds)"""
    sample_cfg(eng)

    def to_value(eng, st, env):
        st = st.copy()
        o, x, y = list(env.values())[0], num_kindless(list(env.values())[1]), eng.fresh('dim', RealSort())
        lo, hi = (V.fv(read(eng, st, o, n)) for n in ('min_value', 'max_value'))
        st.assume(Implies(And(lo <= hi, 0 <= x, x <= 1), And(lo <= y, y <= hi)))
        return [(st, V.f(y))]
    eng.contracts[B + '.dimensionless_to_value'] = Contract(to_value)


def sampler(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(CS, True))
    w = View(eng, st)
    ctx.cs, ctx.ss, ctx.names = (read(eng, st, o, n) for n in ('constant_attributes', 'sampled_attributes', 'attributes'))
    nc, ns = w.len(ctx.cs), w.len(ctx.ss)
    nm = lambda l, i: w.attr(w.item(l, i), 'attribute_name')
    i, j = Int('ia'), Int('ja')
    a = lambda l, q, n: V.fv(w.attr(w.item(l, q), n))
    st.assume(w.len(ctx.names) == nc + ns,
              ForAll([i], Implies(And(0 <= i, i < nc), w.item(ctx.names, i) == nm(ctx.cs, i)), patterns=[w.item(ctx.names, i)]),
              ForAll([i], Implies(And(nc <= i, i < nc + ns), w.item(ctx.names, i) == nm(ctx.ss, i - nc)), patterns=[w.item(ctx.names, i)]),
              ForAll([i, j], Implies(And(0 <= i, i < j, j < nc + ns), w.item(ctx.names, i) != w.item(ctx.names, j))),
              ForAll([i], Implies(And(0 <= i, i < ns), And(a(ctx.ss, i, 'min_value') < a(ctx.ss, i, 'max_value'),
                                                         a(ctx.ss, i, 'interval_length') == a(ctx.ss, i, 'max_value') - a(ctx.ss, i, 'min_value'))),
                     patterns=[w.item(ctx.ss, i)]))
    ctx.nc, ctx.ns, ctx.a = nc, ns, a
    return o


def mc_setup(kind):
    def setup(ctx, eng, st):
        o = sampler(ctx, eng, st)
        n = param(eng, st, 'samples', INT)
        st.assume(V.iv(n) >= 0)
        ctx.n = V.iv(n)
        return [o, n] + ([vs('center')] if kind == 'lhs' else [])
    return setup


def mc_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    q, i = Int('q_s'), Int('i_s')
    k = Const('k_s', V)
    nc, ns, a = ctx.nc, ctx.ns, ctx.a
    name = lambda i: w0.item(ctx.names, i)
    val = lambda q, i: IG(w.item(r, q), name(i))
    inq = And(0 <= q, q < ctx.n)
    return [('as-many-samples', w.len(r) == ctx.n),
            ('constants-fixed', ForAll([q, i], Implies(And(inq, 0 <= i, i < nc), And(IH(w.item(r, q), name(i)), val(q, i) == w0.attr(w0.item(ctx.cs, i), 'value'))))),
            ('inside-bounds', ForAll([q, i], Implies(And(inq, 0 <= i, i < ns), And(
                IH(w.item(r, q), name(nc + i)), a(ctx.ss, i, 'min_value') <= num_kindless(val(q, nc + i)), num_kindless(val(q, nc + i)) <= a(ctx.ss, i, 'max_value'))))),
            frame(ctx, s)]


def names_setup(ctx, eng, st):
    o = param(eng, st, 'self', OBJ(CS, True))
    ctx.cs, ctx.ss = (read(eng, st, o, n) for n in ('constant_attributes', 'sampled_attributes'))
    return [o]


def names_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    nc, ns, i = w0.len(ctx.cs), w0.len(ctx.ss), Int('i_n')
    nm = lambda l, i: w0.attr(w0.item(l, i), 'attribute_name')
    return [('constants-then-sampled', And(w.len(r) == nc + ns, ForAll([i], Implies(And(0 <= i, i < nc), w.item(r, i) == nm(ctx.cs, i))),
                                           ForAll([i], Implies(And(0 <= i, i < ns), w.item(r, nc + i) == nm(ctx.ss, i))))), frame(ctx, s)]


def numbers_post(ctx, s, r):
    w0, w = View(ctx.eng, ctx.st0), View(ctx.eng, s)
    nc, ns, i = w0.len(ctx.cs), w0.len(ctx.ss), Int('i_n')
    return [('one-for-constants', And(w.len(r) == nc + ns, ForAll([i], Implies(And(0 <= i, i < nc), w.item(r, i) == vi(1))))),
            ('then-numbers', ForAll([i], Implies(And(0 <= i, i < ns), w.item(r, nc + i) == w0.attr(w0.item(ctx.ss, i), 'number')))), frame(ctx, s)]


TARGETS = [
    Target('bounded_init', B + '.__init__', init_setup, init_post, config=cfg),
    Target('to_value', B + '.dimensionless_to_value', bounds_setup, to_value_post, config=cfg),
    Target('to_dimensionless', B + '.dimensionless_value', bounds_setup, to_dl_post, config=cfg),
    Target('normalize', P + '.normalize', param_setup(), to_dl_post, config=cfg),
    Target('original_value', P + '.original_value', param_setup(), to_value_post, config=cfg),
    Target('periodic_equal', P + '.are_values_equal', peq_setup(True), peq_post, config=peq_cfg(True)),
    Target('plain_equal', P + '.are_values_equal', peq_setup(False), eq_post, config=peq_cfg(False)),
    Target('periodic_bounds', P + '.optimizer_bounds', obounds_setup(True), obounds_post(True), config=peq_cfg(True)),
    Target('plain_bounds', P + '.optimizer_bounds', obounds_setup(False), obounds_post(False), config=peq_cfg(False)),
    Target('vector', IMO + '.dimensionless_vector_to_vector', vec_setup, vec_post, config=cfg),
    Target('attributes', IMO + '.vector_to_attributes_values', attr_setup, attr_post, config=cfg),
    Target('scipy_bounds', IMO + '.scipy_bounds', b_setup, scipy_post, config=cfg),
    Target('cma_bounds', IMO + '.cma_bounds', b_setup, cma_post, config=cfg),
    Target('optimize_gradient', IMO + '.optimize_gradient', opt_setup, opt_post, config=opt_cfg),
    Target('optimize_cma', IMO + '.optimize_cma', opt_setup, opt_post, config=opt_cfg),
    Target('cma_then_gradient', IMO + '.optimize_cma_then_gradient', both_setup, both_post, config=both_cfg),
    Target('sample_names', CS + '._get_attributes_names', names_setup, names_post, config=sample_cfg),
    Target('sample_numbers', CS + '._get_instances_numbers', names_setup, numbers_post, config=sample_cfg),
    Target('montecarlo', CS + '.montecarlo', mc_setup('mc'), mc_post, config=sample_cfg),
    Target('lhs', CS + '.lhs', mc_setup('lhs'), mc_post, config=lhs_cfg),
]
