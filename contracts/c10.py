"""C10 datasets: the coherence of a dataset as an invariant kept by its operations."""
from pyvc.verify import *
from pyvc.specs import *
from contracts.c01 import frame
from contracts.c08 import read
import pyvc.interp as I

M, MC = 'dessia_common.datatools.dataset:', 'dessia_common.datatools.cluster:'
DS, CD = M + 'Dataset', MC + 'ClusteredDataset'
O = 'dessia_common.core:DessiaObject'
VAL = Function('value_of_attribute', V, V, V)      # what the vector of an object holds for an attribute
INTS, Arr = IntSort(), ArraySort(IntSort(), V)
SLEN, SIDX = Function('slice_len', INTS, INTS), Function('slice_index', INTS, INTS, INTS)          # the slice under consideration: length of the list, position
COUNT, POSN = Function('kept_count', Arr, INTS, INTS), Function('kept_position', Arr, INTS, INTS, INTS)


def fields(eng):
    eng.field_types['dessia_objects'] = LIST(OBJ(O))
    eng.field_types['labels'] = LIST(INT)
    eng.field_types['name'] = STR
    eng.field_types['_matrix'] = ANY
    eng.field_types['_common_attributes'] = ANY


class Data:
    """the parts of a dataset in one state"""

    def __init__(self, eng, st, ds):
        w = self.w = View(eng, st)
        self.objs, self.matrix, self.common, self.labels = (w.attr(ds, n) for n in ('dessia_objects', '_matrix', '_common_attributes', 'labels'))
        self.n = w.len(self.objs)

    def obj(self, j):
        return self.w.item(self.objs, j)

    def row(self, j):
        return self.w.item(self.matrix, j)

    def coherent(self):
        """the cached matrix, if any, holds one row per object: the values of the common attributes of that object"""
        w, j, k = self.w, Int('cj'), Int('ck')
        row, nc = self.row(j), w.len(self.common)
        cell = w.item(row, k)
        return Or(self.matrix == V.none,
                  And(w.tag(self.matrix, T_LIST), w.tag(self.common, T_LIST), w.len(self.matrix) == self.n,
                      ForAll([j], Implies(And(0 <= j, j < self.n), And(w.tag(row, T_LIST), w.len(row) == nc)), patterns=[row]),
                      ForAll([j, k], Implies(And(0 <= j, j < self.n, 0 <= k, k < nc), cell == VAL(self.obj(j), w.item(self.common, k))), patterns=[cell])))


def dataset(ctx, eng, st, name='self', cls=DS):
    d = param(eng, st, name, OBJ(cls, True))
    read(eng, st, d, 'dessia_objects')
    read(eng, st, d, 'name')
    m, c = read(eng, st, d, '_matrix'), read(eng, st, d, '_common_attributes')
    w = View(eng, st)
    st.assume(Or(m == V.none, w.tag(m, T_LIST)), Or(c == V.none, w.tag(c, T_LIST)), Or(m == V.none, w.len(m) >= 0), Or(c == V.none, w.len(c) >= 0))
    x = Data(eng, st, d)
    j = Int('oj')
    st.assume(x.coherent(), ForAll([j], Implies(V.is_r(x.row(j)), arg(x.row(j), 'r') <= Int('WM0')), patterns=[x.row(j)]))
    cell = w.item(x.common, j)
    st.assume(ForAll([j], Implies(And(c != V.none, 0 <= j, j < w.len(c)), V.is_s(cell)), patterns=[cell]))
    if cls == CD:
        l = read(eng, st, d, 'labels')
        st.assume(w.len(l) == x.n)
    return d


def slices(eng):
    n, j = Int('sn'), Int('sj')
    eng.axioms_slice = [ForAll([n], SLEN(n) >= 0, patterns=[SLEN(n)]),
                        ForAll([n, j], Implies(And(0 <= j, j < SLEN(n)), And(0 <= SIDX(n, j), SIDX(n, j) < n)), patterns=[SIDX(n, j)])]


def pick_slice_setup(cls):
    def f(ctx, eng, st):
        ctx.d = dataset(ctx, eng, st, cls=cls)
        slices(eng)
        st.assume(*eng.axioms_slice)
        return [ctx.d, I.ESlice(None, None, None, opaque=(SLEN, SIDX))]
    return f


def picked(ctx, s, r, count, pos, cls):
    eng = ctx.eng
    a, b = Data(eng, ctx.st0, ctx.d), Data(eng, s, r)
    w0, w = a.w, b.w
    out = [('same-class', And(V.is_r(r), TAG(arg(r, 'r')) == class_id(cls), arg(r, 'r') > Int('WM0'))),
           ('the-picked-objects', And(b.n == count(a.n), forall_in(0, b.n, lambda j: b.obj(j) == a.obj(pos(a.n, j))))),
           ('coherent', b.coherent()),
           ('same-name', w.attr(r, 'name') == w0.attr(ctx.d, 'name'))]
    if cls == CD:
        out.append(('labels-follow', And(w.len(b.labels) == b.n, forall_in(0, b.n, lambda j: w.item(b.labels, j) == w0.item(a.labels, pos(a.n, j))))))
    return out + [frame(ctx, s)]


def apply_contract(eng, st, env):
    """DessiaFilter.apply (contract of C08): the kept elements, in order; which positions are kept only depends on the booleans"""
    vals, bl = (eng.reify(st, v) for v in list(env.values())[-2:])
    w = View(eng, st)
    st = st.copy()
    arr, n = w.rd('item', bl), w.len(bl)
    new = eng.fresh('kept', Arr)
    j = Int('kj')
    st.assume(ForAll([j], Implies(And(0 <= j, j < COUNT(arr, n)), And(0 <= POSN(arr, n, j), POSN(arr, n, j) < n, Select(new, j) == w.item(vals, POSN(arr, n, j)))), patterns=[Select(new, j)]),
              COUNT(arr, n) >= 0, COUNT(arr, n) <= n)
    eng.obligate(st, 'one-boolean-per-value', w.len(vals) == n)
    return [(st, eng.new_seq(st, COUNT(arr, n), new, T_LIST, eng.hint(st, vals)))]


def bool_cfg(eng):
    fields(eng)
    eng.contracts['dessia_common.core:DessiaFilter.apply'] = Contract(apply_contract)


def pick_bool_setup(cls):
    def f(ctx, eng, st):
        ctx.d = dataset(ctx, eng, st, cls=cls)
        ctx.b = param(eng, st, 'key', LIST(BOOL))
        st.assume(View(eng, st).len(ctx.b) == Data(eng, st, ctx.d).n)
        return [ctx.d, ctx.b]
    return f


def pick_bool_post(cls):
    def post(ctx, s, r):
        arr = View(ctx.eng, ctx.st0).rd('item', ctx.b)
        return picked(ctx, s, r, lambda n: COUNT(arr, n), lambda n, j: POSN(arr, n, j), cls)
    return post


# ---- reordering ----
def reorder_setup(cls):
    def f(ctx, eng, st):
        ctx.d = dataset(ctx, eng, st, cls=cls)
        ctx.ix = param(eng, st, 'indexes', LIST(INT))
        w = View(eng, st)
        x = Data(eng, st, ctx.d)
        j = Int('xj')
        ctx.at = lambda j: V.iv(w.item(ctx.ix, j))
        st.assume(w.len(ctx.ix) == x.n, ForAll([j], Implies(And(0 <= j, j < x.n), And(0 <= ctx.at(j), ctx.at(j) < x.n)), patterns=[w.item(ctx.ix, j)]))
        return [ctx.d, ctx.ix]
    return f


def only_changes(ctx, s, ds, names):
    """only attributes of the dataset itself change"""
    x = Int('fa')
    out = []
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0):
            free = hn.startswith('a:') and hn[2:] in names
            out.append(ForAll([x], Implies(And(x <= Int('WM0'), x != arg(ds, 'r') if free else BoolVal(True)), Select(h, x) == Select(h0, x))))
    return 'nothing-else-modified', conj(out)


def reorder_post(cls):
    def post(ctx, s, r):
        a, b = Data(ctx.eng, ctx.st0, ctx.d), Data(ctx.eng, s, ctx.d)
        out = [('objects-in-the-order', And(b.n == a.n, forall_in(0, a.n, lambda j: b.obj(j) == a.obj(ctx.at(j))))),
               ('coherent', b.coherent())]
        if cls == CD:
            out.append(('labels-follow', And(b.w.len(b.labels) == a.n, forall_in(0, a.n, lambda j: b.w.item(b.labels, j) == a.w.item(a.labels, ctx.at(j))))))
        return out + [only_changes(ctx, s, ctx.d, ('dessia_objects', '_matrix', 'labels'))]
    return post


# ---- indexing ----
ERRORS = ('ValueError', 'IndexError', 'NotImplementedError')


def item_setup(kind, cls=DS):
    def f(ctx, eng, st):
        ctx.d = dataset(ctx, eng, st, cls=cls)
        x = Data(eng, st, ctx.d)
        slices(eng)
        if kind == 'int':
            ctx.k = param(eng, st, 'key', INT)
        elif kind == 'slice':
            st.assume(*eng.axioms_slice)
            ctx.k = I.ESlice(None, None, None, opaque=(SLEN, SIDX))
        elif kind == 'booleans':
            ctx.k = param(eng, st, 'key', LIST(BOOL))
            ctx.arr = View(eng, st).rd('item', ctx.k)
        return [ctx.d, ctx.k]
    return f


def item_post(kind, cls=DS):
    def post(ctx, s, r):
        a = Data(ctx.eng, ctx.st0, ctx.d)
        if kind == 'int':
            k = V.iv(ctx.k)
            i = If(k < 0, k + a.n, k)
            return [('the-object', Implies(a.n > 0, And(0 <= i, i < a.n, r == a.obj(i)))), frame(ctx, s)]
        if kind == 'slice':
            goals = picked(ctx, s, r, lambda n: SLEN(n), lambda n, j: SIDX(n, j), cls)
        else:
            goals = picked(ctx, s, r, lambda n: COUNT(ctx.arr, n), lambda n, j: POSN(ctx.arr, n, j), cls)
            l0 = a.w.len(ctx.k)
            empty = View(ctx.eng, s).len(View(ctx.eng, s).attr(r, 'dessia_objects')) == 0 if z3.is_expr(r) else True
            return [('empty-key', Implies(And(a.n > 0, l0 == 0), empty))] + [(n, Implies(And(a.n > 0, l0 > 0), And(l0 == a.n, g))) for n, g in goals]
        return [(n, Implies(a.n > 0, g)) for n, g in goals]
    return post


def item_refused(kind):
    def f(ctx, s, r):
        a = Data(ctx.eng, ctx.st0, ctx.d)
        if kind == 'int' and r.exc == 'IndexError':
            k = V.iv(ctx.k)
            return [('no-such-object', Or(k >= a.n, k < -a.n)), frame(ctx, s)]
        if kind == 'booleans' and r.exc == 'ValueError':
            return [('other-length', a.w.len(ctx.k) != a.n), frame(ctx, s)]
        return None
    return f


def mask_setup(ctx, eng, st):
    ctx.d = dataset(ctx, eng, st)
    ctx.ix = param(eng, st, 'index_list', LIST(INT))
    return [ctx.d, ctx.ix]


def mask_inv(info):
    eng, ctx = info.eng, info.eng.ghost
    n = Data(eng, ctx.st0, ctx.d).n
    new = [v for k, v in info.st.env.items() if z3.is_expr(v) and ctor(v) == 'r' and arg(v, 'r').get_id() in eng.fresh_addrs]
    if len(new) != 1:
        return None
    l = new[0]
    k = Int('mk')

    def phi(s, i):
        w = View(eng, s)
        return [w.len(l) == n, forall_in(0, i, lambda q: And(0 <= ctx.at(q), ctx.at(q) < n)),
                forall_in(0, n, lambda j: And(V.is_b(w.item(l, j)), V.bv(w.item(l, j)) == Exists([k], And(0 <= k, k < i, ctx.at(k) == j))))]
    return phi


def mask_setup(ctx, eng, st):
    ctx.d = dataset(ctx, eng, st)
    ctx.ix = param(eng, st, 'index_list', LIST(INT))
    w, n = View(eng, st), Data(eng, st, ctx.d).n
    ctx.at = lambda k: If(V.iv(w.item(ctx.ix, k)) < 0, V.iv(w.item(ctx.ix, k)) + n, V.iv(w.item(ctx.ix, k)))
    ctx.n, ctx.m = n, w.len(ctx.ix)
    ctx.st0 = st
    eng.ghost = ctx
    return [ctx.d, ctx.ix]


def mask_post(ctx, s, r):
    w, k = View(ctx.eng, s), Int('mk')
    return [('one-boolean-per-object', w.len(r) == ctx.n),
            ('true-where-listed', forall_in(0, ctx.n, lambda j: And(V.is_b(w.item(r, j)), V.bv(w.item(r, j)) == Exists([k], And(0 <= k, k < ctx.m, ctx.at(k) == j))))),
            frame(ctx, s)]


def mask_refused(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    k = Int('bad')
    return [('no-such-object', Exists([k], And(0 <= k, k < ctx.m, Not(And(0 <= ctx.at(k), ctx.at(k) < ctx.n))))), frame(ctx, s)]


def mask_cfg(eng):
    fields(eng)
    eng.invariants.append(mask_inv)


# ---- the common attributes: a list that is kept on the dataset ----
CA_LEN, CA = Function('common_count', V, INTS), Function('common_at', V, Arr)      # of the list of objects


def common_contract(eng, st, env):
    d = eng.reify(st, list(env.values())[0])
    out = []
    c = eng.sel(st, 'a:_common_attributes', arg(d, 'r'))
    for s, none in eng.branch(st, c == V.none):
        if not none:
            s.assume(V.is_r(c), TAG(arg(c, 'r')) == T_LIST)
            eng.known_ref(c)
            s.assume(arg(c, 'r') <= s.wm)
            eng.set_hint(s, c, LIST(STR))
            if eng.is_old(c):
                s.assume(arg(c, 'r') <= Int('WM0'))
            out.append((s, c))
            continue
        objs = eng.sel(s, 'a:dessia_objects', arg(d, 'r'))
        for s2, empty in eng.branch(s, View(eng, s).len(objs) == 0):
            s2 = s2.copy()
            if empty:
                out.append((s2, eng.new_list(s2, [])))
                continue
            arr, n = CA(objs), CA_LEN(objs)
            j = Int('caj')
            s2.assume(n >= 0, ForAll([j], Implies(And(0 <= j, j < n), V.is_s(Select(arr, j))), patterns=[Select(arr, j)]))
            v = eng.new_seq(s2, n, arr, T_LIST, LIST(STR))
            eng.sto(s2, 'a:_common_attributes', arg(d, 'r'), v)
            out.append((s2, v))
    return out


def add_cfg(eng):
    fields(eng)
    eng.contracts[DS + '.common_attributes'] = Contract(common_contract)


def add_setup(ctx, eng, st):
    ctx.d, ctx.o = dataset(ctx, eng, st), dataset(ctx, eng, st, 'other')
    return [ctx.d, ctx.o]


def concat(a, b, r):
    return And(r.n == a.n + b.n, forall_in(0, a.n, lambda j: r.obj(j) == a.obj(j)), forall_in(0, b.n, lambda j: r.obj(a.n + j) == b.obj(j)))


def only_caches(ctx, s, free=()):
    x = Int('fa')
    out = []
    ds = [arg(ctx.d, 'r'), arg(ctx.o, 'r')]
    for hn, h in sorted(s.heap.items()):
        h0 = Const(f'H0_{hn}', h.sort())
        if not h.eq(h0):
            ex = ds if hn == 'a:_common_attributes' else ds[:1] if hn in free else []
            out.append(ForAll([x], Implies(And(x <= Int('WM0'), *[x != a for a in ex]), Select(h, x) == Select(h0, x))))
    return 'nothing-else-modified', conj(out)


def add_post(ctx, s, r):
    eng = ctx.eng
    a, b, c = Data(eng, ctx.st0, ctx.d), Data(eng, ctx.st0, ctx.o), Data(eng, s, r)
    return [('new', And(V.is_r(r), TAG(arg(r, 'r')) == class_id(DS), arg(r, 'r') > Int('WM0'))),
            ('objects-of-both', concat(a, b, c)), ('coherent', c.coherent()),
            ('operands-coherent', And(Data(eng, s, ctx.d).coherent(), Data(eng, s, ctx.o).coherent())), only_caches(ctx, s)]


def add_contract(eng, st, env):
    """what is discharged for __add__ above"""
    d, o = (eng.reify(st, v) for v in list(env.values())[:2])
    st = st.copy()
    a, b = Data(eng, st, d), Data(eng, st, o)
    for x in (d, o):
        c = eng.fresh('cached', V)
        eng.known_ref(c)
        st.assume(Implies(V.is_r(c), arg(c, 'r') <= st.wm))
        eng.sto(st, 'a:_common_attributes', arg(x, 'r'), c)
    v, adr = eng.alloc(st, IntVal(class_id(DS)), OBJ(DS, True))
    arr = eng.fresh('both', Arr)
    objs = eng.new_seq(st, a.n + b.n, arr, T_LIST, LIST(OBJ(O)))
    eng.sto(st, 'a:dessia_objects', adr, objs)
    for n in ('_matrix', '_common_attributes', 'name'):
        eng.sto(st, 'a:' + n, adr, eng.fresh('sum' + n, V))
    st.assume(concat(a, b, Data(eng, st, v)), Data(eng, st, v).coherent(), Data(eng, st, d).coherent(), Data(eng, st, o).coherent())
    return [(st, v)]


def extend_cfg(eng):
    fields(eng)
    eng.contracts[DS + '.__add__'] = Contract(add_contract)


def extend_post(ctx, s, r):
    eng = ctx.eng
    a, b, c = Data(eng, ctx.st0, ctx.d), Data(eng, ctx.st0, ctx.o), Data(eng, s, ctx.d)
    return [('objects-of-both', concat(a, b, c)), ('coherent', c.coherent()),
            ('operand-kept', Implies(ctx.o != ctx.d, And(Data(eng, s, ctx.o).coherent(), Data(eng, s, ctx.o).objs == b.objs))),
            only_caches(ctx, s, ('a:dessia_objects', 'a:_matrix', 'a:name'))]


# ---- the matrix ----
FLEN, FEAT, FPOS = Function('features_count', V, INTS), Function('feature', V, INTS, V), Function('feature_position', V, V, INTS)


def features_contract(eng, st, env):
    """vector_features: a list of names that is a function of the object (of its class)"""
    o = eng.reify(st, list(env.values())[0])
    st = st.copy()
    arr = eng.fresh('features', Arr)
    j = Int('fj')
    st.assume(FLEN(o) >= 0, ForAll([j], Implies(And(0 <= j, j < FLEN(o)), And(Select(arr, j) == FEAT(o, j), V.is_s(Select(arr, j)))), patterns=[Select(arr, j)]),
              ForAll([j], Implies(And(0 <= j, j < FLEN(o)), Select(arr, j) == FEAT(o, j)), patterns=[FEAT(o, j)]))
    return [(st, eng.new_seq(st, FLEN(o), arr, T_LIST, LIST(STR)))]


def vector_contract(eng, st, env):
    """to_vector: one value per feature (DessiaObject.to_vector, below)"""
    o = eng.reify(st, list(env.values())[0])
    st = st.copy()
    arr = eng.fresh('vector', Arr)
    j = Int('fj')
    st.assume(FLEN(o) >= 0, ForAll([j], Implies(And(0 <= j, j < FLEN(o)), Select(arr, j) == VAL(o, FEAT(o, j))), patterns=[Select(arr, j)]))
    return [(st, eng.new_seq(st, FLEN(o), arr, T_LIST, None))]


def shared(x):
    """every common attribute is a feature of every object"""
    w, j, k = x.w, Int('cj'), Int('ck')
    o, a = x.obj(j), w.item(x.common, k)
    return ForAll([j, k], Implies(And(0 <= j, j < x.n, 0 <= k, k < w.len(x.common)), And(0 <= FPOS(o, a), FPOS(o, a) < FLEN(o), FEAT(o, FPOS(o, a)) == a)), patterns=[FPOS(o, a)])


def matrix_setup(ctx, eng, st):
    ctx.d = dataset(ctx, eng, st)
    x = Data(eng, st, ctx.d)
    j, k = Int('cj'), Int('ck')
    w = x.w
    # a dataset with objects and its common attributes: they are features of every object
    st.assume(w.tag(x.common, T_LIST), w.len(x.common) >= 0)
    o, a = x.obj(j), w.item(x.common, k)
    st.assume(ForAll([j, k], Implies(And(0 <= j, j < x.n, 0 <= k, k < w.len(x.common)), And(0 <= FPOS(o, a), FPOS(o, a) < FLEN(o), FEAT(o, FPOS(o, a)) == a)),
                     patterns=[z3.MultiPattern(o, a)]))
    return [ctx.d]


def matrix_cfg(eng):
    add_cfg(eng)
    eng.contracts[O + '.to_vector'] = Contract(vector_contract)
    eng.class_attrs[(O, 'vector_features')] = lambda e, st, o: [(st, I.ESpec(lambda e2, s, a, k: features_contract(e2, s, {'o': o})))]


def matrix_post(ctx, s, r):
    eng = ctx.eng
    ctx.o = ctx.d
    a, b = Data(eng, ctx.st0, ctx.d), Data(eng, s, ctx.d)
    w, j, k = b.w, Int('cj'), Int('ck')
    row = w.item(r, j)
    return [('kept', And(b.matrix == r, b.objs == a.objs)), ('coherent', And(b.coherent(), w.tag(r, T_LIST))), only_caches(ctx, s, ('a:_matrix',))]


def matrix_contract(eng, st, env):
    d = eng.reify(st, list(env.values())[0])
    st = st.copy()
    m, c = eng.fresh('matrix', V), eng.fresh('common', V)
    a = arg(d, 'r')
    eng.sto(st, 'a:_matrix', a, m)
    eng.sto(st, 'a:_common_attributes', a, c)
    wm = eng.fresh('wmc', IntSort())
    st.assume(wm >= st.wm)
    st.wm = wm
    eng.known_ref(m)
    eng.known_ref(c)
    x = Data(eng, st, d)
    j = Int('oj')
    st.assume(x.coherent(), View(eng, st).tag(m, T_LIST), arg(m, 'r') <= wm, ForAll([j], Implies(V.is_r(x.row(j)), arg(x.row(j), 'r') <= wm), patterns=[x.row(j)]), Implies(V.is_r(c), arg(c, 'r') <= wm))
    eng.set_hint(st, m, LIST(LIST(ANY)))
    return [(st, m)]


def column_setup(ctx, eng, st):
    ctx.d = dataset(ctx, eng, st)
    ctx.k = param(eng, st, 'index', INT)
    return [ctx.d, ctx.k]


def column_cfg(eng):
    add_cfg(eng)
    eng.contracts[DS + '.matrix'] = Contract(matrix_contract)


def column_goals(ctx, s, r, attribute):
    b = Data(ctx.eng, s, ctx.d)
    ctx.o = ctx.d
    w = View(ctx.eng, s)
    return [('one-value-per-object', w.len(r) == b.n), ('values-of-the-objects', forall_in(0, b.n, lambda j: w.item(r, j) == VAL(b.obj(j), attribute(b)))),
            only_caches(ctx, s, ('a:_matrix',))]


def column_post(ctx, s, r):
    k = V.iv(ctx.k)
    return column_goals(ctx, s, r, lambda b: b.w.item(b.common, If(k < 0, k + b.w.len(b.common), k)))


def column_refused(ctx, s, r):
    if r.exc != 'IndexError':
        return None
    b = Data(ctx.eng, s, ctx.d)
    n = b.w.len(b.common)
    return [('no-such-column', Or(V.iv(ctx.k) >= n, V.iv(ctx.k) < -n))]


TARGETS = [Target(f'pick_slice[{n}]', c + '._pick_from_slice', pick_slice_setup(c), lambda ctx, s, r, c=c: picked(ctx, s, r, lambda n: SLEN(n), lambda n, j: SIDX(n, j), c), config=fields)
           for n, c in (('plain', DS), ('clustered', CD))] + [
    Target(f'pick_booleans[{n}]', c + '._pick_from_boolist', pick_bool_setup(c), pick_bool_post(c), config=bool_cfg) for n, c in (('plain', DS), ('clustered', CD))] + [
    Target(f'item[{k},{n}]', c + '.__getitem__', item_setup(k, c), item_post(k, c), config=bool_cfg, allow_raise=item_refused(k))
    for k in ('int', 'slice', 'booleans') for n, c in (('plain', DS), ('clustered', CD))] + [
    Target(f'reorder[{n}]', c + '._reorder', reorder_setup(c), reorder_post(c), config=fields) for n, c in (('plain', DS), ('clustered', CD))] + [
    Target('mask', DS + '._indexlist_to_booleanlist', mask_setup, mask_post, config=mask_cfg, allow_raise=mask_refused),
    Target('add', DS + '.__add__', add_setup, add_post, config=add_cfg),
    Target('extend', DS + '.extend', add_setup, extend_post, config=extend_cfg),
    Target('matrix', DS + '.matrix', matrix_setup, matrix_post, config=matrix_cfg),
    Target('column', DS + '.column_values', column_setup, column_post, config=column_cfg, allow_raise=column_refused)]
