"""Assumed contracts on the few numpy operations of the Pareto computation.

A matrix is made of cells (is it nan, its real value); a vector of truth values lives in the heap as the list of its
elements, since it is written in place.  Selecting rows with a mask keeps the mask: assigning through the same mask puts the
values back in their rows.  Rounding is not modelled.
"""
import ast
import z3
from z3 import And, Or, Not, Implies, If, Int, IntVal, RealVal, BoolVal, Select, Function, IntSort, RealSort, ArraySort, ForAll
from . import interp as I
from .logic import *

NPB = BoolVal


class EMat(I.ENd):
    """n x m numbers; mask: the rows that are there (None: all)"""

    def __init__(self, n, m, nan, val, mask=None, trig=None):
        self.n, self.m, self.nan, self.val, self.mask, self.trig = n, m, nan, val, mask, trig


class EVec(I.ENd):
    """one number per column"""

    def __init__(self, m, nan, val):
        self.m, self.nan, self.val = m, nan, val


class EStd(EVec):
    pass


class EBools(I.ENd):
    """n x m truth values"""

    def __init__(self, n, m, fn, mask):
        self.n, self.m, self.fn, self.mask = n, m, fn, mask


class EMask(I.ENd):
    """a truth value per row; where: the list of the heap that holds it, or fn"""

    def __init__(self, n, where=None, fn=None, mask=None):
        self.n, self.where, self.fn, self.mask = n, where, fn, mask


def no(nan):
    return lambda *a: BoolVal(False)


def matrix(eng, st, v):
    """a list of lists of numbers, all of the same length"""
    if isinstance(v, EMat):
        return v
    h = eng.hint(st, v) if z3.is_expr(v) else None
    if h is None or h.kind != 'list' or not h.args or h.args[0].kind != 'list' or not h.args[0].args or h.args[0].args[0].kind not in ('float', 'int', 'num'):
        raise I.Unsupported('an array of something else than lists of numbers')
    n = eng.sel(st, 'len', arg(v, 'r'))
    rows = eng.sel(st, 'item', arg(v, 'r'))
    items, lens = st.h('item'), st.h('len')
    row = lambda i: Select(rows, i)
    m = eng.fresh('columns', IntSort())
    i, k = Int('mi'), Int('mk')
    st.assume(m >= 0, Implies(n > 0, m == Select(lens, arg(row(IntVal(0)), 'r'))))
    eng.obligate(st, 'rows-of-the-same-length', ForAll([i], Implies(And(0 <= i, i < n), Select(lens, arg(row(i), 'r')) == m)))
    cell = lambda i, k: Select(Select(items, arg(row(i), 'r')), k)
    num = lambda x: V.fv(x) if h.args[0].args[0].kind == 'float' else If(is_kind(x, 'f'), V.fv(x), z3.ToReal(V.iv(x)))
    return EMat(n, m, lambda i, k: BoolVal(False), lambda i, k: num(cell(i, k)), trig=cell)


def mean(eng, st, args, kwargs):
    """assumed: some numbers, one per column; of equal numbers it is that number (see std)"""
    axis0(kwargs)
    st = st.copy()
    a = matrix(eng, st, args[0])
    f = z3.Function(name(eng, 'mean'), IntSort(), RealSort())
    v = EVec(a.m, lambda k: BoolVal(False), lambda k: f(k))
    i, k = Int('mi'), Int('mk')
    st.assume(ForAll([k], Implies(And(0 <= k, k < a.m, a.n > 0, ForAll([i], Implies(And(0 <= i, i < a.n), a.val(i, k) == a.val(IntVal(0), k)))), f(k) == a.val(IntVal(0), k)), patterns=[f(k)]))
    return [(st, v)]


def std(eng, st, args, kwargs):
    """assumed: not negative, and zero only for a column of equal numbers"""
    axis0(kwargs)
    st = st.copy()
    a = matrix(eng, st, args[0])
    f = z3.Function(name(eng, 'std'), IntSort(), RealSort())
    i, k = Int('mi'), Int('mk')
    st.assume(ForAll([k], Implies(And(0 <= k, k < a.m), And(f(k) >= 0, (f(k) == 0) == ForAll([i], Implies(And(0 <= i, i < a.n), a.val(i, k) == a.val(IntVal(0), k))))), patterns=[f(k)]))
    return [(st, EVec(a.m, lambda k: BoolVal(False), lambda k: f(k)))]


def name(eng, s):
    eng.counter += 1
    return f'{s}!{eng.counter}'


def axis0(kwargs):
    if set(kwargs) != {'axis'} or not z3.is_expr(kwargs['axis']) or not is_true(simplify(kwargs['axis'] == V.i(0))):
        raise I.Unsupported('numpy reduction over another axis')


def ones(eng, st, args, kwargs):
    d = kwargs.get('dtype')
    if len(args) != 1 or not isinstance(d, I.EBuiltin) or d.name != 'bool' or not z3.is_expr(args[0]) or eng.kind(st, args[0]) != 'i':
        raise I.Unsupported('numpy.ones')
    st = st.copy()
    n = arg(args[0], 'i')
    l = eng.new_seq(st, n, z3.K(IntSort(), vb(BoolVal(True))), T_LIST, I.LIST(I.BOOL))
    return [(st, EMask(n, where=l))]


def binop(eng, st, op, a, b):
    st = st.copy()
    if isinstance(a, (EMask, EBools)) or isinstance(b, (EMask, EBools)) or not isinstance(op, (ast.Sub, ast.Div, ast.Add)):
        raise I.Unsupported('numpy operation')
    a = a if isinstance(a, I.ENd) else matrix(eng, st, a)
    if not isinstance(a, EMat) or not isinstance(b, EVec) or a.mask is not None:
        raise I.Unsupported('numpy operation')
    if isinstance(op, (ast.Sub, ast.Add)):
        s = 1 if isinstance(op, ast.Add) else -1
        return [(st, EMat(a.n, a.m, lambda i, k: Or(a.nan(i, k), b.nan(k)), lambda i, k: a.val(i, k) + s * b.val(k), trig=a.trig))]
    # division of every row by a row: the order within a column is kept when the divisor is positive; 0/0 is not a number
    q = z3.Function(name(eng, 'quotient'), IntSort(), IntSort(), RealSort())
    bad = z3.Function(name(eng, 'not_a_number'), IntSort(), IntSort(), BoolSort())
    q2 = z3.Function(name(eng, 'quotient_again'), IntSort(), IntSort(), RealSort())     # makes the quotient of a mentioned cell known
    i, j, k = Int('mi'), Int('mj'), Int('mk')
    inside = And(0 <= i, i < a.n, 0 <= j, j < a.n, 0 <= k, k < a.m)
    d = b.val(k)
    st.assume(ForAll([i, j, k], Implies(And(inside, d > 0), (q(i, k) < q(j, k)) == (a.val(i, k) < a.val(j, k))), patterns=[z3.MultiPattern(q(i, k), q(j, k))]),
              ForAll([i, j, k], Implies(And(inside, d < 0), (q(i, k) < q(j, k)) == (a.val(i, k) > a.val(j, k))), patterns=[z3.MultiPattern(q(i, k), q(j, k))]),
              ForAll([i, k], And(Implies(d != 0, bad(i, k) == Or(a.nan(i, k), b.nan(k))), Implies(And(d == 0, a.val(i, k) == 0), bad(i, k)), q(i, k) == q2(i, k)), patterns=[bad(i, k)] + ([a.trig(i, k)] if a.trig else [])))
    return [(st, EMat(a.n, a.m, lambda i, k: bad(i, k), lambda i, k: q(i, k), trig=a.trig))]


OPS = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y, ast.Eq: lambda x, y: x == y, ast.NotEq: None}


def compare(eng, st, op, a, b):
    if not isinstance(a, EMat) or not isinstance(b, EVec) or OPS.get(type(op)) is None:
        raise I.Unsupported('numpy comparison')
    f = OPS[type(op)]
    return [(st, EBools(a.n, a.m, lambda i, k: And(Not(a.nan(i, k)), Not(b.nan(k)), f(a.val(i, k), b.val(k))), a.mask))]


def reduce_rows(kind):
    def f(eng, st, args, kwargs):
        b = args[0]
        if not isinstance(b, EBools) or set(kwargs) != {'axis'} or not is_true(simplify(kwargs['axis'] == V.i(1))):
            raise I.Unsupported('numpy.any')
        k = Int('ak')
        g = lambda i: z3.Exists([k], And(0 <= k, k < b.m, b.fn(i, k))) if kind == 'any' else z3.ForAll([k], Implies(And(0 <= k, k < b.m), b.fn(i, k)))
        return [(st, EMask(b.n, fn=g, mask=b.mask))]
    return f


def content(eng, st, m):
    if m.where is None:
        raise I.Unsupported('a vector that is not stored')
    return eng.sel(st, 'item', arg(m.where, 'r'))


def getitem(eng, st, o, k):
    if isinstance(o, EMask) and o.where is not None and z3.is_expr(k):
        if eng.kind(st, k) != 'i':
            raise I.Unsupported('numpy subscription')
        i, out = arg(k, 'i'), []
        for s, ok in eng.branch(st, And(-o.n <= i, i < o.n)):
            ix = i if entails(s.pc, i >= 0) else If(i < 0, i + o.n, i)
            out.append((s, vb(Select(content(eng, s, o), ix) == vb(BoolVal(True))) if ok else I.Raised('IndexError')))     # its elements are truth values
        return out
    if isinstance(o, EMat) and o.mask is None and isinstance(k, EMask):
        if not entails(st.pc, o.n == k.n):
            raise I.Unsupported('a mask of another length')
        return [(st, EMat(o.n, o.m, o.nan, o.val, mask=content(eng, st, k)))]
    if isinstance(o, EMat) and o.mask is None and z3.is_expr(k) and eng.kind(st, k) == 'i':
        i = arg(k, 'i')
        if not entails(st.pc, And(0 <= i, i < o.n)):
            raise I.Unsupported('index of a row')
        return [(st, row(o, i))]
    raise I.Unsupported('numpy subscription')


def row(o, i):
    return EVec(o.m, lambda k: o.nan(i, k), lambda k: o.val(i, k))


def setitem(eng, st, o, k, v):
    if not isinstance(o, EMask) or o.where is None:
        raise I.Unsupported('assignment in an array')
    a = arg(o.where, 'r')
    if z3.is_expr(k) and z3.is_expr(v):
        if eng.kind(st, v) != 'b':
            raise I.Unsupported('a number in a vector of truth values')
        return eng.bm.setitem(eng, st, o.where, k, v)
    if isinstance(k, EMask) and isinstance(v, EMask) and v.fn is not None and v.mask is not None:
        c = content(eng, st, k)
        if not c.eq(v.mask) or not entails(st.pc, And(o.n == k.n, v.n == o.n)):
            raise I.Unsupported('values selected with another mask')
        st = st.copy()
        old = content(eng, st, o)
        new = eng.fresh('masked', ArraySort(IntSort(), V))
        i = Int('mi')
        st.assume(ForAll([i], Select(new, i) == If(And(0 <= i, i < o.n, Select(c, i) == vb(BoolVal(True))), vb(v.fn(i)), Select(old, i)), patterns=[Select(new, i)]))
        eng.sto(st, 'item', a, new)
        return [('next', st, None)]
    raise I.Unsupported('assignment in an array')


def iterate(eng, st, o):
    if isinstance(o, EMat) and o.mask is None:
        return [(st, I.EIter(o.n, lambda i, s: row(o, i)))]
    raise I.Unsupported('iteration over an array')


def attribute(eng, st, o, n):
    if isinstance(o, EMask) and o.where is not None and n == 'tolist':
        def f(e, s, a, k):
            s = s.copy()
            l = e.new_seq(s, o.n, content(e, s, o), T_LIST, I.LIST(I.BOOL))
            return [(s, l)]
        return [(st, I.ESpec(f))]
    raise I.Unsupported(f'attribute {n} of an array')


SPECS = {'ext:numpy.mean': mean, 'ext:numpy.std': std, 'ext:numpy.ones': ones, 'ext:numpy.any': reduce_rows('any'), 'ext:numpy.all': reduce_rows('all')}
