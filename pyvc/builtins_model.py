"""Models of the Python operators, builtin types and functions used by the verified code (trusted base; cross-checked
against CPython by selftest.py)."""
import ast
import z3
from .logic import *
from . import interp as I
from . import loops
from .loops import CONCAT

MATH_ASSUMPTION = "machine floating-point numbers are treated as mathematical reals (no rounding, no NaN, no infinity)"


# ---- arithmetic -----------------------------------------------------------------------------------------------
def as_real(v, k):
    if k == 'i':
        return ToReal(arg(v, 'i'))
    if k == 'b':
        return If(arg(v, 'b'), RealVal(1), RealVal(0))
    return arg(v, 'f')


def as_int(v, k):
    return If(arg(v, 'b'), IntVal(1), IntVal(0)) if k == 'b' else arg(v, 'i')


def int_floordiv(a, b):
    return If(b > 0, a / b, (-a) / (-b))


def int_mod(a, b):
    return a - b * int_floordiv(a, b)


def binop(eng, st, op, a, b):
    if isinstance(a, I.Raised):
        return [(st, a)]
    if isinstance(a, I.ENd) or isinstance(b, I.ENd):
        return eng.nd.binop(eng, st, op, a, b)
    if isinstance(op, ast.Add):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return [(st, a + b)]
    if isinstance(op, ast.Mult):
        if isinstance(a, tuple) and z3.is_expr(b) and ctor(b) == 'i' and z3.is_int_value(arg(b, 'i')):
            return [(st, a * arg(b, 'i').as_long())]
    if isinstance(a, tuple):
        a = eng.reify(st, a)
    if isinstance(b, tuple):
        b = eng.reify(st, b)
    if isinstance(a, I.Eng) or isinstance(b, I.Eng):
        raise I.Unsupported(f'operator on engine values {type(a).__name__} {type(b).__name__}')
    out = []
    for s, ka in eng.split_kind(st, a):
        for s2, kb in eng.split_kind(s, b):
            out.extend(_binop(eng, s2, op, a, ka, b, kb))
    return out


def _binop(eng, st, op, a, ka, b, kb):
    nums = ('i', 'f', 'b')
    if ka in nums and kb in nums:
        if ka == 'f' or kb == 'f':
            eng.assumptions.add(MATH_ASSUMPTION)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            if 'f' in (ka, kb):
                x, y = as_real(a, ka), as_real(b, kb)
                r = {ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[type(op)]
                return [(st, V.f(simplify(r)))]
            x, y = as_int(a, ka), as_int(b, kb)
            r = {ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[type(op)]
            return [(st, V.i(simplify(r)))]
        if isinstance(op, ast.Div):
            eng.assumptions.add(MATH_ASSUMPTION)
            x, y = as_real(a, ka), as_real(b, kb)
            out = []
            for s, z in eng.branch(st, y == 0):
                out.append((s, I.Raised('ZeroDivisionError')) if z else (s, V.f(x / y)))
            return out
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            out = []
            if 'f' in (ka, kb):
                x, y = as_real(a, ka), as_real(b, kb)
                for s, z in eng.branch(st, y == 0):
                    if z:
                        out.append((s, I.Raised('ZeroDivisionError')))
                    else:
                        fl = ToReal(ToInt(x / y))
                        out.append((s, V.f(fl if isinstance(op, ast.FloorDiv) else x - y * fl)))
                return out
            x, y = as_int(a, ka), as_int(b, kb)
            for s, z in eng.branch(st, y == 0):
                if z:
                    out.append((s, I.Raised('ZeroDivisionError')))
                else:
                    pos = z3.is_int_value(y) and y.as_long() > 0
                    if not pos:
                        pos = entails(s.pc, y > 0)
                    fd = (x / y) if pos else int_floordiv(x, y)
                    md = (x % y) if pos else int_mod(x, y)
                    out.append((s, V.i(fd if isinstance(op, ast.FloorDiv) else md)))
            return out
        if isinstance(op, ast.Pow):
            if z3.is_int_value(arg(b, kb)) if kb == 'i' else False:
                n = arg(b, 'i').as_long()
                if 0 <= n <= 4:
                    r = vi(1) if ka != 'f' else vf(1)
                    x = as_real(a, ka) if ka == 'f' else as_int(a, ka)
                    t = RealVal(1) if ka == 'f' else IntVal(1)
                    for _ in range(n):
                        t = t * x
                    return [(st, (V.f if ka == 'f' else V.i)(simplify(t)))]
            if kb == 'f' and simplify(arg(b, 'f')).eq(RealVal('1/2')):
                x = as_real(a, ka)
                eng.assumptions.add("x ** 0.5 is the exact non-negative real square root")
                out = []
                for s, neg in eng.branch(st, x < 0):
                    if neg:
                        raise I.Unsupported('square root of a negative number')
                    r = eng.fresh('sqrt', RealSort())
                    s = s.copy()
                    s.assume(r >= 0, r * r == x)
                    out.append((s, V.f(r)))
                return out
            raise I.Unsupported('power')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and ka == 'b' and kb == 'b':
            x, y = arg(a, 'b'), arg(b, 'b')
            return [(st, vb({ast.BitAnd: And(x, y), ast.BitOr: Or(x, y), ast.BitXor: z3.Xor(x, y)}[type(op)]))]
        if isinstance(op, ast.BitAnd) and ka == 'i' and kb == 'i' and z3.is_int_value(arg(b, 'i')) and arg(b, 'i').as_long() == 1:
            return [(st, V.i(arg(a, 'i') % 2))]
        raise I.Unsupported(f'numeric operator {type(op).__name__}')
    if ka == 's' and kb == 's' and isinstance(op, ast.Add):
        return [(st, V.s(simplify(z3.Concat(arg(a, 's'), arg(b, 's')))))]
    if isinstance(op, ast.Mod) and ka == 's':
        eng.opaque.add('% string formatting')
        return [(st, V.s(STR_OF(a)))]
    if isinstance(op, ast.Mult) and {ka, kb} == {'s', 'i'}:
        eng.opaque.add('string repetition')
        f = Function('str_mul', StringSort(), IntSort(), StringSort())
        return [(st, V.s(f(arg(a, 's'), arg(b, 'i')) if ka == 's' else f(arg(b, 's'), arg(a, 'i'))))]
    if ka == 'r' and kb == 'r' and isinstance(op, ast.Add):
        out = []
        for s, ta in eng.split_tag(st, a):
            for s2, tb in eng.split_tag(s, b):
                if ta in (T_LIST, T_TUPLE) and ta == tb:
                    s2 = s2.copy()
                    out.append((s2, concat_seq(eng, s2, a, b, ta)))
                elif ta == 'obj':
                    out.extend(_obj_op(eng, s2, a, b, '__add__'))
                else:
                    out.append((s2, I.Raised('TypeError')))
        return out
    if ka == 'r':
        out = []
        for s, ta in eng.split_tag(st, a):
            if ta == 'obj':
                name = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(type(op))
                out.extend(_obj_op(eng, s, a, b, name))
            elif isinstance(op, ast.Mult) and kb == 'i' and ta == T_LIST:
                out.extend(list_repeat(eng, s, a, arg(b, 'i')))
            elif ta == T_SET and kb == 'r' and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
                out.extend(set_op(eng, s, op, a, b))
            else:
                out.append((s, I.Raised('TypeError')))
        return out
    if kb == 'r' and isinstance(op, ast.Mult) and ka == 'i':
        return _binop(eng, st, op, b, kb, a, ka)
    if kb == 'r':
        ci = eng.static_class(st, b)
        if ci is not None and isinstance(op, ast.Mult) and eng.repo.lookup_method(ci, '__rmul__') is not None:
            return eng.call_func(st, eng.repo.lookup_method(ci, '__rmul__'), [b, a], {})
        if ci is not None:
            raise I.Unsupported('reflected operator')
    return [(st, I.Raised('TypeError'))]


def _obj_op(eng, st, a, b, name):
    ci = eng.static_class(st, a)
    if ci is None or name is None:
        raise I.Unsupported('operator on object of unknown class')
    m = eng.repo.lookup_method(ci, name)
    if m is None:
        if (ci.key, name) in eng.class_attrs:
            return eng.class_attrs[(ci.key, name)](eng, st, a, b)
        return [(st, I.Raised('TypeError'))]
    return eng.call_func(st, m, [a, b], {})


def concat_arr(eng, st, ia, la, ib, lb):
    r = CONCAT(ia, la, ib, lb)
    if is_true(simplify(la == 0)):
        return ib
    if is_true(simplify(lb == 0)):
        return ia
    lbv = simplify(lb)
    if z3.is_int_value(lbv) and lbv.as_long() <= 4:
        t = ia
        for j in range(lbv.as_long()):
            t = Store(t, simplify(la + j), eng.simp_sel(Select(ib, j)))
        return t
    j = Int('jj')
    st.assume(ForAll([j], Implies(And(0 <= j, j < la), Select(r, j) == Select(ia, j)), patterns=[Select(r, j)]),
              ForAll([j], Implies(And(0 <= j, j < lb), Select(r, la + j) == Select(ib, j)), patterns=[Select(ib, j)]),
              ForAll([j], Implies(And(la <= j, j < la + lb), Select(r, j) == Select(ib, j - la)), patterns=[Select(r, j)]))
    return r


def no_ite(eng, st, t):
    """a name for a length that contains a case distinction, so that it can stand in patterns"""
    t = simplify(t)
    stack = [t]
    while stack:
        x = stack.pop()
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = eng.fresh('m', t.sort())
            st.assume(c == t)
            return c
        stack.extend(x.children())
    return t


def merge_hint(eng, st, a, b):
    ha, hb = eng.hint(st, a), eng.hint(st, b)
    if ha is not None and hb is not None and ha.kind == hb.kind == 'list' and ha.args and hb.args and \
            ha.args[0].kind == hb.args[0].kind == 'obj' and ha.args[0].cls != hb.args[0].cls:
        ca, cb = eng.repo.find_class(ha.args[0].cls), eng.repo.find_class(hb.args[0].cls)
        if ca is not None and cb is not None:
            for c in eng.repo.mro(ca):
                if not isinstance(c, str) and eng.repo.is_subclass(cb, c.key):
                    return I.LIST(I.OBJ(c.key))
    if ha is not None and hb is not None and ha.args and hb.args and ha.args[0].kind == hb.args[0].kind and \
            ha.args[0].cls == hb.args[0].cls and ha.args[0].pred == hb.args[0].pred and ha.args[0].values == hb.args[0].values and ha.kind == hb.kind and ha.kind == 'list' and not ha.args[0].args \
            and not hb.args[0].args:
        return ha
    return None


def concat_seq(eng, st, a, b, tag):
    aa, ab = arg(a, 'r'), arg(b, 'r')
    la, lb = eng.sel(st, 'len', aa), eng.sel(st, 'len', ab)
    st.assume(la >= 0, lb >= 0)
    la, lb = no_ite(eng, st, la), no_ite(eng, st, lb)
    arr = concat_arr(eng, st, eng.sel(st, 'item', aa), la, eng.sel(st, 'item', ab), lb)
    return eng.new_seq(st, simplify(la + lb), arr, tag, merge_hint(eng, st, a, b))


def list_repeat(eng, st, a, n):
    st = st.copy()
    aa = arg(a, 'r')
    la = simplify(eng.sel(st, 'len', aa))
    if not (z3.is_int_value(la) and la.as_long() == 1):
        raise I.Unsupported('list repetition')
    x = eng.simp_sel(Select(eng.sel(st, 'item', aa), 0))
    ln = n if entails(st.pc, n >= 0) else If(n > 0, n, IntVal(0))
    return [(st, eng.new_seq(st, ln, z3.K(IntSort(), x)))]


# ---- comparison -----------------------------------------------------------------------------------------------
def compare(eng, st, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identity(eng, st, a, b)
        return [(st, r if isinstance(op, ast.Is) else Not(r))]
    if isinstance(op, (ast.Eq, ast.NotEq)):
        out = []
        for s, r in py_eq(eng, st, a, b):
            out.append((s, r if isinstance(r, I.Raised) else (r if isinstance(op, ast.Eq) else Not(r))))
        return out
    if isinstance(op, (ast.In, ast.NotIn)):
        out = []
        for s, r in contains(eng, st, b, a):
            out.append((s, r if isinstance(r, I.Raised) else (r if isinstance(op, ast.In) else Not(r))))
        return out
    if isinstance(a, (I.Eng, tuple)) or isinstance(b, (I.Eng, tuple)):
        raise I.Unsupported('ordering of engine values')
    out = []
    for s, ka in eng.split_kind(st, a):
        for s2, kb in eng.split_kind(s, b):
            if ka in ('i', 'f', 'b') and kb in ('i', 'f', 'b'):
                if 'f' in (ka, kb):
                    x, y = as_real(a, ka), as_real(b, kb)
                else:
                    x, y = as_int(a, ka), as_int(b, kb)
            elif ka == 's' and kb == 's':
                x, y = arg(a, 's'), arg(b, 's')
            elif ka == 'r' and kb == 'r':
                raise I.Unsupported('ordering of references')
            else:
                out.append((s2, I.Raised('TypeError')))
                continue
            out.append((s2, {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x,
                             ast.GtE: lambda: y <= x}[type(op)]()))
    return out


def identity(eng, st, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return BoolVal(a is b)
    if isinstance(a, (I.EClass, I.EBuiltin, I.EExt)) or isinstance(b, (I.EClass, I.EBuiltin, I.EExt)):
        a, b = eng.reify(st, a), eng.reify(st, b)
    if isinstance(a, I.EFunc) and isinstance(b, I.EFunc):
        return BoolVal(a.fi.key == b.fi.key)
    if isinstance(a, I.Eng) or isinstance(b, I.Eng):
        if (z3.is_expr(a) and ctor(a) == 'none') or (z3.is_expr(b) and ctor(b) == 'none'):
            return BoolVal(False)
        raise I.Unsupported('identity of engine values')
    ca, cb = ctor(a), ctor(b)
    if ca is not None and cb is not None and ca != cb:
        return BoolVal(False)
    if ca == 'none':
        return is_kind(b, 'none')
    if cb == 'none':
        return is_kind(a, 'none')
    return a == b


def py_eq(eng, st, a, b):
    """Python ==, dispatching user-defined __eq__ of repository classes that carry a contract or can be inlined"""
    if z3.is_expr(a) and z3.is_expr(b):
        ci = eng.static_class(st, a)
        if ci is not None and not eng.identity_eq(ci.key) and ctor(b) not in ('none', 'i', 's', 'f', 'b', 'c'):
            m = eng.repo.lookup_method(ci, '__eq__')
            if m is not None and ((m.key in eng.contracts) or (f"{ci.key}.__eq__" in eng.contracts)):
                out = []
                for s, r in eng.call_func(st, m, [a, b], {}):
                    out.extend(eng.truth(s, r))
                return out
    return [(st, eng.eq(st, a, b))]


def contains(eng, st, coll, x):
    """-> [(state, Bool)]"""
    if isinstance(coll, tuple):
        return [(st, disj([eng.eq(st, x, y) for y in coll]))]
    if isinstance(coll, I.EKwargs):
        return [(st, disj([eng.eq(st, x, vs(k)) for k in coll.d]))]
    if isinstance(coll, I.EConstDict):
        return [(st, disj([eng.eq(st, x, k) for k, _ in coll.entries(eng, st)]))]
    if isinstance(coll, I.EView) and coll.kind == 'keys':
        return contains(eng, st, coll.d, x)
    if isinstance(coll, I.EView) and isinstance(coll.d, I.EConstDict):
        ent = coll.d.entries(eng, st)
        return [(st, disj([eng.eq(st, x, y) for _, y in ent]))]
    if isinstance(coll, I.EIter):
        if coll.conc is not None:
            return [(st, disj([eng.eq(st, x, y) for y in coll.conc]))]
        if hasattr(coll, 'range'):
            lo, hi = coll.range
            k = eng.kind(st, x)
            if k == 'i':
                return [(st, And(lo <= arg(x, 'i'), arg(x, 'i') < hi))]
        raise I.Unsupported('membership in iterator')
    if isinstance(coll, I.EGen):
        out = []
        for s, it in loops.as_iter(eng, st, coll):
            raise I.Unsupported('membership in generator')
        return out
    if isinstance(coll, I.Eng):
        raise I.Unsupported('membership in engine value')
    out = []
    for s, k in eng.split_kind(st, coll):
        if k == 's':
            kx = eng.kind(s, x)
            if kx != 's':
                raise I.Unsupported('membership in string')
            out.append((s, z3.Contains(arg(coll, 's'), arg(x, 's'))))
            continue
        if k != 'r':
            out.append((s, I.Raised('TypeError')))
            continue
        for s2, t in eng.split_tag(s, coll):
            a = arg(coll, 'r')
            if t in (T_DICT, T_SET):
                xs = eng.reify(s2, x)
                eng.dict_wf(s2, a)
                out.append((s2, Select(eng.sel(s2, 'has', a), xs)))
            elif t in (T_LIST, T_TUPLE):
                out.append((s2, list_has(eng, s2, a, x)))
            else:
                ci = eng.static_class(s2, coll)
                m = eng.repo.lookup_method(ci, '__contains__') if ci is not None else None
                if m is None:
                    raise I.Unsupported('membership in object')
                for s3, r in eng.call_func(s2, m, [coll, x], {}):
                    out.extend(eng.truth(s3, r))
    return out


def list_has(eng, st, a, x):
    n = simplify(eng.sel(st, 'len', a))
    arr = eng.sel(st, 'item', a)
    if z3.is_int_value(n) and n.as_long() <= 8:
        return disj([eng.eq(st, eng.simp_sel(Select(arr, j)), x) for j in range(n.as_long())])
    eng_hint = st.hints.get(('adr', a.get_id()))
    return arr_has(eng, st, arr, n, eng.reify(st, x), eng_hint.args[0] if eng_hint is not None and eng_hint.args else None)


def arr_has(eng, st, arr, n, x, ty):
    """x is among the first n elements of arr; appends and concatenations are taken apart"""
    k = arr.decl().kind()
    if k == z3.Z3_OP_STORE and is_true(simplify(arr.arg(1) == n - 1)):
        return Or(And(n >= 1, eng.eq(st, arr.arg(2), x)), arr_has(eng, st, arr.arg(0), simplify(n - 1), x, ty))
    if arr.decl().eq(CONCAT) and is_true(simplify(arr.arg(1) + arr.arg(3) == n)):
        return Or(arr_has(eng, st, arr.arg(0), arr.arg(1), x, ty), arr_has(eng, st, arr.arg(2), arr.arg(3), x, ty))
    if is_true(simplify(n <= 0)):
        return BoolVal(False)
    j = Int('jm')
    y = Select(arr, j)
    st2 = st.copy()
    if ty is not None:
        eng.set_hint(st2, y, ty)
        if ty.kind in ('str', 'int', 'bool', 'float') and eng.kind(st, x) == eng.kind(st2, y):
            return Exists([j], And(0 <= j, j < n, y == x))
    return Exists([j], And(0 <= j, j < n, eng.eq(st2, y, x)))


# ---- items ----------------------------------------------------------------------------------------------------
def norm_index(n, i):
    return If(i < 0, i + n, i)


def getitem(eng, st, o, k):
    if isinstance(o, I.ENd) or isinstance(k, I.ENd):
        return eng.nd.getitem(eng, st, o, k)
    if isinstance(k, tuple):
        k = eng.reify(st, k)
    if isinstance(o, tuple):
        if isinstance(k, I.ESlice):
            lo, hi, step = (None if x is None else arg(x, 'i').as_long() for x in (k.lo, k.hi, k.step))
            return [(st, o[slice(lo, hi, step)])]
        if z3.is_expr(k) and ctor(k) == 'i' and z3.is_int_value(simplify(arg(k, 'i'))):
            ix = simplify(arg(k, 'i')).as_long()
            if -len(o) <= ix < len(o):
                return [(st, o[ix])]
            return [(st, I.Raised('IndexError'))]
        o = eng.reify(st, o)
    if isinstance(o, I.EConstDict):
        out, rest = [], st
        for kk, vv in o.entries(eng, st):
            c = simplify(eng.eq(rest, k, kk))
            if is_false(c):
                continue
            nxt = None
            for s, t in eng.branch(rest, c):
                if t:
                    out.append((s, vv))
                else:
                    nxt = s
            if nxt is None:
                return out
            rest = nxt
        out.append((rest, I.Raised('KeyError')))
        return out
    if isinstance(o, I.EKwargs):
        raise I.Unsupported('kwargs subscription')
    if isinstance(o, (I.EBuiltin, I.EExt, I.EClass)):
        return [(st, o)]   # List[int] style annotation
    if isinstance(o, I.Eng):
        raise I.Unsupported(f'subscript of {type(o).__name__}')
    out = []
    for s, kd in eng.split_kind(st, o):
        if kd == 's':
            if isinstance(k, I.ESlice):
                out.append((s, str_slice(eng, s, o, k)))
                continue
            n = z3.Length(arg(o, 's'))
            for s2, kk in eng.split_kind(s, k):
                if kk != 'i':
                    out.append((s2, I.Raised('TypeError')))
                    continue
                i = arg(k, 'i')
                for s3, ok in eng.branch(s2, And(-n <= i, i < n)):
                    out.append((s3, V.s(z3.SubString(arg(o, 's'), norm_index(n, i), 1)) if ok else I.Raised('IndexError')))
            continue
        if kd != 'r':
            out.append((s, I.Raised('TypeError')))
            continue
        for s2, t in eng.split_tag(s, o):
            a = arg(o, 'r')
            if t in (T_LIST, T_TUPLE):
                if isinstance(k, I.ESlice):
                    out.extend(list_slice(eng, s2, o, k, t))
                    continue
                if isinstance(k, I.Eng):
                    out.append((s2, I.Raised('TypeError')))
                    continue
                for s3, kk in eng.split_kind(s2, k):
                    if kk not in ('i', 'b'):
                        out.append((s3, I.Raised('TypeError')))
                        continue
                    i, n = as_int(k, kk), eng.sel(s3, 'len', a)
                    for s4, ok in eng.branch(s3, And(-n <= i, i < n)):
                        if not ok:
                            out.append((s4, I.Raised('IndexError')))
                            continue
                        if entails(s4.pc, i >= 0):
                            ix = i
                        elif entails(s4.pc, i < 0):
                            ix = simplify(i + n)
                        else:
                            ix = norm_index(n, i)
                        out.append((s4, eng.read_item(s4, o, simplify(ix))))
            elif t == T_DICT:
                kx = eng.reify(s2, k)
                eng.dict_wf(s2, a)
                for s3, ok in eng.branch(s2, simplify(Select(eng.sel(s2, 'has', a), kx))):
                    if not ok:
                        out.append((s3, I.Raised('KeyError')))
                    else:
                        out.append((s3, dict_get(eng, s3, o, kx)))
            elif t == 'obj':
                ci = eng.static_class(s2, o)
                m = eng.repo.lookup_method(ci, '__getitem__') if ci is not None else None
                if m is None:
                    raise I.Unsupported('subscript of object')
                out.extend(eng.call_func(s2, m, [o, k], {}))
            else:
                out.append((s2, I.Raised('TypeError')))
    return out


def dict_get(eng, st, d, k):
    a = arg(d, 'r')
    x = eng.simp_sel(Select(eng.sel(st, 'get', a), k))
    h = eng.hint(st, d)
    if h is not None and h.kind == 'dict' and h.args and eng.hint(st, x) is None:
        eng.assume_type(st, x, h.args[1])
    if ctor(x) is None:
        eng.known_ref(x)
        st.assume(Implies(is_kind(x, 'r'), arg(x, 'r') <= st.wm))
        if eng.is_old(x):
            st.assume(Implies(is_kind(x, 'r'), arg(x, 'r') <= Int('WM0')))
    return x


def slice_bounds(eng, st, k, n):
    if k.opaque is not None:
        raise I.Unsupported('unknown slice')
    if k.step is not None:
        stv = simplify(arg(k.step, 'i')) if z3.is_expr(k.step) and ctor(k.step) == 'i' else None
        if stv is None or not z3.is_int_value(stv) or stv.as_long() != 1:
            raise I.Unsupported('slice step')

    def clamp(v, default):
        if v is None or (z3.is_expr(v) and ctor(v) == 'none'):
            return default
        if eng.kind(st, v) != 'i':
            raise I.Unsupported('slice bound')
        x = arg(v, 'i')
        y = If(x < 0, x + n, x)
        return simplify(If(y < 0, IntVal(0), If(y > n, n, y)))
    lo, hi = clamp(k.lo, IntVal(0)), clamp(k.hi, n)
    return lo, simplify(If(hi > lo, hi - lo, IntVal(0)))


def list_slice(eng, st, o, k, tag):
    st = st.copy()
    a = arg(o, 'r')
    n = eng.sel(st, 'len', a)
    st.assume(n >= 0)
    arr = eng.sel(st, 'item', a)
    if k.opaque is not None:
        new = eng.fresh('slice', ArraySort(IntSort(), V))
        j = Int('js')
        count, pos = k.opaque
        st.assume(ForAll([j], Select(new, j) == Select(arr, pos(n, j)), patterns=[Select(new, j)]))
        h = eng.hint(st, o)
        return [(st, eng.new_seq(st, count(n), new, tag, h if h is not None and h.kind == 'list' else None))]
    none = lambda x: x is None or (z3.is_expr(x) and ctor(x) == 'none')
    if k.step is not None and z3.is_expr(k.step) and ctor(k.step) == 'i' and simplify(arg(k.step, 'i')).eq(IntVal(-1)) and none(k.lo) and none(k.hi):
        new = eng.fresh('rev', ArraySort(IntSort(), V))
        j = Int('js')
        st.assume(ForAll([j], Select(new, j) == Select(arr, n - 1 - j), patterns=[Select(new, j)]))
        h = eng.hint(st, o)
        return [(st, eng.new_seq(st, n, new, tag, h if h is not None and h.kind == 'list' else None))]
    lo, ln = slice_bounds(eng, st, k, n)
    if is_true(simplify(lo == 0)):
        new = arr
    else:
        new = eng.fresh('slice', ArraySort(IntSort(), V))
        j = Int('js')
        st.assume(ForAll([j], Select(new, j) == Select(arr, j + lo), patterns=[Select(new, j)]))
        st.assume(ForAll([j], Select(new, j - lo) == Select(arr, j), patterns=[Select(arr, j)]))
        eng.array_def[new.get_id()] = (new, arr, lo)
    h = eng.hint(st, o)
    return [(st, eng.new_seq(st, ln, new, tag, h if h is not None and h.kind == 'list' else None))]


def str_slice(eng, st, o, k):
    sv = arg(o, 's')
    n = z3.Length(sv)
    lo, ln = slice_bounds(eng, st, k, n)
    return V.s(z3.SubString(sv, lo, ln))


def setitem(eng, st, o, k, v):
    """-> outcomes"""
    if isinstance(o, I.ENd):
        return eng.nd.setitem(eng, st, o, k, v)
    if isinstance(o, I.Eng) or isinstance(o, tuple):
        raise I.Unsupported('item assignment on engine value')
    out = []
    for s, kd in eng.split_kind(st, o):
        if kd != 'r':
            out.append(('raise', s, I.Raised('TypeError')))
            continue
        for s2, t in eng.split_tag(s, o):
            s2 = s2.copy()
            a = arg(o, 'r')
            if t == T_DICT:
                kx, vx = eng.reify(s2, k), eng.reify(s2, v)
                dict_put(eng, s2, a, kx, vx)
                out.append(('next', s2, None))
            elif t == T_LIST:
                if isinstance(k, I.Eng):
                    raise I.Unsupported('slice assignment')
                vx = eng.reify(s2, v)
                for s3, kk in eng.split_kind(s2, k):
                    if kk not in ('i', 'b'):
                        out.append(('raise', s3, I.Raised('TypeError')))
                        continue
                    i, n = as_int(k, kk), eng.sel(s3, 'len', a)
                    for s4, ok in eng.branch(s3, And(-n <= i, i < n)):
                        if not ok:
                            out.append(('raise', s4, I.Raised('IndexError')))
                            continue
                        s4 = s4.copy()
                        ix = i if entails(s4.pc, i >= 0) else norm_index(n, i)
                        eng.sto(s4, 'item', a, Store(eng.sel(s4, 'item', a), ix, vx))
                        drop_hint_if(eng, s4, o, vx)
                        out.append(('next', s4, None))
            elif t == 'obj':
                ci = eng.static_class(s2, o)
                m = eng.repo.lookup_method(ci, '__setitem__') if ci is not None else None
                if m is None:
                    raise I.Unsupported('item assignment on object')
                for s3, r in eng.call_func(s2, m, [o, k, v], {}):
                    out.append(('raise', s3, r) if isinstance(r, I.Raised) else ('next', s3, None))
            else:
                out.append(('raise', s2, I.Raised('TypeError')))
    return out


def drop_hint_if(eng, st, o, v):
    """forget the element type of a list/dict when a value of another type is stored"""
    a = arg(o, 'r')
    h = eng.hint(st, o)
    if h is None or not h.args or h.kind not in ('list', 'dict'):
        return
    want = h.args[-1]
    hv = eng.hint(st, v)
    same = I.fits(hv, want)
    scalar = {'int': 'i', 'float': 'f', 'bool': 'b', 'str': 's'}.get(want.kind)
    if same or want.kind == 'any' or (scalar and not want.values and want.pred is None and eng.kind(st, v) == scalar):
        return
    st.hints.pop(('adr', a.get_id()), None)
    st.hints.pop(o.get_id(), None)
    st.hints[('tag', a.get_id())] = T_LIST if h.kind == 'list' else T_DICT


def dict_put(eng, st, a, k, v):
    eng.dict_wf(st, a)
    has, get, idx, n, item = (eng.sel(st, x, a) for x in ('has', 'get', 'idx', 'len', 'item'))
    h = simplify(Select(has, k))
    eng.sto(st, 'has', a, Store(has, k, BoolVal(True)))
    eng.sto(st, 'get', a, Store(get, k, v))
    if is_true(h):
        return
    # the inserted key goes last; an existing key keeps its position
    eng.sto(st, 'len', a, simplify(If(h, n, n + 1)))
    eng.sto(st, 'item', a, If(h, item, Store(item, n, k)) if not is_false(h) else Store(item, n, k))
    eng.sto(st, 'idx', a, If(h, idx, Store(idx, k, n)) if not is_false(h) else Store(idx, k, n))


def delitem(eng, st, o, k):
    if isinstance(o, I.Eng):
        raise I.Unsupported('del on engine value')
    out = []
    for s, kd in eng.split_kind(st, o):
        for s2, t in eng.split_tag(s, o):
            a = arg(o, 'r')
            if t == T_DICT:
                kx = eng.reify(s2, k)
                for s3, ok in eng.branch(s2, Select(eng.sel(s2, 'has', a), kx)):
                    if not ok:
                        out.append(('raise', s3, I.Raised('KeyError')))
                        continue
                    s3 = s3.copy()
                    dict_del(eng, s3, a, kx)
                    out.append(('next', s3, None))
            elif t == T_LIST:
                for s3, r in list_pop(eng, s2, o, k):
                    out.append(('raise', s3, r) if isinstance(r, I.Raised) else ('next', s3, None))
            else:
                raise I.Unsupported('del item')
    return out


def dict_del(eng, st, a, k):
    has = eng.sel(st, 'has', a)
    n = eng.sel(st, 'len', a)
    eng.sto(st, 'has', a, Store(has, k, BoolVal(False)))
    eng.sto(st, 'len', a, n - 1)
    # order of the remaining keys: unspecified except for well-formedness
    eng.opaque.add('key order after deletion')
    eng.sto(st, 'item', a, eng.fresh('ditem', ArraySort(IntSort(), V)))
    eng.sto(st, 'idx', a, eng.fresh('didx', ArraySort(V, IntSort())))
    eng.dict_wf(st, a)


# ---- list methods ---------------------------------------------------------------------------------------------
def list_append(eng, st, l, v):
    st = st.copy()
    v = eng.reify(st, v)
    a = arg(l, 'r')
    n, arr = eng.sel(st, 'len', a), eng.sel(st, 'item', a)
    eng.sto(st, 'item', a, Store(arr, simplify(n), v))
    eng.sto(st, 'len', a, simplify(n + 1))
    drop_hint_if(eng, st, l, v)
    return [(st, NONE)]


def list_extend(eng, st, l, other):
    out = []
    for s, it in loops.as_iter(eng, st, other):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        if it.conc is not None:
            states = [s]
            for x in it.conc:
                states = [s2 for s1 in states for s2, _ in list_append(eng, s1, l, x)]
            out.extend((s1, NONE) for s1 in states)
            continue
        s = s.copy()
        a = arg(l, 'r')
        n, arr = eng.sel(s, 'len', a), eng.sel(s, 'item', a)
        if hasattr(it, 'addr') and not isinstance(other, I.EView):
            src, ln = eng.sel(s, 'item', it.addr), it.n
        else:
            src, ln = materialise(eng, s, it)
        s.assume(ln >= 0)
        ln, n = no_ite(eng, s, ln), no_ite(eng, s, n)
        h = eng.hint(s, l)
        hv = eng.hint(s, other) if z3.is_expr(other) else None
        new = concat_arr(eng, s, arr, simplify(n), src, simplify(ln))
        eng.sto(s, 'item', a, new)
        eng.sto(s, 'len', a, simplify(n + ln))
        if h is not None and not (hv is not None and hv.kind == 'list' and hv.args and h.args and I.fits(hv.args[0], h.args[0])):
            s.hints.pop(('adr', a.get_id()), None)
            s.hints.pop(l.get_id(), None)
            s.hints[('tag', a.get_id())] = T_LIST
        if h is None and hv is not None and is_true(simplify(n == 0)) and hv.kind == 'list':
            s.hints[('adr', a.get_id())] = hv
        out.append((s, NONE))
    return out


def materialise(eng, st, it):
    """array of the elements of an iteration space"""
    if it.conc is not None:
        arr = z3.K(IntSort(), NONE)
        for i, x in enumerate(it.conc):
            arr = Store(arr, i, eng.reify(st, x))
        return arr, IntVal(len(it.conc))
    j = Int('jmat')
    s2 = st.copy()
    base, wm = len(s2.pc), s2.wm
    x = it.elem(j, s2)
    if isinstance(x, tuple):
        raise I.Unsupported('materialise pairs')
    arr = eng.fresh('mat', ArraySort(IntSort(), V))
    fs = s2.pc[base:]
    st.assume(ForAll([j], Implies(And(0 <= j, j < it.n), conj([Select(arr, j) == x] + fs)), patterns=[Select(arr, j)]))
    return arr, it.n


def to_list(eng, st, v, tag=T_LIST):
    """list(v) / tuple(v) -> [(state, value)]"""
    if isinstance(v, I.EGen):
        res = []
        for s, lv in loops.eval_comp(eng, v.node, loops._with_env(st, v), 'list'):
            s = s.copy()
            s.env, s.module, s.cls = st.env, st.module, st.cls
            if not isinstance(lv, I.Raised) and tag != T_LIST:
                a = arg(lv, 'r')
                lv = eng.new_seq(s, eng.sel(s, 'len', a), eng.sel(s, 'item', a), tag)
            res.append((s, lv))
        return res
    out = []
    for s, it in loops.as_iter(eng, st, v):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        s = s.copy()
        if it.conc is not None:
            out.append((s, eng.new_list(s, it.conc, tag)))
            continue
        h = None
        if z3.is_expr(v):
            h = eng.hint(s, v)
            h = h if h is not None and h.kind == 'list' else (I.LIST(h.args[0]) if h is not None and h.kind in ('dict', 'set') and h.args else None)
            if eng.kind(s, v) == 'r' and eng.tag_of(s, v) in (T_LIST, T_TUPLE, T_DICT, T_SET):
                arr, n = eng.sel(s, 'item', it.addr), it.n
                s.assume(n >= 0)
                out.append((s, eng.new_seq(s, n, arr, tag, h)))
                continue
        if isinstance(v, I.EView) and not isinstance(v.d, I.EConstDict):
            hd = eng.hint(s, v.d)
            if hd is not None and hd.args and v.kind != 'items':
                h = I.LIST(hd.args[0] if v.kind == 'keys' else hd.args[1])
        # general: build through the loop machinery (pairs get allocated)
        acc = eng.new_list(s, [])

        def body(sb, value, acc=acc):
            return [('next', s2, None) for s2, _ in list_append(eng, sb, acc, value)]
        for o in loops.run_iter(eng, s, it, body, set()):
            if o[0] != 'next':
                raise I.Unsupported('list()')
            s2 = o[1]
            r = acc
            if tag != T_LIST:
                a = arg(acc, 'r')
                s2 = s2.copy()
                r = eng.new_seq(s2, eng.sel(s2, 'len', a), eng.sel(s2, 'item', a), tag)
            elif h is not None:
                s2.hints[('adr', arg(acc, 'r').get_id())] = h
            out.append((s2, r))
    return out


def plain_arr(eng, st, arr):
    """the array under a name when it is a case distinction (which cannot be part of a pattern)"""
    stack, seen = [arr], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            new = eng.fresh('arr', arr.sort())
            st.assume(new == arr)
            return new
        stack.extend(x.children())
    return arr


def list_insert(eng, st, l, i, v):
    st = st.copy()
    v = eng.reify(st, v)
    a = arg(l, 'r')
    n, arr = eng.sel(st, 'len', a), plain_arr(eng, st, eng.sel(st, 'item', a))
    ix = arg(i, 'i')
    y = If(ix < 0, ix + n, ix)
    pos = simplify(If(y < 0, IntVal(0), If(y > n, n, y)))
    new = eng.fresh('ins', ArraySort(IntSort(), V))
    j = Int('ji')
    st.assume(ForAll([j], Implies(And(0 <= j, j < pos), Select(new, j) == Select(arr, j)), patterns=[Select(new, j)]),
              ForAll([j], Implies(And(pos < j, j <= n), Select(new, j) == Select(arr, j - 1)), patterns=[Select(new, j)]),
              ForAll([j], Implies(And(0 <= j, j < n), Select(new, If(j < pos, j, j + 1)) == Select(arr, j)),
                     patterns=[Select(arr, j)]),
              Select(new, pos) == v)
    eng.sto(st, 'item', a, new)
    eng.sto(st, 'len', a, simplify(n + 1))
    drop_hint_if(eng, st, l, v)
    return [(st, NONE)]


def list_pop(eng, st, l, k):
    a = arg(l, 'r')
    n, arr = eng.sel(st, 'len', a), eng.sel(st, 'item', a)
    i = IntVal(-1) if k is None else arg(k, 'i')
    if k is not None and eng.kind(st, k) != 'i':
        raise I.Unsupported('pop index')
    out = []
    for s, ok in eng.branch(st, And(-n <= i, i < n)):
        if not ok:
            out.append((s, I.Raised('IndexError')))
            continue
        s = s.copy()
        arr = plain_arr(eng, s, arr)
        pos = simplify(norm_index(n, i))
        x = eng.read_item(s, l, pos)
        if k is None:
            new = arr
        else:
            new = eng.fresh('pop', ArraySort(IntSort(), V))
            j = Int('jp')
            s.assume(ForAll([j], Implies(And(0 <= j, j < pos), Select(new, j) == Select(arr, j)), patterns=[Select(new, j)]),
                     ForAll([j], Implies(And(pos <= j, j < n - 1), Select(new, j) == Select(arr, j + 1)),
                            patterns=[Select(new, j)]),
                     ForAll([j], Implies(And(0 <= j, j < n, j != pos), Select(new, If(j < pos, j, j - 1)) == Select(arr, j)),
                            patterns=[Select(arr, j)]))
        eng.sto(s, 'item', a, new)
        eng.sto(s, 'len', a, simplify(n - 1))
        out.append((s, x))
    return out


def list_index(eng, st, l, x):
    """first index -> [(state, Int term or Raised)]"""
    a = arg(l, 'r')
    n, arr = eng.sel(st, 'len', a), eng.sel(st, 'item', a)
    x = eng.reify(st, x)
    has = list_has(eng, st, a, x)
    out = []
    for s, t in eng.branch(st, has):
        if not t:
            out.append((s, I.Raised('ValueError')))
            continue
        s = s.copy()
        arr = plain_arr(eng, s, arr)
        p = eng.fresh('m', IntSort())
        j = Int('jx')
        s2 = s.copy()
        h = eng.hint(s, l)
        if h is not None and h.args:
            eng.set_hint(s2, Select(arr, p), h.args[0])
            eng.set_hint(s2, Select(arr, j), h.args[0])
        s.assume(0 <= p, p < n, eng.eq(s2, Select(arr, p), x),
                 ForAll([j], Implies(And(0 <= j, j < p), Not(eng.eq(s2, Select(arr, j), x))), patterns=[Select(arr, j)]))
        out.append((s, p))
    return out


def list_remove(eng, st, l, x):
    out = []
    for s, p in list_index(eng, st, l, x):
        if isinstance(p, I.Raised):
            out.append((s, p))
            continue
        for s2, r in list_pop(eng, s, l, vi(p)):
            out.append((s2, r if isinstance(r, I.Raised) else NONE))
    return out


def make_set(eng, st, v):
    """set(v) for a list/tuple/dict value or iterator -> [(state, set)]"""
    if isinstance(v, I.EIter) and hasattr(v, 'range'):
        st = st.copy()
        lo, hi = v.range
        d = eng.new_dict(st, T_SET)
        a = arg(d, 'r')
        has = eng.fresh('shas', ArraySort(V, BoolSort()))
        k = Const('ks', V)
        st.assume(ForAll([k], Select(has, k) == And(V.is_i(k), lo <= V.iv(k), V.iv(k) < hi), patterns=[Select(has, k)]))
        return finish_set(eng, st, d, has, If(hi > lo, hi - lo, IntVal(0)))
    out = []
    for s, lv in (to_list(eng, st, v) if not (z3.is_expr(v) and eng.kind(st, v) == 'r' and eng.tag_of(st, v) in (T_LIST, T_TUPLE)) else [(st, v)]):
        if isinstance(lv, I.Raised):
            out.append((s, lv))
            continue
        s = s.copy()
        a0 = arg(lv, 'r')
        n, arr = eng.sel(s, 'len', a0), eng.sel(s, 'item', a0)
        if arr.num_args():
            arr2 = eng.fresh('sarr', arr.sort())
            s.assume(arr2 == arr)
            arr = arr2
        n = no_ite(eng, s, n)
        d = eng.new_dict(s, T_SET)
        has = eng.fresh('shas', ArraySort(V, BoolSort()))
        wit = Function(f'wit!{eng.counter}', V, IntSort())
        if eng.fresh_log is not None:
            eng.fresh_log.append(wit)
        k, j = Const('ks', V), Int('js')
        prov = eng.provenance.get(arr.get_id())
        if prov is not None:
            # elements of a filtered comprehension: membership directly in terms of its iterations
            _, bound, outs = prov
            alts = []
            for q, cs, es in outs:
                for e in es:
                    s.assume(ForAll([q], Implies(And(0 <= q, q < bound, *cs), Select(has, e))))
                    alts.append(z3.substitute(And(*cs, k == e), (q, wit(k))))
            s.assume(ForAll([k], Implies(Select(has, k), And(0 <= wit(k), wit(k) < bound, disj(alts))), patterns=[Select(has, k)]))
            card = eng.fresh('m', IntSort())
            s.assume(0 <= card, card <= n, Implies(n > 0, card > 0))
        else:
            s.assume(ForAll([j], Implies(And(0 <= j, j < n), Select(has, Select(arr, j))), patterns=[Select(arr, j)]),
                     ForAll([k], Implies(Select(has, k), And(0 <= wit(k), wit(k) < n, Select(arr, wit(k)) == k)),
                            patterns=[Select(has, k)]))
            card = None
        # cardinality: at most n, and equal to n exactly when the elements are pairwise distinct
        if card is None:
            card = eng.fresh('m', IntSort())
            x, y = eng.fresh('m', IntSort()), eng.fresh('m', IntSort())
            s.assume(0 <= card, card <= n, Implies(n > 0, card > 0),
                     Implies(card == n, ForAll([j], Implies(And(0 <= j, j < n), wit(Select(arr, j)) == j), patterns=[Select(arr, j)])),
                     Or(card == n, And(0 <= x, x < y, y < n, Select(arr, x) == Select(arr, y))))
        eng.assumptions.add("set elements are compared by value (strings, numbers) or identity (objects)")
        h = eng.hint(s, lv)
        res = finish_set(eng, s, d, has, card)
        if h is not None and h.args:
            for s2, dd in res:
                s2.hints[('adr', arg(dd, 'r').get_id())] = I.Ty('set', h.args[0])
        out.extend(res)
    return out


def finish_set(eng, st, d, has, card):
    a = arg(d, 'r')
    eng.sto(st, 'has', a, has)
    eng.sto(st, 'len', a, card)
    eng.sto(st, 'item', a, eng.fresh('sitem', ArraySort(IntSort(), V)))
    eng.sto(st, 'idx', a, eng.fresh('sidx', ArraySort(V, IntSort())))
    eng.dict_wf(st, a)
    return [(st, d)]


def set_op(eng, st, op, a, b):
    out = []
    res = [(st, b)]
    if eng.tag_of(st, b) in (T_LIST, T_TUPLE):
        res = make_set(eng, st, b)
    for s, bb in res:
        s = s.copy()
        ha, hb = eng.sel(s, 'has', arg(a, 'r')), eng.sel(s, 'has', arg(bb, 'r'))
        d = eng.new_dict(s, T_SET)
        has = eng.fresh('shas', ArraySort(V, BoolSort()))
        k = Const('ks', V)
        x, y = Select(ha, k), Select(hb, k)
        f = {ast.Sub: And(x, Not(y)), ast.BitAnd: And(x, y), ast.BitOr: Or(x, y)}[type(op)]
        s.assume(ForAll([k], Select(has, k) == f, patterns=[Select(has, k)]))
        card = eng.fresh('m', IntSort())
        s.assume(card >= 0)
        eng.opaque.add('cardinality of set combination')
        out.extend(finish_set(eng, s, d, has, card))
    return out


# ---- builtin calls --------------------------------------------------------------------------------------------
def call_builtin(eng, st, f, args, kwargs):
    name = f.name
    if f.self_val is not None or name.startswith('.'):
        return method(eng, st, f.self_val, name.lstrip('.'), args, kwargs)
    h = globals().get('b_' + name)
    if h is None:
        if name in BUILTIN_TYPES:
            raise I.Unsupported(f'builtin type call {name}')
        if name == 'object.__eq__' and len(args) == 2 and all(z3.is_expr(x) for x in args):
            return [(st, vb(args[0] == args[1]))]
        if name == 'object.__hash__' and len(args) == 1 and z3.is_expr(args[0]):
            return [(st, V.i(Function('object_hash', V, IntSort())(args[0])))]
        if name.endswith('.__add__') and len(args) == 2:
            return binop(eng, st, ast.Add(), args[0], args[1])
        if name.endswith('Error') or name.endswith('Exception'):
            return [(st, I.Raised(name))]
        raise I.Unsupported(f'builtin {name}')
    return h(eng, st, args, kwargs)


def b_len(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, tuple):
        return [(st, vi(len(v)))]
    if isinstance(v, I.EIter):
        return [(st, vi(v.n))]
    if isinstance(v, I.EView):
        return b_len(eng, st, [v.d], {})
    if isinstance(v, I.EConstDict):
        return [(st, vi(len(v.node.keys)))]
    if isinstance(v, I.Eng):
        raise I.Unsupported('len of engine value')
    out = []
    for s, k in eng.split_kind(st, v):
        if k == 's':
            out.append((s, V.i(z3.Length(arg(v, 's')))))
        elif k == 'r':
            for s2, t in eng.split_tag(s, v):
                if t != 'obj':
                    n = eng.sel(s2, 'len', arg(v, 'r'))
                    s2.assume(n >= 0)
                    out.append((s2, V.i(n)))
                else:
                    ci = eng.static_class(s2, v)
                    m = eng.repo.lookup_method(ci, '__len__') if ci is not None else None
                    if m is None:
                        raise I.Unsupported('len of object')
                    out.extend(eng.call_func(s2, m, [v], {}))
        else:
            out.append((s, I.Raised('TypeError')))
    return out


def b_range(eng, st, args, kwargs):
    vals = []
    for a in args:
        if not z3.is_expr(a) or eng.kind(st, a) not in ('i', 'b'):
            raise I.Unsupported('range argument')
        vals.append(as_int(a, eng.kind(st, a)))
    if len(vals) == 1:
        lo, hi = IntVal(0), vals[0]
    else:
        lo, hi = vals[0], vals[1]
    if len(vals) == 3:
        stp = simplify(vals[2])
        if z3.is_int_value(stp) and stp.as_long() == -1:
            n = simplify(If(lo > hi, lo - hi, IntVal(0)))
            return [(st, I.EIter(n, lambda i, s: V.i(simplify(lo - i))))]
        if not z3.is_int_value(stp) or stp.as_long() != 1:
            raise I.Unsupported('range step')
    n = simplify(If(hi > lo, hi - lo, IntVal(0)))
    if entails(st.pc, hi >= lo):
        n = simplify(hi - lo)
    it = I.EIter(n, lambda i, s: V.i(simplify(lo + i)))
    it.range = (lo, hi)
    return [(st, it)]


def b_enumerate(eng, st, args, kwargs):
    start = IntVal(0)
    if len(args) > 1:
        start = arg(args[1], 'i')
    if 'start' in kwargs:
        start = arg(kwargs['start'], 'i')
    out = []
    for s, it in loops.as_iter(eng, st, args[0]):
        if isinstance(it, I.Raised):
            out.append((s, it))
        elif it.conc is not None:
            out.append((s, I.EIter(it.n, None, conc=[(V.i(simplify(start + j)), x) for j, x in enumerate(it.conc)])))
        else:
            e = I.EIter(it.n, lambda i, s2, it=it: (V.i(simplify(start + i)), it.elem(i, s2)))
            e.sources = it.sources
            out.append((s, e))
    return out


def b_zip(eng, st, args, kwargs):
    res = [(st, [])]
    for a in args:
        nxt = []
        for s, its in res:
            for s2, it in loops.as_iter(eng, s, a):
                nxt.append((s2, it if isinstance(it, I.Raised) else its + [it]))
        res = nxt
    out = []
    for s, its in res:
        if isinstance(its, I.Raised):
            out.append((s, its))
            continue
        if not its:
            out.append((s, I.EIter(IntVal(0), None, conc=[])))
            continue
        if all(it.conc is not None for it in its):
            out.append((s, I.EIter(IntVal(min(len(it.conc) for it in its)), None, conc=list(zip(*[it.conc for it in its])))))
            continue
        n = its[0].n
        for it in its[1:]:
            if entails(s.pc, n == it.n):
                continue
            n = If(n <= it.n, n, it.n)

        def elem(i, s2, its=its):
            vals = []
            for it in its:
                if it.conc is not None:
                    arr = z3.K(IntSort(), NONE)
                    for jj, x in enumerate(it.conc):
                        arr = Store(arr, jj, eng.reify(s2, x))
                    vals.append(Select(arr, i))
                else:
                    vals.append(it.elem(i, s2))
            return tuple(vals)
        e = I.EIter(simplify(n), elem)
        e.sources = [a for it in its for a in it.sources]
        out.append((s, e))
    return out


def b_list(eng, st, args, kwargs):
    if not args:
        st = st.copy()
        return [(st, eng.new_list(st, []))]
    return to_list(eng, st, args[0])


def b_tuple(eng, st, args, kwargs):
    if not args:
        return [(st, ())]
    if isinstance(args[0], tuple):
        return [(st, args[0])]
    return to_list(eng, st, args[0], T_TUPLE)


def b_dict(eng, st, args, kwargs):
    st = st.copy()
    d = eng.new_dict(st)
    if args:
        a0 = args[0]
        if isinstance(a0, I.EIter):
            return dict_from_pairs(eng, st, d, a0)
        if z3.is_expr(a0) and eng.kind(st, a0) == 'r' and eng.tag_of(st, a0) == T_DICT:
            eng.dict_wf(st, arg(a0, 'r'))
            for hn in ('has', 'get', 'idx', 'len', 'item'):
                eng.sto(st, hn, arg(d, 'r'), eng.sel(st, hn, arg(a0, 'r')))
            h = eng.hint(st, a0)
            if h is not None:
                st.hints[('adr', arg(d, 'r').get_id())] = h
            return [(st, d)]
        raise I.Unsupported('dict()')
    for k, v in kwargs.items():
        dict_put(eng, st, arg(d, 'r'), vs(k), eng.reify(st, v))
    return [(st, d)]


def dict_from_pairs(eng, st, d, it):
    def body(sb, value):
        if not isinstance(value, tuple):
            raise I.Unsupported('dict from non pairs')
        return setitem(eng, sb, d, value[0], value[1])
    out = []
    for o in loops.run_iter(eng, st, it, body, set()):
        if o[0] != 'next':
            raise I.Unsupported('dict()')
        out.append((o[1], d))
    return out


def b_set(eng, st, args, kwargs):
    if not args:
        st = st.copy()
        return [(st, eng.new_dict(st, T_SET))]
    v = args[0]
    if isinstance(v, tuple):
        st = st.copy()
        v = eng.new_list(st, list(v))
    return make_set(eng, st, v)


def b_isinstance(eng, st, args, kwargs):
    return [(st, vb(simplify(isinst(eng, st, args[0], args[1]))))]


def isinst(eng, st, v, c):
    if isinstance(c, tuple):
        return disj([isinst(eng, st, v, x) for x in c])
    if isinstance(v, tuple):
        if isinstance(c, I.EBuiltin):
            return BoolVal(c.name in ('tuple', 'object'))
        if isinstance(c, I.EExt):
            return BoolVal(c.name in ('collections.abc.Sequence', 'typing.Sequence', 'collections.abc.Iterable'))
        return BoolVal(False)
    if isinstance(v, (I.EClass, I.EBuiltin, I.EExt)):
        return BoolVal(isinstance(c, I.EBuiltin) and c.name == 'type')
    if isinstance(v, I.ESlice) and isinstance(c, I.EBuiltin):
        return BoolVal(c.name in ('slice', 'object'))
    if isinstance(v, I.Eng):
        raise I.Unsupported('isinstance of engine value')
    if isinstance(c, I.EBuiltin):
        m = {'int': lambda: Or(is_kind(v, 'i'), is_kind(v, 'b')), 'float': lambda: is_kind(v, 'f'),
             'str': lambda: is_kind(v, 's'), 'bool': lambda: is_kind(v, 'b'), 'type': lambda: is_kind(v, 'c'),
             'object': lambda: BoolVal(True), 'complex': lambda: BoolVal(False), 'bytes': lambda: BoolVal(False)}
        if c.name in m:
            return m[c.name]()
        if c.name in ('list', 'tuple', 'dict', 'set'):
            t = BUILTIN_TYPES[c.name]
            if eng.kind(st, v) == 'r':
                tv = eng.tag_of(st, v)
                if tv is not None:
                    return BoolVal(tv == t)
            h = eng.hint(st, v)
            if h is not None and h.kind == 'obj':
                ci = eng.static_class(st, v)
                return BoolVal(False)
            eng.assumptions.add("no instance of a user-defined subclass of list, tuple, dict, str, int or float")
            return And(is_kind(v, 'r'), TAG(arg(v, 'r')) == t)
        if c.name in ('slice', 'range', 'set', 'frozenset'):
            if eng.kind(st, v) == 'r' and (eng.tag_of(st, v) is not None or eng.static_class(st, v) is not None):
                return BoolVal(False)
            return And(is_kind(v, 'r'), TAG(arg(v, 'r')) == class_id('ext:' + c.name))
        raise I.Unsupported(f'isinstance {c.name}')
    if isinstance(c, I.EExt):
        if c.name in ('collections.abc.Sequence', 'typing.Sequence'):
            if eng.kind(st, v) == 'r' and eng.tag_of(st, v) is not None:
                return BoolVal(eng.tag_of(st, v) in (T_LIST, T_TUPLE))
            eng.assumptions.add("the only sequences are list, tuple and str")
            a = arg(v, 'r')
            return Or(is_kind(v, 's'), And(is_kind(v, 'r'), Or(TAG(a) == T_LIST, TAG(a) == T_TUPLE)))
        cid = class_id('ext:' + c.name)
        return And(is_kind(v, 'r'), TAG(arg(v, 'r')) >= FIRST_CLASS_ID, subtype(TAG(arg(v, 'r')), IntVal(cid)))
    if isinstance(c, I.EClass):
        ci = eng.static_class(st, v)
        if ci is not None and c.ci is not None and eng.repo.is_subclass(ci, c.key):
            return BoolVal(True)
        h = eng.hint(st, v)
        if ci is not None and h.pred is True:
            return BoolVal(False)
        a = arg(v, 'r')
        return And(is_kind(v, 'r'), TAG(a) >= FIRST_CLASS_ID, subtype(TAG(a), IntVal(class_id(c.key))))
    if z3.is_expr(c):
        eng.assumptions.add("no instance of a user-defined subclass of list, tuple, dict, str, int or float")
        return subtype(typeid(v), arg(c, 'c'))
    raise I.Unsupported('isinstance')


def b_issubclass(eng, st, args, kwargs):
    a, b = args
    if isinstance(a, I.EClass) and isinstance(b, I.EClass) and a.ci is not None:
        return [(st, vb(eng.repo.is_subclass(a.ci, b.key)))]
    a, b = (eng.reify(st, x) if isinstance(x, (I.EClass, I.EBuiltin, I.EExt)) else x for x in (a, b))
    if z3.is_expr(a) and z3.is_expr(b) and eng.kind(st, a) == 'c' and eng.kind(st, b) == 'c':
        return [(st, vb(subtype(arg(a, 'c'), arg(b, 'c'))))]
    raise I.Unsupported('issubclass')


def b_type(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, tuple):
        return [(st, I.EBuiltin('tuple'))]
    if isinstance(v, I.Eng):
        raise I.Unsupported('type of engine value')
    k = eng.kind(st, v)
    if k is not None and k != 'r':
        return [(st, V.c(typeid(v)))]
    return [(st, eng.class_of(st, v) if k == 'r' else V.c(typeid(v)))]


def b_hasattr(eng, st, args, kwargs):
    o, n = args
    if not (z3.is_expr(n) and ctor(n) == 's' and z3.is_string_value(simplify(arg(n, 's')))):
        if 'hasattr' in eng.specs:
            return eng.specs['hasattr'](eng, st, args, kwargs)
        raise I.Unsupported('hasattr with a dynamic name')
    name = simplify(arg(n, 's')).as_string()
    return [(st, vb(simplify(has_attr(eng, st, o, name))))]


def has_attr(eng, st, o, name):
    if isinstance(o, tuple):
        return BoolVal(hasattr(tuple, name))
    if isinstance(o, I.EClass):
        if o.ci is None:
            raise I.Unsupported('hasattr of external class')
        return BoolVal(eng.repo.lookup_method(o.ci, name) is not None or eng.repo.lookup_classattr(o.ci, name) is not None)
    if isinstance(o, I.EView) or isinstance(o, I.EConstDict):
        return BoolVal(hasattr({}.keys() if isinstance(o, I.EView) else {}, name))
    if isinstance(o, I.Eng):
        raise I.Unsupported('hasattr of engine value')
    ci = eng.static_class(st, o)
    if ci is not None:
        if eng.repo.lookup_method(ci, name) is not None or eng.repo.lookup_classattr(ci, name) is not None:
            return BoolVal(True)
        if hasattr(object, name):
            return BoolVal(True)
        h = eng.hint(st, o)
        if h.pred is True:
            known = eng.field_types.get((ci.key, name))
            if known is not None or eng._ever_assigned(ci, name):
                return BoolVal(True)
            return BoolVal(False)
    kinds = {'i': int, 'f': float, 's': str, 'b': bool, 'none': type(None), 'c': type}
    parts = []
    k = eng.kind(st, o)
    if k is not None and k != 'r':
        return BoolVal(hasattr(kinds[k], name)) if k != 'c' else _class_has(o, name)
    for kk, t in kinds.items():
        if kk == 'c':
            parts.append(And(is_kind(o, 'c'), _class_has(o, name)))
        elif hasattr(t, name):
            parts.append(is_kind(o, kk))
    a = arg(o, 'r')
    for tg, t in ((T_LIST, list), (T_TUPLE, tuple), (T_DICT, dict), (T_SET, set)):
        if hasattr(t, name):
            parts.append(And(is_kind(o, 'r'), TAG(a) == tg))
    if hasattr(object, name):
        parts.append(And(is_kind(o, 'r'), TAG(a) >= FIRST_CLASS_ID))
    else:
        HA = Function('hasattr_' + name, IntSort(), BoolSort())
        eng.assumptions.add("whether an object of unknown class has an attribute depends on its class only")
        parts.append(And(is_kind(o, 'r'), TAG(a) >= FIRST_CLASS_ID, HA(TAG(a))))
    return disj(parts)


def _class_has(o, name):
    if hasattr(type, name):
        return BoolVal(True)
    return Function('class_hasattr_' + name, IntSort(), BoolSort())(arg(o, 'c'))


def b_getattr(eng, st, args, kwargs):
    n = args[1]
    if z3.is_expr(n) and ctor(n) == 's' and z3.is_string_value(simplify(arg(n, 's'))):
        name = simplify(arg(n, 's')).as_string()
        if len(args) == 3:
            out = []
            for s, t in eng.branch(st, has_attr(eng, st, args[0], name)):
                out.extend(eng.get_attr(s, args[0], name) if t else [(s, args[2])])
            return out
        return eng.get_attr(st, args[0], name)
    # dynamic attribute: uninterpreted total function of object and name on the current heap
    if 'getattr' in eng.specs:
        return eng.specs['getattr'](eng, st, args, kwargs)
    raise I.Unsupported('getattr with a dynamic name')


def b_setattr(eng, st, args, kwargs):
    n = args[1]
    if z3.is_expr(n) and ctor(n) == 's' and z3.is_string_value(simplify(arg(n, 's'))):
        out = []
        for o in eng.set_attr(st, args[0], simplify(arg(n, 's')).as_string(), args[2]):
            out.append((o[1], o[2] if o[0] == 'raise' else V.none))
        return out
    if 'setattr' in eng.specs:
        return eng.specs['setattr'](eng, st, args, kwargs)
    raise I.Unsupported('setattr with a dynamic name')


def b_callable(eng, st, args, kwargs):
    if isinstance(args[0], (I.EFunc, I.ELambda, I.EBuiltin, I.EClass)):
        return [(st, vb(True))]
    raise I.Unsupported('callable')


def b_abs(eng, st, args, kwargs):
    v = args[0]
    out = []
    for s, k in eng.split_kind(st, v):
        if k == 'f':
            x = arg(v, 'f')
            out.append((s, V.f(If(x >= 0, x, -x))))
        elif k in ('i', 'b'):
            x = as_int(v, k)
            out.append((s, V.i(If(x >= 0, x, -x))))
        else:
            out.append((s, I.Raised('TypeError')))
    return out


def b_int(eng, st, args, kwargs):
    if not args:
        return [(st, vi(0))]
    v = args[0]
    out = []
    for s, k in eng.split_kind(st, v):
        if k in ('i', 'b'):
            out.append((s, V.i(as_int(v, k))))
        elif k == 'f':
            x = arg(v, 'f')
            t = ToInt(x) if entails(s.pc, x >= 0) else If(x >= 0, ToInt(x), -ToInt(-x))
            out.append((s, V.i(t)))
        elif k == 's':
            ok = Function('int_parsable', StringSort(), BoolSort())
            val = Function('int_of', StringSort(), IntSort())
            sv = arg(v, 's')
            for s2, t in eng.branch(s, Or(ok(sv), z3.StrToInt(sv) >= 0)):
                if t:
                    s2 = s2.copy()
                    s2.assume(Implies(z3.StrToInt(sv) >= 0, val(sv) == z3.StrToInt(sv)))
                    out.append((s2, V.i(val(sv))))
                else:
                    out.append((s2, I.Raised('ValueError')))
        else:
            out.append((s, I.Raised('TypeError')))
    return out


def b_float(eng, st, args, kwargs):
    v = args[0]
    out = []
    for s, k in eng.split_kind(st, v):
        if k in ('i', 'b', 'f'):
            out.append((s, V.f(as_real(v, k))))
        else:
            raise I.Unsupported('float()')
    return out


def b_bool(eng, st, args, kwargs):
    return [(s, c if isinstance(c, I.Raised) else vb(c)) for s, c in eng.truth(st, args[0])]


def b_str(eng, st, args, kwargs):
    return [(st, V.s(eng.to_str(st, args[0])))]


b_repr = b_str


def b_id(eng, st, args, kwargs):
    if eng.kind(st, args[0]) == 'r':
        return [(st, V.i(arg(args[0], 'r')))]
    raise I.Unsupported('id')


def b_hash(eng, st, args, kwargs):
    v = args[0]
    if 'hash' in eng.specs:
        return eng.specs['hash'](eng, st, args, kwargs)
    if isinstance(v, I.Eng) or isinstance(v, tuple):
        raise I.Unsupported('hash of engine value')
    return [(st, V.i(HASH_OF(v)))]


def b_ord(eng, st, args, kwargs):
    f = Function('ord_of', StringSort(), IntSort())
    return [(st, V.i(f(arg(args[0], 's'))))]


def _minmax(eng, st, args, kwargs, is_min):
    if 'key' in kwargs or 'default' in kwargs:
        raise I.Unsupported('min/max with key')
    if len(args) > 1:
        vals = list(args)
        res = [(st, vals[0])]
        for v in vals[1:]:
            nxt = []
            for s, cur in res:
                for s2, c in compare(eng, s, ast.Lt(), v if is_min else cur, cur if is_min else v):
                    if isinstance(c, I.Raised):
                        nxt.append((s2, c))
                        continue
                    for s3, t in eng.branch(s2, c):
                        nxt.append((s3, v if t else cur))
            res = nxt
        return res
    out = []
    for s, it in loops.as_iter(eng, st, args[0]):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        if it.conc is not None:
            out.extend(_minmax(eng, s, it.conc, {}, is_min) if len(it.conc) > 1 else
                       [(s, it.conc[0] if it.conc else I.Raised('ValueError'))])
            continue
        for s2, ne in eng.branch(s, it.n > 0):
            if not ne:
                out.append((s2, I.Raised('ValueError')))
                continue
            s2 = s2.copy()
            m = eng.fresh('m', IntSort())
            s2.assume(0 <= m, m < it.n)
            x = it.elem(m, s2)
            k = eng.kind(s2, x)
            if k not in ('i', 'f'):
                raise I.Unsupported('min/max of non numbers')
            j = Int('jmm')
            s3 = s2.copy()
            base = len(s3.pc)
            y = it.elem(j, s3)
            le = (num_kindless(x) <= num_kindless(y)) if is_min else (num_kindless(x) >= num_kindless(y))
            s2.assume(ForAll([j], Implies(And(0 <= j, j < it.n), conj([le] + s3.pc[base:]))))
            out.append((s2, x))
    return out


def b_min(eng, st, args, kwargs):
    return _minmax(eng, st, args, kwargs, True)


def b_max(eng, st, args, kwargs):
    return _minmax(eng, st, args, kwargs, False)


def b_sum(eng, st, args, kwargs):
    start = args[1] if len(args) > 1 else vi(0)
    out = []
    for s, it in loops.as_iter(eng, st, args[0]):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        s = s.copy()
        s.env = dict(s.env)
        s.env['%sum'] = start

        def body(sb, value):
            res = []
            for s2, v in binop(eng, sb, ast.Add(), sb.env['%sum'], value):
                if isinstance(v, I.Raised):
                    res.append(('raise', s2, v))
                else:
                    s2 = s2.copy()
                    s2.env['%sum'] = v
                    res.append(('next', s2, None))
            return res
        for o in loops.run_iter(eng, s, it, body, {'%sum'}):
            s2 = o[1].copy()
            v = o[2] if o[0] == 'raise' else s2.env['%sum']
            s2.env.pop('%sum', None)
            out.append((s2, v))
    return out


def lazily(eng, st, gen, leaf):
    """the generator expression is evaluated up to the element for which leaf returns: outcomes 'return' / 'raise' / 'next' (exhausted)"""
    gens = gen.node.generators

    def nest(gs, s):
        if not gs:
            return leaf(s)
        g = gs[0]
        res = []
        for s1, itv in eng.ev(g.iter, s):
            for s2, it in loops.as_iter(eng, s1, itv):
                if isinstance(it, I.Raised):
                    res.append(('raise', s2, it))
                    continue
                names = loops.assigned_names([g.target])
                s2 = s2.copy()
                for nm in names:
                    s2.env.pop(nm, None)

                def body(sb, value):
                    r = []
                    for o in eng.assign(g.target, value, sb):
                        if o[0] != 'next':
                            r.append(o)
                            continue
                        r.extend(guard(g.ifs, o[1]))
                    return r

                def guard(ifs, sg):
                    if not ifs:
                        return nest(gs[1:], sg)
                    r = []
                    for s3, c in eng.ev_cond(ifs[0], sg):
                        if isinstance(c, I.Raised):
                            r.append(('raise', s3, c))
                            continue
                        for s4, t in eng.branch(s3, c):
                            r.extend(guard(ifs[1:], s4) if t else [('next', s4, None)])
                    return r
                for o in loops.run_iter(eng, s2, it, body, set()):
                    if o[0] == 'next':
                        s3 = o[1].copy()
                        s3.env = s.env
                        res.append(('next', s3, None))
                    else:
                        res.append(o)
        return res
    return nest(gens, loops._with_env(st, gen))


def b_next(eng, st, args, kwargs):
    """only of a generator expression written as the argument (see ex_Call): its first element"""
    if not isinstance(args[0], I.EGen) or kwargs:
        raise I.Unsupported('next')
    node, out = args[0].node, []

    def leaf(s):
        return [('raise', s2, v) if isinstance(v, I.Raised) else ('return', s2, v) for s2, v in eng.ev(node.elt, s)]
    for o in lazily(eng, st, args[0], leaf):
        s = o[1].copy()
        s.env, s.module, s.cls = st.env, st.module, st.cls
        out.append((s, o[2] if o[0] in ('return', 'raise') else args[1] if len(args) > 1 else I.Raised('StopIteration')))
    return out


def _anyall(eng, st, args, is_any):
    v = args[0]
    out = []

    def finish(s, val):
        s = s.copy()
        s.env, s.module, s.cls = st.env, st.module, st.cls
        out.append((s, val))
    if isinstance(v, I.EGen):
        def leaf(s):
            res = []
            for s2, c in eng.ev_cond(v.node.elt, s):
                if isinstance(c, I.Raised):
                    res.append(('raise', s2, c))
                    continue
                for s3, t in eng.branch(s2, c):
                    res.append(('return', s3, vb(is_any)) if t == is_any else ('next', s3, None))
            return res
        for o in lazily(eng, st, v, leaf):
            finish(o[1], o[2] if o[0] in ('return', 'raise') else vb(not is_any))
        return out
    for s, it in loops.as_iter(eng, st, v):
        if isinstance(it, I.Raised):
            finish(s, it)
            continue

        def body(sb, value):
            res = []
            for s2, c in eng.truth(sb, value):
                if isinstance(c, I.Raised):
                    res.append(('raise', s2, c))
                    continue
                for s3, t in eng.branch(s2, c):
                    res.append(('return', s3, vb(is_any)) if t == is_any else ('next', s3, None))
            return res
        for o in loops.run_iter(eng, s, it, body, set()):
            finish(o[1], o[2] if o[0] in ('return', 'raise') else vb(not is_any))
    return out


def b_any(eng, st, args, kwargs):
    return _anyall(eng, st, args, True)


def b_all(eng, st, args, kwargs):
    return _anyall(eng, st, args, False)


def b_sorted(eng, st, args, kwargs):
    """a permutation of the argument in non-decreasing order"""
    if kwargs and not (set(kwargs) == {'reverse'}):
        raise I.Unsupported('sorted with key')
    v = args[0]
    if isinstance(v, tuple) and len(v) == 2 and not kwargs:
        a, b = v
        out = []
        for s, c in compare(eng, st, ast.Lt(), b, a):
            if isinstance(c, I.Raised):
                out.append((s, c))
                continue
            for s2, t in eng.branch(s, c):
                s2 = s2.copy()
                out.append((s2, eng.new_list(s2, [b, a] if t else [a, b])))
        return out
    if kwargs or not z3.is_expr(v):
        raise I.Unsupported('sorted')
    h = eng.hint(st, v)
    if h is None or h.kind != 'list' or not h.args or h.args[0].kind != 'int':
        raise I.Unsupported('sorted')
    st = st.copy()
    a = arg(v, 'r')
    n, arr = no_ite(eng, st, eng.sel(st, 'len', a)), plain_arr(eng, st, eng.sel(st, 'item', a))
    new = eng.fresh('sorted', ArraySort(IntSort(), V))
    src, dst = Function(f'sortedfrom!{eng.counter}', IntSort(), IntSort()), Function(f'sortedto!{eng.counter}', IntSort(), IntSort())
    if eng.fresh_log is not None:
        eng.fresh_log.extend([src, dst])
    j, k = Int('js'), Int('ks')
    st.assume(ForAll([k], Implies(And(0 <= k, k < n), And(0 <= src(k), src(k) < n, Select(new, k) == Select(arr, src(k)), dst(src(k)) == k, V.is_i(Select(new, k)))), patterns=[Select(new, k)]),
              ForAll([j], Implies(And(0 <= j, j < n), And(0 <= dst(j), dst(j) < n, Select(new, dst(j)) == Select(arr, j), src(dst(j)) == j)), patterns=[Select(arr, j)]),
              ForAll([j, k], Implies(And(0 <= j, j < k, k < n), V.iv(Select(new, j)) <= V.iv(Select(new, k))), patterns=[z3.MultiPattern(Select(new, j), Select(new, k))]))
    return [(st, eng.new_seq(st, n, new, T_LIST, h))]


def b_map(eng, st, args, kwargs):
    f, src = args[0], args[1]
    if len(args) != 2:
        raise I.Unsupported('map with several iterables')
    out = []
    for s, it in loops.as_iter(eng, st, src):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        s = s.copy()
        acc = eng.new_list(s, [])
        kinds = set()

        def body(sb, value):
            res = []
            for s2, r in eng.call(sb, f, [value], {}):
                if isinstance(r, I.Raised):
                    res.append(('raise', s2, r))
                else:
                    kinds.add(eng.kind(s2, r) if z3.is_expr(r) else None)
                    res.extend(('next', s3, None) for s3, _ in list_append(eng, s2, acc, r))
            return res
        for o in loops.run_iter(eng, s, it, body, set()):
            if o[0] == 'next':
                scalar = {'s': I.STR, 'i': I.INT, 'f': I.FLOAT, 'b': I.BOOL}
                if len(kinds) == 1 and kinds <= set(scalar):
                    o[1].hints[('adr', arg(acc, 'r').get_id())] = I.LIST(scalar[min(kinds)])
                out.extend(loops.as_iter(eng, o[1], acc))
            else:
                out.append((o[1], o[2]))
    return out


def b_reversed(eng, st, args, kwargs):
    out = []
    for s, it in loops.as_iter(eng, st, args[0]):
        if isinstance(it, I.Raised):
            out.append((s, it))
        elif it.conc is not None:
            out.append((s, I.EIter(it.n, None, conc=list(reversed(it.conc)))))
        else:
            e = I.EIter(it.n, lambda i, s2, it=it: it.elem(simplify(it.n - 1 - i), s2))
            e.sources = it.sources
            if hasattr(it, 'addr') and z3.is_expr(args[0]) and eng.tag_of(s, args[0]) == T_LIST:
                e.live = (it.addr, lambda i, n=it.n: simplify(n - 1 - i))      # a reversed list is read as it is at that moment
            out.append((s, e))
    return out


def b_iter(eng, st, args, kwargs):
    return loops.as_iter(eng, st, args[0])


def b_object(eng, st, args, kwargs):
    raise I.Unsupported('object()')


# ---- methods --------------------------------------------------------------------------------------------------
def method(eng, st, o, name, args, kwargs):
    if isinstance(o, I.EConstDict):
        if name in ('items', 'keys', 'values'):
            return [(st, I.EView(name, o))]
        if name == 'get':
            out = []
            for s, c in contains(eng, st, o, args[0]):
                for s2, t in eng.branch(s, c):
                    out.extend(getitem(eng, s2, o, args[0]) if t else [(s2, args[1] if len(args) > 1 else NONE)])
            return out
        raise I.Unsupported(f'constant dict method {name}')
    if isinstance(o, tuple):
        if name == 'index':
            raise I.Unsupported('tuple.index')
        o = eng.reify(st, o)
    if isinstance(o, I.Eng):
        if name.startswith('object.'):
            raise I.Unsupported(name)
        raise I.Unsupported(f'method {name} of {type(o).__name__}')
    if name.startswith('object.'):
        n2 = name.split('.', 1)[1]
        if n2 == '__init__':
            return [(st, NONE)]
        raise I.Unsupported(name)
    k = eng.kind(st, o)
    if k == 's':
        return str_method(eng, st, o, name, args, kwargs)
    if k == 'f' and name == 'is_integer':
        return [(st, vb(z3.IsInt(arg(o, 'f'))))]
    if k == 'i' and name == 'is_integer':
        return [(st, vb(True))]
    if k != 'r':
        raise I.Unsupported(f'method {name} of kind {k}')
    t = eng.tag_of(st, o)
    a = arg(o, 'r')
    if t == T_LIST:
        if name == 'append':
            return list_append(eng, st, o, args[0])
        if name == 'extend':
            return list_extend(eng, st, o, args[0])
        if name == 'insert':
            return list_insert(eng, st, o, args[0], args[1])
        if name == 'pop':
            return list_pop(eng, st, o, args[0] if args else None)
        if name == 'remove':
            return list_remove(eng, st, o, args[0])
        if name == 'index' and len(args) == 1:
            return [(s, p if isinstance(p, I.Raised) else V.i(p)) for s, p in list_index(eng, st, o, args[0])]
        if name == 'copy' and not args:
            st = st.copy()
            h = eng.hint(st, o)
            return [(st, eng.new_seq(st, eng.sel(st, 'len', a), eng.sel(st, 'item', a), T_LIST, h))]
        if name == 'clear':
            st = st.copy()
            eng.sto(st, 'len', a, IntVal(0))
            return [(st, NONE)]
        if name == '__add__':
            return binop(eng, st, ast.Add(), o, args[0])
        raise I.Unsupported(f'list.{name}')
    if t == T_TUPLE:
        if name == 'index':
            return [(s, p if isinstance(p, I.Raised) else V.i(p)) for s, p in list_index(eng, st, o, args[0])]
        raise I.Unsupported(f'tuple.{name}')
    if t == T_DICT:
        if name in ('items', 'keys', 'values'):
            return [(st, I.EView(name, o))]
        if name == 'get':
            kx = eng.reify(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            eng.dict_wf(st, a)
            out = []
            for s, ok in eng.branch(st, Select(eng.sel(st, 'has', a), kx)):
                out.append((s, dict_get(eng, s, o, kx) if ok else d))
            return out
        if name == 'pop':
            kx = eng.reify(st, args[0])
            eng.dict_wf(st, a)
            out = []
            for s, ok in eng.branch(st, Select(eng.sel(st, 'has', a), kx)):
                if not ok:
                    out.append((s, args[1] if len(args) > 1 else I.Raised('KeyError')))
                    continue
                s = s.copy()
                x = dict_get(eng, s, o, kx)
                dict_del(eng, s, a, kx)
                out.append((s, x))
            return out
        if name == 'copy':
            return b_dict(eng, st, [o], {})
        if name == 'update' and len(args) == 1 and not kwargs:
            return dict_update(eng, st, o, args[0])
        if name == 'setdefault':
            kx = eng.reify(st, args[0])
            out = []
            for s, ok in eng.branch(st, Select(eng.sel(st, 'has', a), kx)):
                if ok:
                    out.append((s, dict_get(eng, s, o, kx)))
                else:
                    s = s.copy()
                    d = eng.reify(s, args[1]) if len(args) > 1 else NONE
                    dict_put(eng, s, a, kx, d)
                    out.append((s, d))
            return out
        raise I.Unsupported(f'dict.{name}')
    if t == T_SET:
        if name == 'add':
            st = st.copy()
            kx = eng.reify(st, args[0])
            h = Select(eng.sel(st, 'has', a), kx)
            n, item, idx = eng.sel(st, 'len', a), eng.sel(st, 'item', a), eng.sel(st, 'idx', a)
            eng.sto(st, 'has', a, Store(eng.sel(st, 'has', a), kx, BoolVal(True)))
            eng.sto(st, 'len', a, If(h, n, n + 1))
            eng.sto(st, 'item', a, If(h, item, Store(item, n, kx)))
            eng.sto(st, 'idx', a, If(h, idx, Store(idx, kx, n)))
            return [(st, NONE)]
        if name in ('union', 'difference', 'intersection') and len(args) == 1:
            op = {'union': ast.BitOr(), 'difference': ast.Sub(), 'intersection': ast.BitAnd()}[name]
            return set_op(eng, st, op, o, eng.reify(st, args[0]))
        if name in ('issubset', 'issuperset') and len(args) == 1:
            st = st.copy()
            b = eng.reify(st, args[0])
            if eng.kind(st, b) == 'r' and eng.tag_of(st, b) in (T_LIST, T_TUPLE):
                (st, b), = make_set(eng, st, b)
            if eng.kind(st, b) == 'r' and eng.tag_of(st, b) in (T_DICT, T_SET):
                x, y = (a, arg(b, 'r')) if name == 'issubset' else (arg(b, 'r'), a)
                k = Const('kss', V)
                hx, hy = eng.sel(st, 'has', x), eng.sel(st, 'has', y)
                return [(st, vb(ForAll([k], Implies(Select(hx, k), Select(hy, k)), patterns=[Select(hx, k)])))]
        raise I.Unsupported(f'set.{name}')
    raise I.Unsupported(f'method {name} of unresolved reference')


def dict_update(eng, st, d, other):
    if not (z3.is_expr(other) and eng.kind(st, other) == 'r' and eng.tag_of(st, other) == T_DICT):
        raise I.Unsupported('dict.update argument')
    st = st.copy()
    a, b = arg(d, 'r'), arg(other, 'r')
    eng.dict_wf(st, a)
    eng.dict_wf(st, b)
    h1, g1, h2, g2 = eng.sel(st, 'has', a), eng.sel(st, 'get', a), eng.sel(st, 'has', b), eng.sel(st, 'get', b)
    has, get = eng.fresh('uhas', h1.sort()), eng.fresh('uget', g1.sort())
    k = Const('ku', V)
    st.assume(ForAll([k], Select(has, k) == Or(Select(h1, k), Select(h2, k)), patterns=[Select(has, k)]),
              ForAll([k], Select(get, k) == If(Select(h2, k), Select(g2, k), Select(g1, k)), patterns=[Select(get, k)]))
    n = eng.fresh('m', IntSort())
    st.assume(n >= 0, n >= eng.sel(st, 'len', a), n <= eng.sel(st, 'len', a) + eng.sel(st, 'len', b))
    eng.opaque.add('key order after update')
    eng.sto(st, 'has', a, has)
    eng.sto(st, 'get', a, get)
    eng.sto(st, 'len', a, n)
    eng.sto(st, 'item', a, eng.fresh('uitem', ArraySort(IntSort(), V)))
    eng.sto(st, 'idx', a, eng.fresh('uidx', ArraySort(V, IntSort())))
    eng.dict_wf(st, a)
    st.hints.pop(('adr', a.get_id()), None)
    st.hints[('tag', a.get_id())] = T_DICT
    return [(st, NONE)]


def str_method(eng, st, o, name, args, kwargs):
    s = arg(o, 's')
    if name == 'startswith' and eng.kind(st, args[0]) == 's':
        return [(st, vb(z3.PrefixOf(arg(args[0], 's'), s)))]
    if name == 'endswith' and eng.kind(st, args[0]) == 's':
        return [(st, vb(z3.SuffixOf(arg(args[0], 's'), s)))]
    if name == 'replace' and len(args) == 2:
        f = Function('str_replace_all', StringSort(), StringSort(), StringSort(), StringSort())
        return [(st, V.s(f(s, arg(args[0], 's'), arg(args[1], 's'))))]
    if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'capitalize', 'title'):
        if args:
            f = Function('str_' + name + '1', StringSort(), StringSort(), StringSort())
            return [(st, V.s(f(s, arg(args[0], 's'))))]
        f = Function('str_' + name, StringSort(), StringSort())
        return [(st, V.s(f(s)))]
    if name == 'isdigit':
        return [(st, vb(z3.StrToInt(s) >= 0))]
    if name == 'format':
        eng.opaque.add('str.format')
        return [(st, V.s(STR_OF(o)))]
    if name == 'split' and len(args) <= 1:
        st = st.copy()
        sep = arg(args[0], 's') if args else StringVal(' ')
        ln = Function('split_len', StringSort(), StringSort(), IntSort())
        it = Function('split_item', StringSort(), StringSort(), ArraySort(IntSort(), V))
        st.assume(ln(s, sep) >= 1)
        return [(st, eng.new_seq(st, ln(s, sep), it(s, sep), T_LIST, I.LIST(I.STR)))]
    if name == 'join':
        f = Function('str_join', StringSort(), ArraySort(IntSort(), V), IntSort(), StringSort())
        out = []
        for s1, lv in to_list(eng, st, args[0]):
            if isinstance(lv, I.Raised):
                out.append((s1, lv))
            else:
                out.append((s1, V.s(f(s, eng.sel(s1, 'item', arg(lv, 'r')), eng.sel(s1, 'len', arg(lv, 'r'))))))
        return out
    raise I.Unsupported(f'str.{name}')


# ---- external functions ---------------------------------------------------------------------------------------
def call_ext(eng, st, name, args, kwargs):
    if 'ext:' + name in eng.specs:
        return eng.specs['ext:' + name](eng, st, args, kwargs)
    if name == 'math.isclose':
        eng.assumptions.add(MATH_ASSUMPTION)
        a, b = args
        rel = num_kindless(kwargs['rel_tol']) if 'rel_tol' in kwargs else RealVal('1/1000000000')
        ab = num_kindless(kwargs['abs_tol']) if 'abs_tol' in kwargs else RealVal(0)
        out = []
        for s, ka in eng.split_kind(st, a):
            for s2, kb in eng.split_kind(s, b):
                if ka not in ('i', 'f', 'b') or kb not in ('i', 'f', 'b'):
                    out.append((s2, I.Raised('TypeError')))
                    continue
                x, y = as_real(a, ka), as_real(b, kb)
                absx, absy, d = If(x >= 0, x, -x), If(y >= 0, y, -y), If(x >= y, x - y, y - x)
                mx = If(absx >= absy, absx, absy)
                out.append((s2, vb(Or(x == y, d <= rel * mx, d <= ab))))
        return out
    if name == 'copy.copy' and len(args) == 1:
        out = []
        for s, k in eng.split_kind(st, args[0]):
            if k != 'r':
                out.append((s, args[0]))
                continue
            for s2, t in eng.split_tag(s, args[0]):
                if t == T_LIST:
                    s2 = s2.copy()
                    a = arg(args[0], 'r')
                    out.append((s2, eng.new_seq(s2, eng.sel(s2, 'len', a), eng.sel(s2, 'item', a), T_LIST, eng.hint(s2, args[0]))))
                elif t == T_DICT:
                    out.extend(b_dict(eng, s2, args, {}))
                elif t == T_TUPLE:
                    out.append((s2, args[0]))
                else:
                    raise I.Unsupported('copy.copy of an object')
        return out
    if name == 'itertools.compress':
        return compress(eng, st, args[0], args[1])
    if name.startswith('operator.') and len(args) == 2:
        o = {'gt': ast.Gt, 'lt': ast.Lt, 'ge': ast.GtE, 'le': ast.LtE, 'eq': ast.Eq, 'ne': ast.NotEq}.get(name.split('.')[1])
        if o is not None:
            return [(s, c if isinstance(c, I.Raised) else vb(c)) for s, c in compare(eng, st, o(), args[0], args[1])]
        b = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div}.get(name.split('.')[1])
        if b is not None:
            return binop(eng, st, b(), args[0], args[1])
    if name == 'functools.reduce':
        f, src = args[0], args[1]
        if isinstance(f, I.EBuiltin) and f.name == 'list.__add__':
            return reduce_concat(eng, st, src, args[2] if len(args) > 2 else None)
        raise I.Unsupported('reduce')
    raise I.Unsupported(f'external function {name}')


def compress(eng, st, data, sel):
    out = []
    for s, z in b_zip(eng, st, [data, sel], {}):
        if isinstance(z, I.Raised):
            out.append((s, z))
            continue
        s = s.copy()
        acc = eng.new_list(s, [])

        def body(sb, value):
            x, c = value
            res = []
            for s2, t in eng.truth(sb, c):
                for s3, b in eng.branch(s2, t):
                    if b:
                        res.extend(('next', s4, None) for s4, _ in list_append(eng, s3, acc, x))
                    else:
                        res.append(('next', s3, None))
            return res
        for o in loops.run_iter(eng, s, z, body, set()):
            if o[0] != 'next':
                raise I.Unsupported('compress')
            h = eng.hint(st, data) if z3.is_expr(data) else None
            if h is not None and h.kind == 'list' and h.args:
                o[1].hints[('adr', arg(acc, 'r').get_id())] = h
            out.append((o[1], acc))
    return out


def reduce_concat(eng, st, src, init):
    """reduce(list.__add__, lists): flattening; empty without initial value raises TypeError"""
    out = []
    if isinstance(src, I.EGen) and isinstance(src.node.elt, ast.List) and src.node.elt.elts and init is None and len(src.node.generators) == 1:
        # every list of the generator is non-empty: the flattened list is empty exactly when there is none
        for s, lv in loops.eval_comp(eng, src.node, loops._with_env(st, src), 'flat'):
            s = s.copy()
            s.env, s.module, s.cls = st.env, st.module, st.cls
            if isinstance(lv, I.Raised):
                out.append((s, lv))
                continue
            n = eng.sel(s, 'len', arg(lv, 'r'))
            for s1, ne in eng.branch(s, n > 0):
                if ne:
                    out.append((s1, lv))
                elif not contradictory(s1.pc):
                    out.append((s1, I.Raised('TypeError')))
        return out
    for s, it in loops.as_iter(eng, st, src):
        if isinstance(it, I.Raised):
            out.append((s, it))
            continue
        if it.conc is not None:
            raise I.Unsupported('reduce of concrete')
        for s1, ne in eng.branch(s, it.n > 0):
            if not ne and init is None:
                out.append((s1, I.Raised('TypeError')))
                continue
            s1 = s1.copy()
            acc = eng.new_list(s1, [])

            def body(sb, value):
                return [('next', s2, None) for s2, _ in list_extend(eng, sb, acc, value)]
            for o in loops.run_iter(eng, s1, it, body, set()):
                if o[0] != 'next':
                    raise I.Unsupported('reduce')
                out.append((o[1], acc))
    return out


def star_call(eng, st, f, e):
    """f(*xs) for zip of a symbolic number of lists; cls(**dict) is left to contracts"""
    if isinstance(f, I.EBuiltin) and f.name == 'zip' and len(e.args) == 1 and not e.keywords:
        out = []
        for s, v in eng.ev(e.args[0].value, st):
            if isinstance(v, I.Raised):
                out.append((s, v))
            else:
                out.extend(zip_star(eng, s, v))
        return out
    double = [k for k in e.keywords if k.arg is None]
    if len(double) == 1 and isinstance(double[0].value, ast.Name) and isinstance(st.env.get(double[0].value.id), I.EKwargs) and not any(isinstance(a, ast.Starred) for a in e.args):
        named = [k for k in e.keywords if k.arg is not None]
        out = []
        for s, v in eng.ev_seq(list(e.args) + [k.value for k in named], st):
            if v and isinstance(v[0], I.Raised):
                out.append((s, v[0]))
                continue
            kw = {k.arg: x for k, x in zip(named, v[len(e.args):])}
            more = s.env[double[0].value.id].d
            if set(kw) & set(more):
                out.append((s, I.Raised('TypeError')))
            else:
                out.extend(eng.call(s, f, v[:len(e.args)], {**kw, **more}))
        return out
    if all(k.arg is not None for k in e.keywords):
        out = []
        for s, v in eng.ev_seq([a.value if isinstance(a, ast.Starred) else a for a in e.args] +
                               [k.value for k in e.keywords], st):
            if v and isinstance(v[0], I.Raised):
                out.append((s, v[0]))
                continue
            args = []
            for a, x in zip(e.args, v):
                if isinstance(a, ast.Starred):
                    if not isinstance(x, tuple):
                        if z3.is_expr(x) and eng.kind(s, x) == 'r' and eng.tag_of(s, x) in (T_LIST, T_TUPLE):
                            n = simplify(eng.sel(s, 'len', arg(x, 'r')))
                            if z3.is_int_value(n):
                                x = tuple(eng.read_item(s, x, IntVal(j)) for j in range(n.as_long()))
                            else:
                                raise I.Unsupported('call with * of symbolic length')
                        else:
                            raise I.Unsupported('call with *')
                    args.extend(x)
                else:
                    args.append(x)
            out.extend(eng.call(s, f, args, {k.arg: x for k, x in zip(e.keywords, v[len(e.args):])}))
        return out
    if isinstance(f, I.Eng) and ('**', getattr(f, 'key', None)) in eng.specs:
        return eng.specs[('**', f.key)](eng, st, f, e)
    if '**' in eng.specs:
        return eng.specs['**'](eng, st, f, e)
    raise I.Unsupported('call with ** arguments')


def zip_star(eng, st, v):
    """zip(*lists): iteration space of columns, each column a tuple of symbolic length"""
    if not (z3.is_expr(v) and eng.kind(st, v) == 'r' and eng.tag_of(st, v) in (T_LIST, T_TUPLE)):
        raise I.Unsupported('zip(*x)')
    st = st.copy()
    a = arg(v, 'r')
    rows, arr = eng.sel(st, 'len', a), eng.sel(st, 'item', a)
    n = eng.fresh('m', IntSort())
    j = Int('jz')
    w = eng.fresh('m', IntSort())
    h = eng.hint(st, v)
    lens = Select(st.h('len'), V.rv(Select(arr, j)))
    st.assume(n >= 0, Implies(rows <= 0, n == 0),
              ForAll([j], Implies(And(0 <= j, j < rows), n <= Select(st.h('len'), V.rv(Select(arr, j)))), patterns=[Select(arr, j)]),
              Implies(rows > 0, And(0 <= w, w < rows, n == Select(st.h('len'), V.rv(Select(arr, w))))))
    item = st.h('item')

    def elem(i, s):
        col = eng.fresh('col', ArraySort(IntSort(), V))
        jj = Int('jcol')
        x = Select(Select(item, V.rv(Select(arr, jj))), i)
        s.assume(ForAll([jj], Select(col, jj) == x, patterns=[Select(col, jj)]),
                 ForAll([jj], Select(col, jj) == x, patterns=[x]))
        hint = None
        if h is not None and h.args and h.args[0].args:
            hint = I.LIST(h.args[0].args[0])
            s.assume(elem_type_all(col, rows, hint.args[0]))
        t = eng.new_seq(s, rows, col, T_TUPLE, None)
        if hint is not None:
            s.hints[('adr', arg(t, 'r').get_id())] = hint
        return t
    return [(st, I.EIter(n, elem))]


def elem_type_all(arr, n, ty):
    j = Int('jt')
    x = Select(arr, j)
    f = {'int': V.is_i(x), 'bool': V.is_b(x), 'float': V.is_f(x), 'str': V.is_s(x)}.get(ty.kind)
    if f is None:
        return BoolVal(True)
    return ForAll([j], Implies(And(0 <= j, j < n), f), patterns=[x])
