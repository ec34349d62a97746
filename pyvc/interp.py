"""Symbolic execution of the real function bodies (ast from /repo) into paths with path conditions.

Calls to functions that carry a contract are replaced by the contract; other repository functions are inlined;
loops over symbolic collections are summarised by induction templates (see loops.py); anything outside the subset
raises Unsupported, and the obligation is then reported as undecided, never as proved.
"""
import ast
from fractions import Fraction
import z3
from .logic import *
from .source import FuncInfo, ClassInfo
from . import logic as L


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ---- engine-level values --------------------------------------------------------------------------------------
class Eng:
    pass


class EFunc(Eng):
    def __init__(self, fi, self_val=None, bound_cls=None):
        self.fi, self.self_val, self.bound_cls = fi, self_val, bound_cls


class ELambda(Eng):
    def __init__(self, node, env, module, cls):
        self.node, self.env, self.module, self.cls = node, env, module, cls


class EBuiltin(Eng):
    def __init__(self, name, self_val=None):
        self.name, self.self_val = name, self_val


class EModule(Eng):
    def __init__(self, name):
        self.name = name


class ENd(Eng):
    """a numpy array (npmodel)"""


class EExt(Eng):
    """external (non-repository) dotted name"""

    def __init__(self, name):
        self.name = name


class EClass(Eng):
    def __init__(self, key, ci=None):
        self.key, self.ci = key, ci


class ESuper(Eng):
    def __init__(self, cls, self_val):
        self.cls, self.self_val = cls, self_val


class EIter(Eng):
    """finite iteration space: n : Int term, elem : (i, st) -> value (may add facts to st.pc)"""

    def __init__(self, n, elem, conc=None):
        self.n, self.elem, self.conc = n, elem, conc
        self.sources = []      # addresses of the collections that are read while iterating


class EGen(Eng):
    def __init__(self, node, env, module, cls):
        self.node, self.env, self.module, self.cls = node, env, module, cls


class EView(Eng):
    def __init__(self, kind, d):
        self.kind, self.d = kind, d


class ESlice(Eng):
    """opaque: (length, position) functions of the length of the sliced list, for a slice that is not known"""

    def __init__(self, lo, hi, step, opaque=None):
        self.lo, self.hi, self.step, self.opaque = lo, hi, step, opaque


class ESpec(Eng):
    """a contract-supplied opaque callable: fn(eng, st, args, kwargs) -> [(st, value)]"""

    def __init__(self, fn):
        self.fn = fn


class Raised:
    def __init__(self, exc, payload=None):
        self.exc, self.payload = exc, payload

    def __repr__(self):
        return f'Raised({self.exc})'


# ---- type hints -----------------------------------------------------------------------------------------------
class Ty:
    """kind: int float num bool str none any list tuple dict set obj opt"""

    def __init__(self, kind, *args, cls=None, pred=None, values=None):
        self.kind, self.args, self.cls, self.pred, self.values = kind, args, cls, pred, values


INT, FLOAT, NUM, BOOL, STR, ANY = Ty('int'), Ty('float'), Ty('num'), Ty('bool'), Ty('str'), Ty('any')


def _positive(v):
    return arg(v, 'i') > 0


POS = Ty('int', pred=_positive)
CLS = Ty('cls')    # a class or annotation


def fits(h, want):
    """every value of type h is of type want (types as hints; same structure)"""
    if h is None or h.kind != want.kind or h.cls != want.cls:
        return False
    if want.kind == 'obj':
        return not want.pred or bool(h.pred)
    return h.args == want.args and (want.pred is None or h.pred == want.pred) and (not want.values or h.values == want.values)


def LIST(t):
    return Ty('list', t)


def TUPLE(*ts):
    return Ty('tuple', *ts)


def DICT(k, v):
    return Ty('dict', k, v)


def OBJ(cls, exact=False):
    return Ty('obj', cls=cls, pred=exact)


def OPT(t):
    return Ty('opt', t)


# ---- state ----------------------------------------------------------------------------------------------------
HEAP_SORTS = {
    'len': ArraySort(IntSort(), IntSort()),
    'item': ArraySort(IntSort(), ArraySort(IntSort(), V)),
    'has': ArraySort(IntSort(), ArraySort(V, BoolSort())),
    'get': ArraySort(IntSort(), ArraySort(V, V)),
    'idx': ArraySort(IntSort(), ArraySort(V, IntSort())),
}
ATTR_SORT = ArraySort(IntSort(), V)


def heap_sort(name):
    return HEAP_SORTS.get(name, ATTR_SORT)


class State:
    __slots__ = ('env', 'heap', 'wm', 'pc', 'hints', 'module', 'cls', 'nalloc', 'depth', 'keep')

    def __init__(self):
        self.env, self.heap, self.pc, self.hints = {}, {}, [], {}
        self.wm, self.module, self.cls, self.depth = None, None, None, 0
        self.keep = []

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.pc, s.hints = dict(self.env), dict(self.heap), list(self.pc), dict(self.hints)
        s.wm, s.module, s.cls, s.depth, s.keep = self.wm, self.module, self.cls, self.depth, self.keep
        return s

    def assume(self, *fs):
        for f in fs:
            if not is_true(f):
                self.pc.append(f)

    def h(self, name):
        if name not in self.heap:
            self.heap[name] = Const(f'H0_{name}', heap_sort(name))
        return self.heap[name]


class Engine:
    def __init__(self, repo, contracts=None, max_paths=400, inline_depth=14):
        self.repo = repo
        self.contracts = contracts or {}
        self.specs = {}          # dotted external/builtin name -> fn(eng, st, args, kwargs)
        self.counter = 0
        self.provenance = {}   # array of a filtered list -> the iterations it comes from
        self.fresh_log = None    # list of constants created while a loop body is executed generically
        self.write_log = None
        self.read_log = None
        self.heap_base = {}
        self.obligations = []
        self.invariants = []     # fn(LoopInfo) -> None or phi(state, i): loop invariants declared by the contracts
        self.name_parts = False   # case distinctions inside dictionaries are given names
        self.array_def = {}
        self.fresh_addrs = set()
        self.alloc_no, self.seen_no, self.seen_keep = {}, {}, []   # when an address was allocated / a stored reference was first read
        self.field_types = {}    # (attr) or (class, attr) -> Ty
        self.class_attrs = {}    # (class key, attr) -> V override
        self.max_paths, self.inline_depth = max_paths, inline_depth
        self.assumptions = set()
        self.opaque = set()      # over-approximations used: a refutation through them is not trusted
        self.inlined = set()
        self.used_contracts = set()
        self.steps = 0
        self.max_steps = 60000
        self.fold_preds = []     # contract-registered predicates over V used with the least-index principle
        self.stack = []
        from . import loops, builtins_model
        self.loops, self.bm = loops, builtins_model
        from . import npmodel
        self.nd = npmodel

    # ---- fresh symbols ----
    def obligate(self, st, name, goal):
        """a precondition at a call site: to be proved from the facts there"""
        self.obligations.append((name, list(st.pc), goal))

    def fresh(self, prefix, sort):
        self.counter += 1
        c = Const(f'{prefix}!{self.counter}', sort)
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def new_state(self, module, cls=None):
        st = State()
        st.module, st.cls = module, cls
        st.wm = Int('WM0')
        return st

    def alloc(self, st, tag, hint=None):
        a = self.fresh('adr', IntSort())
        self.fresh_addrs.add(a.get_id())
        self.alloc_no[a.get_id()] = self.counter
        st.keep.append(a)
        st.assume(a > st.wm, TAG(a) == tag)
        st.wm = a
        v = vr(a)
        if hint is not None:
            self.set_hint(st, v, hint)
        return v, a

    # ---- hints ----
    def set_hint(self, st, v, ty):
        st.hints[v.get_id()] = ty
        st.keep.append(v)

    def hint(self, st, v):
        h = st.hints.get(v.get_id())
        if h is None and ctor(v) == 'r':
            h = st.hints.get(('adr', arg(v, 'r').get_id()))
        return h

    def assume_type(self, st, v, ty, old=False):
        """add the facts that v has type ty; registers the hint; element facts are added on read"""
        k = ty.kind
        self.set_hint(st, v, ty)
        if k == 'int':
            st.assume(is_kind(v, 'i'))
        elif k == 'float':
            st.assume(is_kind(v, 'f'))
        elif k == 'num':
            st.assume(Or(is_kind(v, 'i'), is_kind(v, 'f')))
        elif k == 'bool':
            st.assume(is_kind(v, 'b'))
        elif k == 'str':
            st.assume(is_kind(v, 's'))
            if ty.values:
                st.assume(disj([arg(v, 's') == StringVal(x) for x in ty.values]))
        elif k == 'none':
            st.assume(v == NONE)
        elif k == 'cls':
            st.assume(is_kind(v, 'c'))
        elif k in ('list', 'tuple', 'dict', 'set'):
            tag = {'list': T_LIST, 'tuple': T_TUPLE, 'dict': T_DICT, 'set': T_SET}[k]
            a = arg(v, 'r')
            st.assume(is_kind(v, 'r'), TAG(a) == tag, self.sel(st, 'len', a) >= 0)
            st.hints[('adr', a.get_id())] = ty
            st.keep.append(a)
            if k == 'tuple':
                st.assume(self.sel(st, 'len', a) == len(ty.args))
            if k == 'dict':
                self.dict_wf(st, a)
        elif k == 'obj':
            a = arg(v, 'r')
            st.assume(is_kind(v, 'r'))
            st.hints[('adr', a.get_id())] = ty
            st.keep.append(a)
            if ty.pred:
                st.assume(TAG(a) == class_id(ty.cls))
            else:
                st.assume(TAG(a) >= FIRST_CLASS_ID, SUB(TAG(a), class_id(ty.cls)))
        elif k == 'opt':
            pass
        if k in ('any', 'opt'):
            st.assume(Implies(is_kind(v, 'r'), TAG(arg(v, 'r')) >= T_LIST))
        if ty.pred is not None and callable(ty.pred):
            st.assume(ty.pred(v))
        if old:
            st.assume(Implies(is_kind(v, 'r'), arg(v, 'r') <= st.wm))
        return v

    # ---- heap ----
    def known_ref(self, v):
        """v was read out of the heap (or is a live variable): it denotes nothing allocated later"""
        a = arg(v, 'r')
        if a.get_id() not in self.seen_no:
            self.seen_no[a.get_id()] = self.counter
            self.seen_keep.append(a)

    def sel(self, st, name, a):
        if self.read_log is not None:
            self.read_log.append((name, a, st))
        arr = st.h(name)
        while True:
            if arr.decl().kind() == z3.Z3_OP_STORE:
                ix = arr.arg(1)
                if ix.eq(a):
                    return arr.arg(2)
                if ix.get_id() in self.fresh_addrs and (a.get_id() in self.fresh_addrs or self.is_old(a) or
                                                        self.seen_no.get(a.get_id(), 1 << 60) < self.alloc_no[ix.get_id()]):
                    arr = arr.arg(0)
                    continue
            elif arr.get_id() in self.heap_base and self.is_old(a):
                arr = self.heap_base[arr.get_id()][1]    # a loop only added iteration-local objects to this heap
                continue
            break
        return Select(arr, a)

    def is_old(self, a):
        """a is syntactically read out of the initial heap or is a parameter address (never a fresh allocation)"""
        seen, stack = set(), [a]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not is_app(x):
                return False
            n = x.decl().name()
            k = x.decl().kind()
            if x.num_args() == 0:
                if n.startswith('H0_') or n.startswith('p_') or z3.is_int_value(x) or z3.is_string_value(x):
                    continue
                if n == 'k!loop' or n.startswith('ix!') or n.startswith('m!'):
                    continue   # integer positions
                return False
            if k == z3.Z3_OP_STORE:
                return False
            stack.extend(x.children())
        return True

    def sto(self, st, name, a, val):
        if self.write_log is not None:
            self.write_log.append((name, a, st))
        st.heap[name] = Store(st.h(name), a, val)

    def havoc_heap(self, st, name):
        """a contract that may write anywhere in one heap: the caller assumes what is kept"""
        if self.write_log is not None:
            self.write_log.append((name, None, st))
        h = st.h(name)
        st.heap[name] = self.fresh('H_' + name.replace(':', '_'), h.sort())
        return h, st.heap[name]

    def dict_wf(self, st, a):
        has, idx, item, n = self.sel(st, 'has', a), self.sel(st, 'idx', a), self.sel(st, 'item', a), self.sel(st, 'len', a)
        nm = self.bm.no_ite(self, st, item) if z3.is_app_of(item, z3.Z3_OP_ITE) or any(z3.is_app_of(c, z3.Z3_OP_ITE) for c in item.children()) else item
        if not nm.eq(item):   # patterns cannot hold a case distinction
            self.sto(st, 'item', a, nm)
            item = nm
        if self.name_parts:
            n2 = [(f, x, self.bm.no_ite(self, st, x)) for f, x in (('has', has), ('idx', idx), ('item', item), ('len', n))]
            for f, x, y in n2:
                if not simplify(x).eq(y):
                    self.sto(st, f, a, y)
            has, idx, item, n = (y if not simplify(x).eq(y) else x for f, x, y in n2)
        key = ('wf', has.get_id(), idx.get_id(), item.get_id(), n.get_id())
        if key in st.hints:
            return
        st.hints[key] = True
        st.keep.extend([has, idx, item, n])
        k, j = Const('k', V), Int('j')
        st.assume(n >= 0,
                  ForAll([k], Implies(Select(has, k), And(0 <= Select(idx, k), Select(idx, k) < n,
                                                          Select(item, Select(idx, k)) == k)),
                         patterns=[Select(has, k)]),
                  ForAll([j], Implies(And(0 <= j, j < n), And(Select(has, Select(item, j)),
                                                              Select(idx, Select(item, j)) == j)),
                         patterns=[Select(item, j)]))

    # ---- classification ----
    def kind(self, st, v):
        """definite kind name ('none','b','i','f','s','r','c') or None"""
        c = ctor(v)
        if c is not None:
            return c
        key = ('kind', v.get_id())
        got = st.hints.get(key)
        if got is not None:
            return got
        h = st.hints.get(v.get_id())
        if h is not None:
            m = {'int': 'i', 'float': 'f', 'bool': 'b', 'str': 's', 'none': 'none', 'cls': 'c', 'list': 'r', 'tuple': 'r', 'dict': 'r',
                 'set': 'r', 'obj': 'r'}.get(h.kind)
            if m:
                return m
        for k in ('i', 's', 'r', 'f', 'b', 'none', 'c'):
            if entails(st.pc, is_kind(v, k)):
                st.hints[key] = k
                st.keep.append(v)
                return k
        return None

    def split_kind(self, st, v):
        """-> [(state, kind)] over the feasible kinds"""
        k = self.kind(st, v)
        if k is not None:
            return [(st, k)]
        out = []
        for k in ('none', 'b', 'i', 'f', 's', 'r', 'c'):
            s2 = st.copy()
            s2.assume(is_kind(v, k))
            if feasible(s2.pc):
                s2.hints[('kind', v.get_id())] = k
                out.append((s2, k))
        return out

    def tag_of(self, st, v):
        """definite type id (int) of a reference, or None"""
        a = arg(v, 'r')
        h = self.hint(st, v)
        if h is not None:
            m = {'list': T_LIST, 'tuple': T_TUPLE, 'dict': T_DICT, 'set': T_SET}.get(h.kind)
            if m:
                return m
            if h.kind == 'obj' and h.pred is True:
                return class_id(h.cls)
        key = ('tag', a.get_id())
        if key in st.hints:
            return st.hints[key]
        for t in (T_LIST, T_TUPLE, T_DICT, T_SET):
            if entails(st.pc, TAG(a) == t):
                st.hints[key] = t
                st.keep.append(a)
                return t
        return None

    def split_tag(self, st, v):
        """-> [(state, tag or 'obj')]"""
        t = self.tag_of(st, v)
        if t is not None:
            return [(st, t if t < FIRST_CLASS_ID else 'obj')]
        h = self.hint(st, v)
        if h is not None and h.kind == 'obj':
            return [(st, 'obj')]
        a = arg(v, 'r')
        out = []
        for t in (T_LIST, T_TUPLE, T_DICT, T_SET):
            s2 = st.copy()
            s2.assume(TAG(a) == t, self.sel(s2, 'len', a) >= 0)
            if feasible(s2.pc):
                s2.hints[('tag', a.get_id())] = t
                if t == T_DICT:
                    self.dict_wf(s2, a)
                out.append((s2, t))
        s2 = st.copy()
        s2.assume(Not(Or(*[TAG(a) == t for t in (T_LIST, T_TUPLE, T_DICT, T_SET)])))
        if feasible(s2.pc):
            out.append((s2, 'obj'))
        return out

    def branch(self, st, cond):
        """-> [(state, bool)] feasible branches"""
        cond = simplify(cond)
        if is_true(cond):
            return [(st, True)]
        if is_false(cond):
            return [(st, False)]
        out = []
        s1 = st.copy()
        s1.assume(cond)
        f1 = feasible(s1.pc)
        s2 = st.copy()
        s2.assume(simplify(Not(cond)))
        f2 = feasible(s2.pc)
        if f1:
            out.append((s1, True))
        if f2:
            out.append((s2, False))
        return out

    # ---- truth / equality ----
    def truth(self, st, v):
        """-> [(state, z3 Bool)]"""
        if isinstance(v, Raised):
            return [(st, v)]
        if isinstance(v, tuple):
            return [(st, BoolVal(len(v) > 0))]
        if isinstance(v, EKwargs):
            return [(st, BoolVal(len(v.d) > 0))]
        if isinstance(v, EConstDict):
            return [(st, BoolVal(len(v.node.keys) > 0))]
        if isinstance(v, EIter):
            return [(st, v.n > 0)]
        if isinstance(v, EView):
            return [(st, self.sel(st, 'len', arg(v.d, 'r')) > 0)]
        if isinstance(v, Eng):
            return [(st, BoolVal(True))]
        out = []
        for s, k in self.split_kind(st, v):
            if k == 'b':
                out.append((s, arg(v, 'b')))
            elif k == 'i':
                out.append((s, arg(v, 'i') != 0))
            elif k == 'f':
                out.append((s, arg(v, 'f') != 0))
            elif k == 's':
                out.append((s, z3.Length(arg(v, 's')) > 0))
            elif k == 'none':
                out.append((s, BoolVal(False)))
            elif k == 'c':
                out.append((s, BoolVal(True)))
            else:
                for s2, t in self.split_tag(s, v):
                    if t != 'obj':
                        out.append((s2, self.sel(s2, 'len', arg(v, 'r')) > 0))
                        continue
                    ci = self.static_class(s2, v)
                    m = None
                    if ci is not None:
                        m = self.repo.lookup_method(ci, '__bool__')
                        ln = self.repo.lookup_method(ci, '__len__')
                        if m is not None:
                            for s3, r in self.call_func(s2, m, [v], {}):
                                out.extend(self.truth(s3, r))
                            continue
                        if ln is not None:
                            for s3, r in self.call_func(s2, ln, [v], {}):
                                out.extend(self.truth(s3, r))
                            continue
                        out.append((s2, BoolVal(True)))
                    else:
                        self.assumptions.add("truth value of an object of unknown class is an uninterpreted function of the object")
                        out.append((s2, TRUTHY(v)))
        return out

    def eq(self, st, a, b):
        """z3 Bool for Python a == b (no user __eq__: handled by caller)"""
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return BoolVal(False)
                return conj([self.eq(st, x, y) for x, y in zip(a, b)])
            if isinstance(a, tuple):
                a, b = b, a
            # b engine tuple, a heap value
            if isinstance(a, Eng):
                raise Unsupported('tuple comparison with engine value')
            ad = arg(a, 'r')
            it = self.sel(st, 'item', ad)
            return conj([is_kind(a, 'r'), TAG(ad) == T_TUPLE, self.sel(st, 'len', ad) == len(b)] +
                        [self.eq(st, Select(it, i), x) for i, x in enumerate(b)])
        if isinstance(a, EClass) or isinstance(b, EClass) or isinstance(a, EBuiltin) or isinstance(b, EBuiltin) \
                or isinstance(a, EExt) or isinstance(b, EExt):
            a, b = self.reify(st, a), self.reify(st, b)
        if isinstance(a, EIter) and isinstance(b, EIter):
            raise Unsupported('iterator equality')
        if isinstance(a, Eng) or isinstance(b, Eng):
            raise Unsupported('equality of engine values')
        ka, kb = self.kind(st, a), self.kind(st, b)
        nums = ('i', 'f', 'b')
        if ka in nums and kb in nums:
            if ka == kb:
                return arg(a, ka) == arg(b, kb)
            return num_kindless(a) == num_kindless(b)
        if ka is not None and kb is not None and not (ka == 'r' and kb == 'r'):
            if ka != kb:
                return BoolVal(False)
            if ka == 'none':
                return BoolVal(True)
            return arg(a, ka) == arg(b, kb)
        if ka == 'r' and kb == 'r':
            ta, tb = self.tag_of(st, a), self.tag_of(st, b)
            if ta is not None and tb is not None and ta != tb and ta < FIRST_CLASS_ID and tb < FIRST_CLASS_ID:
                return BoolVal(False)
            if ta in (T_LIST, T_TUPLE) and ta == tb:
                return self.seq_eq(st, arg(a, 'r'), arg(b, 'r'))
            if ta == T_SET and tb == T_SET:
                k = Const('ke', V)
                h1, h2 = self.sel(st, 'has', arg(a, 'r')), self.sel(st, 'has', arg(b, 'r'))
                return ForAll([k], Select(h1, k) == Select(h2, k))
            ha, hb = self.hint(st, a), self.hint(st, b)
            if (ha is not None and ha.kind == 'obj' and self.identity_eq(ha.cls)) or \
                    (hb is not None and hb.kind == 'obj' and self.identity_eq(hb.cls)):
                return a == b
            self.opaque.add('== on objects or dictionaries')
            return Or(a == b, DEEPEQ(a, b))
        if not entails(st.pc, Not(And(is_kind(a, 'r'), is_kind(b, 'r')))):
            self.opaque.add('== on values of unknown type')
        return If(And(is_num(a), is_num(b)), num_kindless(a) == num_kindless(b),
                  Or(a == b, And(is_kind(a, 'r'), is_kind(b, 'r'), DEEPEQ(a, b))))

    def identity_eq(self, cls):
        """objects of this class are compared by identity: no __eq__ in the repository hierarchy, or declared so"""
        return self.class_attrs.get((cls, '=identity'), False)

    def seq_eq(self, st, a, b):
        j = Int('je')
        ia, ib = self.sel(st, 'item', a), self.sel(st, 'item', b)
        x, y = Select(ia, j), Select(ib, j)
        el = If(And(is_num(x), is_num(y)), num_kindless(x) == num_kindless(y),
                Or(x == y, And(V.is_r(x), V.is_r(y), DEEPEQ(x, y))))
        return Or(a == b, And(self.sel(st, 'len', a) == self.sel(st, 'len', b),
                              ForAll([j], Implies(And(0 <= j, j < self.sel(st, 'len', a)), el))))

    def reify(self, st, v):
        """turn an engine value into a V term (allocating when needed)"""
        if z3.is_expr(v):
            return v
        if isinstance(v, tuple):
            vals = [self.reify(st, x) for x in v]
            t, a = self.alloc(st, T_TUPLE)
            arr = z3.K(IntSort(), NONE)
            for i, x in enumerate(vals):
                arr = Store(arr, i, x)
            self.sto(st, 'item', a, arr)
            self.sto(st, 'len', a, IntVal(len(vals)))
            return t
        if isinstance(v, EClass):
            return V.c(IntVal(class_id(v.key)))
        if isinstance(v, EBuiltin) and v.name in BUILTIN_TYPES and v.self_val is None:
            return V.c(IntVal(BUILTIN_TYPES[v.name]))
        if isinstance(v, EExt):
            return V.c(IntVal(class_id('ext:' + v.name)))
        if isinstance(v, (EFunc, EBuiltin, ELambda, ESpec)):
            return V.c(IntVal(class_id(f'fn:{id(v)}')))
        raise Unsupported(f'cannot store engine value {type(v).__name__}')

    def static_class(self, st, v):
        h = self.hint(st, v)
        if h is not None and h.kind == 'obj':
            return self.repo.find_class(h.cls)
        return None

    # ---- statements ----
    def exec_block(self, stmts, st):
        """-> list of outcomes (kind, state, payload)"""
        states, done = [st], []
        for node in stmts:
            nxt = []
            for s in states:
                for o in self.exec_stmt(node, s):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            states = nxt
            if len(states) + len(done) > self.max_paths:
                raise Budget('path budget')
            if not states:
                break
        return done + [('next', s, None) for s in states]

    def exec_stmt(self, node, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        m = getattr(self, 'st_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(node).__name__}')
        return m(node, st)

    def st_Pass(self, node, st):
        return [('next', st, None)]

    st_Global = st_Import = st_ImportFrom = st_Pass

    def st_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [('next', st, None)]
        out = []
        for s, v in self.ev(node.value, st):
            out.append(('raise', s, v) if isinstance(v, Raised) else ('next', s, None))
        return out

    def st_Return(self, node, st):
        if node.value is None:
            return [('return', st, NONE)]
        return [('raise', s, v) if isinstance(v, Raised) else ('return', s, v) for s, v in self.ev(node.value, st)]

    def st_Raise(self, node, st):
        if node.exc is None:
            return [('raise', st, st.env.get('%exc', Raised('Exception')))]
        e = node.exc
        name = None
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func)
        else:
            name = ast.unparse(e)
        if isinstance(e, ast.Name) and isinstance(st.env.get(e.id), Raised):
            return [('raise', st, st.env[e.id])]
        return [('raise', st, Raised(name.split('.')[-1]))]

    def st_Assert(self, node, st):
        out = []
        for s, c in self.ev_cond(node.test, st):
            if isinstance(c, Raised):
                out.append(('raise', s, c))
                continue
            for s2, t in self.branch(s, c):
                out.append(('next', s2, None) if t else ('raise', s2, Raised('AssertionError')))
        return out

    def st_If(self, node, st):
        out = []
        for s, c in self.ev_cond(node.test, st):
            if isinstance(c, Raised):
                out.append(('raise', s, c))
                continue
            for s2, t in self.branch(s, c):
                out.extend(self.exec_block(node.body if t else node.orelse, s2))
        return out

    def st_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            if isinstance(v, Raised):
                out.append(('raise', s, v))
                continue
            states = [s]
            for t in node.targets:
                nxt = []
                for s1 in states:
                    for o in self.assign(t, v, s1):
                        if o[0] == 'next':
                            nxt.append(o[1])
                        else:
                            out.append(o)
                states = nxt
            out.extend(('next', s1, None) for s1 in states)
        return out

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [('next', st, None)]
        out = []
        for s, v in self.ev(node.value, st):
            if isinstance(v, Raised):
                out.append(('raise', s, v))
            else:
                out.extend(self.assign(node.target, v, s))
        return out

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            st = st.copy()
            st.env[target.id] = v
            return [('next', st, None)]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                raise Unsupported('starred assignment')
            out = []
            for s, parts in self.unpack(st, v, len(target.elts)):
                if isinstance(parts, Raised):
                    out.append(('raise', s, parts))
                    continue
                states = [s]
                for t, p in zip(target.elts, parts):
                    nxt = []
                    for s1 in states:
                        for o in self.assign(t, p, s1):
                            (nxt.append(o[1]) if o[0] == 'next' else out.append(o))
                    states = nxt
                out.extend(('next', s1, None) for s1 in states)
            return out
        if isinstance(target, ast.Attribute):
            out = []
            for s, o in self.ev(target.value, st):
                if isinstance(o, Raised):
                    out.append(('raise', s, o))
                else:
                    out.extend(self.set_attr(s, o, target.attr, v))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, (o, k) in self.ev_seq([target.value, target.slice], st):
                if isinstance(o, Raised):
                    out.append(('raise', s, o))
                elif isinstance(o, EKwargs):
                    if not (isinstance(target.value, ast.Name) and isinstance(target.slice, ast.Constant) and isinstance(target.slice.value, str)) \
                            or sum(x is o for x in s.env.values()) != 1:
                        raise Unsupported('kwargs assignment')
                    s = s.copy()
                    s.env[target.value.id] = EKwargs({**o.d, target.slice.value: v})
                    out.append(('next', s, None))
                else:
                    out.extend(self.bm.setitem(self, s, o, k, v))
            return out
        raise Unsupported(f'assignment target {type(target).__name__}')

    def set_attr(self, st, o, name, v):
        if isinstance(o, (EClass, EModule)):
            raise Unsupported('assignment to a class or module attribute')
        if isinstance(o, Eng):
            raise Unsupported('attribute assignment on engine value')
        ci = self.static_class(st, o)
        if ci is not None:
            for c in self.repo.mro(ci):
                if not isinstance(c, str) and name in c.setters:
                    return [('raise', s, r) if isinstance(r, Raised) else ('next', s, None)
                            for s, r in self.call_func(st, c.setters[name], [o, v], {})]
        st = st.copy()
        v = self.reify(st, v)
        self.sto(st, 'a:' + name, arg(o, 'r'), v)
        return [('next', st, None)]

    def unpack(self, st, v, n):
        if isinstance(v, Raised):
            return [(st, v)]
        if isinstance(v, tuple):
            if len(v) != n:
                return [(st, Raised('ValueError'))]
            return [(st, list(v))]
        if isinstance(v, EIter):
            st = st.copy()
            out = []
            for s, t in self.branch(st, v.n == n):
                if not t:
                    out.append((s, Raised('ValueError')))
                else:
                    out.append((s, [v.elem(IntVal(i), s) for i in range(n)]))
            return out
        if isinstance(v, Eng):
            raise Unsupported('unpack engine value')
        out = []
        for s, k in self.split_kind(st, v):
            if k != 'r':
                out.append((s, Raised('TypeError')))
                continue
            for s2, t in self.split_tag(s, v):
                if t not in (T_LIST, T_TUPLE):
                    raise Unsupported('unpack of non sequence')
                for s3, ok in self.branch(s2, self.sel(s2, 'len', arg(v, 'r')) == n):
                    if not ok:
                        out.append((s3, Raised('ValueError')))
                    else:
                        out.append((s3, [self.read_item(s3, v, IntVal(i)) for i in range(n)]))
        return out

    def read_item(self, st, v, i):
        """element i (in range) of list/tuple v; adds the type facts of the element"""
        a = arg(v, 'r')
        x = Select(self.sel(st, 'item', a), i)
        x = self.simp_sel(x)
        self.elem_facts(st, v, x, i)
        return x

    def simp_sel(self, x):
        while x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).get_id() in self.array_def:
            _, arr, lo = self.array_def[x.arg(0).get_id()]
            x = Select(arr, simplify(x.arg(1) + lo))
        while x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).decl().kind() == z3.Z3_OP_STORE:
            arr, i = x.arg(0), x.arg(1)
            c = simplify(arr.arg(1) == i)
            if is_true(c):
                x = arr.arg(2)
            elif is_false(c):
                x = Select(arr.arg(0), i)
            else:
                break
        if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).decl().kind() == z3.Z3_OP_CONST_ARRAY:
            x = x.arg(0).arg(0)
        return x

    def elem_facts(self, st, v, x, i=None):
        h = self.hint(st, v)
        if h is not None and h.kind in ('list', 'set') and h.args:
            if self.hint(st, x) is None:
                self.assume_type(st, x, h.args[0])
        elif h is not None and h.kind == 'tuple' and i is not None and z3.is_int_value(i):
            ix = i.as_long()
            if ix < len(h.args) and self.hint(st, x) is None:
                self.assume_type(st, x, h.args[ix])
        if ctor(x) is None or ctor(x) == 'r':
            self.known_ref(x)
            st.assume(Implies(is_kind(x, 'r'), And(arg(x, 'r') <= st.wm, TAG(arg(x, 'r')) >= T_LIST)))
            if self.is_old(x):
                st.assume(Implies(is_kind(x, 'r'), arg(x, 'r') <= Int('WM0')))

    def st_AugAssign(self, node, st):
        out = []
        t = node.target
        load = ast.copy_location(_as_load(t), t)
        for s, cur in self.ev(load, st):
            if isinstance(cur, Raised):
                out.append(('raise', s, cur))
                continue
            for s2, rhs in self.ev(node.value, s):
                if isinstance(rhs, Raised):
                    out.append(('raise', s2, rhs))
                    continue
                if isinstance(node.op, ast.Add) and z3.is_expr(cur) and self.kind(s2, cur) == 'r' and \
                        self.tag_of(s2, cur) == T_LIST:
                    for s3, r in self.bm.list_extend(self, s2, cur, rhs):
                        if isinstance(r, Raised):
                            out.append(('raise', s3, r))
                        else:
                            out.extend(self.assign(t, cur, s3))
                    continue
                for s3, v in self.bm.binop(self, s2, node.op, cur, rhs):
                    if isinstance(v, Raised):
                        out.append(('raise', s3, v))
                    else:
                        out.extend(self.assign(t, v, s3))
        return out

    def st_Delete(self, node, st):
        out, states = [], [st]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, (o, k) in self.ev_seq([t.value, t.slice], s):
                        if isinstance(o, Raised):
                            out.append(('raise', s1, o))
                            continue
                        for o2 in self.bm.delitem(self, s1, o, k):
                            (nxt.append(o2[1]) if o2[0] == 'next' else out.append(o2))
                else:
                    raise Unsupported('del target')
            states = nxt
        return out + [('next', s, None) for s in states]

    def st_For(self, node, st):
        return self.loops.exec_for(self, node, st)

    def st_While(self, node, st):
        return self.loops.exec_while(self, node, st)

    def st_Break(self, node, st):
        return [('break', st, None)]

    def st_Continue(self, node, st):
        return [('continue', st, None)]

    def st_FunctionDef(self, node, st):
        st = st.copy()
        st.env[node.name] = ELambda(node, dict(st.env), st.module, st.cls)
        return [('next', st, None)]

    def st_Try(self, node, st):
        if node.finalbody:
            raise Unsupported('try/finally')
        out = []
        for o in self.exec_block(node.body, st):
            if o[0] == 'raise':
                handled = False
                for h in node.handlers:
                    if self.exc_matches(o[2], h.type, o[1]):
                        s = o[1].copy()
                        s.env['%exc'] = o[2]
                        if h.name:
                            s.env[h.name] = o[2]
                        out.extend(self.exec_block(h.body, s))
                        handled = True
                        break
                if not handled:
                    out.append(o)
            elif o[0] == 'next' and node.orelse:
                out.extend(self.exec_block(node.orelse, o[1]))
            else:
                out.append(o)
        return out

    EXC_PARENTS = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
                   'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'ValueError': 'Exception',
                   'TypeError': 'Exception', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError',
                   'RecursionError': 'RuntimeError', 'RuntimeError': 'Exception', 'AssertionError': 'Exception',
                   'StopIteration': 'Exception', 'Exception': 'BaseException'}

    def exc_matches(self, raised, type_node, st):
        if type_node is None:
            return True
        names = [ast.unparse(e).split('.')[-1] for e in type_node.elts] if isinstance(type_node, ast.Tuple) \
            else [ast.unparse(type_node).split('.')[-1]]
        cur, seen = raised.exc, set()
        while cur and cur not in seen:
            seen.add(cur)
            if cur in names:
                return True
            if cur in self.EXC_PARENTS:
                cur = self.EXC_PARENTS[cur]
                continue
            m = self.repo.module(self.repo.package + '.errors')
            ci = m.classes.get(cur) if m else None
            if ci is not None and ci.bases:
                cur = ci.bases[0].split('.')[-1]
            else:
                cur = 'Exception' if cur != 'BaseException' else None
        return False

    # ---- expressions ----
    def ev(self, e, st):
        """-> list of (state, value | Raised)"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, st)

    def ev_seq(self, exprs, st):
        """-> list of (state, [values]); on exception (state, [Raised]*n)"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vals in res:
                if vals and isinstance(vals[0], Raised):
                    nxt.append((s, vals))
                    continue
                for s2, v in self.ev(e, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, [v] * max(len(exprs), 1)))
                    else:
                        nxt.append((s2, vals + [v]))
            res = nxt
        return res

    def ev_cond(self, e, st):
        """-> list of (state, z3 Bool | Raised)"""
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def const(self, c):
        if c is None:
            return NONE
        if isinstance(c, bool):
            return vb(c)
        if isinstance(c, int):
            return vi(c)
        if isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float constant')
            return V.f(RealVal(str(Fraction(repr(c)))))   # the decimal number as written
        if isinstance(c, str):
            return vs(c)
        if c is Ellipsis:
            return V.c(IntVal(class_id('ext:Ellipsis')))
        raise Unsupported(f'constant {c!r}')

    def ex_Constant(self, e, st):
        return [(st, self.const(e.value))]

    def ex_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        return [(st, self.global_name(e.id, st))]

    def global_name(self, name, st):
        r = self.repo.resolve(st.module, name)
        if r is None:
            raise Unsupported(f'name {name}')
        return self.from_resolution(r, st)

    def from_resolution(self, r, st):
        if r[0] == 'func':
            return EFunc(r[1])
        if r[0] == 'class':
            return EClass(r[1].key, r[1])
        if r[0] == 'builtin':
            return EBuiltin(r[1])
        if r[0] == 'module':
            return EModule(r[1])
        if r[0] == 'ext':
            return EExt(r[1])
        if r[0] == 'const':
            mod, expr = r[1], r[2]
            key = f"{mod.name}:{ast.unparse(expr)}"
            if key in self.specs:
                return self.specs[key]
            return self.eval_const(mod, expr, st)
        raise Unsupported(str(r[0]))

    def eval_const(self, mod, expr, st):
        """module/class level constant: scalars are values, dict/list displays are evaluated in place"""
        s2 = st.copy()
        s2.env = {}
        s2.module = mod
        if isinstance(expr, ast.Dict):
            return EConstDict(self, expr, mod)
        res = self.ev(expr, s2)
        if len(res) != 1:
            raise Unsupported('module constant')
        s3, v = res[0]
        # the allocation (if any) must be visible in st
        st.heap, st.wm = s3.heap, s3.wm
        st.pc[:] = s3.pc
        st.hints.update(s3.hints)
        return v

    def ex_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred tuple')
        return [(s, vals[0] if vals and isinstance(vals[0], Raised) else tuple(vals)) for s, vals in self.ev_seq(e.elts, st)]

    def ex_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred list')
        out = []
        for s, vals in self.ev_seq(e.elts, st):
            if vals and isinstance(vals[0], Raised):
                out.append((s, vals[0]))
            else:
                s = s.copy()
                out.append((s, self.new_list(s, vals)))
        return out

    def new_list(self, st, vals, tag=T_LIST):
        vals = [self.reify(st, x) for x in vals]
        v, a = self.alloc(st, tag)
        st.hints[('tag', a.get_id())] = tag
        arr = z3.K(IntSort(), NONE)
        for i, x in enumerate(vals):
            arr = Store(arr, i, x)
        self.sto(st, 'item', a, arr)
        self.sto(st, 'len', a, IntVal(len(vals)))
        kinds = {ctor(x) for x in vals}
        if tag == T_LIST and len(kinds) == 1 and kinds <= {'s', 'i', 'f', 'b'}:
            st.hints[('adr', a.get_id())] = LIST({'s': STR, 'i': INT, 'f': FLOAT, 'b': BOOL}[kinds.pop()])
        return v

    def new_seq(self, st, n, arr, tag=T_LIST, hint=None):
        v, a = self.alloc(st, tag)
        st.hints[('tag', a.get_id())] = tag
        if hint is not None:
            st.hints[('adr', a.get_id())] = hint
        self.sto(st, 'item', a, arr)
        self.sto(st, 'len', a, n)
        return v

    def new_dict(self, st, tag=T_DICT):
        v, a = self.alloc(st, tag)
        st.hints[('tag', a.get_id())] = tag
        self.sto(st, 'len', a, IntVal(0))
        self.sto(st, 'item', a, z3.K(IntSort(), NONE))
        self.sto(st, 'has', a, z3.K(V, BoolVal(False)))
        self.sto(st, 'get', a, z3.K(V, NONE))
        self.sto(st, 'idx', a, z3.K(V, IntVal(0)))
        return v

    def ex_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise Unsupported('dict unpacking')
        out = []
        flat = [x for kv in zip(e.keys, e.values) for x in kv]
        for s, vals in self.ev_seq(flat, st):
            if vals and isinstance(vals[0], Raised):
                out.append((s, vals[0]))
                continue
            s = s.copy()
            d = self.new_dict(s)
            states = [s]
            for i in range(0, len(vals), 2):
                nxt = []
                for s1 in states:
                    for o in self.bm.setitem(self, s1, d, vals[i], vals[i + 1]):
                        if o[0] != 'next':
                            raise Unsupported('dict display')
                        nxt.append(o[1])
                states = nxt
            out.extend((s1, d) for s1 in states)
        return out

    def ex_Set(self, e, st):
        out = []
        for s, vals in self.ev_seq(e.elts, st):
            if vals and isinstance(vals[0], Raised):
                out.append((s, vals[0]))
                continue
            s = s.copy()
            out.extend(self.bm.make_set(self, s, self.new_list(s, vals)))
        return out

    def ex_BoolOp(self, e, st):
        return self._boolop(e.op, e.values, st)

    def _boolop(self, op, values, st):
        if len(values) == 1:
            return self.ev(values[0], st)
        out = []
        for s, v in self.ev(values[0], st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s1, c in self.truth(s, v):
                if isinstance(c, Raised):
                    out.append((s1, c))
                    continue
                # merge when both sides are pure booleans and the right side is a single pure outcome
                if z3.is_expr(v) and ctor(v) == 'b' and self._pure(values[1:]):
                    c = simplify(c)
                    if not is_true(c) and not is_false(c):
                        s_rhs = s1.copy()
                        s_rhs.assume(c if isinstance(op, ast.And) else Not(c))
                        if not feasible(s_rhs.pc):
                            out.append((s1, v))
                            continue
                        base = len(s_rhs.pc)
                        try:
                            rhs = self._boolop(op, values[1:], s_rhs)
                        except Unsupported:
                            rhs = []
                        if len(rhs) == 1 and z3.is_expr(rhs[0][1]) and ctor(rhs[0][1]) == 'b' and \
                                rhs[0][0].wm.eq(s1.wm):
                            s2, rv = rhs[0]
                            s3 = s1.copy()
                            guard = c if isinstance(op, ast.And) else Not(c)
                            for f in s2.pc[base:]:
                                s3.assume(Implies(guard, f))
                            comb = And(c, arg(rv, 'b')) if isinstance(op, ast.And) else Or(c, arg(rv, 'b'))
                            out.append((s3, vb(simplify(comb))))
                            continue
                for s2, t in self.branch(s1, c):
                    if isinstance(op, ast.And):
                        out.extend(self._boolop(op, values[1:], s2) if t else [(s2, v)])
                    else:
                        out.extend([(s2, v)] if t else self._boolop(op, values[1:], s2))
        return out

    def _pure(self, exprs):
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)):
                    return False
        return True

    def ex_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            for s, c in self.ev_cond(e.operand, st):
                out.append((s, c) if isinstance(c, Raised) else (s, vb(simplify(Not(c)))))
            return out
        for s, v in self.ev(e.operand, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s2, k in self.split_kind(s, v):
                if isinstance(e.op, ast.USub) and k in ('i', 'f'):
                    out.append((s2, simplify(vi(-arg(v, 'i'))) if k == 'i' else simplify(vf(-arg(v, 'f')))))
                elif isinstance(e.op, ast.UAdd) and k in ('i', 'f'):
                    out.append((s2, v))
                elif isinstance(e.op, ast.USub) and k == 'b':
                    out.append((s2, vi(If(arg(v, 'b'), -1, 0))))
                else:
                    out.append((s2, Raised('TypeError')))
        return out

    def ex_BinOp(self, e, st):
        out = []
        for s, vals in self.ev_seq([e.left, e.right], st):
            if isinstance(vals[0], Raised):
                out.append((s, vals[0]))
            else:
                out.extend(self.bm.binop(self, s, e.op, vals[0], vals[1]))
        return out

    def ex_Compare(self, e, st):
        out = []
        for s, vals in self.ev_seq([e.left] + e.comparators, st):
            if isinstance(vals[0], Raised):
                out.append((s, vals[0]))
                continue
            if len(e.ops) == 1 and any(isinstance(x, ENd) for x in vals):
                out.extend(self.nd.compare(self, s, e.ops[0], vals[0], vals[1]))
                continue
            res = [(s, BoolVal(True))]
            for op, a, b in zip(e.ops, vals, vals[1:]):
                nxt = []
                for s1, acc in res:
                    if isinstance(acc, Raised) or is_false(acc):
                        nxt.append((s1, acc))
                        continue
                    for s2, c in self.bm.compare(self, s1, op, a, b):
                        nxt.append((s2, c if isinstance(c, Raised) else simplify(And(acc, c))))
                res = nxt
            out.extend((s1, c if isinstance(c, Raised) else vb(c)) for s1, c in res)
        return out

    def ex_IfExp(self, e, st):
        out = []
        for s, c in self.ev_cond(e.test, st):
            if isinstance(c, Raised):
                out.append((s, c))
                continue
            for s2, t in self.branch(s, c):
                out.extend(self.ev(e.body if t else e.orelse, s2))
        return out

    def ex_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if not isinstance(v, Raised):
                s = s.copy()
                s.env[e.target.id] = v
            out.append((s, v))
        return out

    def ex_JoinedStr(self, e, st):
        parts = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vals in self.ev_seq(parts, st):
            if vals and isinstance(vals[0], Raised):
                out.append((s, vals[0]))
                continue
            it = iter(vals)
            terms = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    terms.append(StringVal(v.value))
                else:
                    x = next(it)
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        self.opaque.add('formatted string with a conversion')
                    terms.append(self.to_str(s, x))
            term = terms[0] if len(terms) == 1 else (z3.Concat(*terms) if terms else StringVal(''))
            out.append((s, V.s(term)))
        return out

    def to_str(self, st, x):
        if not z3.is_expr(x):
            return STR_OF(V.c(IntVal(class_id(f'str:{type(x).__name__}')))) if isinstance(x, Eng) else STR_OF(self.reify(st, x))
        k = self.kind(st, x)
        if k == 's':
            return arg(x, 's')
        if k == 'i':
            n = arg(x, 'i')
            return If(n >= 0, z3.IntToStr(n), z3.Concat(StringVal('-'), z3.IntToStr(-n)))
        if k is None:
            return If(V.is_s(x), V.sv(x), STR_OF(x))
        return STR_OF(x)

    def ex_Lambda(self, e, st):
        return [(st, ELambda(e, dict(st.env), st.module, st.cls))]

    def ex_Attribute(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            if isinstance(o, Raised):
                out.append((s, o))
            else:
                out.extend(self.get_attr(s, o, e.attr))
        return out

    def get_attr(self, st, o, name):
        if isinstance(o, EModule):
            if o.name.split('.')[0] != self.repo.package:
                return [(st, EExt(f'{o.name}.{name}'))]
            return [(st, self.from_resolution(self.repo.resolve_in(o.name, name), st))]
        if isinstance(o, EExt):
            return [(st, EExt(f'{o.name}.{name}'))]
        if isinstance(o, ENd):
            return self.nd.attribute(self, st, o, name)
        if isinstance(o, EKwargs) and name in ('items', 'keys', 'values'):
            conc = {'items': [(vs(k), x) for k, x in o.d.items()], 'keys': [vs(k) for k in o.d], 'values': list(o.d.values())}[name]
            return [(st, ESpec(lambda e, s, a, k: [(s, EIter(IntVal(len(conc)), None, conc=conc))]))]
        if isinstance(o, ESuper):
            for c in self.repo.mro(o.cls)[1:]:
                if not isinstance(c, str) and name in c.methods:
                    return [(st, EFunc(c.methods[name], self_val=o.self_val))]
            return [(st, EBuiltin('object.' + name, o.self_val))]
        if isinstance(o, EClass):
            if name == '__name__':
                return [(st, vs(o.key.split(':')[-1].split('.')[-1]))]
            if o.ci is not None:
                m = self.repo.lookup_method(o.ci, name)
                if m is not None:
                    if m.kind == 'class':
                        return [(st, EFunc(m, self_val=o))]
                    return [(st, EFunc(m))]
                ca = self.repo.lookup_classattr(o.ci, name)
                if ca is not None:
                    return [(st, self.eval_const(ca[0], ca[1], st))]
            raise Unsupported(f'class attribute {o.key}.{name}')
        if isinstance(o, EConstDict) or isinstance(o, (tuple, EIter, EView, EGen)):
            return [(st, EBuiltin('.' + name, o))]
        if isinstance(o, EBuiltin):
            if o.self_val is None and name in ('__add__', '__len__', '__init__', '__eq__', '__hash__', '__getitem__'):
                return [(st, EBuiltin(f'{o.name}.{name}'))]
            if name == '__name__':
                return [(st, vs(o.name))]
            return [(st, EBuiltin(f'{o.name}.{name}'))]
        if isinstance(o, EFunc) and name == '__func__':
            return [(st, EFunc(o.fi))]
        if isinstance(o, Eng):
            raise Unsupported(f'attribute {name} of engine value {type(o).__name__}')
        out = []
        for s, k in self.split_kind(st, o):
            if name == '__class__':
                out.append((s, self.class_of(s, o)))
                continue
            if k == 'c':
                if name == '__name__':
                    nm = Function('class_name', IntSort(), StringSort())
                    if 'class_names' not in s.hints:
                        s.hints['class_names'] = True
                        s.assume(*[nm(IntVal(i)) == StringVal(n) for n, i in BUILTIN_TYPES.items()])
                    out.append((s, V.s(Function('class_name', IntSort(), StringSort())(arg(o, 'c')))))
                    continue
                if name == '__module__':
                    out.append((s, V.s(Function('class_module', IntSort(), StringSort())(arg(o, 'c')))))
                    continue
                raise Unsupported(f'attribute {name} of a class value')
            if k != 'r':
                tname = {'i': int, 'f': float, 's': str, 'b': bool, 'none': type(None)}[k]
                if hasattr(tname, name):
                    out.append((s, EBuiltin('.' + name, o)))
                else:
                    out.append((s, Raised('AttributeError')))
                continue
            for s2, t in self.split_tag(s, o):
                if t != 'obj':
                    tname = {T_LIST: list, T_TUPLE: tuple, T_DICT: dict, T_SET: set}[t]
                    if hasattr(tname, name):
                        out.append((s2, EBuiltin('.' + name, o)))
                    else:
                        out.append((s2, Raised('AttributeError')))
                    continue
                out.extend(self.obj_attr(s2, o, name))
        return out

    def update_attributes(self, target, source, st):
        """x.__dict__.update(y.__dict__) for objects of one known class: every attribute that its methods assign"""
        out = []
        for s, (x, y) in self.ev_seq([target, source], st):
            if isinstance(x, Raised):
                out.append((s, x))
                continue
            cx, cy = self.static_class(s, x), self.static_class(s, y)
            if cx is None or cy is None or cx.key != cy.key or self.hint(s, x).pred is not True or self.hint(s, y).pred is not True:
                raise Unsupported('__dict__.update')
            names = set()
            for c in self.repo.mro(cx):
                if isinstance(c, str):
                    continue
                if c.setters:
                    raise Unsupported('__dict__.update with property setters')
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        names.add(n.attr)
            s = s.copy()
            for n in sorted(names):
                self.sto(s, 'a:' + n, arg(x, 'r'), self.sel(s, 'a:' + n, arg(y, 'r')))
            out.append((s, NONE))
        return out

    def class_of(self, st, o):
        ci = self.static_class(st, o)
        h = self.hint(st, o)
        if ci is not None and h.pred is True:
            return EClass(ci.key, ci)
        return V.c(typeid(o))

    def obj_attr(self, st, o, name):
        ci = self.static_class(st, o)
        a = arg(o, 'r')
        if ci is not None:
            ck = (ci.key, name)
            for c in self.repo.mro(ci):
                kk = ((c if isinstance(c, str) else c.key), name)
                if kk in self.class_attrs:
                    v = self.class_attrs[kk]
                    if callable(v):
                        return v(self, st, o)
                    return [(st, v)]
            m = self.repo.lookup_method(ci, name)
            if m is not None:
                if m.kind == 'property':
                    return self.call_func(st, m, [o], {})
                if m.kind == 'static':
                    return [(st, EFunc(m))]
                if m.kind == 'class':
                    return [(st, EFunc(m, self_val=EClass(ci.key, ci)))]
                return [(st, EFunc(m, self_val=o))]
        key = 'a:' + name
        v = self.sel(st, key, a)
        ty = None
        if ci is not None:
            for c in self.repo.mro(ci):
                ty = ty or self.field_types.get(((c if isinstance(c, str) else c.key), name))
        ty = ty or self.field_types.get(name)
        if ty is None and ci is not None:
            ca = self.repo.lookup_classattr(ci, name)
            if ca is not None and not self._ever_assigned(ci, name):
                return [(st, self.eval_const(ca[0], ca[1], st))]
        if self.hint(st, v) is None and ctor(v) != 'r':
            if ty is not None:
                self.assume_type(st, v, ty)
            if ctor(v) is None:
                self.known_ref(v)
                st.assume(Implies(is_kind(v, 'r'), arg(v, 'r') <= st.wm))
                if self.is_old(v):
                    st.assume(Implies(is_kind(v, 'r'), arg(v, 'r') <= Int('WM0')))
        self.assumptions.add("attributes read on an object exist on it (no AttributeError on declared attributes)")
        return [(st, v)]

    def _ever_assigned(self, ci, name):
        for c in self.repo.mro(ci):
            if isinstance(c, str):
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and \
                        isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return True
        return False

    def ex_Subscript(self, e, st):
        out = []
        for s, vals in self.ev_seq([e.value, e.slice], st):
            if isinstance(vals[0], Raised):
                out.append((s, vals[0]))
            else:
                out.extend(self.bm.getitem(self, s, vals[0], vals[1]))
        return out

    def ex_Slice(self, e, st):
        parts = [e.lower, e.upper, e.step]
        exprs = [p for p in parts if p is not None]
        out = []
        for s, vals in self.ev_seq(exprs, st):
            if vals and isinstance(vals[0], Raised):
                out.append((s, vals[0]))
                continue
            it = iter(vals)
            out.append((s, ESlice(*[next(it) if p is not None else None for p in parts])))
        return out

    def ex_ListComp(self, e, st):
        return self.loops.eval_comp(self, e, st, 'list')

    def ex_SetComp(self, e, st):
        out = []
        for s, v in self.loops.eval_comp(self, e, st, 'list'):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.bm.make_set(self, s.copy(), v))
        return out

    def ex_DictComp(self, e, st):
        return self.loops.eval_comp(self, e, st, 'dict')

    def ex_GeneratorExp(self, e, st):
        return [(st, EGen(e, dict(st.env), st.module, st.cls))]

    def ex_Starred(self, e, st):
        raise Unsupported('starred expression')

    # ---- calls ----
    def ex_Call(self, e, st):
        # dropped effects
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in st.env:
            return [(st, NONE)]
        if ast.unparse(e.func) in ('warnings.warn',):
            return [(st, NONE)]
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return [(st, ESuper(st.cls, st.env.get('%self')))]
        is_dict = lambda x: isinstance(x, ast.Attribute) and x.attr == '__dict__'
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'update' and is_dict(e.func.value) and len(e.args) == 1 and is_dict(e.args[0]) and not e.keywords:
            return self.update_attributes(e.func.value.value, e.args[0].value, st)
        out = []
        for s, f in self.ev(e.func, st):
            if isinstance(f, Raised):
                out.append((s, f))
                continue
            star = [a for a in e.args if isinstance(a, ast.Starred)]
            if star or any(k.arg is None for k in e.keywords):
                out.extend(self.bm.star_call(self, s, f, e))
                continue
            if isinstance(f, EBuiltin) and f.name == 'next' and not (e.args and isinstance(e.args[0], ast.GeneratorExp)):
                raise Unsupported('next of an iterator that may be used again')
            exprs = list(e.args) + [k.value for k in e.keywords]
            for s2, vals in self.ev_seq(exprs, s):
                if vals and isinstance(vals[0], Raised):
                    out.append((s2, vals[0]))
                    continue
                args = vals[:len(e.args)]
                kwargs = {k.arg: v for k, v in zip(e.keywords, vals[len(e.args):])}
                out.extend(self.call(s2, f, args, kwargs))
        return out

    def call(self, st, f, args, kwargs):
        if isinstance(f, EFunc):
            if f.self_val is not None:
                args = [f.self_val] + list(args)
            return self.call_func(st, f.fi, args, kwargs)
        if isinstance(f, ESpec):
            return f.fn(self, st, args, kwargs)
        if isinstance(f, ELambda):
            return self.call_lambda(st, f, args, kwargs)
        if isinstance(f, EClass):
            return self.construct(st, f, args, kwargs)
        if isinstance(f, EExt):
            if f.name in self.specs:
                return self.specs[f.name](self, st, args, kwargs)
            return self.bm.call_ext(self, st, f.name, args, kwargs)
        if isinstance(f, EBuiltin):
            if f.name in self.specs:
                return self.specs[f.name](self, st, ([f.self_val] if f.self_val is not None else []) + list(args), kwargs)
            return self.bm.call_builtin(self, st, f, args, kwargs)
        if z3.is_expr(f):
            if f.get_id() in self.specs:
                return self.specs[f.get_id()](self, st, args, kwargs)
        raise Unsupported(f'call of {type(f).__name__}')

    def call_lambda(self, st, f, args, kwargs):
        s = st.copy()
        saved = (st.env, st.module, st.cls)
        s.env = dict(f.env)
        s.module, s.cls = f.module, f.cls
        self.bind_params(s, f.node.args, args, kwargs, f.module)
        if isinstance(f.node, ast.Lambda):
            res = self.ev(f.node.body, s)
        else:
            res = self.body_results(self.exec_block(f.node.body, s))
        out = []
        for s2, v in res:
            s2 = s2.copy()
            s2.env, s2.module, s2.cls = saved
            out.append((s2, v))
        return out

    def bind_params(self, s, a, args, kwargs, module):
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        bound = {}
        if len(args) > len(params):
            if a.vararg is None:
                raise Unsupported('too many positional arguments')
            bound[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            bound[a.vararg.arg] = ()
        for p, v in zip(params, args):
            bound[p] = v
        ndef = len(a.defaults)
        for i, p in enumerate(params):
            if p in bound:
                continue
            if p in kwargs:
                bound[p] = kwargs.pop(p)
                continue
            di = i - (len(params) - ndef)
            if di < 0:
                raise Unsupported(f'missing argument {p}')
            bound[p] = self.eval_const(module, a.defaults[di], s)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                bound[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                bound[p.arg] = self.eval_const(module, d, s)
            else:
                raise Unsupported('missing keyword-only argument')
        if kwargs:
            if a.kwarg is None:
                raise Unsupported(f'unexpected keyword arguments {sorted(kwargs)}')
            bound[a.kwarg.arg] = EKwargs(kwargs)
        elif a.kwarg is not None:
            bound[a.kwarg.arg] = EKwargs({})
        s.env.update(bound)

    def body_results(self, outcomes):
        out = []
        for kind, s, v in outcomes:
            if kind == 'next':
                out.append((s, NONE))
            elif kind == 'return':
                out.append((s, v))
            elif kind == 'raise':
                out.append((s, v))
            else:
                raise Unsupported(kind)
        return out

    def call_func(self, st, fi, args, kwargs, force_inline=False):
        c = self.contracts.get(fi.key)
        if c is None and fi.cls is not None and args and z3.is_expr(args[0]):
            ci = self.static_class(st, args[0])
            if ci is not None:
                c = self.contracts.get(f"{ci.key}.{fi.node.name}")
        if c is not None and not force_inline:
            self.used_contracts.add(fi.key)
            return c.apply(self, st, self.named_args(st, fi, args, kwargs))
        return self.inline(st, fi, args, kwargs)

    def named_args(self, st, fi, args, kwargs):
        s = st.copy()
        s.env = {}
        self.bind_params(s, fi.node.args, list(args), kwargs, fi.module)
        st.heap, st.wm, st.hints = s.heap, s.wm, s.hints
        st.pc[:] = s.pc
        return s.env

    def inline(self, st, fi, args, kwargs):
        if fi.is_generator():
            raise Unsupported(f'generator function {fi.key}')
        for d in fi.decorators:
            if d not in ('property', 'staticmethod', 'classmethod') and not d.endswith('cached_property') \
                    and not d.endswith('.setter'):
                raise Unsupported(f'decorator {d}')
        if fi.key in self.stack and self.stack.count(fi.key) >= 1:
            raise Unsupported(f'recursive function {fi.key} without contract')
        if len(self.stack) >= self.inline_depth:
            raise Unsupported('inline depth')
        self.inlined.add(fi.key)
        s = st.copy()
        saved = (st.env, st.module, st.cls)
        s.env, s.module, s.cls = {}, fi.module, fi.cls
        self.bind_params(s, fi.node.args, list(args), kwargs, fi.module)
        if fi.cls is not None and args:
            s.env['%self'] = args[0]
        self.stack.append(fi.key)
        try:
            res = self.body_results(self.exec_block(fi.node.body, s))
        finally:
            self.stack.pop()
        out = []
        for s2, v in res:
            s2 = s2.copy()
            s2.env, s2.module, s2.cls = saved
            out.append((s2, v))
        return out

    def construct(self, st, c, args, kwargs):
        if c.key in self.specs:
            return self.specs[c.key](self, st, args, kwargs)
        if c.ci is None:
            raise Unsupported(f'construct {c.key}')
        if any(isinstance(b, str) and b not in ('object',) and not b.startswith('Generic') for b in self.repo.mro(c.ci)[1:]):
            ext = [b for b in self.repo.mro(c.ci)[1:] if isinstance(b, str)]
            if any(b.split('.')[-1] in ('Exception', 'ValueError', 'TypeError') for b in ext):
                return [(st, Raised(c.ci.name))]
        st = st.copy()
        o, a = self.alloc(st, class_id(c.key))
        st.hints[('adr', a.get_id())] = OBJ(c.key, exact=True)
        init = self.repo.lookup_method(c.ci, '__init__')
        if init is None:
            if args or kwargs:
                raise Unsupported('constructor arguments without __init__')
            return [(st, o)]
        return [(s, r if isinstance(r, Raised) else o) for s, r in self.call_func(st, init, [o] + list(args), kwargs)]


class EKwargs(Eng):
    def __init__(self, d):
        self.d = d


class EConstDict(Eng):
    """a dict display at module or class level (never mutated: checked syntactically by name is not possible, assumed)"""

    def __init__(self, eng, node, mod):
        self.node, self.mod = node, mod
        eng.assumptions.add("module-level and class-level constants are not reassigned or mutated at run time")

    def entries(self, eng, st):
        s = st.copy()
        s.env, s.module = {}, self.mod
        out = []
        for k, v in zip(self.node.keys, self.node.values):
            rk, rv = eng.ev(k, s), eng.ev(v, s)
            if len(rk) != 1 or len(rv) != 1:
                raise Unsupported('constant dict entry')
            out.append((rk[0][1], rv[0][1]))
        return out


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    return t2
