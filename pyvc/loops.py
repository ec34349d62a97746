"""Loops over symbolic collections.

A loop is executed once for a generic iteration index with every loop-carried variable and heap location replaced by
a symbol.  From the resulting transition relation the exact recursive description of the loop is asserted
(X(0)=initial, X(q+1)=T(X(q),q)); lists that are only appended to are described directly by their final contents
(map, filter and concatenation templates, with the counting lemmas the templates imply).  No invariant mentions a
local name of the verified function, so renaming, for/while/comprehension rewrites and extracted helpers do not
disturb the proof.  Early exits are handled at the first exiting index.
"""
import ast
import z3
from .logic import *
from . import interp as I

CONCAT = Function('seq_concat', ArraySort(IntSort(), V), IntSort(), ArraySort(IntSort(), V), IntSort(), ArraySort(IntSort(), V))
UNROLL = 12


def assigned_names(stmts):
    out = set()

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    for s in stmts:
        W().visit(s)
    return out


def as_iter(eng, st, v):
    """-> [(state, EIter | Raised)]"""
    if isinstance(v, I.Raised):
        return [(st, v)]
    if isinstance(v, I.EIter):
        return [(st, v)]
    if isinstance(v, tuple):
        return [(st, I.EIter(IntVal(len(v)), None, conc=list(v)))]
    if isinstance(v, I.EGen):
        out = []
        for s, lv in eval_comp(eng, v.node, _with_env(st, v), 'list'):
            s = s.copy()
            s.env, s.module, s.cls = st.env, st.module, st.cls
            out.extend(as_iter(eng, s, lv))
        return out
    if isinstance(v, I.EConstDict):
        return [(st, I.EIter(IntVal(len(v.node.keys)), None, conc=[k for k, _ in v.entries(eng, st)]))]
    if isinstance(v, I.EView):
        if isinstance(v.d, I.EConstDict):
            ent = v.d.entries(eng, st)
            conc = {'items': [(k, x) for k, x in ent], 'keys': [k for k, _ in ent], 'values': [x for _, x in ent]}[v.kind]
            return [(st, I.EIter(IntVal(len(conc)), None, conc=conc))]
        return [(st, dict_iter(eng, st, v.d, v.kind))]
    if isinstance(v, I.ENd):
        return eng.nd.iterate(eng, st, v)
    if isinstance(v, I.Eng):
        raise I.Unsupported(f'iteration over {type(v).__name__}')
    out = []
    for s, k in eng.split_kind(st, v):
        if k == 's':
            sv = arg(v, 's')
            out.append((s, I.EIter(z3.Length(sv), lambda i, s2, sv=sv: V.s(z3.SubString(sv, i, 1)))))
        elif k == 'r':
            for s2, t in eng.split_tag(s, v):
                if t in (T_LIST, T_TUPLE):
                    it = list_iter(eng, s2, v)
                    out.append((s2, it))
                elif t in (T_DICT, T_SET):
                    out.append((s2, dict_iter(eng, s2, v, 'keys')))
                else:
                    ci = eng.static_class(s2, v)
                    m = eng.repo.lookup_method(ci, '__iter__') if ci is not None else None
                    g = eng.repo.lookup_method(ci, '__getitem__') if ci is not None else None
                    ln = eng.repo.lookup_method(ci, '__len__') if ci is not None else None
                    if m is None and g is not None and ln is not None:
                        raise I.Unsupported('iteration through __getitem__')
                    raise I.Unsupported('iteration over object')
        else:
            out.append((s, I.Raised('TypeError')))
    return out


def _with_env(st, g):
    s = st.copy()
    s.env, s.module, s.cls = dict(g.env), g.module, g.cls
    return s


def list_iter(eng, st, v):
    a = arg(v, 'r')
    n = eng.sel(st, 'len', a)
    arr = eng.sel(st, 'item', a)
    it = I.EIter(n, None)
    it.addr, it.sources = a, [a]

    def elem(i, s):
        x = eng.simp_sel(Select(arr, i))
        eng.elem_facts(s, v, x, i)
        return x
    it.elem = elem
    return it


def dict_iter(eng, st, d, kind):
    a = arg(d, 'r')
    eng.dict_wf(st, a)
    n, item, get, has, idx = (eng.sel(st, x, a) for x in ('len', 'item', 'get', 'has', 'idx'))
    h = eng.hint(st, d)

    def elem(i, s):
        k = eng.simp_sel(Select(item, i))
        s.assume(Select(has, k), Select(idx, k) == i)
        if h is not None and h.kind in ('dict', 'set') and h.args:
            eng.assume_type(s, k, h.args[0])
        s.assume(Implies(is_kind(k, 'r'), arg(k, 'r') <= s.wm))
        if eng.is_old(k):
            s.assume(Implies(is_kind(k, 'r'), arg(k, 'r') <= Int('WM0')))
        if kind == 'keys':
            return k
        x = Select(get, k)
        x = eng.simp_sel(x)
        if h is not None and h.kind == 'dict' and h.args:
            eng.assume_type(s, x, h.args[1])
        s.assume(Implies(is_kind(x, 'r'), arg(x, 'r') <= s.wm))
        if eng.is_old(x):
            s.assume(Implies(is_kind(x, 'r'), arg(x, 'r') <= Int('WM0')))
        return x if kind == 'values' else (k, x)
    it = I.EIter(n, elem)
    it.addr, it.sources = a, [a]
    return it


def exec_for(eng, node, st):
    out = []
    for s, v in eng.ev(node.iter, st):
        for s1, it in as_iter(eng, s, v):
            if isinstance(it, I.Raised):
                out.append(('raise', s1, it))
                continue
            names = assigned_names([node.target]) | assigned_names(node.body)

            def body(s2, value):
                res = []
                for o in eng.assign(node.target, value, s2):
                    if o[0] == 'next':
                        res.extend(eng.exec_block(node.body, o[1]))
                    else:
                        res.append(o)
                return res
            for o in run_iter(eng, s1, it, body, names):
                if o[0] == 'next' and node.orelse:
                    out.extend(eng.exec_block(node.orelse, o[1]))
                elif o[0] == 'break':
                    out.append(('next', o[1], None))
                else:
                    out.append(o)
    return out


def exec_while(eng, node, st):
    if node.orelse:
        raise I.Unsupported('while/else')
    names = assigned_names(node.body) | assigned_names([ast.Expr(node.test)])

    def body(s, _):
        res = []
        for s1, c in eng.ev_cond(node.test, s):
            if isinstance(c, I.Raised):
                res.append(('raise', s1, c))
                continue
            for s2, t in eng.branch(s1, c):
                if t:
                    res.extend(eng.exec_block(node.body, s2))
                else:
                    res.append(('whileend', s2, None))
        return res
    eng.assumptions.add("while loops terminate")
    out = []
    for o in run_iter(eng, st, I.EIter(None, lambda i, s: None), body, names):
        out.append(('next', o[1], None) if o[0] in ('whileend', 'break') else o)
    return out


def run_iter(eng, st, it, body, names):
    """-> outcomes: next / break / return / raise"""
    if it.conc is not None or (it.n is not None and z3.is_int_value(simplify(it.n)) and simplify(it.n).as_long() <= UNROLL):
        n = len(it.conc) if it.conc is not None else simplify(it.n).as_long()
        states, out = [st], []
        for j in range(n):
            nxt = []
            for s in states:
                s = s.copy()
                value = it.conc[j] if it.conc is not None else it.elem(IntVal(j), s)
                for o in body(s, value):
                    if o[0] in ('next', 'continue'):
                        nxt.append(o[1])
                    else:
                        out.append(o)
            states = nxt
            if len(states) + len(out) > eng.max_paths:
                raise I.Budget('path budget (unrolled loop)')
        return out + [('next', s, None) for s in states]
    for inv in eng.invariants:
        info = LoopInfo(eng, st, it, names)
        phi = inv(info)
        if phi is not None:
            return run_invariant(info, body, phi)
    return Summary(eng, st, it, body, names).run()


# ---- loops with a declared invariant -------------------------------------------------------------------------
class LoopInfo:
    """what an invariant may refer to: the state on entry, the iterated collection, the variables assigned in the loop"""

    def __init__(self, eng, st, it, names):
        self.eng, self.it, self.names = eng, it, names
        self.st = st.copy()
        self.func = eng.stack[-1] if eng.stack else None
        self.frame = st.wm          # locations up to here (other than the modified ones) are left unchanged
        self.touched = []
        self.lemmas = None          # called with the state at the end of an iteration: may add facts it has proved
        self.modifies = []          # (address, heaps): known beforehand to be written in the loop
        self.free = set()           # heaps whose whole content may change: the invariant says what is kept

    def carried(self, s, cls=None, kind=None):
        """names of the variables that live across iterations, of a class or kind"""
        out = []
        for n in sorted(self.names):
            if n in self.st.env and z3.is_expr(self.st.env[n]):
                h = self.eng.hint(self.st, self.st.env[n])
                if (cls is None or (h is not None and h.kind == 'obj' and h.cls == cls)) and (kind is None or (h is not None and h.kind == kind)):
                    out.append(n)
        return out


def run_invariant(info, body, phi):
    eng, st, it = info.eng, info.st, info.it
    conj_ = lambda f: conj(f) if isinstance(f, (list, tuple)) else f
    g = phi(st.copy(), IntVal(0))
    for k, f in enumerate(g if isinstance(g, (list, tuple)) else [g]):
        if not is_true(f):
            eng.obligate(st, f'invariant-on-entry:{info.func}:{k}', f)
    endless = it.n is None
    live = getattr(it, 'live', None) if info.free else None
    A = {a.get_id(): (a, set(ns)) for a, ns in info.modifies}
    written = {hn for _, ns in info.modifies for hn in ns}
    base_ob = len(eng.obligations)
    for attempt in range(8):
        del eng.obligations[base_ob:]
        saved = (eng.fresh_log, eng.write_log, eng.read_log)
        eng.fresh_log, eng.write_log, eng.read_log = [], [], []
        try:
            s = st.copy()
            iv = z3.Int(f'ix!{eng.counter}')
            eng.counter += 1
            syms = {}
            for name in sorted(info.names):
                if name not in s.env:
                    continue
                init = s.env[name]
                if not z3.is_expr(init):
                    raise I.Unsupported('loop-carried engine value')
                k = eng.kind(st, init)
                if k in ('i', 'f', 'b', 's'):
                    sort = {'i': IntSort(), 'f': RealSort(), 'b': BoolSort(), 's': StringSort()}[k]
                    syms[name] = {'i': V.i, 'f': V.f, 'b': V.b, 's': V.s}[k](eng.fresh('cv_' + name.strip('%'), sort))
                else:
                    syms[name] = eng.fresh('cv_' + name.strip('%'), V)
                    h = eng.hint(st, init)
                    if h is not None and h.kind in ('obj', 'list', 'dict', 'tuple', 'set'):
                        eng.assume_type(s, syms[name], h)
            heap0 = {}
            old_only = all(a.get_id() in eng.fresh_addrs for a, _ in A.values())
            for hn in sorted(written):
                b = s.h(hn)
                f = eng.fresh('H_' + hn.replace(':', '_'), b.sort())
                x = Int('xf')
                hyp = [x <= info.frame] + [x != a for a, ns in A.values() if hn in ns]
                if hn not in info.free:
                    s.assume(ForAll([x], Implies(conj(hyp), Select(f, x) == Select(b, x)), patterns=[Select(f, x)]))
                for a, ns in A.values():
                    if hn in ns:
                        s.hints.pop(('adr', a.get_id()), None)
                if old_only and hn not in info.free:
                    eng.heap_base[f.get_id()] = (f, b)
                s.heap[hn] = f
            for hn in info.free & written:
                if not hn.startswith('a:'):
                    s.assume(*[Select(s.h(hn), ad) == Select(st.h(hn), ad) for ad in it.sources if live is None or not ad.eq(live[0])])
            wmi = eng.fresh('wmi', IntSort())
            s.assume(wmi >= s.wm)
            s.wm = wmi
            heap0 = dict(s.heap)
            for name, v in syms.items():
                s.env[name] = v
                if ctor(v) is None:
                    eng.known_ref(v)
                    s.assume(Implies(is_kind(v, 'r'), arg(v, 'r') <= wmi))
            after = s.copy()
            s.assume(iv >= 0)
            if not endless:
                s.assume(iv < it.n)
            fs = phi(s, iv)
            s.assume(*(fs if isinstance(fs, (list, tuple)) else [fs]))
            info.head = s.copy()            # the state at the beginning of the iteration
            value = it.elem(iv, s)
            if live is not None:
                live_addr, at = live
                pos = at(iv)
                eng.obligate(s, f'iteration-goes-on:{info.func}', And(0 <= pos, pos < eng.sel(s, 'len', live_addr)))
                value = eng.read_item(s, V.r(live_addr), pos)
            outcomes = body(s, value)
            fresh, writes = eng.fresh_log, eng.write_log
        finally:
            eng.fresh_log, eng.write_log, eng.read_log = saved
        if saved[0] is not None:
            saved[0].extend(fresh + [iv])
        local = {c.get_id() for c in fresh if z3.is_expr(c)}
        variant = {iv.decl().get_id()} | {c.decl().get_id() for c in fresh if z3.is_expr(c)} | {f.get_id() for f in fresh if isinstance(f, z3.FuncDeclRef)}
        changed = False
        names = {hn for hn, _, _ in writes}
        for o in outcomes:
            names |= {hn for hn, h in o[1].heap.items() if hn in heap0 and not h.eq(heap0[hn]) or hn not in heap0 and not h.eq(Const(f'H0_{hn}', h.sort()))}
        if names & {'has', 'get', 'idx'}:
            names |= {'has', 'get', 'idx', 'len', 'item'}
        if names & {'len', 'item'}:
            names |= {'len', 'item'}
        if not names <= written:
            written |= names
            changed = True
        dyn = []
        for hn, a, ws in writes:
            if a is None:
                if hn not in info.free:
                    raise I.Unsupported('the loop may write anywhere')
                continue
            if a.get_id() in local and a.get_id() in eng.fresh_addrs:
                continue
            if mentions(a, variant):
                dyn.append((hn, a, ws))
                continue
            ns = A.setdefault(a.get_id(), (a, set()))[1]
            group = {'has', 'get', 'idx', 'len', 'item'} if hn in ('has', 'get', 'idx') else {'len', 'item'} if hn in ('len', 'item') else {hn}
            if not group <= ns:
                ns |= group
                changed = True
        if changed:
            continue
        break
    else:
        raise I.Unsupported('locations written in the loop do not stabilise')
    for ad in it.sources:
        if live is not None and ad.eq(live[0]):
            continue
        if ad.get_id() in A:
            raise I.Unsupported('the iterated collection is modified in the loop')
        if dyn and not (eng.is_old(ad) or entails(st.pc, ad <= info.frame)):
            raise I.Unsupported('the iterated collection may be modified in the loop')
        if info.free & set(heap0):
            for o in outcomes:
                if o[0] in ('next', 'continue'):
                    eng.obligate(o[1], f'iterated-collection-kept:{info.func}', And(*[Select(o[1].h(hn), ad) == Select(heap0[hn], ad) for hn in info.free if hn in heap0 and not hn.startswith('a:')]))
    for hn, a, ws in dyn:
        if hn in info.free:
            continue
        if not eng.is_old(a) and not entails(ws.pc, a > info.frame):
            eng.obligate(ws, f'frame:{info.func}', a > info.frame)
        elif eng.is_old(a):
            raise I.Unsupported('an old location is written at a loop-variant address')
    out = []
    for o in outcomes:
        if o[0] in ('next', 'continue'):
            s1 = o[1]
            if info.lemmas is not None:
                info.lemmas(s1)
            goals = [phi(s1.copy(), iv + 1)]
            for name, v in syms.items():
                nv = s1.env.get(name)
                if not z3.is_expr(nv):
                    raise I.Unsupported(f'loop-carried engine value in {name}')
                k0 = eng.kind(st, st.env[name])
                if k0 in ('i', 'f', 'b', 's') and eng.kind(s1, nv) != k0:
                    raise I.Unsupported(f'{name} changes its kind in the loop')
                h = eng.hint(st, st.env[name])
                if h is not None and h.kind in ('obj', 'list', 'dict', 'tuple', 'set') and not I.fits(eng.hint(s1, nv), h):
                    raise I.Unsupported(f'{name} changes its type in the loop')
            for g in goals:
                for k, f in enumerate(g if isinstance(g, (list, tuple)) else [g]):
                    if not is_true(f):
                        eng.obligate(s1, f'invariant-preserved:{info.func}:{k}', f)
        else:
            out.append(o)
    if not endless:
        fs = phi(after, it.n)
        after.assume(*(fs if isinstance(fs, (list, tuple)) else [fs]), it.n >= 0)
        out.append(('next', after, None))
    return out


class Carried:
    pass


class Summary:
    def __init__(self, eng, st, it, body, names):
        self.eng, self.st, self.it, self.body, self.names = eng, st, it, body, names
        self.endless = it.n is None

    # -- the generic iteration ------------------------------------------------------------------------------
    def generic_pass(self, locs, var_kinds):
        eng = self.eng
        saved = (eng.fresh_log, eng.write_log, eng.read_log)
        iv = z3.Int(f'ix!{eng.counter}')
        eng.counter += 1
        if saved[0] is not None:
            saved[0].append(iv)
        eng.fresh_log, eng.write_log, eng.read_log = [], [], []
        try:
            s = self.st.copy()
            base_pc = len(s.pc)
            carried = {}
            for name in sorted(self.names):
                if name not in s.env:
                    continue
                init = s.env[name]
                if isinstance(init, tuple):
                    init = eng.reify(s, init)
                    self.st.heap, self.st.wm, self.st.hints = dict(s.heap), s.wm, dict(s.hints)
                    self.st.pc = list(s.pc)
                    self.st.env[name] = init
                    base_pc = len(s.pc)
                if isinstance(init, I.Eng):
                    raise I.Unsupported('loop-carried engine value')
                carried[name] = self.var_symbol(s, name, init, var_kinds)
            # names not defined before the loop are loop-local
            s.assume(iv >= 0)
            if not self.endless:
                s.assume(iv < self.it.n)
            wmi = eng.fresh('wmi', IntSort())
            s.assume(wmi >= s.wm)
            self.entry_wm = s.wm
            s.wm = wmi
            loc_syms = {}
            for aid, (a, kinds) in locs.items():
                for hn in kinds:
                    sort = I.heap_sort(hn).range()
                    c = eng.fresh('loc_' + hn.replace(':', '_'), sort)
                    loc_syms[(aid, hn)] = c
                    s.heap[hn] = Store(s.h(hn), a, c)
                if 'len' in kinds:
                    s.assume(loc_syms[(aid, 'len')] >= 0)
                if 'has' in kinds:
                    eng.dict_wf(s, a)
                for hn in kinds:
                    if hn.startswith('a:'):
                        ih = eng.hint(self.st, eng.sel(self.st, hn, a))
                        if ih is not None and ('attr', aid, hn) not in var_kinds:
                            eng.assume_type(s, loc_syms[(aid, hn)], ih)
            eng.read_log, eng.write_log = [], []
            for name, c in carried.items():
                s.env[name] = c.sym
            start = len(s.pc)
            facts0 = s.pc[base_pc:]
            value = self.it.elem(iv, s)
            outcomes = self.body(s, value)
            fresh = eng.fresh_log
            writes, reads = eng.write_log, eng.read_log
        finally:
            eng.fresh_log, eng.write_log, eng.read_log = saved
        return iv, carried, loc_syms, outcomes, fresh, writes, reads, base_pc

    def var_symbol(self, s, name, init, var_kinds):
        eng = self.eng
        c = Carried()
        c.init = init
        want = var_kinds.get(name)
        k = want or eng.kind(self.st, init)
        if k in ('i', 'f', 'b', 's'):
            sort = {'i': IntSort(), 'f': RealSort(), 'b': BoolSort(), 's': StringSort()}[k]
            c.kind = k
            c.raw = eng.fresh('cv_' + name.strip('%'), sort)
            c.sym = {'i': V.i, 'f': V.f, 'b': V.b, 's': V.s}[k](c.raw)
        else:
            c.kind = 'v'
            c.raw = c.sym = eng.fresh('cv_' + name.strip('%'), V)
            h = eng.hint(self.st, init)
            c.hint = None
            if want is None and h is not None and h.kind in ('obj', 'list', 'dict', 'tuple'):
                if h.kind == 'obj':
                    eng.assume_type(s, c.sym, h)
                    c.hint = h
            if want == 'num':
                s.assume(Or(V.is_i(c.raw), V.is_f(c.raw)))
                c.kind = 'num'
        return c

    def run(self):
        eng = self.eng
        locs, var_kinds = {}, {}
        n_ob = len(eng.obligations)
        for attempt in range(8):
            del eng.obligations[n_ob:]
            res = self.generic_pass(locs, var_kinds)
            iv, carried, loc_syms, outcomes, fresh, writes, reads, base_pc = res
            local_ids = {c.get_id() for c in fresh if z3.is_expr(c)}
            variant = {iv.decl().get_id()} | {c.decl().get_id() for c in fresh if z3.is_expr(c)} | \
                      {f.get_id() for f in fresh if isinstance(f, z3.FuncDeclRef)}
            changed = False
            for hn, a, s in writes:
                if a is None:
                    raise I.Unsupported('the loop may write anywhere')
                if a.get_id() in local_ids:
                    continue
                if mentions(a, variant):
                    raise I.Unsupported('heap write at a loop-variant address')
                kinds = locs.setdefault(a.get_id(), (a, set()))[1]
                if hn in ('has', 'get', 'idx'):
                    new = {'has', 'get', 'idx', 'len', 'item'}
                elif hn in ('len', 'item'):
                    new = {'len', 'item'}
                else:
                    new = {hn}
                if not new <= kinds:
                    kinds |= new
                    changed = True
            if changed:
                continue
            # kinds of carried variables are preserved?
            normal = [o for o in outcomes if o[0] in ('next', 'continue')]
            for name, c in carried.items():
                for _, s, _ in normal:
                    nv = s.env.get(name)
                    if nv is None or isinstance(nv, (I.Eng, I.Raised)):
                        raise I.Unsupported(f'loop-carried engine value in {name}')
                    if isinstance(nv, tuple):
                        raise I.Unsupported('loop-carried tuple')
                    if c.kind in ('i', 'f', 'b', 's'):
                        k = eng.kind(s, nv)
                        if k != c.kind:
                            if {k, c.kind} <= {'i', 'f'}:
                                var_kinds[name] = 'num'
                            else:
                                var_kinds[name] = 'v'
                            changed = True
                    elif c.kind == 'num':
                        if eng.kind(s, nv) not in ('i', 'f') and not entails(s.pc, Or(is_kind(nv, 'i'), is_kind(nv, 'f'))):
                            var_kinds[name] = 'v'
                            changed = True
                    elif getattr(c, 'hint', None) is not None:
                        h = eng.hint(s, nv)
                        if not I.fits(h, c.hint):
                            var_kinds[name] = 'v'
                            changed = True
            for aid, (a, kinds) in locs.items():
                for hn in kinds:
                    if not hn.startswith('a:') or ('attr', aid, hn) in var_kinds:
                        continue
                    ih = eng.hint(self.st, eng.sel(self.st, hn, a))
                    if ih is None:
                        continue
                    for _, s, _ in normal:
                        nv = eng.sel(s, hn, a)
                        h = eng.hint(s, nv)
                        same = I.fits(h, ih)
                        scalar = {'int': 'i', 'float': 'f', 'bool': 'b', 'str': 's'}.get(ih.kind)
                        if not same and not (scalar and not ih.values and ih.pred is None and eng.kind(s, nv) == scalar):
                            var_kinds[('attr', aid, hn)] = 'v'
                            changed = True
            if changed:
                continue
            break
        else:
            raise I.Unsupported('loop-carried locations do not stabilise')
        # soundness of reads: only old, carried or iteration-local addresses
        if any(aid == src.get_id() for aid in locs for src in self.it.sources):
            raise I.Unsupported('the iterated collection is modified in the loop')
        ok_cache = {}
        for hn, a, s in reads:
            key = a.get_id()
            if key in ok_cache:
                continue
            ok = key in local_ids or key in locs or eng.is_old(a) or \
                (key in eng.fresh_addrs) or entails(s.pc, a <= self.entry_wm) or entails(s.pc, a <= self.entry_wm, 2000, quant=True)
            if not ok:
                raise I.Unsupported(f'loop body reads an address that may come from an earlier iteration: {hn} {str(a)[:300]} in {self.names}')
            ok_cache[key] = a
        exits = [o for o in outcomes if o[0] not in ('next', 'continue')]
        self.data = (iv, carried, loc_syms, locs, normal, fresh, base_pc)
        out = []
        if not self.endless:
            s_full = self.summarise(self.it.n)
            if s_full is not None and feasible(s_full.pc):
                out.append(('next', s_full, None))
        if exits:
            m = eng.fresh('m', IntSort())
            s_pre = self.summarise(m)
            if s_pre is not None:
                s_pre.assume(m >= 0)
                if not self.endless:
                    s_pre.assume(m < self.it.n)
                value = self.it.elem(m, s_pre)
                for o in self.body(s_pre, value):
                    if o[0] not in ('next', 'continue'):
                        out.append(o)
        return out

    # -- the summary up to `bound` iterations -----------------------------------------------------------------
    def summarise(self, bound):
        eng = self.eng
        iv, carried, loc_syms, locs, normal, fresh, base_pc = self.data
        out = self.st.copy()
        out.assume(bound >= 0)
        for name in self.names:
            if name not in carried:
                out.env.pop(name, None)
        if not normal:
            out.assume(bound == 0)
            return out
        eng.counter += 1
        uid = eng.counter

        def newfun(name, *sorts):
            f = Function(f'{name}!{uid}', *sorts)
            if eng.fresh_log is not None:
                eng.fresh_log.append(f)
            return f
        q = Int(f'q!{uid}')
        const_map, fun_map = [(iv, q)], []
        local_allocs = []
        entry_fresh = [c for c in fresh]
        carried_raws = {c.raw.get_id() for c in carried.values()} | {c.get_id() for c in loc_syms.values()}
        for c in entry_fresh:
            if isinstance(c, z3.FuncDeclRef):
                sorts = [c.domain(k) for k in range(c.arity())]
                f = newfun('F_' + c.name(), IntSort(), *sorts, c.range())
                body = f(q, *[z3.Var(k, sorts[k]) for k in range(len(sorts))])
                fun_map.append((c, body))
            elif c.get_id() not in carried_raws:
                f = newfun('F_' + c.decl().name(), IntSort(), c.sort())
                const_map.append((c, f(q)))
                if c.get_id() in eng.fresh_addrs:
                    local_allocs.append((c, f))
        # carried variables: recursive functions
        var_fun = {}
        for name, c in carried.items():
            unchanged = all(s.env[name].eq(c.sym) for _, s, _ in normal)
            if unchanged:
                const_map.append((c.raw, arg(c.init, c.kind) if c.kind in ('i', 'f', 'b', 's') else c.init))
                out.env[name] = c.init
                continue
            f = newfun('X_' + name.strip('%'), IntSort(), c.raw.sort())
            var_fun[name] = f
            const_map.append((c.raw, f(q)))
            if c.kind in ('i', 'f', 'b', 's'):
                out.assume(f(0) == arg(c.init, c.kind))
            else:
                out.assume(f(0) == c.init)
        # carried locations
        plans = []
        for aid, (a, kinds) in locs.items():
            plans.append(self.plan_location(aid, a, kinds, loc_syms, normal, newfun, q, const_map, out, bound))

        def sub(e):
            if fun_map:
                e = z3.substitute_funs(e, *fun_map)
            return z3.substitute(e, *const_map)
        # iteration-local heap contents
        local_ids = {c.get_id() for c, _ in local_allocs}
        self.local_funs = {f.get_id() for _, f in local_allocs}   # facts about addresses of an iteration: never a branch condition
        touched = {}
        per_outcome = []
        for _, s, _ in normal:
            facts = [f for f in s.pc[base_pc:]]
            stores = []
            for hn, arr in s.heap.items():
                seen = set()
                while arr.decl().kind() == z3.Z3_OP_STORE:
                    ix = arr.arg(1)
                    if ix.get_id() in local_ids and ix.get_id() not in seen:
                        stores.append((hn, ix, arr.arg(2)))
                        touched[hn] = True
                    seen.add(ix.get_id())
                    arr = arr.arg(0)
            per_outcome.append((s, facts, stores))
        hfin = {}
        for hn in touched:
            b = out.h(hn)
            f = eng.fresh('H_' + hn.replace(':', '_'), I.heap_sort(hn))
            x = Int('adr_x')
            root, done = b, []
            while root.decl().kind() == z3.Z3_OP_STORE:
                if not any(root.arg(1).eq(d) for d in done):
                    out.assume(Implies(And(root.arg(1) <= self.entry_wm, *[root.arg(1) != d for d in done]), Select(f, root.arg(1)) == root.arg(2)))
                    done.append(root.arg(1))
                root = root.arg(0)
            out.assume(ForAll([x], Implies(And(x <= self.entry_wm, *[x != d for d in done]), Select(f, x) == Select(root, x)), patterns=[Select(f, x)]))
            hfin[hn] = f
            eng.heap_base[f.get_id()] = (f, b)
            out.heap[hn] = f
        if local_allocs:
            inv = newfun('inv', IntSort(), IntSort())
            invk = newfun('invk', IntSort(), IntSort())
            wm2 = eng.fresh('wm', IntSort())
            out.assume(wm2 >= self.entry_wm)
            rng = And(0 <= q, q < bound)
            for j, (c, f) in enumerate(local_allocs):
                out.assume(ForAll([q], Implies(rng, And(f(q) > self.entry_wm, f(q) <= wm2, inv(f(q)) == q,
                                                        invk(f(q)) == j)), patterns=[f(q)]))
            out.wm = wm2
        disjuncts = []
        self.outcome_facts = []
        for oi, (s, facts, stores) in enumerate(per_outcome):
            cs = [sub(f) for f in facts]
            self.outcome_facts.append((q, list(cs), sub))
            for hn, ix, val in stores:
                cs.append(Select(hfin[hn], sub(ix)) == sub(val))
            for name, f in var_fun.items():
                c = carried[name]
                nv = s.env[name]
                cs.append(f(q + 1) == sub(arg(nv, c.kind) if c.kind in ('i', 'f', 'b', 's') else nv))
            for p in plans:
                cs.extend(p.transition(oi, s, sub))
            disjuncts.append([c for c in cs if not is_true(c)])
        rng = And(0 <= q, q < bound)
        rng_known = {simplify(0 <= q).sexpr(), simplify(q < bound).sexpr()}
        if len(disjuncts) == 1:
            for c in disjuncts[0]:
                if c.sexpr() in (rng_known):
                    continue
                if not mentions(c, {q.decl().get_id()}):
                    out.assume(Implies(bound > 0, c))
                else:
                    out.assume(ForAll([q], Implies(rng, c)))
        else:
            ids = [{c.get_id() for c in d} for d in disjuncts]
            common = set.intersection(*ids)
            for c in disjuncts[0]:
                if c.get_id() not in common or c.sexpr() in rng_known:
                    continue
                if not mentions(c, {q.decl().get_id()}):
                    out.assume(Implies(bound > 0, c))
                else:
                    out.assume(ForAll([q], Implies(rng, c)))
            rest = disj([conj([c for c in d if c.get_id() not in common]) for d in disjuncts])
            pats = [] if var_fun or any(isinstance(p, GeneralLoc) for p in plans) else q_terms(rest, q)
            out.assume(ForAll([q], Implies(rng, rest), patterns=pats))
        for name, f in var_fun.items():
            c = carried[name]
            raw = f(bound)
            out.env[name] = {'i': V.i, 'f': V.f, 'b': V.b, 's': V.s}.get(c.kind, lambda x: x)(raw)
            if getattr(c, 'hint', None) is not None:
                eng.assume_type(out, out.env[name], c.hint)
            if c.kind == 'num':
                out.assume(Or(V.is_i(raw), V.is_f(raw)))
            if c.kind in ('v',):
                self.fold_principle(out, f, bound, c, normal, name)
        for p in plans:
            p.finish(out, bound)
        return out

    def fold_principle(self, out, f, bound, c, normal, name):
        eng = self.eng
        q = Int('qf')
        for P in eng.fold_preds:
            w = eng.fresh('m', IntSort())
            out.assume(Implies(And(P(f(0)), Not(P(f(bound)))), And(0 <= w, w < bound, P(f(w)), Not(P(f(w + 1))))))
            w2 = eng.fresh('m', IntSort())
            out.assume(Implies(And(Not(P(f(0))), P(f(bound))), And(0 <= w2, w2 < bound, Not(P(f(w2))), P(f(w2 + 1)))))
            if all(entails(s.pc, Implies(P(s.env[name]), P(c.sym)), 1500, quant=True) for _, s, _ in normal):
                out.assume(ForAll([q], Implies(And(0 <= q, q <= bound, P(f(bound))), P(f(q))), patterns=[f(q)]))
            if all(entails(s.pc, Implies(P(c.sym), P(s.env[name])), 1500, quant=True) for _, s, _ in normal):
                out.assume(ForAll([q], Implies(And(0 <= q, q <= bound, P(f(0))), P(f(q))), patterns=[f(q)]))

    def plan_location(self, aid, a, kinds, loc_syms, normal, newfun, q, const_map, out, bound):
        eng = self.eng
        if 'has' in kinds:
            p = plan_dict(self, aid, a, loc_syms, normal, newfun, q, const_map, out, bound)
            if p is not None:
                return p
        elif 'len' in kinds:
            p = plan_append(self, aid, a, loc_syms, normal, newfun, q, const_map, out, bound)
            if p is not None:
                return p
        return GeneralLoc(self, aid, a, kinds, loc_syms, normal, newfun, q, const_map, out, bound)


def q_terms(e, q):
    """terms f(.., q) without other structure around q: alternatives to trigger on"""
    out, seen, stack = [], set(), [e]
    qid = q.decl().get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            continue
        if not is_app(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args() and any(c.eq(q) for c in x.children()) or \
                k == z3.Z3_OP_SELECT and x.arg(1).eq(q) and not mentions(x.arg(0), {qid}):
            out.append(x)
            continue
        stack.extend(x.children())
    return out[:6]


def parse_appends(item, ln, base_i, base_l):
    """item/len terms of the list after one iteration, relative to its symbols before -> list of ('one', e) |
    ('many', arr, n), or None"""
    segs = []
    cur_i, cur_l = item, simplify(ln)
    for _ in range(6):
        if cur_i.eq(base_i):
            return list(reversed(segs)) if is_true(simplify(cur_l == base_l)) else None
        if cur_i.decl().kind() == z3.Z3_OP_STORE:
            pos, e = cur_i.arg(1), cur_i.arg(2)
            if not is_true(simplify(cur_l == pos + 1)):
                return None
            segs.append(('one', e))
            cur_i, cur_l = cur_i.arg(0), simplify(pos)
        elif cur_i.decl().eq(CONCAT):
            b_i, b_l, s_i, s_l = cur_i.children()
            if not is_true(simplify(cur_l == b_l + s_l)):
                return None
            segs.append(('many', s_i, s_l))
            cur_i, cur_l = b_i, simplify(b_l)
        else:
            return None
    return None


class AppendPlan:
    pass


def plan_append(S, aid, a, loc_syms, normal, newfun, q, const_map, out, bound):
    eng = S.eng
    base_i, base_l = loc_syms[(aid, 'item')], loc_syms[(aid, 'len')]
    ops = []
    for _, s, _ in normal:
        segs = parse_appends(eng.sel(s, 'item', a), eng.sel(s, 'len', a), base_i, base_l)
        if segs is None or len(segs) > 1 and any(k[0] != 'one' for k in segs):
            return None
        ops.append(segs)
    P = AppendPlan()
    i0, l0 = eng.sel(S.st, 'item', a), eng.sel(S.st, 'len', a)
    fin = eng.fresh('fin', ArraySort(IntSort(), V))
    p = Int('pf')
    if not is_true(simplify(l0 == 0)):
        out.assume(ForAll([p], Implies(And(0 <= p, p < l0), Select(fin, p) == Select(i0, p)), patterns=[Select(fin, p)]))
    const_map.append((base_i, fin))
    always_one = all(len(o) == 1 and o[0][0] == 'one' for o in ops)
    if always_one:
        cnt = lambda x: simplify(l0 + x)
    else:
        f = newfun('CNT', IntSort(), IntSort())
        lim = newfun('LCNT', IntSort(), IntSort())   # the same function; occurrences that must not trigger further unfolding
        src = newfun('src', IntSort(), IntSort())   # the iteration that wrote a position
        cnt = lambda x: f(x)
        xl = Int('xl')
        out.assume(f(0) == l0, ForAll([xl], f(xl) == lim(xl), patterns=[f(xl)]))
    const_map.append((base_l, cnt(q)))
    hints = []

    def transition(oi, s, sub):
        segs = ops[oi]
        nxt = None if always_one else lim(q + 1)
        if not segs:
            return [nxt == cnt(q)]
        kind = segs[0][0]
        if kind == 'one':
            fs = []
            for off, (_, e) in enumerate(segs):
                hints.append(eng.hint(s, e) if ctor(e) != 'i' else (I.POS if entails(s.pc, arg(e, 'i') > 0) else I.INT))
                pos = cnt(q) + off if off else cnt(q)
                fs.append(Select(fin, pos) == sub(e))
                if not always_one:
                    fs.append(src(pos) == q)
            if not always_one:
                fs.append(nxt == cnt(q) + len(segs))
            return fs
        hints.append(None)
        arr, n = sub(segs[0][1]), sub(segs[0][2])
        j = Int('jc')
        return [n >= 0, nxt == cnt(q) + n,
                ForAll([j], Implies(And(0 <= j, j < n), And(Select(fin, cnt(q) + j) == Select(arr, j), src(cnt(q) + j) == q)),
                       patterns=[Select(arr, j)])]

    def finish(o, bound):
        if not always_one:
            x, y = Int('x1'), Int('x2')
            o.assume(
                ForAll([x], Implies(And(0 <= x, x <= bound), And(l0 <= cnt(x), cnt(x) <= cnt(bound))), patterns=[cnt(x)]),
                ForAll([x, y], Implies(And(0 <= x, x < y, y <= bound), cnt(x) <= cnt(y)),
                       patterns=[z3.MultiPattern(cnt(x), cnt(y))]),
                ForAll([x], Implies(And(l0 <= x, x < cnt(bound)),
                                    And(0 <= src(x), src(x) < bound, cnt(src(x)) <= x, x < lim(src(x) + 1))),
                       patterns=[Select(fin, x), src(x)]),
                ForAll([x], Implies(And(0 <= x, x < bound), lim(x + 1) <= cnt(bound)), patterns=[cnt(x)]),
                l0 <= cnt(bound))
            if all(len(op) == 0 or op[0][0] == 'one' and len(op) == 1 for op in ops):
                o.assume(ForAll([x], Implies(And(0 <= x, x <= bound), cnt(x) <= l0 + x), patterns=[cnt(x)]))
        if is_true(simplify(l0 == 0)) and not always_one and all(g[0] == 'one' for op in ops for g in op):
            prov = []
            for (qq, cs, sb), op in zip(S.outcome_facts, ops):
                drop = lambda c: is_true(simplify(c)) or c.eq(f(qq) >= 0) or mentions(c, S.local_funs) and not mentions(c, {d.get_id() for d in (f, lim, src)})
                cs = [c for c in cs if not drop(c)]
                if any(has_quant(c) or mentions(c, {d.get_id() for d in (f, lim, src)}) for c in cs):
                    prov = None
                    break
                prov.append((qq, cs, [sb(e) for _, e in op]))
            if prov is not None:
                eng.provenance[fin.get_id()] = (fin, bound, prov)
        o.heap['item'] = Store(o.h('item'), a, fin)
        o.heap['len'] = Store(o.h('len'), a, simplify(cnt(bound)))
        if eng.write_log is not None:
            eng.write_log.append(('item', a, o))
        hs = [h for h in hints]
        if is_true(simplify(l0 == 0)) and hs and all(h is not None for h in hs) and \
                all(h.kind == hs[0].kind and h.cls == hs[0].cls and h.pred == hs[0].pred and h.values == hs[0].values and not h.args for h in hs):
            o.hints[('adr', a.get_id())] = I.LIST(hs[0])
    P.transition, P.finish = transition, finish
    return P


def plan_dict(S, aid, a, loc_syms, normal, newfun, q, const_map, out, bound):
    """dictionary that only receives d[k]=v, one per iteration, and is not read in the loop"""
    eng = S.eng
    syms = {hn: loc_syms[(aid, hn)] for hn in ('has', 'get', 'idx', 'len', 'item')}
    ops = []
    for _, s, _ in normal:
        has, get = eng.sel(s, 'has', a), eng.sel(s, 'get', a)
        if has.eq(syms['has']) and get.eq(syms['get']):
            ops.append(None)
            continue
        if has.decl().kind() == z3.Z3_OP_STORE and has.arg(0).eq(syms['has']) and is_true(has.arg(2)) and \
                get.decl().kind() == z3.Z3_OP_STORE and get.arg(0).eq(syms['get']) and get.arg(1).eq(has.arg(1)):
            ops.append((has.arg(1), get.arg(2)))
        else:
            return None
    ids = {c.decl().get_id() for c in syms.values()}
    for (_, s, _), op in zip(normal, ops):
        for f in s.pc[S.data[6]:]:
            if mentions(f, ids) and not _is_wf(f, syms):
                return None
        if op is not None and (mentions(op[0], ids) or mentions(op[1], ids)):
            return None
        for name in S.data[1]:
            if z3.is_expr(s.env.get(name)) and mentions(s.env[name], ids):
                return None
    P = AppendPlan()
    old = {hn: eng.sel(S.st, hn, a) for hn in ('has', 'get', 'idx', 'len', 'item')}
    fin = {hn: eng.fresh('d' + hn, syms[hn].sort()) for hn in syms}
    for hn in syms:
        const_map.append((syms[hn], fin[hn]))   # only occurs in well-formedness facts, true of the final contents
    last = newfun('last', V, IntSort())
    written = newfun('wr', IntSort(), BoolSort())
    keyf = newfun('key', IntSort(), V)
    valf = newfun('val', IntSort(), V)

    def transition(oi, s, sub):
        op = ops[oi]
        if op is None:
            return [Not(written(q))]
        return [written(q), keyf(q) == sub(op[0]), valf(q) == sub(op[1])]

    def finish(o, bound):
        k, x = Const('kd', V), Int('xd')
        o.assume(
            ForAll([x], Implies(And(0 <= x, x < bound, written(x)),
                                And(Select(fin['has'], keyf(x)), x <= last(keyf(x)), last(keyf(x)) < bound,
                                    written(last(keyf(x))), keyf(last(keyf(x))) == keyf(x),
                                    Select(fin['get'], keyf(x)) == valf(last(keyf(x))))), patterns=[keyf(x), written(x)]),
            ForAll([k], Implies(Select(fin['has'], k),
                                Or(And(0 <= last(k), last(k) < bound, written(last(k)), keyf(last(k)) == k),
                                   And(Select(old['has'], k), Select(fin['get'], k) == Select(old['get'], k)))),
                   patterns=[Select(fin['has'], k)]),
            ForAll([k], Implies(Select(old['has'], k), Select(fin['has'], k)), patterns=[Select(fin['has'], k)]))
        y = Int('yd')
        both = And(0 <= x, x < y, y < bound)
        w2 = [written(x), written(y)] if len(ops) > 1 else []
        if entails(o.pc, ForAll([x, y], Implies(And(both, *w2), keyf(x) != keyf(y))), 1500, quant=True):
            # keys are pairwise different: the written value is the one found
            o.assume(ForAll([x], Implies(And(0 <= x, x < bound, *([written(x)] if w2 else [])),
                                         And(Select(fin['get'], keyf(x)) == valf(x), last(keyf(x)) == x)), patterns=[keyf(x)]))
            if not w2 and z3.is_K(simplify(old['has'])) and is_false(simplify(old['has']).arg(0)):
                # a dictionary that was empty: insertion order
                o.assume(Implies(bound >= 0, fin['len'] == bound),
                         ForAll([x], Implies(And(0 <= x, x < bound), And(Select(fin['item'], x) == keyf(x), Select(fin['idx'], keyf(x)) == x)),
                                patterns=[keyf(x), Select(fin['item'], x)]))
        for hn in fin:
            o.heap[hn] = Store(o.h(hn), a, fin[hn])
        eng.dict_wf(o, a)
        if eng.write_log is not None:
            eng.write_log.append(('has', a, o))
    P.transition, P.finish = transition, finish
    return P


def _is_wf(f, syms):
    return is_quantifier(f) or is_true(simplify(f == (syms['len'] >= 0))) or (f.eq(syms['len'] >= 0))


class GeneralLoc:
    """exact recursion: contents after q iterations is a function of q"""

    def __init__(self, S, aid, a, kinds, loc_syms, normal, newfun, q, const_map, out, bound):
        self.S, self.a, self.kinds, self.q = S, a, sorted(kinds), q
        eng = S.eng
        self.f = {}
        for hn in self.kinds:
            c = loc_syms[(aid, hn)]
            f = newfun('LOC_' + hn.replace(':', '_'), IntSort(), c.sort())
            self.f[hn] = f
            out.assume(f(0) == eng.sel(S.st, hn, a))
            const_map.append((c, f(q)))

    def transition(self, oi, s, sub):
        eng = self.S.eng
        return [self.f[hn](self.q + 1) == sub(eng.sel(s, hn, self.a)) for hn in self.kinds]

    def finish(self, o, bound):
        eng = self.S.eng
        for hn in self.kinds:
            o.heap[hn] = Store(o.h(hn), self.a, self.f[hn](bound))
            if eng.write_log is not None:
                eng.write_log.append((hn, self.a, o))
        if 'has' in self.kinds:
            eng.dict_wf(o, self.a)
        if 'len' in self.kinds:
            o.assume(self.f['len'](bound) >= 0)


# ---- comprehensions -------------------------------------------------------------------------------------------
def eval_comp(eng, node, st, kind):
    """-> [(state, list or dict value)] ; nested generators become extend of the inner list"""
    gens = node.generators
    if any(g.is_async for g in gens):
        raise I.Unsupported('async comprehension')
    return _comp(eng, node, gens, st, kind)


def _comp(eng, node, gens, st, kind):
    g = gens[0]
    out = []
    for s, itv in eng.ev(g.iter, st):
        for s1, it in as_iter(eng, s, itv):
            if isinstance(it, I.Raised):
                out.append((s1, it))
                continue
            outer_env = s1.env
            s2 = s1.copy()
            acc = eng.new_dict(s2) if kind == 'dict' else eng.new_list(s2, [])
            names = assigned_names([g.target])
            for nm in names:
                s2.env.pop(nm, None)

            def body(sb, value, acc=acc):
                res = []
                for o in eng.assign(g.target, value, sb):
                    if o[0] != 'next':
                        res.append(o)
                        continue
                    res.extend(_guarded(eng, node, gens, g.ifs, o[1], acc, kind))
                return res
            for o in run_iter(eng, s2, it, body, set()):
                if o[0] == 'raise':
                    sr = o[1].copy()
                    sr.env = outer_env
                    out.append((sr, o[2]))
                elif o[0] == 'next':
                    sr = o[1].copy()
                    sr.env = outer_env
                    out.append((sr, acc))
                else:
                    raise I.Unsupported('control flow in comprehension')
    return out


def _guarded(eng, node, gens, ifs, st, acc, kind):
    if ifs:
        res = []
        for s, c in eng.ev_cond(ifs[0], st):
            if isinstance(c, I.Raised):
                res.append(('raise', s, c))
                continue
            for s2, t in eng.branch(s, c):
                if t:
                    res.extend(_guarded(eng, node, gens, ifs[1:], s2, acc, kind))
                else:
                    res.append(('next', s2, None))
        return res
    res = []
    if len(gens) > 1:
        if kind == 'dict':
            raise I.Unsupported('nested dict comprehension')
        for s, inner in _comp(eng, node, gens[1:], st, kind):
            if isinstance(inner, I.Raised):
                res.append(('raise', s, inner))
                continue
            for s2, r in eng.bm.list_extend(eng, s, acc, inner):
                res.append(('raise', s2, r) if isinstance(r, I.Raised) else ('next', s2, None))
        return res
    if kind == 'dict':
        for s, vals in eng.ev_seq([node.key, node.value], st):
            if isinstance(vals[0], I.Raised):
                res.append(('raise', s, vals[0]))
            else:
                res.extend(eng.bm.setitem(eng, s, acc, vals[0], vals[1]))
        return res
    for s, v in eng.ev(node.elt, st):
        if isinstance(v, I.Raised):
            res.append(('raise', s, v))
        elif kind == 'flat':
            for s2, r in eng.bm.list_extend(eng, s, acc, v):
                res.append(('raise', s2, r) if isinstance(r, I.Raised) else ('next', s2, None))
        else:
            for s2, r in eng.bm.list_append(eng, s, acc, v):
                res.append(('next', s2, None))
    return res
