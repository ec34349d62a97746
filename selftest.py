#!/usr/bin/env python3-vt
"""Cross-check of the verification-condition generator against CPython (run by hand; not part of the checks).

For every function of selftest/snippets.py and every generated input, the engine runs the function on symbolic
arguments constrained to the input.  CPython's result must be consistent with the derived facts (a contradiction means
that the engine proves false things), and a result other than CPython's must not be provable.
"""
import os
import random
import signal
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(HERE, 'selftest'))
from pyvc.verify import *
import snippets

TY = {'int': INT, 'str': STR, 'list': LIST(INT), 'dict': DICT(STR, INT)}


def gen(rng, ty):
    if ty == 'int':
        return rng.choice([-8, -1, 0, 1, 2, 3, 7])
    if ty == 'str':
        return rng.choice(['', 'a', 'ab', 'a/b', 'k1', 'Abb'])
    if ty == 'list':
        return [rng.choice([-1, 0, 1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3]))]
    return {k: rng.choice([0, 1, 2, 5]) for k in rng.sample(['a', 'ab', 'k1', 'z'], rng.choice([0, 1, 2, 3]))}


def is_value(w, v, x):
    """the formula: v denotes the Python value x"""
    if x is None:
        return v == V.none
    if isinstance(x, bool):
        return v == vb(x)
    if isinstance(x, int):
        return v == V.i(x)
    if isinstance(x, float):
        return And(V.is_f(v), V.fv(v) == z3.RealVal(str(x)))
    if isinstance(x, str):
        return v == V.s(StringVal(x))
    if isinstance(x, (list, tuple)):
        if isinstance(v, tuple):
            return And(len(v) == len(x), *[is_value(w, a, b) for a, b in zip(v, x)])
        return And(w.tag(v, T_TUPLE if isinstance(x, tuple) else T_LIST), w.len(v) == len(x), *[is_value(w, w.item(v, i), y) for i, y in enumerate(x)])
    if isinstance(x, dict):
        k = Const('sk', V)
        key = lambda q: V.s(StringVal(q)) if isinstance(q, str) else V.i(q)
        return And(w.tag(v, T_DICT), w.len(v) == len(x), *[And(w.item(v, i) == key(q), w.has(v, key(q)), is_value(w, w.get(v, key(q)), y)) for i, (q, y) in enumerate(x.items())],
                   ForAll([k], Implies(w.has(v, k), Or(*[k == key(q) for q in x]))))
    raise ValueError(x)


def other(x):
    """a different value"""
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        return x + 1
    if isinstance(x, str):
        return x + '~'
    if isinstance(x, (list, tuple)):
        return type(x)(list(x[:-1]) + [other(x[-1])]) if x else type(x)([1])
    if isinstance(x, dict):
        return {**x, 'more': 1}
    return 0


def alarm(*_):
    raise Budget('time')


def main():
    only = sys.argv[1:]
    rng = random.Random(5)
    repo = Repo(os.path.join(HERE, 'selftest'), 'snippets')
    signal.signal(signal.SIGALRM, alarm)
    bad = consistent = exact = skipped = total = 0
    for name, fi in repo.module('snippets').functions.items():
        if name.startswith('_'):
            continue
        if only and name not in only:
            continue
        tys = [a.annotation.id for a in fi.node.args.args]
        st_ = dict(ok=0, exact=0, skip='')
        seen = []
        for _ in range(12):
            xs = [gen(rng, t) for t in tys]
            if xs in seen or len(seen) >= 4:
                continue
            seen.append(xs)
            import copy
            try:
                want = getattr(snippets, name)(*copy.deepcopy(xs))
            except Exception as e:
                want = Raised(type(e).__name__)
            total += 1
            signal.alarm(40)
            try:
                eng = Engine(repo)
                st = eng.new_state(fi.module, None)
                ps = [param(eng, st, a.arg, TY[t]) for a, t in zip(fi.node.args.args, tys)]
                w = View(eng, st)
                st.assume(*[is_value(w, p, x) for p, x in zip(ps, xs)])
                if len(ps) == 2 and all(V.is_r(p) is not None for p in ps) and tys[0] == tys[1] == 'list':
                    st.assume(ps[0] != ps[1])
                if not feasible(st.pc, 3000):
                    print('BAD INPUT', name, xs)
                    bad += 1
                    continue
                agree, proved_ok, proved_bad = False, True, False
                for s, v in eng.call_func(st.copy(), fi, ps, {}, force_inline=True):
                    if not feasible(s.pc, 2000):
                        continue
                    if isinstance(v, Raised) or isinstance(want, Raised):
                        if isinstance(v, Raised) and isinstance(want, Raised) and v.exc == want.exc:
                            agree = True
                        elif prove(s.pc, BoolVal(False), 1500)[0] != 'proved':
                            proved_ok = False
                        continue
                    if isinstance(v, I.Eng):
                        v = eng.reify(s, v)
                    f = is_value(View(eng, s), v, want)
                    z = Solver()
                    z.set('timeout', 4000)
                    z.add(*s.pc, f)
                    r = z.check()
                    agree = agree or r != unsat
                    if prove(s.pc, f, 2500)[0] != 'proved':
                        proved_ok = False
                    if r != unsat and prove(s.pc, is_value(View(eng, s), v, other(want)), 700)[0] == 'proved':
                        proved_bad = True
                signal.alarm(0)
                if not agree or proved_bad:
                    bad += 1
                    print(f'UNSOUND {name}{tuple(xs)}: CPython gives {want.exc if isinstance(want, Raised) else want!r}', 'no path agrees' if not agree else 'a wrong result is provable')
                else:
                    consistent += 1
                    st_['ok'] += 1
                    exact += proved_ok
                    st_['exact'] += proved_ok
            except (Unsupported, Budget) as e:
                skipped += 1
                st_['skip'] = str(e)
            finally:
                signal.alarm(0)
        print(name, st_)
    print(f'{total} runs: {consistent} consistent with CPython ({exact} with the exact result proved), {skipped} outside the subset, {bad} unsound')
    return 1 if bad else 0


import pyvc.interp as I
if __name__ == '__main__':
    sys.exit(main())
