from lib import *
import math
import values as G
import dvmodels as M


def api():
    from dessia_common.utils.diff import diff
    from dessia_common.core import data_eq
    return diff, data_eq


class _Missing:
    pass


MISSING = _Missing()


def resolve(v, path):
    """value at a diff path, by the structure (independent of the library's own path reader)"""
    segs = [s for s in path.split('/')[1:]]
    cur = v
    for s in segs:
        if isinstance(cur, (list, tuple)):
            if not s.isdigit() or int(s) >= len(cur):
                return MISSING
            cur = cur[int(s)]
        elif isinstance(cur, dict):
            ks = [k for k in cur if str(k) == s]
            if not ks:
                return MISSING
            cur = cur[ks[0]]
        elif hasattr(cur, '__dict__'):
            if s not in cur.__dict__:
                return MISSING
            cur = cur.__dict__[s]
        else:
            return MISSING
    return cur


def expected(a, b, path='#'):
    """the differences by definition: list of (kind, path)"""
    seq = (list, tuple)
    if isinstance(a, seq) and isinstance(b, seq):
        if len(a) != len(b):
            return [('value', path)]
        return [e for i, (x, y) in enumerate(zip(a, b)) for e in expected(x, y, f'{path}/{i}')]
    if not isinstance(a, type(b)) and not isinstance(b, type(a)):
        return [('type', path)]
    if a is None or isinstance(a, (int, float, str)):
        return [] if G.spec_eq(a, b) else [('value', path)]
    if isinstance(a, dict):
        out = []
        for k in a:
            out += [('missing2', f'{path}/{k}')] if k not in b else expected(a[k], b[k], f'{path}/{k}')
        return out + [('missing1', f'{path}/{k}') for k in b if k not in a]
    if type(a) is not type(b):
        return [('type', path)]
    return expected(G.data_attrs(a), G.data_attrs(b), path)


def listing(d):
    return sorted([('value', e.path) for e in d.different_values] + [('type', e.path) for e in d.invalid_types]
                  + [('missing1' if e.missing_in_first_object else 'missing2', e.path) for e in d.missing_attributes])


def same(x, y):
    if x is y:
        return True
    try:
        return type(x) is type(y) and G.spec_eq(x, y)
    except Exception:
        return False


def check_pair(run, a, b, diff, data_eq):
    d = diff(a, b)
    want = sorted(expected(a, b))
    run.check(bool(d.is_empty()) == (not want), 'diff is empty though the values differ, or the converse', a=a, b=b, diff=repr(d), want=want)
    run.check(bool(d.is_empty()) == bool(data_eq(a, b)), 'diff emptiness disagrees with data equality', a=a, b=b, diff=repr(d))
    got = listing(d)
    run.check(got == want, 'diff does not report exactly the places that differ', a=a, b=b, got=got, want=want)
    for e in d.different_values + d.invalid_types:
        run.check(same(e.value1, resolve(a, e.path)) and same(e.value2, resolve(b, e.path)),
                  'reported values are not those found at the path in the first and second value', path=e.path, v1=e.value1, v2=e.value2, a=a, b=b)
    r = diff(b, a)
    flip = {'value': 'value', 'type': 'type', 'missing1': 'missing2', 'missing2': 'missing1'}
    run.check(listing(r) == sorted((flip[k], p) for k, p in got), 'swapping the operands does not mirror the diff', a=a, b=b, ab=got, ba=listing(r))
    rep = repr(d)
    if want:
        for _, p in want:
            run.check(p in rep, 'a difference is absent from the printed diff', path=p, printed=rep)


def equal_values(run, rng):
    diff, data_eq = api()
    for _ in range(run.n(1500)):
        v = G.value(rng, 3)
        run.case(v)
        run.check(diff(v, G.rebuild(v)).is_empty(), 'diff of identical values is not empty', v=v)
        check_pair(run, v, v, diff, data_eq)


def near_misses(run, rng):
    diff, data_eq = api()
    for _ in range(run.n(2500)):
        v = G.value(rng, 3)
        m = G.mutate(rng, v)
        if m is None:
            continue
        w = m[0]
        for _ in range(rng.randrange(3)):
            m = G.mutate(rng, w)
            w = m[0] if m else w
        run.case((v, w))
        check_pair(run, v, w, diff, data_eq)


def objects(run, rng):
    diff, data_eq = api()
    for _ in range(run.n(2000)):
        v = G.obj(rng, 3)
        w = G.rebuild(v)
        if rng.random() < .3:
            w.name = 'another name'
        for _ in range(rng.randrange(3)):
            m = G.mutate(rng, w)
            w = m[0] if m else w
        run.case((v.__dict__, w.__dict__))
        check_pair(run, v, w, diff, data_eq)
        d = v._data_diff(w)
        run.check(listing(d) == listing(diff(v, w)), '_data_diff differs from diff')


def dictionaries(run, rng):
    diff, data_eq = api()
    for _ in range(run.n(1500)):
        keys = G.KEYS[:5] + [0, 1, 2]
        a = {k: G.scalar(rng) for k in rng.sample(keys, rng.randrange(7))}
        b = {k: (a[k] if k in a and rng.random() < .6 else G.scalar(rng)) for k in rng.sample(keys, rng.randrange(7))}
        run.case((a, b))
        check_pair(run, a, b, diff, data_eq)
        check_pair(run, M.Box(table=a), M.Box(table=b), diff, data_eq)


def pool(run, rng):
    diff, data_eq = api()
    vals = G.FLOATS + G.INTS + G.STRS[:6] + [True, False, None, [], (), {}, [1], (1,), [1.0], {'a': 1}, {'a': 1, 'b': 2},
                                             {'b': 1}, M.Leaf(), M.LeafSub(), M.Twin(), M.Leaf(1.), [[]], [None]]
    for a in vals:
        for b in vals:
            run.case((a, b))
            check_pair(run, a, b, diff, data_eq)


def addition(run, rng):
    from dessia_common.utils.diff import diff
    for _ in range(run.n(300)):
        a, b, c, d = (G.value(rng, 2) for _ in range(4))
        x, y = diff(a, b), diff(c, d)
        lx, ly = listing(x), listing(y)
        z = x + y
        run.case((a, b, c, d))
        run.check(listing(z) == sorted(lx + ly), 'adding diffs loses or invents differences', x=lx, y=ly, z=listing(z))
        run.check(listing(x) == lx and listing(y) == ly, 'adding diffs changes its operands')
        run.check(z.is_empty() == (x.is_empty() and y.is_empty()), 'is_empty is wrong after adding diffs')


if __name__ == '__main__':
    sys.exit(main('C02', [('equal_values', equal_values), ('near_misses', near_misses), ('objects', objects),
                          ('dictionaries', dictionaries), ('pool', pool), ('addition', addition)]))
