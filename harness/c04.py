from lib import *
import copy as cp
import io
import values as G
import dvmodels as M
from dessia_common.core import DessiaObject


def mutables(v, out=None, path='#'):
    """id -> (path, value) of every mutable list, dictionary and object reachable as data"""
    out = {} if out is None else out
    if isinstance(v, (list, dict, DessiaObject)) and id(v) in out:
        return out
    if isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = (path, v)
        for i, x in enumerate(v):
            mutables(x, out, f'{path}/{i}')
    elif isinstance(v, dict):
        out[id(v)] = (path, v)
        for k, x in v.items():
            mutables(x, out, f'{path}/{k}')
    elif isinstance(v, DessiaObject):
        out[id(v)] = (path, v)
        for k, x in v.__dict__.items():
            if k != 'hidden' and not k.startswith('_'):
                mutables(x, out, f'{path}/{k}')
    return out


def names(v):
    return sorted((p, x.name) for p, x in mutables(v).values() if isinstance(x, DessiaObject))


def frozen(v):
    """complete structural description, names and order included"""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, frozen(x)) for k, x in v.items()])
    if isinstance(v, DessiaObject):
        return (type(v).__name__, [(k, frozen(x)) for k, x in v.__dict__.items() if k != 'hidden' and not k.startswith('_')])
    return (type(v).__name__, repr(v))


def untupled(f):
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ('tuple', 'list') and isinstance(f[1], list):
        return ('seq', [untupled(x) for x in f[1]])
    if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], list):
        return (f[0], [(k, untupled(x)) for k, x in f[1]])
    return f


def scramble(rng, v, depth=0):
    """modify everything mutable reachable from v"""
    for _, x in list(mutables(v).values()):
        if isinstance(x, list):
            x.append('scrambled')
            x.insert(0, 12345)
        elif isinstance(x, dict):
            for k in list(x):
                if not isinstance(x[k], (list, dict, DessiaObject)):
                    x[k] = 'scrambled'
            x['scrambled'] = 1
        else:
            for k, y in list(x.__dict__.items()):
                if not k.startswith('_') and not isinstance(y, (list, dict, DessiaObject)):
                    x.__dict__[k] = 'scrambled'


def check_copy(run, rng, o, c):
    run.check(type(c) is type(o) and c is not o, 'a copy is not a new object of the same class', o=o.__dict__)
    run.check(c == o and o == c and hash(c) == hash(o), 'a copy is not equal to the original', o=o.__dict__, c=c.__dict__)
    run.check(G.spec_eq(o, c), 'a copy does not hold the data of the original', o=o.__dict__, c=c.__dict__)
    run.check(c.name == o.name, 'a copy has another name', o=o.name, c=c.name)
    mo, mc = mutables(o), mutables(c)
    shared = [mo[i][0] + ' = ' + mc[i][0] for i in mo if i in mc]
    run.check(not shared, 'a deep copy shares mutable data with the original', shared=shared)
    run.check(untupled(frozen(o)) == untupled(frozen(c)), 'a copy differs from the original in a name, a type or an order', o=frozen(o), c=frozen(c))


def deep(run, rng):
    for _ in range(run.n(1500)):
        o = G.obj(rng, 3)
        run.case(o.__dict__)
        before = frozen(o)
        how = rng.randrange(4)
        c = o.copy() if how == 0 else o.copy(deep=True) if how == 1 else cp.deepcopy(o) if how == 2 else o.copy(deep=True, memo={})
        run.check(frozen(o) == before, 'copying changes the original')
        check_copy(run, rng, o, c)
        cc = c.copy()
        check_copy(run, rng, c, cc)
        scramble(rng, c)
        run.check(frozen(o) == before, 'changing a deep copy changes the original', before=before, after=frozen(o))
        run.check(G.spec_eq(o, cc), 'changing a deep copy changes an other copy')
        if run.over():
            break


def sharing(run, rng):
    """one object used in several places is one object in the copy; independent copies of one call each"""
    for _ in range(run.n(300)):
        s = rng.choice([M.Leaf(rng.random(), 'sh'), M.Box(rng.randrange(99), [1, [2]], {'a': {}}), M.Partial(rng.randrange(99))])
        k1, k2 = rng.sample(G.KEYS, 2)
        o = rng.choice([
            lambda: (M.Box(s, [s, [s]], {k1: s}), lambda c: [c.content, c.items[0], c.items[1][0], c.table[k1]]),
            lambda: (M.Pair(M.Box(s, [0]), M.Box([s], [1]), 3.), lambda c: [c.left.content, c.right.content[0]]),
            lambda: (M.Box({k1: s, k2: [s]}, [M.Box(s, [5])]), lambda c: [c.content[k1], c.content[k2][0], c.items[0].content]),
            lambda: (M.Box(None, [s, M.Box(1, s), s]), lambda c: [c.items[0], c.items[1].items, c.items[2]]),
            lambda: (M.Box(None, [[s], [1, s], {k1: s}]), lambda c: [c.items[0][0], c.items[1][1], c.items[2][k1]]),
            lambda: (M.Box((s, (s, 1))), lambda c: [c.content[0], c.content[1][0]]),
            lambda: (M.Box({k1: {k2: s}, k2: {k1: s}}), lambda c: [c.content[k1][k2], c.content[k2][k1]]),
            lambda: (M.Box([M.Box([s], 1), M.Box([2, s], 2)], {k1: M.Box(s)}), lambda c: [c.content[0].content[0], c.content[1].content[1], c.items[k1].content]),
            lambda: (M.Team([M.Box(s, 7), M.Box(s, 8)], None, {k1: s}), lambda c: [c.leaves[0].content, c.leaves[1].content, c.index[k1]])])()
        o, refs = o
        run.case(o.__dict__)
        c = o.copy()
        check_copy(run, rng, o, c)
        got = refs(c)
        run.check(all(x is got[0] for x in got), 'an object used in several places is not one object in the copy')


def shallow(run, rng):
    for _ in range(run.n(300)):
        o = G.obj(rng, 2)
        before = frozen(o)
        run.case(o.__dict__)
        c = o.copy(deep=False) if rng.random() < .5 else cp.copy(o)
        run.check(type(c) is type(o) and c is not o and c == o and c.name == o.name, 'a shallow copy is not an equal new object')
        run.check(frozen(o) == before, 'a shallow copy changes the original')
        for k in list(c.__dict__):
            if not k.startswith('_'):
                c.__dict__[k] = 'scrambled'
        run.check(frozen(o) == before, 'reassigning attributes of a shallow copy changes the original')


def plain(run, rng):
    from dessia_common.utils.copy import deepcopy_value
    for _ in range(run.n(600)):
        v = G.value(rng, 3)
        before = frozen(v)
        run.case(v)
        c = deepcopy_value(v, memo={})
        run.check(G.spec_eq(v, c), 'deepcopy_value does not give equal data', v=v, c=c)
        mo, mc = mutables(v), mutables(c)
        run.check(not set(mo) & set(mc), 'deepcopy_value shares mutable data with the original', v=v)
        scramble(rng, c)
        run.check(frozen(v) == before, 'changing the copy changes the original', v=v)


def files(run, rng):
    from dessia_common.files import BinaryFile, StringFile
    for _ in range(run.n(30)):
        s = StringFile()
        s.write('abc' * rng.randrange(4))
        s.filename = 'f.txt'
        b = BinaryFile()
        b.write(b'xyz' * rng.randrange(4))
        o = M.Box(s, [b], {})
        run.case((s.getvalue(), b.getvalue()))
        c = o.copy()
        run.check(c.content is not s and c.items[0] is not b, 'a deep copy shares its files')
        run.check(c.content.getvalue() == s.getvalue() and c.items[0].getvalue() == b.getvalue(), 'a copied file has another content')
        c.content.seek(0, 2)
        c.content.write('more')
        run.check('more' not in s.getvalue(), 'writing in a copied file writes in the original')


if __name__ == '__main__':
    sys.exit(main('C04', [('deep', deep), ('sharing', sharing), ('shallow', shallow), ('plain', plain), ('files', files)]))
