from lib import *
import values as G
import dvmodels as M


def imports():
    from dessia_common.core import data_eq
    return data_eq


def reflexive(run, rng):
    data_eq = imports()
    for _ in range(run.n(2500)):
        v = G.value(rng, 3)
        w = G.rebuild(v)
        run.case(v)
        run.check(data_eq(v, v) is True, 'a value is not data-equal to itself', v=v)
        run.check(data_eq(v, w) is True, 'a value is not data-equal to an identical rebuild', v=v)
    for _ in range(run.n(2500)):
        v = G.obj(rng, 3)
        w = G.rebuild(v)
        run.case(v.__dict__)
        run.check(v == v and v == w and not (v != w), 'an object is not == to an identical rebuild', v=v.__dict__)
        run.check(hash(v) == hash(w), 'identical objects hash differently', v=v.__dict__)
        run.check(len({v, w}) == 1 and w in {v: 1}, 'identical objects are not found in sets or dict keys', v=v.__dict__)


def spec(run, rng):
    """agreement with the documented definition, both orders, on near misses"""
    data_eq = imports()
    for _ in range(run.n(4000)):
        v = G.value(rng, 3)
        m = G.mutate(rng, v)
        w = m[0] if m else G.value(rng, 2)
        if rng.random() < .2:
            m2 = G.mutate(rng, w)
            w = m2[0] if m2 else w
        run.case((v, w))
        r, s, want = data_eq(v, w), data_eq(w, v), G.spec_eq(v, w)
        run.check(bool(r) == bool(s), 'data equality is not symmetric', a=v, b=w, ab=r, ba=s)
        run.check(bool(r) == want, 'data equality differs from the documented one', a=v, b=w, got=r, want=want)
    pool = G.FLOATS + G.INTS + G.STRS[:6] + [True, False, None, [], (), {}, [1], (1,), [1.0], {'a': 1}, {'a': 1, 'b': 2},
                                             {'b': 1}, M.Leaf(), M.LeafSub(), M.Twin(), M.Leaf(1.), [[]], [None]]
    for a in pool:
        for b in pool:
            run.case((a, b))
            r, want = data_eq(a, b), G.spec_eq(a, b)
            run.check(bool(r) == want, 'data equality differs from the documented one', a=a, b=b, got=r, want=want)
    for d in (0., 1e-12, 9e-10, 1.1e-9, 2e-9, 1e-6, 1e-3):
        for base in (0., 1., -1., 1000., 1e-5, 1e6):
            a, b = base, base + d
            run.case((a, b))
            for x, y in ((a, b), ([a], [b]), ({'k': a}, {'k': b}), (M.Leaf(a), M.Leaf(b))):
                run.check(bool(data_eq(x, y)) == math.isclose(a, b, abs_tol=1e-9), 'floats are compared with another tolerance', a=a, b=b)


import math


def discriminates(run, rng):
    """changing anything that takes part in data equality makes objects different, at any depth"""
    data_eq = imports()
    for _ in range(run.n(4000)):
        v = G.obj(rng, 3)
        m = G.mutate(rng, v)
        if m is None:
            continue
        w, path = m
        run.case((v.__dict__, path))
        if G.spec_eq(v, w):
            continue
        run.check(not data_eq(v, w) and not data_eq(w, v), 'objects that differ are data-equal', path=path, a=v.__dict__, b=w.__dict__)
        run.check(v != w and w != v and not v == w, 'objects that differ are ==', path=path)


def hash_eq(run, rng):
    """a == b implies the same hash; equal data in another container order or type hashes alike"""
    data_eq = imports()
    objs = []
    for _ in range(run.n(60)):
        v = G.obj(rng, 2)
        objs.append(v)
        objs.append(G.rebuild(v))
        m = G.mutate(rng, v)
        if m:
            objs.append(m[0])
    for a in objs:
        for b in objs:
            run.case(None, nontrivial=False)
            e = a == b
            run.check(e == (b == a), '== is not symmetric', a=a.__dict__, b=b.__dict__)
            if e:
                run.check(hash(a) == hash(b), 'equal objects hash differently', a=a.__dict__, b=b.__dict__)
                run.check(G.spec_eq(a, b), 'objects that differ are ==', a=a.__dict__, b=b.__dict__)
    for _ in range(run.n(300)):
        keys = rng.sample(G.KEYS, rng.randrange(1, 6))
        if rng.random() < .4:
            keys = [k if rng.random() < .5 else rng.randrange(5) for k in keys]
        items = [(k, G.value(rng, 2)) for k in dict.fromkeys(keys)]
        shuffled = items[:]
        rng.shuffle(shuffled)
        a, b = M.Box(1, [], dict(items)), M.Box(1, [], dict(shuffled))
        run.case(items)
        run.check(a == b and hash(a) == hash(b), 'insertion order of a dictionary changes equality or hash', items=items)
    for _ in range(run.n(200)):
        seq = [G.value(rng, 2) for _ in range(rng.randrange(4))]
        a, b = M.Box(seq), M.Box(tuple(seq))
        run.case(seq)
        run.check(data_eq(a, b) and a == b and hash(a) == hash(b), 'a tuple and a list of equal elements compare or hash differently', seq=seq)


def ignored(run, rng):
    """name and the attributes declared as not taking part do not change equality or hash"""
    data_eq = imports()
    for _ in range(run.n(200)):
        v = G.obj(rng, 2)
        w = G.rebuild(v)
        w.name = rng.choice(['other', '', 'x' * 5])
        run.case((v.__dict__, w.name))
        run.check(v == w and hash(v) == hash(w) and data_eq(v, w), 'the name takes part in equality or hash', v=v.__dict__)
    for _ in range(run.n(200)):
        val, wt = rng.choice(G.INTS), rng.choice(G.FLOATS[:-2])
        a = M.Partial(val, wt, rng.choice(G.STRS), rng.choice(G.STRS))
        b = M.Partial(val, wt, rng.choice(G.STRS), rng.choice(G.STRS))
        run.case((a.__dict__, b.__dict__))
        run.check(a == b and hash(a) == hash(b), 'excluded attributes take part in equality or hash', a=a.__dict__, b=b.__dict__)
        wt2 = wt + 1 + abs(wt)
        c = M.Partial(val, wt2, a.comment, a.name)
        run.check(a != c and hash(a) == hash(c), 'an attribute excluded from hash only is treated wrongly', a=a.__dict__, c=c.__dict__)
        # nested
        run.check(data_eq([a], [b]) and not data_eq({'k': a}, {'k': c}), 'nested excluded attributes are treated wrongly')


def strictness(run, rng):
    for _ in range(run.n(30)):
        v = rng.choice(G.INTS)
        a, b = M.Strict(v), M.Strict(v)
        run.case(v)
        run.check(a == a and a != b and not (a == b), 'objects with _eq_is_data_eq False are not compared by identity')
        run.check(len({a, b}) == 2, 'objects with _eq_is_data_eq False collapse in a set')


def types_and_classes(run, rng):
    data_eq = imports()
    classes = [int, float, str, M.Leaf, M.Twin, M.LeafSub, dict]
    for a in classes:
        for b in classes:
            run.case((a, b))
            run.check(bool(data_eq(a, b)) == (a is b), 'classes used as values are compared wrongly', a=a, b=b)
            run.check(bool(data_eq([a], [b])) == (a is b), 'classes used as values are compared wrongly', a=a, b=b)
    mk = [lambda c: c(1.5, 'l', True, name='n')]
    for c1 in (M.Leaf, M.LeafSub, M.Twin):
        for c2 in (M.Leaf, M.LeafSub, M.Twin):
            a, b = mk[0](c1), mk[0](c2)
            run.case((c1, c2))
            run.check(bool(data_eq(a, b)) == (c1 is c2) and (a == b) == (c1 is c2), 'objects of different classes are equal', c1=c1, c2=c2)
    import numpy as npy
    for a, b in ((npy.int64(3), 3), (npy.float64(2.5), 2.5), (npy.float64(2.5), npy.float64(2.5 + 1e-12)), (npy.int64(3), npy.int64(4)),
                 (npy.float64(2.5), 2.6), (npy.float64(0.), 5e-10), (npy.float64(0.), 5e-8), (npy.int64(2), 2.0)):
        run.case((a, b))
        want = math.isclose(a, b, abs_tol=1e-9)
        run.check(bool(data_eq(a, b)) == want and bool(data_eq(b, a)) == want, 'numpy scalars are compared wrongly', a=a, b=b)


def transitive(run, rng):
    data_eq = imports()
    pool = []
    for _ in range(run.n(40)):
        v = G.obj(rng, 2)
        pool += [v, G.rebuild(v)]
        m = G.mutate(rng, v)
        if m:
            pool.append(m[0])
    tab = [[bool(data_eq(a, b)) for b in pool] for a in pool]
    n = len(pool)
    for i in range(n):
        for j in range(n):
            if tab[i][j]:
                for k in range(n):
                    if tab[j][k] and not tab[i][k] and G.spec_eq(pool[i], pool[j]) and G.spec_eq(pool[j], pool[k]):
                        run.check(G.spec_eq(pool[i], pool[k]) is False, 'data equality is not transitive', a=pool[i].__dict__, b=pool[j].__dict__, c=pool[k].__dict__)
    run.case(('pool', n))


if __name__ == '__main__':
    sys.exit(main('C01', [('reflexive', reflexive), ('spec', spec), ('discriminates', discriminates), ('hash_eq', hash_eq),
                          ('ignored', ignored), ('strictness', strictness), ('types_and_classes', types_and_classes),
                          ('transitive', transitive)]))
