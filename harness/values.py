"""Generators of values of the data domain: numbers, strings, booleans, None, lists, tuples, dictionaries and objects."""
import math
import dvmodels as M
import dvmodels2 as M2
from dessia_common.core import DessiaObject

FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, 2.25, 1e-12, 5e-10, 1e-9, 3e-9, 1e6, 1e6 + 1e-4, 1e12, -7.125, 0.1, 1 / 3, 123456.789,
          float('inf'), float('-inf')]
INTS = [0, 1, -1, 2, 3, 7, 10, 100, 10 ** 12, -5]
STRS = ['', 'a', 'b', 'ab', 'ba', 'abc', 'name', '0', '1', 'é', 'A', ' ', 'aa', 'hello world']
KEYS = ['a', 'b', 'c', 'k1', 'key', 'x', 'name', 'zeta']


def scalar(rng, finite=True):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(FLOATS[:-2] if finite else FLOATS)
    if k == 1:
        return rng.choice(INTS)
    if k == 2:
        return rng.choice(STRS)
    if k == 3:
        return rng.choice([True, False])
    if k == 4:
        return None
    return round(rng.uniform(-100, 100), 3)


def leaf(rng, cls=None):
    cls = cls or rng.choice([M.Leaf, M.Leaf, M.LeafSub, M.Twin])
    return cls(rng.choice(FLOATS[:-2]), rng.choice(STRS), rng.choice([True, False]), name=rng.choice(['', 'n1', 'n2']))


def value(rng, depth=3, tuples=True, objects=True, int_keys=True):
    k = rng.randrange(10)
    if depth <= 0 or k < 3:
        return scalar(rng)
    if rng.random() < .03:
        return big(rng, tuples, objects)
    sub = lambda: value(rng, depth - 1, tuples, objects, int_keys)
    if k in (3, 4):
        return [sub() for _ in range(rng.randrange(4))]
    if k == 5:
        seq = [sub() for _ in range(rng.randrange(3))]
        return tuple(seq) if tuples else seq
    if k in (6, 7):
        keys = KEYS if not int_keys or rng.random() < .8 else [0, 1, 2, 5, 10]
        return {key: sub() for key in rng.sample(keys, rng.randrange(4))}
    if not objects:
        return scalar(rng)
    return obj(rng, depth - 1, tuples, int_keys)


def big(rng, tuples=True, objects=True):
    """long or deeply nested values"""
    k = rng.randrange(4)
    if k == 0:
        return [scalar(rng) for _ in range(rng.choice([11, 25, 60, 130]))]
    if k == 1:
        return {f'key{i}': scalar(rng) for i in range(rng.choice([9, 20, 70]))}
    if k == 2:
        v = scalar(rng)
        for i in range(rng.choice([6, 9, 12])):
            v = rng.choice([lambda: [v], lambda: [0, v, 'z'], lambda: {'deep': v}, lambda: (v, 1) if tuples else [v, 1],
                            lambda: M.Box(v) if objects else [v]])()
        return v
    return [leaf(rng) if objects else scalar(rng) for _ in range(rng.choice([5, 12, 30]))]


def obj(rng, depth=2, tuples=True, int_keys=True):
    sub = lambda: value(rng, depth - 1, tuples, True, int_keys)
    k = rng.randrange(6)
    if k == 5 and depth > 0:
        return rng.choice([lambda: M.Kw(sub(), unit=rng.choice(STRS), scale=rng.choice(FLOATS[:-2]), name=rng.choice(STRS)),
                           lambda: M2.Kw(sub(), rng.choice(INTS), name=rng.choice(STRS)),
                           lambda: M2.Leaf(rng.choice(FLOATS[:-2]), rng.choice(FLOATS[:-2]))])()
    if k == 0 or depth <= 0:
        return leaf(rng)
    if k == 1:
        return M.Partial(rng.choice(INTS), rng.choice(FLOATS[:-2]), rng.choice(STRS), name=rng.choice(STRS))
    if k == 2:
        return M.Team([leaf(rng, M.Leaf) for _ in range(rng.randrange(4))], leaf(rng, M.Leaf),
                      {key: leaf(rng, M.Leaf) for key in rng.sample(KEYS, rng.randrange(3))}, name=rng.choice(STRS))
    return M.Box(sub(), [sub() for _ in range(rng.randrange(3))],
                 {key: sub() for key in rng.sample(KEYS, rng.randrange(3))}, name=rng.choice(['', 'box']))


def rebuild(v):
    """an independent structural copy that shares nothing mutable"""
    if isinstance(v, list):
        return [rebuild(x) for x in v]
    if isinstance(v, tuple):
        return tuple(rebuild(x) for x in v)
    if isinstance(v, dict):
        return {k: rebuild(x) for k, x in v.items()}
    if isinstance(v, DessiaObject):
        o = v.__class__.__new__(v.__class__)
        for k, x in v.__dict__.items():
            o.__dict__[k] = rebuild(x) if not k.startswith('_') and k != 'hidden' else x
        return o
    return v


def data_attrs(o):
    """attributes that take part in data equality, by the documented class variables"""
    out = {}
    for k, v in o.__dict__.items():
        if k.startswith('_') or k in ('name', 'package_version') or k in type(o)._non_data_eq_attributes \
                or k in type(o)._non_serializable_attributes:
            continue
        out[k] = v
    return out


def spec_eq(a, b):
    """data equality as documented, written independently of the code under check"""
    seq = (list, tuple)
    if isinstance(a, seq) and isinstance(b, seq):
        return len(a) == len(b) and all(spec_eq(x, y) for x, y in zip(a, b))
    if not isinstance(a, type(b)) and not isinstance(b, type(a)):
        return False
    if a is None:
        return b is None
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, abs_tol=1e-9)
    if isinstance(a, (int, str)):
        return a == b
    if isinstance(a, dict):
        return set(a) == set(b) and all(spec_eq(a[k], b[k]) for k in a)
    if isinstance(a, type):
        return a is b
    if type(a) is not type(b):
        return False
    return spec_eq(data_attrs(a), data_attrs(b))


def places(v, path='#'):
    """every (path, getter description, parent, key) that takes part in data equality"""
    out = []
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            out.append((f'{path}/{i}', v, i, x))
            out.extend(places(x, f'{path}/{i}'))
    elif isinstance(v, dict):
        for k, x in v.items():
            out.append((f'{path}/{k}', v, k, x))
            out.extend(places(x, f'{path}/{k}'))
    elif isinstance(v, DessiaObject):
        for k, x in data_attrs(v).items():
            out.append((f'{path}/{k}', v, k, x))
            out.extend(places(x, f'{path}/{k}'))
    return out


def put(parent, key, x):
    if isinstance(parent, (list, dict)):
        parent[key] = x
    else:
        setattr(parent, key, x)


def other(rng, x):
    """a value that is not data-equal to x"""
    for _ in range(50):
        if isinstance(x, bool):
            c = rng.choice([not x, None, 'True', [x]])
        elif isinstance(x, float):
            c = rng.choice([x + 1e-3 * max(1, abs(x)), -x, x * 2, x + 1, None, str(x), [x]])
        elif isinstance(x, int):
            c = rng.choice([x + 1, -x, x - 1, float(x), str(x)])
        elif isinstance(x, str):
            c = rng.choice([x + 'a', x[::-1], x[:-1], x.upper(), None, 0, [x]])
        elif x is None:
            c = rng.choice([0, '', False, [], {}, 'None'])
        elif isinstance(x, (list, tuple)):
            y = list(rebuild(x))
            op = rng.randrange(4)
            if op == 0 and y:
                y.pop(rng.randrange(len(y)))
            elif op == 1:
                y.insert(rng.randrange(len(y) + 1), scalar(rng))
            elif op == 2:
                y.reverse()
            else:
                y = y + [None]
            c = type(x)(y)
        elif isinstance(x, dict):
            y = rebuild(x)
            op = rng.randrange(3)
            if op == 0 and y:
                del y[rng.choice(list(y))]
            elif op == 1:
                y['extra'] = scalar(rng)
            elif y:
                k = rng.choice(list(y))
                y['moved'] = y.pop(k)
            c = y
        else:
            c = rng.choice([None, M.Twin(), M.Strict(3), {}, 'object', rebuild(x)])
        if not spec_eq(c, x):
            return c
    return 'totally different'


def replace_at(v, segs, new):
    """copy of v with the value at the path given by (parent kind, key) segments replaced"""
    if not segs:
        return new
    k = segs[0]
    if isinstance(v, (list, tuple)):
        return type(v)([replace_at(x, segs[1:], new) if i == k else rebuild(x) for i, x in enumerate(v)])
    if isinstance(v, dict):
        return {kk: replace_at(x, segs[1:], new) if kk is k or (kk == k and type(kk) is type(k)) else rebuild(x) for kk, x in v.items()}
    w = rebuild(v)
    setattr(w, k, replace_at(getattr(v, k), segs[1:], new))
    return w


def spots(v, segs=()):
    """(segments, value) of every place that takes part in data equality"""
    out = []
    if isinstance(v, (list, tuple)):
        it = list(enumerate(v))
    elif isinstance(v, dict):
        it = list(v.items())
    elif isinstance(v, DessiaObject):
        it = list(data_attrs(v).items())
    else:
        it = []
    for k, x in it:
        out.append((segs + (k,), x))
        out.extend(spots(x, segs + (k,)))
    return out


def mutate(rng, v):
    """(changed copy, path of the change) or None when nothing can change; v is left alone"""
    ps = spots(v)
    if not ps:
        return None
    segs, x = rng.choice(ps)
    return replace_at(v, segs, other(rng, x)), '#/' + '/'.join(str(k) for k in segs)
