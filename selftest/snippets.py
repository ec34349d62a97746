"""Functions of the verified subset; selftest.py compares what the engine derives for them with what CPython does."""
from collections import defaultdict


def mod(a: int, b: int):
    return [a % 7, a // 7, (-a) % 7, (-a) // 7, a % -3, a // -3]


def arith(a: int, b: int):
    return (a - b) * 2 + abs(b) - max(a, b) + min(a, b, 3)


def div(a: int, b: int):
    return a / 4 + b / 2


def zero(a: int, b: int):
    return a / b


def chain(a: int, b: int):
    return 0 <= a < b <= 10


def logic(a: int, b: int):
    return [a and b, a or b, not a, bool(a and b)]


def cond(a: int, b: int):
    x = 'big' if a > b else 'small'
    if a == b:
        x += '!'
    elif a < 0:
        return None
    return x


def text(s: str, a: int):
    return [s + 'x', s.lower() == s, s.startswith('a'), s.endswith('b'), 'b' in s, len(s), str(a), f'{s}-{a}']


def cut(s: str, a: int):
    return [s[1:], s[:-1], s[:2], s[1:3]]


def replaced(s: str, a: int):
    return s.replace('a', 'o')


def split_join(s: str, a: int):
    return '+'.join(s.split('/'))


def total(xs: list):
    t = 0
    for x in xs:
        t += x
    return t


def summed(xs: list):
    return sum(xs) + sum(x * 2 for x in xs)


def longest(xs: list):
    return len(xs)


def doubled(xs: list):
    return [x * 2 for x in xs]


def kept(xs: list):
    return [x for x in xs if x > 1]


def kept_loop(xs: list):
    out = []
    for x in xs:
        if x > 1:
            out.append(x)
    return out


def positions(xs: list):
    return [i for i, x in enumerate(xs) if x > 1]


def numbered(xs: list):
    return [(i, x) for i, x in enumerate(xs)]


def some(xs: list):
    return [any(x > 1 for x in xs), all(x > 1 for x in xs)]


def first(xs: list):
    return next((x for x in xs if x > 1), None)


def search(xs: list):
    for i, x in enumerate(xs):
        if x > 1:
            return i
    return -1


def break_else(xs: list):
    for x in xs:
        if x > 1:
            break
    else:
        return 'none'
    return x


def skip(xs: list):
    n = 0
    for x in xs:
        if x < 2:
            continue
        n += 1
    return n


def slices(xs: list):
    return [xs[1:], xs[:-1], xs[:2], xs[:]]


def ends(xs: list):
    return xs[0] + xs[-1]


def added(xs: list):
    return xs + [9] + xs


def member(xs: list):
    return [1 in xs, 5 not in xs]


def zipped(xs: list, ys: list):
    return [a - b for a, b in zip(xs, ys)]


def pairs(xs: list, ys: list):
    return [a + b for a in xs for b in ys]


def equal(xs: list, ys: list):
    return [xs == ys, xs != ys, xs is ys]


def ranged(a: int, b: int):
    return [x for x in range(a, b)]


def countdown(a: int, b: int):
    n = 0
    while n < 3:
        n += 1
    return n + a


def setitem(xs: list, a: int):
    ys = list(xs)
    ys[0] = a
    return [ys, xs]


def aliased(xs: list, a: int):
    ys = xs
    ys.append(a)
    return [len(xs), xs[-1]]


def extended(xs: list, ys: list):
    zs = []
    zs.extend(xs)
    zs.extend(ys)
    zs += [1]
    return zs


def popped(xs: list, a: int):
    ys = xs[:]
    v = ys.pop()
    return [v, len(ys)]


def inserted(xs: list, a: int):
    ys = list(xs)
    ys.insert(1, a)
    return ys


def index(xs: list, a: int):
    return xs.index(a)


def tuples(a: int, b: int):
    t = (a, b)
    x, y = t
    y, x = x, y
    return [t[0], x, y, t == (a, b), t + (1,)]


def keys(d: dict):
    return list(d.keys())


def values(d: dict):
    return [v for v in d.values()]


def items(d: dict):
    return [[k, v] for k, v in d.items()]


def mapped(d: dict):
    return {k: v + 1 for k, v in d.items()}


def filtered(d: dict):
    return {k: v for k, v in d.items() if v > 1}


def lookup(d: dict, s: str):
    return [s in d, d.get(s), d.get(s, 3)]


def strict(d: dict, s: str):
    return d[s]


def update(d: dict, s: str):
    e = dict(d)
    e[s] = 7
    return [e, len(e), len(d)]


def built(xs: list):
    d = {}
    for i, x in enumerate(xs):
        d[f'k{i}'] = x
    return d


def counts(xs: list):
    d = {}
    for x in xs:
        d[x] = x + 1
    return len(d)


def caught(d: dict, s: str):
    try:
        return d[s]
    except KeyError:
        return 'missing'


def caught_value(s: str, a: int):
    try:
        if a > 1:
            raise ValueError('no')
        return a
    except (TypeError, ValueError):
        return 'bad'
    finally:
        a = 0


def kinds(xs: list):
    return [isinstance(xs, list), isinstance(xs, (tuple, dict)), isinstance(True, int), isinstance(1, float), type(xs) is list]


def numeric(a: int, b: int):
    return [True == 1, 1.0 == a, a == 1.0, float(a), int(a / 2), bool(a), int('12') + a]


def nested(xs: list, ys: list):
    return [[x + y for y in ys] for x in xs]


def compress(xs: list, ys: list):
    return [x for x, k in zip(xs, ys) if k > 0]


def reverse(xs: list):
    return xs[::-1] if False else list(reversed(xs))


def lam(xs: list, a: int):
    f = lambda x, k=2: x * k + a
    return [f(1), f(1, 3)] + list(map(f, xs))


def unpack(xs: list, a: int):
    b, *c = [a, 1, 2]
    return [b, c]


def starred(xs: list, a: int):
    return lam(*[xs, a])


class Point:
    unit = 1

    def __init__(self, x, y=2):
        self.x, self.y = x, y

    @property
    def norm(self):
        return self.x + self.y

    def moved(self, d):
        return Point(self.x + d, self.y)

    def shift(self, d):
        self.x += d
        return self

    def __eq__(self, other):
        return self.x == other.x


class Sub(Point):
    unit = 5

    def moved(self, d):
        p = super().moved(d)
        p.y = 0
        return p


def objects(a: int, b: int):
    p = Point(a)
    q = p.moved(b)
    r = p.shift(1)
    return [p.x, q.x, q.norm, r is p, p == q, p.unit, Sub(a).moved(b).norm, Sub.unit, isinstance(Sub(1), Point)]


def has(a: int, b: int):
    p = Sub(a)
    return [hasattr(p, 'x'), hasattr(p, 'z'), getattr(p, 'y'), getattr(p, 'z', 8)]


def _total(x, y=2, z=3):
    return x + 10 * y + 100 * z


def _forward(x, **kwargs):
    kwargs['z'] = x
    return _total(x, **kwargs)


def keyword_dict(a: int, b: int):
    return [_forward(a), _forward(a, y=b), _forward(a, z=b, y=1)]
