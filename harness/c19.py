from lib import *
from typing import Any, Dict, List, Tuple, Union, Optional
import dvmodels as M

BASE = [int, float, str, bool, M.Leaf, M.LeafSub, M.Twin, M.DessiaObject, list, dict, object]


def typ(rng, depth=2):
    k = rng.randrange(8)
    if depth == 0 or k < 3:
        return rng.choice(BASE)
    sub = lambda: typ(rng, depth - 1)
    if k < 5:
        return List[sub()]
    if k == 5:
        return Tuple[tuple(sub() for _ in range(rng.randrange(1, 4)))]
    if k == 6:
        return Dict[rng.choice([str, int]), sub()]
    if rng.random() < .4:
        return Optional[sub()] if rng.random() < .7 else Union[None, sub()]
    return Union[tuple(sub() for _ in range(rng.choice([2, 2, 3])))]


def wider(rng, t, depth=3):
    """a type that contains t"""
    o, a = getattr(t, '__origin__', None), getattr(t, '__args__', ())
    r = rng.random()
    if r < .15 or depth == 0:
        return t
    if r < .25:
        return Any
    if t is type(None):
        return t
    if o is None:
        return rng.choice([t] + [b for b in BASE if issubclass(t, b)] + ([float] if t is int else []))
    if o is list:
        return List[wider(rng, a[0], depth - 1)]
    if o is tuple:
        return Tuple[tuple(wider(rng, x, depth - 1) for x in a)]
    if o is dict:
        return Dict[a[0], wider(rng, a[1], depth - 1)]
    return Union[a + (rng.choice(BASE),)]


def bare(t):
    """an optional counts as the type it makes optional"""
    a = getattr(t, '__args__', ())
    if getattr(t, '__origin__', None) is Union and len(a) == 2 and type(None) in a:
        return a[1] if a[0] is type(None) else a[0]
    return t


def contains(match, t):
    """does every value typed t belong to match (semantic subtyping; int counts as float)"""
    match, t = bare(match), bare(t)
    if match is Any or match == t:
        return True
    to, ta, mo, ma = (getattr(t, '__origin__', None), getattr(t, '__args__', ()), getattr(match, '__origin__', None), getattr(match, '__args__', ()))
    if to is Union:
        return all(contains(match, x) for x in ta)
    if mo is Union:
        return any(contains(x, t) for x in ma)
    if to is None and mo is None:
        return t is int and match is float or issubclass(t, match)
    if to is not None and mo is None:
        return issubclass(to, match)
    if to is None:
        return False
    return to is mo and len(ta) == len(ma) and all(contains(m, x) for m, x in zip(ma, ta))


def sound(run, rng):
    from dessia_common.utils.types import typematch
    for _ in range(run.n(3000)):
        t = typ(rng)
        m = wider(rng, t) if rng.random() < .5 else typ(rng)
        run.case((t, m))
        if typematch(t, m):
            run.check(contains(m, t), 'typematch accepts a type that is not contained in the other', type_=t, match_against=m)


def reflexive(run, rng):
    from dessia_common.utils.types import typematch
    for _ in range(run.n(600)):
        t = typ(rng, 3)
        run.case(t)
        run.check(typematch(t, t) is True, 'a type does not match itself', type_=t)
        run.check(typematch(t, Any) is True, 'a type does not match Any', type_=t)


def complete(run, rng):
    """the documented widenings are accepted, at any depth of lists, tuples and dictionaries"""
    from dessia_common.utils.types import typematch

    def widen(t):
        o, a = getattr(t, '__origin__', None), getattr(t, '__args__', ())
        if o is None:
            return rng.choice([t, Any] + [b for b in BASE if issubclass(t, b)] + ([float] if t is int else []) + [Union[t, M.Pair], Optional[t], Union[None, t]])
        if o is list:
            return List[widen(a[0])]
        if o is tuple:
            return Tuple[tuple(widen(x) for x in a)]
        if o is dict:
            return Dict[a[0], widen(a[1])]
        return t if type(None) in a else Union[a + tuple(rng.sample(BASE, rng.randrange(3)))]
    for _ in range(run.n(1500)):
        t = typ(rng)
        m = widen(t)
        run.case((t, m))
        run.check(typematch(t, m) is True, 'typematch refuses a wider type', type_=t, match_against=m)


def narrower(run, rng):
    from dessia_common.utils.types import typematch
    for a, b in [(float, int), (M.Leaf, M.LeafSub), (List[float], List[int]), (Any, int), (Union[int, str], int), (Union[int, str, bool], Union[int, str]),
                 (Tuple[int, int], Tuple[int]), (Tuple[int], Tuple[int, int]), (Tuple[int, str], Tuple[str, int]), (Dict[str, float], Dict[str, int]),
                 (Dict[int, int], Dict[str, int]), (List[int], int), (int, List[int]), (List[M.Leaf], List[M.LeafSub])]:
        if a is Any:
            continue
        run.case((a, b))
        run.check(typematch(a, b) is False, 'typematch accepts a narrower or unrelated type', type_=a, match_against=b)


if __name__ == '__main__':
    sys.exit(main('C19', [('sound', sound), ('reflexive', reflexive), ('complete', complete), ('narrower', narrower)]))
