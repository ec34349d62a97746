from lib import *
import values as G
import dvmodels as M


class Odd:
    pass


def keyspec(k, nonstr):
    if isinstance(k, str):
        return '.' not in k
    if isinstance(k, float):
        return False
    if isinstance(k, int):
        return nonstr
    return False


def spec(v, nonstr):
    """valid for BSON, by the definition"""
    if v is None or isinstance(v, (int, float, str)):
        return True
    if isinstance(v, dict):
        return all(keyspec(k, nonstr) and spec(x, nonstr) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(spec(x, nonstr) for x in v)
    return False


def gen(rng, depth=3, bad=.06):
    k = rng.randrange(8)
    if rng.random() < bad / (depth + 1):
        return rng.choice([Odd(), {1, 2}, b'x', M.Leaf(), object, {1.5: 1}, {None: 1}, {(1, 2): 3}, 1j])
    if depth == 0 or k < 3:
        return G.scalar(rng)
    sub = lambda: gen(rng, depth - 1, bad)
    if k == 3:
        return [sub() for _ in range(rng.choice([0, 1, 2, 3, 15]))]
    if k == 4:
        return tuple(sub() for _ in range(rng.randrange(4)))
    keys = ['a', 'b', '', 'with.dot', 'x y', 0, 1, 7, True, 2.5, 'c', 'd', 'e', 'f']
    w = keys if rng.random() < .35 else ['a', 'b', 'c', 'd', 'e', 'f', 'x y']
    return {key: sub() for key in rng.sample(w, rng.randrange(5))}


def check_bson(v, nonstr):
    from dessia_common.utils.types import is_bson_valid
    ok, hint = is_bson_valid(v, nonstr)
    want = spec(v, nonstr)
    if bool(ok) != want:
        return f'is_bson_valid({short(v)}, {nonstr}) = {ok} ({hint}), want {want}'
    if want and hint != '' or not want and not hint:
        return f'hint {hint!r} with verdict {ok}'


def bson(run, rng):
    for _ in range(run.n(3000)):
        v, ns = gen(rng), rng.random() < .5
        run.case((v, ns))
        m = check_bson(v, ns)
        run.check(m is None, m or '')


def bson_places(run, rng):
    """one bad place, anywhere, is enough"""
    for _ in range(run.n(400)):
        v = gen(rng, 3, 0)
        spots = [s for s in G.spots(v)] if hasattr(G, 'spots') else []
        if not spots:
            continue
        segs = rng.choice(spots)
        bad = rng.choice([Odd(), {1}, {'a.b': 1}, {1.5: 2}, b'', [Odd()], {'k': {'l.m': 1}}])
        w = G.replace_at(v, segs, bad)
        for ns in (True, False):
            run.case((v, segs, type(bad).__name__, ns))
            m = check_bson(w, ns)
            run.check(m is None, m or '')


def stringspec(v):
    if isinstance(v, (list, tuple)):
        return [stringspec(x) for x in v]
    if isinstance(v, dict):
        return {str(k): stringspec(x) for k, x in v.items()}
    return v


def allstr(v):
    if isinstance(v, (list, tuple)):
        return all(map(allstr, v))
    if isinstance(v, dict):
        return all(isinstance(k, str) and allstr(x) for k, x in v.items())
    return True


def stringify(run, rng):
    from dessia_common.core import stringify_dict_keys
    for _ in range(run.n(1500)):
        v = gen(rng, 4, .02)
        before = repr(v)
        run.case(before)
        r = stringify_dict_keys(v)
        run.check(allstr(r), 'a key is not a string after stringify_dict_keys', v=v, got=r)
        run.check(repr(r) == repr(stringspec(v)), 'stringify_dict_keys changed something else than keys', v=v, got=r)
        run.check(repr(v) == before, 'stringify_dict_keys changed its argument')
        run.check(repr(stringify_dict_keys(r)) == repr(r), 'stringify_dict_keys is not idempotent')


def jsonable(run, rng):
    from dessia_common.utils.types import is_jsonable
    def js(v):
        if isinstance(v, (list, tuple)):
            return all(map(js, v))
        if isinstance(v, dict):
            return all((isinstance(k, (str, int, float)) or k is None) and js(x) for k, x in v.items())
        return v is None or isinstance(v, (int, float, str))
    for _ in range(run.n(500)):
        v = gen(rng, 3)
        run.case(v)
        run.check(bool(is_jsonable(v)) == js(v), 'is_jsonable', v=v, got=is_jsonable(v))


def predicates(run, rng):
    from dessia_common.utils.helpers import is_sequence
    from dessia_common.utils import types as T
    from dessia_common.files import BinaryFile, StringFile
    pool = [0, 1.5, '', 'ab', b'x', None, True, [], [1], (), (1, 2), {}, {'a': 1}, {1}, M.Leaf(), Odd(), int, range(3)]
    for v in pool:
        run.case(v)
        run.eq(bool(T.is_sequence(v)), isinstance(v, (list, tuple, range)), 'is_sequence', v=v)
        if not isinstance(v, bytes):
            run.eq(bool(is_sequence(v)), isinstance(v, (list, tuple, range)), 'helpers.is_sequence', v=v)
        run.eq(bool(T.isinstance_base_types(v)), v is None or isinstance(v, (int, float, str)), 'isinstance_base_types', v=v)
    b, s = BinaryFile(), StringFile()
    for v, want in [(b, True), (s, True), ([b], True), ([[1, [s]]], True), ([], False), ([1, 'a'], False), ('a', False), ((1, (2, b)), True), (None, False), ([[], [[]]], False)]:
        run.case(v)
        run.eq(bool(T.is_file_or_file_sequence(v)), want, 'is_file_or_file_sequence', v=v)


def serialized_valid(run, rng):
    """what to_dict gives can be stored: BSON valid once keys are strings, JSON dumpable"""
    from dessia_common.utils.types import is_bson_valid
    from dessia_common.core import stringify_dict_keys
    for _ in range(run.n(150)):
        o = G.obj(rng, 3)
        run.case(o.__dict__)
        for kw in ({'use_pointers': True}, {'use_pointers': False}):
            d = stringify_dict_keys(o.to_dict(**kw))
            json.dumps(d)
            ok, hint = is_bson_valid(d)
            run.check(ok, f'serialization is not BSON valid: {hint}', o=o.__dict__)


if __name__ == '__main__':
    sys.exit(main('C17', [('bson', bson), ('bson_places', bson_places), ('stringify', stringify), ('jsonable', jsonable),
                          ('predicates', predicates), ('serialized_valid', serialized_valid)],
                  {'bson': lambda i: check_bson(i['value'], bool(i.get('allow_nonstring_keys', False)))}))
