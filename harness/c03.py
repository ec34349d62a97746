from lib import *
import io
import json as jsn
import tempfile
import shutil
from typing import Any, Dict, List, Optional, Tuple, Union
import values as G
import dvmodels as M
from dessia_common.core import DessiaObject

DOTTED = ['3.14', 'hello. world', 'file.txt', 'v1.2.3', 'a.b.c', 'e.g. this', 'trailing.', 'no_module_here.Thing', '-1.5', '1e.5', '.hidden',
          'dvmodels_nothing.Leaf', '...']


def strict(a, b, path='#', names=True):
    """first place where b is not a faithful restitution of a (tuples may come back as lists), or None"""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            r = strict(x, y, f'{path}/{i}', names)
            if r:
                return r
        return None
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, dict):
        if set(a) != set(b) or any(type(k) is not type(next(x for x in b if x == k)) for k in a):
            return path, a, b
        for k in a:
            r = strict(a[k], b[k], f'{path}/{k}', names)
            if r:
                return r
        return None
    if isinstance(a, DessiaObject):
        da, db = dict(G.data_attrs(a)), dict(G.data_attrs(b))
        if names:
            da['name'], db['name'] = a.name, b.name
        if isinstance(a, M.Partial):
            da['comment'], db['comment'] = a.comment, b.comment
        return strict(da, db, path, names)
    return None if a == b else (path, a, b)


def all_objects(v, out=None):
    out = [] if out is None else out
    if isinstance(v, (list, tuple)):
        for x in v:
            all_objects(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            all_objects(x, out)
    elif isinstance(v, DessiaObject):
        if not any(o is v for o in out):
            out.append(v)
            for x in v.__dict__.values():
                all_objects(x, out)
    return out


def gen(rng, int_keys=False):
    o = G.obj(rng, 3, int_keys=int_keys)
    if rng.random() < .15:
        o = M.Box(rng.choice(DOTTED), [rng.choice(DOTTED), 1], {'k': rng.choice(DOTTED)})
    return o


def faithful(o, r, pointers=True):
    """None when r restores o exactly"""
    return strict(o, r)


def modes(run, rng, o, text):
    from dessia_common.serialization import dict_to_object
    for pointers in (True, False):
        snap = G.rebuild(o)
        d = o.to_dict(use_pointers=pointers)
        run.check(strict(snap, o) is None, 'to_dict changes the object', where=strict(snap, o))
        run.check(d.get('object_class') == f'{type(o).__module__}.{type(o).__name__}', 'object_class is wrong', d=d)
        run.check(d.get('name') == o.name, 'name is not serialised', d=d)
        if text:
            s = jsn.dumps(d)
            d = jsn.loads(s)
        before = repr(d)
        for k, read in enumerate((type(o).dict_to_object, DessiaObject.dict_to_object, dict_to_object)):
            if k and rng.random() < .5:
                continue
            r = read(d)
            run.check(repr(d) == before, 'dict_to_object changes the dictionary it is given')
            w = faithful(o, r, pointers)
            run.check(type(r) is type(o) and w is None, 'the round trip does not give the object back', pointers=pointers, text=text, difference=w, dict=d)
            run.check(r.name == o.name, 'the name of the object is lost', pointers=pointers)
            run.check(r == o and o == r and hash(r) == hash(o), 'the round-tripped object is not equal', pointers=pointers)
            orig = {id(x) for x in all_objects(o)}
            run.check(not any(id(x) in orig for x in all_objects(r)), 'the round-tripped object shares sub-objects with the original')


def roundtrip(run, rng):
    for _ in range(run.n(1200)):
        o = gen(rng)
        run.case(o.__dict__)
        modes(run, rng, o, text=rng.random() < .5)
        if run.over():
            break


def int_keys(run, rng):
    for _ in range(run.n(300)):
        o = gen(rng, int_keys=True)
        run.case(o.__dict__)
        modes(run, rng, o, text=False)
        sh = M.Box(rng.randrange(100))
        ks = rng.sample([0, 1, 2, 7, 11, (1, 2), (4, 3), 'k'], 3)
        o = M.Box({k: rng.choice([sh, sh, 5, [sh]]) for k in ks}, [{ks[0]: sh}, rng.randrange(5)], {})
        run.case(o.__dict__)
        modes(run, rng, o, text=False)
        if run.over():
            break


def sharing(run, rng):
    """with pointers a sub-object used in several places comes back as one object, and distinct data stays distinct"""
    for _ in range(run.n(500)):
        shared = M.Box(rng.choice(G.INTS + G.STRS), [G.value(rng, 2, int_keys=False) for _ in range(rng.randrange(3))], {}, name='sh')
        lf = G.leaf(rng, M.Leaf)
        other = M.Box('other', [lf], {})
        shape = rng.randrange(8)
        key1, key2 = rng.sample(G.KEYS, 2)
        if shape == 0:
            o = M.Pair(M.Box(shared), M.Box([shared]), 2.5)
            refs = lambda r: [r.left.content, r.right.content[0]]
        elif shape == 1:
            b = M.Box(shared, [1], {})
            o = M.Pair(b, b)
            refs = lambda r: [r.left, r.right]
        elif shape == 2:
            o = M.Box(None, [shared, 1, shared, [shared]], {key1: shared})
            refs = lambda r: [r.items[0], r.items[2], r.items[3][0], r.table[key1]]
        elif shape == 3:
            o = M.Box(shared, [], {key1: {key2: [shared]}, key2: shared})
            refs = lambda r: [r.content, r.table[key1][key2][0], r.table[key2]]
        elif shape == 4:
            o = M.Team([shared, shared, G.leaf(rng, M.Leaf)], shared, {key1: shared})
            refs = lambda r: [r.leaves[0], r.leaves[1], r.boss, r.index[key1]]
        elif shape == 5:
            b = M.Box(shared, [shared], {})
            o = M.Box([b, M.Box('z', [b, shared], {})], [b], {key1: shared})
            refs = lambda r: [r.content[0].content, r.content[0].items[0], r.content[1].items[1], r.table[key1], r.content[1].items[0].content]
        elif shape == 6:
            o = M.Pair(M.Box(shared, [other]), M.Box(other, [shared]), 0.5)
            refs = lambda r: [r.left.content, r.right.items[0]]
        else:
            inner = M.Box(shared, [lf], {})
            mid = M.Box(inner, [inner], {key1: lf})
            o = M.Pair(mid, M.Box([mid, inner], [shared], {key2: lf}))
            refs = lambda r: [r.left.content, r.left.items[0], r.right.content[1], r.right.content[0].content]
        run.case((shape, o.__dict__))
        modes(run, rng, o, text=rng.random() < .5)
        d = o.to_dict(use_pointers=True)
        if rng.random() < .5:
            d = jsn.loads(jsn.dumps(d))
        r = type(o).dict_to_object(d)
        got = refs(r)
        run.check(all(x is got[0] for x in got), 'an object shared in several places is not shared after the round trip', shape=shape, dict=d)
        # deserialised without pointers: values only
        if run.over():
            break


def stable(run, rng):
    """serialising the restored object gives the same dictionary"""
    for _ in range(run.n(300)):
        o = gen(rng)
        run.case(o.__dict__)
        d = o.to_dict(use_pointers=False)
        r = type(o).dict_to_object(d)
        run.eq(r.to_dict(use_pointers=False), d, 'serialising again gives another dictionary')


def files(run, rng):
    tmp = tempfile.mkdtemp()
    try:
        for i in range(run.n(60)):
            o = gen(rng)
            run.case(o.__dict__)
            path = os.path.join(tmp, f'f{i}' + rng.choice(['', '.json']))
            so, sys.stdout = sys.stdout, io.StringIO()
            try:
                o.save_to_file(path)
            finally:
                sys.stdout = so
            path = path if path.endswith('.json') else path + '.json'
            r = type(o).from_json(path)
            w = faithful(o, r)
            run.check(w is None and r == o, 'an object saved to a JSON file is not read back', difference=w)
            stream = io.StringIO()
            o.save_to_stream(stream)
            r = type(o).from_json_stream(io.BytesIO(stream.getvalue().encode('utf-8')))
            run.check(faithful(o, r) is None, 'an object written to a stream is not read back')
    finally:
        shutil.rmtree(tmp)


def plain(run, rng):
    from dessia_common.serialization import serialize, deserialize
    import numpy as npy
    for _ in range(run.n(500)):
        v = G.value(rng, 3, int_keys=False)
        run.case(v)
        s = serialize(v)
        s2 = jsn.loads(jsn.dumps(s))
        for t in (s, s2):
            r = deserialize(t)
            w = strict(v, r)
            run.check(w is None, 'serialize then deserialize does not give the value back', difference=w, serialized=t)
    for x, y in ((npy.int64(5), 5), (npy.float64(2.5), 2.5)):
        run.case(x)
        run.check(serialize(x) == y and type(serialize(x)) is type(y), 'numpy scalars are not serialised to python numbers')
    for c in (M.Leaf, M.Box, DessiaObject):
        run.case(c)
        o = M.Box(c, [c], {'k': c})
        for p in (True, False):
            r = M.Box.dict_to_object(jsn.loads(jsn.dumps(o.to_dict(use_pointers=p))))
            run.check(r.content is c and r.items[0] is c and r.table['k'] is c, 'a class stored in an object does not come back', pointers=p)
    bad = [object(), {1, 2}, lambda: 0, 1j]
    for b in bad:
        run.case(b)
        from dessia_common.errors import SerializationError
        for v in (b, [b], {'k': b}, M.Box(b), M.Box([0, [b]])):
            run.raises(lambda: serialize(v), SerializationError, 'a value that cannot be represented is serialised silently', v=v)
        for v in (M.Box(b), M.Box([0, [b]])):
            run.raises(lambda: v.to_dict(use_pointers=True), SerializationError, 'a value that cannot be represented is serialised silently', v=v)


def arguments(run, rng):
    """typed arguments: what to_dict/serialize writes, deserialize_argument reads back with the declared type"""
    from dessia_common.serialization import serialize, deserialize_argument
    for _ in range(run.n(200)):
        leaf = G.leaf(rng, M.Leaf)
        box = G.obj(rng, 2, int_keys=False)
        cases = [(int, rng.choice(G.INTS)), (float, rng.choice(G.FLOATS[:-2])), (str, rng.choice(G.STRS)), (bool, rng.choice([True, False])),
                 (M.Leaf, leaf), (type(box), box), (List[M.Leaf], [leaf, G.leaf(rng, M.Leaf)]), (List[int], [1, 2, 3]), (List[float], [0.5]),
                 (Tuple[M.Leaf, int], (leaf, 4)), (Dict[str, int], {'a': 1}), (Optional[M.Leaf], leaf), (Optional[int], 3), (Any, [1, 'a']),
                 (List[List[float]], [[1., 2.], []]), (Tuple[int, ...], (1,)), (Optional[M.Leaf], None), (int, None)]
        for type_, v in cases:
            run.case((type_, v))
            s = jsn.loads(jsn.dumps(serialize(v)))
            r = deserialize_argument(type_, s)
            w = strict(v, r)
            run.check(w is None and (not isinstance(v, tuple) or isinstance(r, tuple)), 'an argument is not deserialised to the value that was serialised', type=type_, difference=w)
        n = rng.choice(G.INTS)
        r = deserialize_argument(float, n)
        run.check(type(r) is float and r == n, 'an int given for a float argument is not converted to the same float', n=n, r=r)
        for t, v in ((int, 'a'), (str, 3), (bool, 'x'), (float, 'y'), (int, 1.5)):
            run.raises(lambda: deserialize_argument(t, v), TypeError, 'an argument of another built-in type is accepted', type=t, value=v)


if __name__ == '__main__':
    sys.exit(main('C03', [('roundtrip', roundtrip), ('int_keys', int_keys), ('sharing', sharing), ('stable', stable), ('files', files),
                          ('plain', plain), ('arguments', arguments)]))
