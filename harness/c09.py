from lib import *
import values as G
import dvmodels as M


def api():
    from dessia_common.utils.helpers import get_in_object_from_path, set_in_object_from_path
    return get_in_object_from_path, set_in_object_from_path


def children(v):
    if isinstance(v, (list, tuple)):
        return list(enumerate(v))
    if isinstance(v, dict):
        return list(v.items())
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return [(k, x) for k, x in v.__dict__.items() if not k.startswith('_') and k != 'hidden']
    return []


def walk(v, path=(), parent=None, depth=0):
    out = []
    if depth > 14:
        return out
    for k, x in children(v):
        p = path + (k,)
        out.append((p, v, k, x))
        out.extend(walk(x, p, v, depth + 1))
    return out


def text(rng, p):
    return rng.choice(['#/', '', '/', '#/', '#/']) + '/'.join(str(s) for s in p)


def usable(p):
    return all(str(s) != '' and '/' not in str(s) and not str(s).startswith('#') for s in p)


def get(run, rng):
    g, _ = api()
    for _ in range(run.n(700)):
        v = G.value(rng, 4)
        for p, parent, k, x in rng.sample(w := walk(v), min(len(w), 12)):
            if not usable(p):
                continue
            path = text(rng, p)
            run.case((v, path))
            for kw in ({}, {'evaluate_pointers': False}):
                got = g(v, path, **kw)
                run.check(got is x, 'reading a path does not give the value that lies there', path=path, got=got, want=x)
            if isinstance(v, M.DessiaObject):
                run.check(v._get_from_path('#/' + '/'.join(map(str, p))) is x, '_get_from_path gives another value', path=path)


def both_keys(run, rng):
    """a dictionary may have the key 1 and the key '1': the text of a segment is the string key first, then the number"""
    g, s = api()
    for _ in range(run.n(80)):
        ks = rng.sample([0, 1, 2, 10, '0', '1', '2', '10', 'a', '01'], rng.randrange(1, 8))
        d = {k: object() for k in ks}
        root, pre = rng.choice([(d, ''), ({'in': d}, 'in/'), ([d], '0/'), (M.Box(d), 'content/')])
        for k in ks:
            run.case((repr(root), pre, k))
            want = d[str(k)] if str(k) in d else d[k]
            for kw in ({}, {'evaluate_pointers': False}):
                run.check(g(root, f'#/{pre}{k}', **kw) is want, 'reading a key that exists as a text and as a number', keys=ks, key=k)


def structure(v, skip=None):
    """(path, id or scalar) of everything below v"""
    return [(p, id(x) if children(x) or isinstance(x, (list, tuple, dict)) else (type(x).__name__, repr(x))) for p, _, _, x in walk(v)]


def setting(run, rng):
    g, s = api()
    for _ in range(run.n(900)):
        v = G.rebuild(G.value(rng, 4))
        spots = [(p, par, k, x) for p, par, k, x in walk(v) if usable(p) and not isinstance(par, tuple)]
        if not spots:
            continue
        p, parent, k, x = rng.choice(spots)
        path = text(rng, p)
        new = rng.choice([object(), 'new', 12345, None, [1], {'a': 2}])
        run.case((repr(v), path, repr(new)))
        before = {q: i for q, i in structure(v) if q[:len(p)] != p}
        nb = [len(children(par)) for _, par, _, _ in spots[:1]]
        size = len(children(parent))
        s(v, path, new, evaluate_pointers=rng.choice([True, False]))
        run.check(g(v, path) is new, 'reading back a written path gives another value', path=path)
        run.check(len(children(parent)) == size and any(c is new for kk, c in children(parent) if kk == k),
                  'writing an existing place added another one, or wrote elsewhere', path=path, parent=parent)
        after = {q: i for q, i in structure(v) if q[:len(p)] != p}
        run.check(before == after, 'writing a path changed something else', path=path)


def new_key(run, rng):
    g, s = api()
    for _ in range(run.n(200)):
        d = {key: G.scalar(rng) for key in rng.sample(G.KEYS, 3)}
        root = rng.choice([lambda: d, lambda: {'in': d}, lambda: [0, d], lambda: M.Box(d)])()
        pre = {dict: '' if root is d else 'in/', list: '1/', M.Box: 'content/'}[type(root)]
        key = 'brand_new'
        keys = list(d)
        path = '#/' + pre + key
        run.case((repr(root), path))
        s(root, path, 7)
        run.check(list(d) == keys + [key] and d[key] == 7, 'adding a key through a path', got=d)
        b = M.Box(1)
        s(b, '#/fresh', 8)
        run.check(b.fresh == 8, 'setting a new attribute through a path')


def pointers(run, rng):
    g, s = api()
    for _ in range(run.n(300)):
        target = G.value(rng, 3, objects=False, int_keys=False)
        w = [q for q in walk(target) if usable(q[0])]
        name = rng.choice(['r1', '0', 'abc-def'])
        marker = rng.choice(['$ref', '$ref', '_ref'])
        root = {'_references': {name: target}, 'a': {'b': [1, {marker: f'#/_references/{name}'}]}}
        if not w or isinstance(target, dict) and '$ref' in target:
            continue
        p, _, _, x = rng.choice(w)
        path = '#/a/b/1/' + '/'.join(map(str, p))
        if marker == '_ref':
            from dessia_common import OLD_REF_MARKER
            if OLD_REF_MARKER != marker:
                continue
        run.case((repr(root), path))
        run.check(g(root, path) is x, 'a path through a pointer does not lead to the pointed value', path=path)
        new = object()
        if len(p) > 1 and not any(isinstance(par, tuple) for q, par, _, _ in w if q == p):
            s(root, path, new)
            run.check(g(root, path) is new and g(root, f'#/_references/{name}/' + '/'.join(map(str, p))) is new, 'writing through a pointer')


def absent(run, rng):
    g, s = api()
    for _ in range(run.n(300)):
        v = G.value(rng, 3)
        conts = [((), v)] + [(p, x) for p, _, _, x in walk(v) if usable(p)]
        p, x = rng.choice(conts)
        if isinstance(x, (list, tuple)):
            seg = str(len(x) + rng.randrange(3)) if rng.random() < .5 else 'nope'
        elif isinstance(x, dict):
            seg = 'nope' if rng.random() < .7 else '987'
        else:
            seg = 'nope'
        path = '#/' + '/'.join([*map(str, p), seg])
        run.case((v, path))
        try:
            r = g(v, path)
        except Exception:
            continue
        run.check(False, 'a path that leads nowhere returned a value', path=path, result=r)


if __name__ == '__main__':
    sys.exit(main('C09', [('get', get), ('both_keys', both_keys), ('setting', setting), ('new_key', new_key), ('pointers', pointers), ('absent', absent)]))
