from lib import *
import dvmodels as M

OPS = {'>': lambda a, b: a > b, 'gt': lambda a, b: a > b, '<': lambda a, b: a < b, 'lt': lambda a, b: a < b,
       '>=': lambda a, b: a >= b, 'ge': lambda a, b: a >= b, 'gte': lambda a, b: a >= b,
       '<=': lambda a, b: a <= b, 'le': lambda a, b: a <= b, 'lte': lambda a, b: a <= b,
       '==': lambda a, b: a == b, 'eq': lambda a, b: a == b, '!=': lambda a, b: a != b, 'ne': lambda a, b: a != b}
NUMS = [-2., -1., -.5, 0., .5, 1., 1.5, 2., 3.]


def items(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60]) if n is None else n
    return [M.Item(rng.choice(NUMS), rng.choice(NUMS), rng.randrange(-2, 3), name=f'i{k}') for k in range(n)]


def deep(rng):
    return [M.Deep(i, rng.choice('ab')) for i in items(rng)]


def read(o, attr):
    for s in attr.split('/'):
        o = getattr(o, s)
    return o


def snap(objs):
    return [(id(o), dict(o.__dict__)) for o in objs]


def same_objects(run, got, want, msg, **d):
    run.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), msg, got=got, want=want, **d)


def single(run, rng):
    from dessia_common.core import DessiaFilter
    for op in OPS:
        for _ in range(run.n(40)):
            nested = rng.random() < .3
            objs = deep(rng) if nested else items(rng)
            attr = rng.choice(['item/x', 'item/y', 'item/z'] if nested else ['x', 'y', 'z'])
            bound = rng.choice(NUMS)
            f = DessiaFilter(attr, op, bound)
            run.case((op, attr, bound, [read(o, attr) for o in objs]))
            before = snap(objs)
            idx = f.get_booleans_index(objs)
            want = [OPS[op](read(o, attr), bound) for o in objs]
            run.check(len(idx) == len(objs) and [bool(b) for b in idx] == want,
                      'a filter keeps other elements than those satisfying its comparison', op=op, got=idx, want=want, values=[read(o, attr) for o in objs], bound=bound)
            kept = DessiaFilter.apply(objs, idx)
            same_objects(run, kept, [o for o, w in zip(objs, want) if w], 'apply returns other objects, or another order')
            run.eq(list(DessiaFilter.booleanlist_to_indexlist(idx)), [i for i, w in enumerate(want) if w], 'booleanlist_to_indexlist is wrong')
            run.check(snap(objs) == before, 'filtering changed the filtered objects')


def strings(run, rng):
    from dessia_common.core import DessiaFilter
    for _ in range(run.n(60)):
        objs = deep(rng)
        op, bound = rng.choice(['==', '!=', 'eq', 'ne']), rng.choice('ab')
        run.case((op, bound, [o.kind for o in objs]))
        run.eq(list(DessiaFilter('kind', op, bound).get_booleans_index(objs)), [OPS[op](o.kind, bound) for o in objs], 'filter on a string attribute')


def combos(run, rng):
    from dessia_common.core import DessiaFilter, FiltersList
    for _ in range(run.n(700)):
        objs = items(rng)
        lop = rng.choice(['and', 'or', 'xor'])
        k = 2 if lop == 'xor' else rng.choice([1, 1, 2, 2, 3, 4, 6])
        spec = [(rng.choice(['x', 'y', 'z']), rng.choice(list(OPS)), rng.choice(NUMS)) for _ in range(k)]
        if rng.random() < .2 and k > 1:
            spec[-1] = spec[0]
        fl = FiltersList([DessiaFilter(*s) for s in spec], lop)
        if rng.random() < .3:
            fl = FiltersList.from_filters_list([DessiaFilter(*s) for s in spec], lop)
        run.case((lop, spec, [(o.x, o.y, o.z) for o in objs]))
        rows = [[OPS[op](getattr(o, a), b) for a, op, b in spec] for o in objs]
        want = [all(r) if lop == 'and' else any(r) if lop == 'or' else r[0] != r[1] for r in rows]
        before = snap(objs)
        idx = fl.get_booleans_index(objs)
        run.check([bool(b) for b in idx] == want, 'combined filters keep other elements than the logical combination', op=lop, spec=spec, got=idx, want=want)
        same_objects(run, fl.apply(objs), [o for o, w in zip(objs, want) if w], 'FiltersList.apply returns other objects, or another order', op=lop, spec=spec)
        run.check(snap(objs) == before and len(fl.filters) == k and len(fl) == k, 'filtering changed its operands')
        # filtering twice is idempotent, and the complement is the rest
        same_objects(run, fl.apply(fl.apply(objs)), fl.apply(objs), 'filtering is not idempotent')


def booleans(run, rng):
    from dessia_common.core import FiltersList
    for _ in range(run.n(400)):
        n = rng.choice([0, 1, 2, 5, 30])
        lop = rng.choice(['and', 'or', 'xor'])
        k = 2 if lop == 'xor' else rng.randrange(1, 6)
        lists = [[rng.random() < .5 for _ in range(n)] for _ in range(k)]
        run.case((lop, lists))
        want = [all(r) if lop == 'and' else any(r) if lop == 'or' else r[0] != r[1] for r in zip(*lists)]
        run.eq([bool(b) for b in FiltersList.combine_booleans_lists(lists, lop)], want, 'combine_booleans_lists', op=lop, lists=lists)
    for bad in ('nand', 'AND', '', None, 'xand'):
        run.case(bad)
        run.raises(lambda: FiltersList.combine_booleans_lists([[True]], bad), NotImplementedError, 'unknown logical operator accepted', op=bad)


def datasets(run, rng):
    from dessia_common.core import DessiaFilter, FiltersList
    from dessia_common.datatools.dataset import Dataset
    for _ in range(run.n(100)):
        objs = items(rng)
        spec = [(rng.choice(['x', 'y', 'z']), rng.choice(list(OPS)), rng.choice(NUMS)) for _ in range(rng.choice([1, 2]))]
        lop = rng.choice(['and', 'or'])
        run.case((lop, spec, [(o.x, o.y, o.z) for o in objs]))
        ds = Dataset(list(objs))
        want = [o for o in objs if (all if lop == 'and' else any)([OPS[op](getattr(o, a), b) for a, op, b in spec])]
        got = ds.filtering(FiltersList([DessiaFilter(*s) for s in spec], lop))
        same_objects(run, got.dessia_objects, want, 'Dataset.filtering keeps other objects')
        same_objects(run, ds.dessia_objects, objs, 'Dataset.filtering changed the dataset it filters')


def m_combine(inputs):
    from dessia_common.core import FiltersList
    lists, lop = [list(map(bool, l)) for l in inputs['booleans_lists']], inputs['logical_operator']
    if not lists or len({len(l) for l in lists}) != 1 or lop == 'xor' and len(lists) != 2:
        return None
    want = {'and': lambda: [all(r) for r in zip(*lists)], 'or': lambda: [any(r) for r in zip(*lists)],
            'xor': lambda: [sum(r) % 2 == 1 for r in zip(*lists)]}.get(lop)
    if want is None:
        return None
    got = [bool(b) for b in FiltersList.combine_booleans_lists(lists, lop)]
    return None if got == want() else f'combine_booleans_lists({lists}, {lop!r}) = {got}, want {want()}'


if __name__ == '__main__':
    sys.exit(main('C08', [('single', single), ('strings', strings), ('combos', combos), ('booleans', booleans),
                          ('datasets', datasets)], {'combine': m_combine}))
