from lib import *
import dvmodels as M


def dominates(a, b):
    """a is at least as good everywhere"""
    return all(x <= y for x, y in zip(a, b))


def strictly(a, b):
    return dominates(a, b) and any(x < y for x, y in zip(a, b))


def check_front(run, costs, keep, what):
    kept = [c for c, k in zip(costs, keep) if k]
    run.check(len(keep) == len(costs), f'{what}: wrong length')
    for c, k in zip(costs, keep):
        if k:
            run.check(not any(strictly(o, c) for o in costs), f'{what}: a dominated point is on the front', point=c, costs=costs)
        else:
            run.check(any(dominates(o, c) for o in kept), f'{what}: a point that no front point dominates is left out', point=c, costs=costs, front=kept)


def gen(rng):
    n, d = rng.choice([1, 2, 3, 5, 8, 20, 50]), rng.choice([1, 2, 2, 3, 4])
    k = rng.randrange(4)
    if k == 0:
        return [[float(rng.randrange(4)) for _ in range(d)] for _ in range(n)]
    if k == 1:
        return [[round(rng.uniform(-10, 10), 3) for _ in range(d)] for _ in range(n)]
    if k == 2:
        return [[round(rng.uniform(0, 1), 3) * 10 ** (3 * j) for j in range(d)] for _ in range(n)]
    c = float(rng.randrange(5))
    rows = [[float(rng.randrange(5)) for _ in range(d)] for _ in range(n)]
    for r in rows:
        r[rng.randrange(d) if d == 1 else 0] = c
    return rows


def indexes(run, rng):
    from dessia_common.datatools.dataset import Dataset
    for _ in range(run.n(500)):
        costs = gen(rng)
        run.case(costs)
        keep = [list(c) for c in costs]
        check_front(run, costs, Dataset.pareto_indexes(costs), 'pareto_indexes')
        run.check(costs == keep, 'pareto_indexes changed its argument')


def points(run, rng):
    from dessia_common.datatools.dataset import Dataset
    for _ in range(run.n(200)):
        objs = [M.Item(float(rng.randrange(6)), float(rng.randrange(6)), rng.randrange(4)) for _ in range(rng.choice([1, 3, 8, 20]))]
        names = rng.sample(['x', 'y', 'z'], rng.choice([1, 2, 3]))
        costs = [[getattr(o, a) for a in names] for o in objs]
        run.case((names, costs))
        ds = Dataset(list(objs))
        if rng.random() < .5:
            ds.matrix
        front = ds.pareto_points(names)
        ids = {id(o) for o in front.dessia_objects}
        keep = [id(o) in ids for o in objs]
        run.check([o for o, k in zip(objs, keep) if k] == list(front.dessia_objects) and len(ids) == len(front), 'pareto_points changes the order or repeats objects')
        check_front(run, costs, keep, 'pareto_points')


def sheets(run, rng):
    from dessia_common.datatools.dataset import Dataset
    for _ in range(run.n(150)):
        n = rng.choice([3, 8, 20])
        objs = [M.Item(float(rng.randrange(6)), float(rng.randrange(6)), rng.randrange(4)) for _ in range(n)]
        names = rng.sample(['x', 'y', 'z'], 2)
        nb = rng.choice([1, 2, 3])
        run.case((names, nb, [(o.x, o.y, o.z) for o in objs]))
        ds = Dataset(list(objs))
        rest, cur = [], list(objs)
        got = None
        try:
            got, left = ds.pareto_sheets(names, nb)
        except Exception:
            # more sheets asked than there are points
            distinct = len({tuple(getattr(o, a) for a in names) for o in objs})
            run.check(distinct < nb + 1 or n < nb + 1, 'pareto_sheets failed though enough points are left', n=n, nb=nb)
            continue
        run.eq(len(got), nb, 'number of sheets')
        for s in got:
            ids = {id(o) for o in s.dessia_objects}
            costs = [[getattr(o, a) for a in names] for o in cur]
            check_front(run, costs, [id(o) in ids for o in cur], 'pareto_sheets')
            cur = [o for o in cur if id(o) not in ids]
        run.check(len(left.dessia_objects) == len(cur) and all(a is b for a, b in zip(left.dessia_objects, cur)), 'pareto_sheets: the remaining points are not what the sheets leave')
        run.check(len(ds) == n and all(a is b for a, b in zip(ds.dessia_objects, objs)), 'pareto_sheets changed the dataset')


if __name__ == '__main__':
    sys.exit(main('C18', [('indexes', indexes), ('points', points), ('sheets', sheets)]))
