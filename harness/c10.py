from lib import *
import math
import dvmodels as M


def mk(rng, n=None, kind=None):
    n = rng.choice([1, 2, 3, 5, 8, 12]) if n is None else n
    kind = kind or rng.choice(['item', 'item', 'mixed', 'sub'])
    out = []
    for i in range(n):
        x, y, z = (round(rng.uniform(-5, 5), 2) if rng.random() < .6 else float(rng.randrange(-2, 3)) for _ in range(3))
        cls = {'item': M.Item, 'sub': M.ItemXY, 'mixed': rng.choice([M.Item, M.ItemXY, M.ItemYX])}[kind]
        out.append(cls(x, y, int(z), name=f'o{i}'))
    return out


def common(objs):
    out = []
    for o in objs:
        for a in type(o).vector_features():
            if a not in out and all(a in type(p).vector_features() for p in objs):
                out.append(a)
    return out


def same(xs, ys):
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


def coherent(run, ds, objs, what, labels=None, exact=False):
    run.check(len(ds) == len(objs) and same(ds.dessia_objects, objs), f'{what}: other objects, or another order', got=[o.name for o in ds.dessia_objects], want=[o.name for o in objs])
    ca = ds.common_attributes
    shared = common(objs)
    run.check(not objs or set(ca) <= set(shared) and len(set(ca)) == len(ca), f'{what}: common attributes are not shared by all the objects', got=ca, shared=shared)
    run.check(not exact or list(ca) == shared, f'{what}: common attributes are not those shared by all the objects', got=ca, shared=shared)
    want = [[getattr(o, a) for a in ca] for o in objs]
    run.check([list(r) for r in ds.matrix] == want, f'{what}: rows of the matrix are not the attribute values of the objects', attributes=ca, got=ds.matrix, want=want)
    for i, a in enumerate(ca):
        run.check(list(ds.column_values(i)) == [getattr(o, a) for o in objs], f'{what}: column_values', attribute=a)
        if objs:
            run.check(list(ds.attribute_values(a)) == [getattr(o, a) for o in objs], f'{what}: attribute_values', attribute=a)
    if labels is not None:
        run.check(list(ds.labels) == list(labels), f'{what}: labels do not follow the objects', got=ds.labels, want=labels)


def ops(run, rng, ds, objs, labels=None):
    """one random operation on a dataset; returns the new dataset and the objects it must hold"""
    from dessia_common.core import DessiaFilter, FiltersList
    from dessia_common.datatools.dataset import Dataset
    n = len(objs)
    k = rng.randrange(8)
    lab = lambda idx: [labels[i] for i in idx] if labels is not None else None
    if k == 0 and n:
        sl = slice(rng.choice([None, 0, 1, -2, 2]), rng.choice([None, n, n - 1, 3, -1]), rng.choice([None, 1, 2, -1]))
        idx = list(range(n))[sl]
        return f'slice {sl}', ds[sl], [objs[i] for i in idx], lab(idx)
    if k == 1 and n:
        m = [rng.random() < .6 for _ in range(n)]
        idx = [i for i in range(n) if m[i]]
        return f'boolean index {m}', ds[m], [objs[i] for i in idx], lab(idx)
    if k == 2 and n:
        idx = sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
        neg = [i - n if rng.random() < .2 else i for i in idx]
        return f'index list {neg}', ds[neg], [objs[i] for i in idx], lab(idx)
    if k == 3 and labels is None:
        o2 = mk(rng, rng.choice([0, 1, 3, 6]))
        d2 = Dataset(list(o2), name='other')
        if rng.random() < .6:
            d2.matrix
        r = ds + d2
        coherent(run, d2, o2, 'second operand after an addition')
        return 'addition', r, objs + o2, None
    if k == 4 and labels is None:
        o2 = mk(rng, rng.choice([0, 1, 3, 6]))
        d2 = Dataset(list(o2))
        if rng.random() < .6:
            d2.matrix
        ds.extend(d2)
        coherent(run, d2, o2, 'argument of extend')
        return 'extend', ds, objs + o2, None
    if k == 5 and n:
        ca = ds.common_attributes
        a = rng.choice(ca)
        asc = rng.random() < .5
        key = a if rng.random() < .5 else list(ca).index(a)
        ds.sort(key, asc)
        got = list(ds.dessia_objects)
        run.check(sorted(map(id, got)) == sorted(map(id, objs)), 'sort lost or invented objects')
        vals = [getattr(o, a) for o in got]
        run.check(all((p <= q) if asc else (p >= q) for p, q in zip(vals, vals[1:])), 'sort does not sort', attribute=a, ascend=asc, got=vals)
        if labels is not None:
            by = {id(o): l for o, l in zip(objs, labels)}
            return f'sort {key} {asc}', ds, got, [by[id(o)] for o in got]
        return f'sort {key} {asc}', ds, got, None
    if k == 6 and n:
        ca = ds.common_attributes
        a, b = rng.choice(ca), rng.choice([-1, 0, 1.5])
        fl = FiltersList([DessiaFilter(a, '>=', b)], 'and')
        idx = [i for i in range(n) if getattr(objs[i], a) >= b]
        return f'filter {a} >= {b}', ds.filtering(fl), [objs[i] for i in idx], lab(idx)
    ds.matrix, ds.common_attributes
    return 'read', ds, objs, labels


def histories(run, rng):
    from dessia_common.datatools.dataset import Dataset
    for _ in range(run.n(300)):
        objs = mk(rng)
        ds = Dataset(list(objs), name='first')
        coherent(run, Dataset(list(objs)), objs, 'new dataset', exact=True)
        log = []
        for _ in range(rng.randrange(1, 7)):
            if rng.random() < .5:
                ds.matrix
            prev, pobjs = ds, list(objs)
            what, ds, objs, _ = ops(run, rng, ds, list(objs))
            log.append(what)
            run.case((log, [(o.__class__.__name__, o.x, o.y, o.z) for o in objs]))
            if not isinstance(ds, Dataset):
                break
            if rng.random() < .6:
                coherent(run, ds, objs, ' then '.join(log), exact=what in ('addition', 'extend') and len({type(o) for o in objs}) == 1)
            if prev is not ds:
                coherent(run, prev, pobjs, 'operand after ' + ' then '.join(log))
            if not objs:
                break
        else:
            coherent(run, ds, objs, ' then '.join(log))


def clustered(run, rng):
    from dessia_common.datatools.cluster import ClusteredDataset
    for _ in range(run.n(200)):
        objs = mk(rng)
        labels = [rng.choice([-1, 0, 1, 2, 5, 6]) for _ in objs]
        ds = ClusteredDataset(list(objs), list(labels))
        log = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < .5:
                ds.matrix
            what, ds, objs, labels = ops(run, rng, ds, list(objs), labels)
            log.append(what)
            run.case((log, labels, [(o.__class__.__name__, o.x, o.y, o.z) for o in objs]))
            if not objs:
                break
            coherent(run, ds, objs, 'clustered ' + ' then '.join(log), labels)
        if not objs:
            continue
        split = ds.clustered_sublists()
        run.check(sorted(split.labels) == sorted(set(labels)), 'clustered_sublists has other labels', got=split.labels, want=sorted(set(labels)))
        for sub, l in zip(split.dessia_objects, split.labels):
            run.check(same(sub.dessia_objects, [o for o, ll in zip(objs, labels) if ll == l]), 'a sublist does not hold the objects of its label', label=l, got=[o.name for o in sub.dessia_objects], labels=labels)
        run.eq(ds.n_clusters, len(set(labels) - {-1}), 'n_clusters')


def statistics(run, rng):
    from dessia_common.datatools.dataset import Dataset
    close = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    for _ in range(run.n(60)):
        objs = mk(rng, rng.choice([2, 3, 7, 12]))
        ds = Dataset(list(objs))
        ca = ds.common_attributes
        run.case([(o.x, o.y, o.z) for o in objs])
        n = len(objs)
        cols = [[float(getattr(o, a)) for o in objs] for a in ca]
        mean = [sum(c) / n for c in cols]
        var = [sum((v - m) ** 2 for v in c) / n for c, m in zip(cols, mean)]
        run.check(all(map(close, ds.mean(), mean)), 'mean', got=ds.mean(), want=mean)
        run.check(all(map(close, ds.variances(), var)), 'variances', got=ds.variances(), want=var)
        run.check(all(close(a, math.sqrt(b)) for a, b in zip(ds.standard_deviation(), var)), 'standard_deviation')
        cov = ds.covariance_matrix()
        for i in range(len(ca)):
            for j in range(len(ca)):
                w = sum((a - mean[i]) * (b - mean[j]) for a, b in zip(cols[i], cols[j])) / (n - 1)
                run.check(close(cov[i][j], w), 'covariance_matrix', got=cov[i][j], want=w)
        d = ds.distance_matrix()
        for i in range(n):
            for j in range(n):
                w = math.sqrt(sum((c[i] - c[j]) ** 2 for c in cols))
                run.check(close(d[i][j], w), 'distance_matrix', got=d[i][j], want=w)
        names = rng.sample(list(ca), rng.randrange(1, len(ca) + 1))
        run.check([list(r) for r in ds.sub_matrix(names)] == [[getattr(o, a) for a in names] for o in objs], 'sub_matrix')


def norms(run, rng):
    from dessia_common.datatools import metrics as m
    close = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    for _ in range(run.n(200)):
        n = rng.randrange(1, 9)
        a, b = ([round(rng.uniform(-9, 9), 2) for _ in range(n)] for _ in range(2))
        run.case((a, b))
        d = [x - y for x, y in zip(a, b)]
        run.check(close(m.l1_norm(d), sum(map(abs, d))) and close(m.manhattan_distance(a, b), sum(map(abs, d))), 'l1')
        run.check(close(m.l2_norm(d), math.sqrt(sum(x * x for x in d))) and close(m.euclidian_distance(a, b), math.sqrt(sum(x * x for x in d))), 'l2')
        run.check(close(m.inf_norm(d), max(map(abs, d))), 'inf_norm')
        p = rng.choice([1, 2, 3])
        run.check(close(m.minkowski_distance(a, b, p), sum(abs(x) ** p for x in d) ** (1 / p)), 'minkowski')
        ma, mb = sum(a) / n, sum(b) / n
        run.check(close(m.mean(a), ma) and close(m.variance(a), sum((x - ma) ** 2 for x in a) / n) and close(m.std(a), math.sqrt(sum((x - ma) ** 2 for x in a) / n)), 'mean/variance/std')
        run.check(close(m.covariance(a, b), sum((x - ma) * (y - mb) for x, y in zip(a, b)) / n), 'covariance')
        run.check(close(m.covariance(a, a), m.variance(a)), 'covariance of a vector with itself is not its variance')
    run.raises(lambda: m.covariance([1., 2.], [1.]), ValueError, 'covariance of vectors of different lengths')


def printing(run, rng):
    from dessia_common.datatools.dataset import Dataset
    for n in [1, 2, 5, 6, 9, 10, 11, 12, 25]:
        objs = [M.Item(1000. + i, 2000. + i, i) for i in range(n)]
        run.case(n)
        text = str(Dataset(objs, name='p'))
        shown = [i for i in range(n) if f'{1000. + i}' in text]
        run.eq(shown, [i for i in range(n) if i < 5 or i >= n - 5], 'the printed dataset does not show its first and last rows', n=n)


if __name__ == '__main__':
    sys.exit(main('C10', [('histories', histories), ('clustered', clustered), ('statistics', statistics), ('norms', norms),
                          ('printing', printing)]))
