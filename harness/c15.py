from lib import *
import math
import itertools
import dvmodels as M


def close(a, b, s=1.):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9 * max(1., abs(s)))


def bounds(rng):
    lo = rng.choice([rng.uniform(-100, 100), float(rng.randrange(-5, 5)), 0.])
    return lo, lo + rng.choice([rng.uniform(.01, 50), float(rng.randrange(1, 9)), 1e4])


def mapping(run, rng):
    from dessia_common.optimization import BoundedAttributeValue
    for _ in range(run.n(500)):
        lo, hi = bounds(rng)
        b = BoundedAttributeValue('a', lo, hi)
        t = rng.choice([0., 1., .5, rng.random(), rng.uniform(-1, 2)])
        v = rng.choice([lo, hi, rng.uniform(lo, hi)])
        run.case((lo, hi, t, v))
        s = max(abs(lo), abs(hi))
        run.check(close(b.dimensionless_to_value(t), lo + t * (hi - lo), s), 'dimensionless_to_value', lo=lo, hi=hi, t=t, got=b.dimensionless_to_value(t))
        run.check(close(b.dimensionless_value(b.dimensionless_to_value(t)), t, s / (hi - lo)), 'dimensionless round trip', lo=lo, hi=hi, t=t)
        run.check(close(b.dimensionless_to_value(b.dimensionless_value(v)), v, s), 'value round trip', lo=lo, hi=hi, v=v)
        if 0 <= t <= 1:
            run.check(lo - 1e-9 * s <= b.dimensionless_to_value(t) <= hi + 1e-9 * s, 'a dimensionless value in [0, 1] maps outside of the bounds')


def params(run, rng):
    from dessia_common.core import Parameter, ParameterSet
    for _ in range(run.n(400)):
        lo, hi = bounds(rng)
        per = rng.choice([None, None, hi - lo, 2 * math.pi, 1.])
        p = Parameter(lo, hi, per)
        v = rng.uniform(lo, hi)
        run.case((lo, hi, per, v))
        s = max(abs(lo), abs(hi))
        run.check(close(p.normalize(lo), 0) and close(p.normalize(hi), 1), 'normalize does not map the bounds to 0 and 1')
        run.check(close(p.original_value(p.normalize(v)), v, s), 'normalize round trip')
        t = rng.random()
        run.check(close(p.normalize(p.original_value(t)), t, s / (hi - lo)), 'original_value round trip')
        run.check(lo <= p.random_value() <= hi, 'random_value outside of the bounds')
        ob = p.optimizer_bounds()
        run.check(ob is None if per is None else close(ob[0], lo - per / 2, s) and close(ob[1], hi + per / 2, s), 'optimizer_bounds', got=ob)
        tol = rng.choice([1e-2, 1e-3, .1])
        w = v + rng.choice([0, tol * .5, -tol * .5, tol * 3, -tol * 3, rng.uniform(-3, 3)])
        if per is None:
            if abs(abs(v - w) - tol) > 1e-9 and abs(v - w) > 1e-8 * max(abs(v), abs(w)):
                run.check(bool(p.are_values_equal(v, w, tol)) == (abs(v - w) <= tol), 'are_values_equal', v=v, w=w, tol=tol)
        else:
            k = rng.randrange(-2, 3)
            w2 = w + k * per
            gap = abs(v - w2) % per
            gap = min(gap, per - gap)
            if abs(gap - tol) > 1e-7:
                run.check(bool(p.are_values_equal(v, w2, tol)) == (gap <= tol), 'are_values_equal is not equality up to the period', v=v, w=w2, tol=tol, period=per)
    for _ in range(run.n(40)):
        vals = {k: [rng.uniform(-9, 9) for _ in range(rng.randrange(1, 6))] for k in 'abc'}
        ps = ParameterSet(vals)
        run.case(vals)
        for prm in ps.parameters:
            run.check(prm.lower_bound == min(vals[prm.name]) and prm.upper_bound == max(vals[prm.name]), 'ParameterSet.parameters')
        run.eq([q.name for q in ps.parameters], list(vals), 'ParameterSet.parameters names')
        run.check(all(close(ps.means[k], sum(v) / len(v)) for k, v in vals.items()), 'ParameterSet.means')


def optimizer(rng, k, nf, center=None):
    from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue, InstantiatingModelOptimizer

    class Model(M.DessiaObject):
        def __init__(self, **kw):
            self.__dict__.update(kw)
            super().__init__(name='')

    class Opt(InstantiatingModelOptimizer):
        seen = None

        def instantiate_model(self, attributes_values):
            self.seen.append(dict(attributes_values))
            return Model(**attributes_values)

        def objective_from_model(self, model, clearance=.003):
            tot = 0.
            for b, c in zip(self.optimization_bounds, center):
                tot += ((getattr(model, b.attribute_name) - c) / (b.max_value - b.min_value)) ** 2
            return tot
    bs = [BoundedAttributeValue(f'v{i}', *bounds(rng)) for i in range(k)]
    fs = [FixedAttributeValue(f'f{i}', rng.choice([0., 0, False, '', None, 'text', round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)])) for i in range(nf)]
    center = center or [rng.uniform(b.min_value, b.max_value) for b in bs]
    o = Opt(fs, bs)
    o.seen = []
    return o, bs, fs, center


def vectors(run, rng):
    for _ in range(run.n(200)):
        o, bs, fs, c = optimizer(rng, rng.randrange(1, 5), rng.randrange(3))
        t = [rng.random() for _ in bs]
        run.case(([(b.min_value, b.max_value) for b in bs], t))
        x = o.dimensionless_vector_to_vector(t)
        run.check(len(x) == len(bs) and all(close(xi, b.min_value + ti * (b.max_value - b.min_value), b.max_value) for xi, ti, b in zip(x, t, bs)), 'dimensionless_vector_to_vector', got=x)
        av = o.vector_to_attributes_values(x)
        run.eq(av, {**{f.attribute_name: f.value for f in fs}, **{b.attribute_name: xi for b, xi in zip(bs, x)}}, 'vector_to_attributes_values')
        run.check(close(o.objective_from_dimensionless_vector(t), sum(((xi - ci) / (b.max_value - b.min_value)) ** 2 for xi, ci, b in zip(x, c, bs))), 'objective_from_dimensionless_vector')
        run.check([tuple(b) for b in o.scipy_bounds()] == [(0, 1)] * len(bs), 'scipy_bounds')
        cb = o.cma_bounds()
        run.check(list(cb[0]) == [0] * len(bs) and list(cb[1]) == [1] * len(bs), 'cma_bounds')


def optima(run, rng):
    import numpy as np
    import contextlib, io
    for _ in range(run.n(8)):
        np.random.seed(rng.randrange(10 ** 6))
        o, bs, fs, c = optimizer(rng, rng.randrange(2, 4), 1)
        kind = rng.choice(['grad', 'grad', 'cma', 'both', 'both'])
        run.case((kind, [(b.min_value, b.max_value) for b in bs], c))
        with contextlib.redirect_stdout(io.StringIO()):
            if kind == 'grad':
                model, f = o.optimize_gradient()
            elif kind == 'cma':
                model, f = o.optimize_cma()
            else:
                model, f = o.optimize_cma_then_gradient()
        run.check(math.isclose(o.objective_from_model(model), f, rel_tol=1e-6, abs_tol=1e-9), 'the returned model does not have the returned cost', kind=kind, f=f, cost=o.objective_from_model(model))
        for s in o.seen:
            for b in bs:
                slack = 1e-4 * (b.max_value - b.min_value)    # finite differences may step over a bound
                run.check(b.min_value - slack <= s[b.attribute_name] <= b.max_value + slack, 'a model was evaluated outside of the bounds', kind=kind, attribute=b.attribute_name, value=s[b.attribute_name], bounds=(b.min_value, b.max_value))
            run.check(all(s[fp.attribute_name] == fp.value for fp in fs), 'a fixed attribute was changed')
        if kind != 'cma':
            run.check(f < 1e-3, 'a quadratic cost is not minimised', f=f)


def sampling(run, rng):
    import types
    # pyDOE2 imports the standard module imp, removed in Python 3.12, and uses nothing of it here
    sys.modules.setdefault('imp', types.ModuleType('imp'))
    from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue
    from dessia_common.datatools.sampling import ClassSampler
    for _ in range(run.n(40)):
        names = rng.sample(['x', 'y', 'z'], 3)
        k = rng.randrange(1, 4)
        bs = [BoundedAttributeValue(n, *bounds(rng), number=rng.choice([1, 2, 3, 4])) for n in names[:k]]
        fs = [FixedAttributeValue(n, rng.choice([0., 0, round(rng.uniform(-5, 5), 2), round(rng.uniform(-5, 5), 2)])) for n in names[k:]]
        s = ClassSampler(M.Item, bs, fs)
        run.case([(b.attribute_name, b.min_value, b.max_value, b.number) for b in bs] + [(f.attribute_name, f.value) for f in fs])
        ds = s.make_doe(0, 'fullfact', name='doe')
        grid = [[b.min_value + (b.max_value - b.min_value) * i / (b.number - 1) if b.number > 1 else b.min_value for i in range(b.number)] for b in bs]
        want = sorted(itertools.product(*grid))
        got = sorted(tuple(float(getattr(o, b.attribute_name)) for b in bs) for o in ds.dessia_objects)
        run.check(len(got) == len(want) and all(close(a, b, 1e3) for u, v in zip(got, want) for a, b in zip(u, v)), 'the full factorial design is not the product of the levels', got=got[:4], want=want[:4], n=(len(got), len(want)))
        n = rng.choice([1, 5, 12])
        designs = [('montecarlo', s.make_doe(n, 'montecarlo')), ('lhs', s.make_doe(n, 'lhs'))]
        for meth, d in designs + [('fullfact', ds)]:
            run.check(meth == 'fullfact' or len(d) == n, 'number of samples', method=meth, got=len(d), want=n)
            for o in d.dessia_objects:
                run.check(isinstance(o, M.Item), 'class of the samples')
                for b in bs:
                    e = 1e-9 * max(1, abs(b.min_value), abs(b.max_value))
                    run.check(b.min_value - e <= getattr(o, b.attribute_name) <= b.max_value + e, 'a sample lies outside of the bounds', method=meth, attribute=b.attribute_name)
                run.check(all(getattr(o, f.attribute_name) == f.value for f in fs), 'a constant attribute varies', method=meth)
        lhs = designs[1][1]
        for b in bs:     # exactly one sample in each of the n strata
            strata = sorted(int(min(n - 1, max(0, math.floor((getattr(o, b.attribute_name) - b.min_value) / (b.max_value - b.min_value) * n)))) for o in lhs.dessia_objects)
            run.eq(strata, list(range(n)), 'latin hypercube does not put one sample in each stratum', attribute=b.attribute_name)
        run.raises(lambda: s.make_doe(2, 'unknown'), NotImplementedError, 'unknown method accepted')


if __name__ == '__main__':
    sys.exit(main('C15', [('mapping', mapping), ('params', params), ('vectors', vectors), ('optima', optima), ('sampling', sampling)]))
