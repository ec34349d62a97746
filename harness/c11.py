from lib import *
import math


def api():
    from dessia_common.utils.interpolation import istep_from_value_on_list, interpolate_from_istep
    return istep_from_value_on_list, interpolate_from_istep


def close(a, b, scale=1.):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9 * max(1., scale))


def gen(rng, n=None):
    n = rng.choice([1, 2, 2, 3, 4, 6, 15]) if n is None else n
    k = rng.randrange(5)
    if k == 0:
        return [float(rng.randrange(-3, 4)) for _ in range(n)]
    if k == 1:
        return sorted(rng.uniform(-10, 10) for _ in range(n))
    if k == 2:
        return sorted((rng.uniform(-10, 10) for _ in range(n)), reverse=True)
    if k == 3:
        return [rng.randrange(-3, 4) for _ in range(n)]
    return [rng.choice([-1e6, -2.5, 0., 1e-3, 2.5, 1e6]) for _ in range(n)]


def bracket(list_, value):
    return [i for i, (a, b) in enumerate(zip(list_[:-1], list_[1:])) if min(a, b) <= value <= max(a, b)]


def check_istep(list_, value, extrapolate=False):
    istep, interp = api()
    br = bracket(list_, value)
    scale = max([abs(x) for x in list_] + [1.])
    try:
        r = istep(list(list_), value, extrapolate) if extrapolate else istep(list(list_), value)
    except ValueError:
        if extrapolate:
            return 'extrapolate=True raised ValueError'
        return 'ValueError though the value lies between two consecutive points' if br else None
    if not (0 <= r <= len(list_) - 1):
        return f'index {r} outside of [0, {len(list_) - 1}]'
    if not br:
        if not extrapolate:
            return f'returned {r} for a value that no consecutive pair of points encloses'
        want = 0. if abs(list_[0] - value) < abs(list_[-1] - value) else len(list_) - 1
        return None if r == want else f'extrapolation gives {r}, want the nearest end {want}'
    back = interp(list(list_), r)
    if not close(back, value, scale):
        return f'index {r} interpolates to {back}'
    if not (br[0] - 1e-12 <= r <= br[0] + 1 + 1e-12):
        return f'index {r} is not in the first enclosing segment {br[0]}'
    return None


def istep(run, rng):
    for _ in range(run.n(3000)):
        l = gen(rng)
        v = rng.choice([rng.choice(l), rng.uniform(min(l) - 1, max(l) + 1), rng.uniform(min(l), max(l)), float(rng.randrange(-3, 4))])
        e = rng.random() < .3
        run.case((l, v, e))
        keep = list(l)
        msg = check_istep(l, v, e)
        run.check(msg is None, f'istep_from_value_on_list: {msg}', list_=l, value=v, extrapolate=e)
        run.check(l == keep, 'the list was changed')


def check_interp(objs, t):
    _, interp = api()
    n = len(objs)
    try:
        r = interp(list(objs), t)
    except ValueError:
        return 'ValueError for an index within the list' if n and 0 <= t <= n - 1 else None
    if not n or not 0 <= t <= n - 1:
        return f'{r} for an index outside of the list'
    k = math.floor(t)
    want = objs[k] if k == t else (1 - (t - k)) * objs[k] + (t - k) * objs[k + 1]
    return None if close(r, want, max(map(abs, objs))) else f'{r}, want {want}'


def interp(run, rng):
    for _ in range(run.n(2000)):
        l = gen(rng)
        t = rng.choice([rng.uniform(0, len(l) - 1), float(rng.randrange(len(l))), rng.randrange(len(l)), rng.uniform(-1, len(l) + .5), len(l) - 1, -1e-9, len(l) - 1 + 1e-9])
        run.case((l, t))
        msg = check_interp(l, t)
        run.check(msg is None, f'interpolate_from_istep: {msg}', objects=l, istep=t)
        if len(l) > 1 and 0 <= t <= len(l) - 1:
            _, ip = api()
            k = min(math.floor(t), len(l) - 2)
            r = ip(l, t)
            lo, hi = sorted((l[k], l[k + 1]))
            run.check(lo - 1e-9 * max(1, abs(lo)) <= r <= hi + 1e-9 * max(1, abs(hi)), 'interpolated value outside of the segment', objects=l, istep=t, got=r)


def vectors(run, rng):
    import numpy as np
    _, ip = api()
    for _ in range(run.n(300)):
        n = rng.randrange(1, 6)
        pts = [np.array([rng.uniform(-5, 5), rng.uniform(-5, 5)]) for _ in range(n)]
        t = rng.choice([rng.uniform(0, n - 1), float(rng.randrange(n))])
        run.case((pts, t))
        r = ip(pts, t)
        for c in range(2):
            run.check(close(float(r[c]), float(ip([float(p[c]) for p in pts], t)), 5), 'interpolation of vectors is not componentwise')


def m_istep(i):
    if not i['list_']:
        return None
    return check_istep([float(x) for x in i['list_']], float(i['value']), bool(i.get('extrapolate', False)))


def m_interp(i):
    return check_interp([float(x) for x in i['objects']], float(i['istep']))


if __name__ == '__main__':
    sys.exit(main('C11', [('istep', istep), ('interp', interp), ('vectors', vectors)], {'istep': m_istep, 'interp': m_interp}))
