from lib import *
import contextlib
import io
import dvmodels as M
import values as G

LEVELS = ['debug', 'info', 'warning', 'error']


def gen(rng, n=None):
    import dessia_common.checks as c
    class DebugCheck(c.PassedCheck):
        level = 'debug'
    kinds = [DebugCheck, c.PassedCheck, c.CheckWarning, c.FailedCheck, c.BadType, c.NonSerializable, c.GeometricInconsistance]
    return [rng.choice(kinds)(f'm{i}') for i in range(rng.choice([0, 1, 2, 3, 8, 30]) if n is None else n)]


def levels(run, rng):
    from dessia_common.checks import CheckList
    for _ in range(run.n(600)):
        checks = gen(rng)
        level = rng.choice(LEVELS)
        cl = CheckList(list(checks))
        run.case(([c.level for c in checks], level))
        want = [c for c in checks if LEVELS.index(c.level) >= LEVELS.index(level)]
        got = cl.checks_above_level(level)
        run.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'checks_above_level returns other checks', level=level, got=got, want=want)
        errs = cl.checks_above_level()
        run.check(list(errs) == [c for c in checks if c.level == 'error'], 'default level is not error')
        try:
            cl.raise_if_above_level(level)
            run.check(not want, 'raise_if_above_level did not raise', level=level, checks=checks)
        except ValueError:
            run.check(bool(want), 'raise_if_above_level raised though no check is above', level=level, checks=checks)
        run.check(len(cl) == len(checks) and all(cl[i] is checks[i] for i in range(len(checks))), 'CheckList is not the list of its checks')
        run.eq(cl.to_dict(), {'checks': [{'level': c.level, 'message': c.message, 'object_class': type(c).__name__} for c in checks]}, 'CheckList.to_dict')
        r = repr(cl)
        run.check(all(f'm{i}' in r for i in range(len(checks))), 'a check is absent from the printed list')


def sums(run, rng):
    from dessia_common.checks import CheckList
    for _ in range(run.n(200)):
        a, b, level = gen(rng), gen(rng), rng.choice(LEVELS)
        ca, cb = CheckList(list(a)), CheckList(list(b))
        run.case(([c.level for c in a], [c.level for c in b]))
        s = ca + cb
        run.check(list(s.checks) == a + b and list(ca.checks) == a and list(cb.checks) == b, 'sum of check lists')
        run.check(s.checks_above_level(level) == ca.checks_above_level(level) + cb.checks_above_level(level), 'filtering by level does not distribute over the sum')


def truth(run, rng):
    import dessia_common.checks as c
    for k in (c.PassedCheck, c.CheckWarning):
        run.case(k.__name__)
        run.check(bool(k('m')) and k('m').message == 'm', 'a passed check is false')
    for k in (c.FailedCheck, c.BadType, c.GeometricInconsistance, c.NonSerializable, c.NonCopyable, c.NonDisplayable, c.BadStructure):
        run.case(k.__name__)
        run.check(not bool(k('m')) and k.level == 'error', 'a failed check is true, or is not an error')
    run.check(c.PassedCheck.level == 'info' and c.CheckWarning.level == 'warning', 'levels')


def types(run, rng):
    from dessia_common.checks import type_check, is_int, is_float, is_str
    pool = [0, 1, -3, True, False, 1.5, 0., '', 'a', None, [], [1], (), {}, {'a': 1}, M.Leaf(), M.LeafSub(), M.Twin(), object(), int]
    typs = [int, float, str, bool, list, tuple, dict, M.Leaf, M.LeafSub, M.DessiaObject, object, type]
    for v in pool:
        for t in typs:
            for level in LEVELS:
                run.case((v, t, level))
                fns = [lambda: type_check(v, t, level)]
                if t in (int, float, str):
                    f = {int: is_int, float: is_float, str: is_str}[t]
                    fns.append(lambda: f(v, level))
                for fn in fns:
                    cl = fn()
                    if isinstance(v, t):
                        run.check(not cl.checks_above_level('error') and all(map(bool, cl.checks)), 'a value of the type fails its type check', value=v, type=t, level=level)
                        run.check((len(cl) == 1 and cl[0].level == 'info') if level == 'info' else True, 'no information although the level asks for it', value=v, type=t, level=level, got=cl)
                        run.check(len(cl) == 0 if level in ('error', 'warning') else True, 'more than the asked level', value=v, type=t, level=level, got=cl)
                    else:
                        run.check(len(cl.checks_above_level('error')) == 1, 'a value that is not of the type passes its type check', value=v, type=t, level=level)
                        run.raises(lambda: cl.raise_if_above_level('error'), ValueError, 'a failed type check does not raise')


def valid(run, rng):
    from dessia_common.checks import CheckList, PassedCheck, CheckWarning, FailedCheck

    for _ in range(run.n(60)):
        checks = gen(rng, rng.randrange(4))

        class Checked(M.Leaf):
            def check_list(self, level='error', check_platform=True):
                return CheckList(list(checks))
        o = Checked()
        level = rng.choice(LEVELS)
        run.case(([c.level for c in checks], level))
        want = not any(LEVELS.index(c.level) >= LEVELS.index(level) for c in checks)
        run.check(bool(o.is_valid(level)) == want, 'is_valid disagrees with the checks', level=level, checks=checks)
        run.check(bool(o.is_valid()) == (not any(c.level == 'error' for c in checks)), 'is_valid() disagrees with the checks')


def platform(run, rng):
    from dessia_common.checks import check_serialization_process, check_copy

    class Lossy(M.Leaf):
        """a copy of it is never equal to it"""
        def copy(self, deep=True, memo=None):
            return type(self)(self.number + 1, self.label, self.flag)

    class NotSerializable(M.Leaf):
        def to_dict(self, *a, **k):
            d = super().to_dict(*a, **k)
            d['number'] = 12345.
            return d
    sink = io.StringIO()
    for _ in range(run.n(20)):
        o = G.leaf(rng, M.Leaf) if rng.random() < .5 else M.Team([G.leaf(rng, M.Leaf)], G.leaf(rng, M.Leaf))
        run.case(o.__dict__)
        with contextlib.redirect_stdout(sink):
            run.check(bool(check_serialization_process(o)['check']) and bool(check_copy(o)['check']), 'a good object fails the platform checks')
            bad = Lossy(1., 'a')
            run.check(not check_copy(bad)['check'], 'an object that is not equal to its copy passes the copy check')
            M.NotSerializable = NotSerializable
            NotSerializable.__module__, NotSerializable.__qualname__ = 'dvmodels', 'NotSerializable'
            run.check(not check_serialization_process(NotSerializable(1.))['check'], 'an object that is not equal to its round trip passes the serialization check')


def m_type(i):
    return None


if __name__ == '__main__':
    sys.exit(main('C14', [('levels', levels), ('sums', sums), ('truth', truth), ('types', types), ('valid', valid), ('platform', platform)]))
