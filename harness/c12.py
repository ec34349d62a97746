from lib import *


def divs(n):
    return [d for d in range(1, n + 1) if n % d == 0] if n < 5000 else sorted({x for d in range(1, int(n ** .5) + 2) if n % d == 0 for x in (d, n // d)})


def check2(n):
    from dessia_common.utils.algebra import number2factor
    got = number2factor(n)
    want = {(d, n // d) for d in divs(n)} if n else set()
    if any(type(x) is not int for t in got for x in t):
        return f'number2factor({n}) has non-integer entries: {got}'
    if len(got) != len(set(map(tuple, got))) or set(map(tuple, got)) != want:
        return f'number2factor({n}) = {sorted(got)}, want {sorted(want)}'


def triples(n):
    d = divs(n)
    return {(a, b, n // (a * b)) for a in d for b in divs(n // a)}


def check3(n):
    from dessia_common.utils.algebra import number3factor
    got = number3factor(n)
    want = triples(n) if n else set()
    if len(got) != len(set(map(tuple, got))) or set(map(tuple, got)) != want:
        return f'number3factor({n}): missing {sorted(want - set(got))[:4]}, extra {sorted(set(got) - want)[:4]}, {len(got)} entries'
    inc = number3factor(n, complete=False)
    if len(inc) != len({tuple(sorted(t)) for t in inc}):
        return f'number3factor({n}, complete=False) repeats a combination: {inc}'
    if {tuple(sorted(t)) for t in inc} != {tuple(sorted(t)) for t in want}:
        return f'number3factor({n}, complete=False) misses or invents combinations: {sorted(inc)}'
    if not set(map(tuple, inc)) <= want:
        return f'number3factor({n}, complete=False) has a wrong triple'


def two(run, rng):
    for n in list(range(0, 1200 if not run.thorough else 20000)) + [rng.randrange(10 ** 4, 10 ** 9) for _ in range(run.n(30))] \
            + [k * k for k in range(40, 120)] + [p * p for p in (997, 7919, 65537)] + [2 ** 20, 10 ** 8, 720720]:
        run.case(n)
        m = check2(n)
        run.check(m is None, m or '')


def three(run, rng):
    for n in list(range(0, 400 if not run.thorough else 4000)) + [720, 1024, 5040, 10 ** 4, 3600, 46656, 2 ** 16, 99 ** 2]:
        run.case(n)
        m = check3(n)
        run.check(m is None, m or '')


if __name__ == '__main__':
    sys.exit(main('C12', [('two', two), ('three', three)],
                  {'two': lambda i: check2(int(i['number'])) if 0 <= int(i['number']) < 10 ** 9 else None,
                   'three': lambda i: check3(int(i['number'])) if 0 <= int(i['number']) < 10 ** 6 else None}))
