"""C11 interpolation: contracts on dessia_common.utils.interpolation"""
from pyvc.verify import *

M = 'dessia_common.utils.interpolation:'


def seq(ctx, l):
    e = ctx.eng
    it, n = e.sel(ctx.st0, 'item', arg(l, 'r')), e.sel(ctx.st0, 'len', arg(l, 'r'))
    return (lambda i: V.fv(Select(it, i))), n


def value_error(c, s, v):
    return True if v.exc == 'ValueError' else None


def istep_setup(extrapolate):
    def setup(ctx, eng, st):
        l = param(eng, st, 'list_', LIST(FLOAT))
        v = param(eng, st, 'value', FLOAT)
        if ctx.bound:
            concretize(eng, st, l, ctx.bound)
        st.assume(eng.sel(st, 'len', arg(l, 'r')) >= (2 if extrapolate else 1))
        ctx.l, ctx.v = l, v
        return [l, v, vb(extrapolate)]
    return setup


def istep_post(ctx, s, r):
    P, n = seq(ctx, ctx.l)
    t = num_kindless(r)
    k = ToInt(t)
    al = t - ToReal(k)
    return [('range', And(0 <= t, t <= ToReal(n - 1))),
            ('inverse', If(al == 0, P(k) == V.fv(ctx.v), (1 - al) * P(k) + al * P(k + 1) == V.fv(ctx.v)))]


def istep_raise(ctx, s, v):
    """a ValueError only when the value is outside every segment"""
    if v.exc != 'ValueError':
        return None
    P, n = seq(ctx, ctx.l)
    i = z3.Int('seg')
    x = V.fv(ctx.v)
    return [('refused-only-outside', z3.ForAll([i], z3.Implies(And(0 <= i, i < n - 1), z3.Not(
        Or(And(P(i) <= x, x <= P(i + 1)), And(P(i + 1) <= x, x <= P(i)))))))]


def interp_setup(ctx, eng, st):
    l = param(eng, st, 'objects', LIST(FLOAT))
    v = param(eng, st, 'istep', FLOAT)
    if ctx.bound:
        concretize(eng, st, l, ctx.bound)
    ctx.l, ctx.v = l, v
    return [l, v]


def interp_post(ctx, s, r):
    P, n = seq(ctx, ctx.l)
    t = V.fv(ctx.v)
    k = ToInt(t)
    al = t - ToReal(k)
    return [('value', If(al == 0, num_kindless(r) == P(k), num_kindless(r) == (1 - al) * P(k) + al * P(k + 1)))]


def interp_raise(ctx, s, v):
    """refused only outside [0, n-1]"""
    P, n = seq(ctx, ctx.l)
    t = V.fv(ctx.v)
    return [('refused-only-outside', Or(t < 0, t > ToReal(n - 1)))]


TARGETS = [
    Target('istep', M + 'istep_from_value_on_list', istep_setup(False), istep_post, allow_raise=istep_raise, bound=(2, 3),
           decode=decode_args(['list_', 'value'])),
    Target('interp', M + 'interpolate_from_istep', interp_setup, interp_post, allow_raise=interp_raise, bound=(1, 2, 3),
           decode=decode_args(['objects', 'istep'])),
]
