"""C12 factorisations: contracts on dessia_common.utils.algebra"""
from pyvc.verify import *
from pyvc.specs import *
from z3 import Ints, Real
from contracts.c01 import frame

M = 'dessia_common.utils.algebra:'


def setup(ctx, eng, st):
    n = param(eng, st, 'number', INT)
    st.assume(V.iv(n) >= 1)
    ctx.n = V.iv(n)
    return [n]


def arithmetic(s, n):
    """facts of arithmetic about divisors, proved on their own"""
    m, d, e, r = Ints('m_l d_l e_l r_l')
    x = Real('x_l')
    quot = ToReal(m) / ToReal(d)
    mul = Lem([m, d, e], Implies(And(d >= 1, m >= 1, m == d * e), And(quot == ToReal(e), ToInt(quot) == e, m % d == 0, m / d == e, e >= 1)))
    div = Lem([m, d], Implies(And(d >= 1, m >= 1, m % d == 0), And(m == d * (m / d), m / d >= 1)))
    cuts = Lem([m, d], Implies(And(d >= 1, m >= 1, m % d == 0), And(quot == ToReal(m / d), ToInt(quot) == m / d, m / d >= 1, m == d * (m / d))),
               [div(m, d), mul(m, d, m / d)])
    whole = Lem([m, d, e], Implies(And(d >= 1, m >= 1, quot == ToReal(e)), m == d * e))
    whole2 = Lem([m, d], Implies(And(d >= 1, m >= 1, ToReal(ToInt(quot)) == quot), m % d == 0), [whole(m, d, ToInt(quot)), mul(m, d, ToInt(quot))])
    root = Lem([m, d, e, x], Implies(And(x >= 0, x * x == ToReal(m), d >= 1, e >= 1, d * e == m), Or(d <= ToInt(x), e <= ToInt(x))))
    for l in (mul, div, cuts, whole, whole2, root):
        assert l.ok
    s.assume(ForAll([d], z3.substitute(cuts.body, (m, n)), patterns=[n % d, n / d]),
             ForAll([d], z3.substitute(And(cuts.body, whole2.body), (m, n)), patterns=[z3.substitute(quot, (m, n))]))
    return mul, root


def pairs(ctx, s, r):
    w = View(ctx.eng, s)
    n, L = ctx.n, w.len(r)
    k, l = Ints('k_p l_p')
    X = lambda k: V.iv(w.item(w.item(r, k), IntVal(0)))
    Y = lambda k: V.iv(w.item(w.item(r, k), IntVal(1)))
    rng = And(0 <= k, k < L)
    quot = lambda k: ToReal(n) / ToReal(X(k))
    shape = ForAll([k], Implies(rng, And(w.len(w.item(r, k)) == 2, V.is_i(w.item(w.item(r, k), IntVal(0))), V.is_i(w.item(w.item(r, k), IntVal(1))))),
                   patterns=[w.item(r, k)])
    whole = ForAll([k], Implies(rng, And(Y(k) == ToInt(quot(k)), ToReal(ToInt(quot(k))) == quot(k))), patterns=[w.item(r, k)])
    by(s, shape, whole)
    base = list(s.pc)
    mul, root = arithmetic(s, n)
    lemmas = s.pc[len(base):]
    pos = ForAll([k], Implies(rng, X(k) >= 1), patterns=[w.item(r, k)])
    d = Int('d_l')
    by(s, pos, only=base + [ForAll([d], Implies(And(d >= 1, n % d == 0), n / d >= 1), patterns=[n / d])])
    quotients = ForAll([k], Implies(rng, And(n % X(k) == 0, Y(k) == n / X(k))), patterns=[w.item(r, k)])
    by(s, quotients, only=lemmas + [shape, whole, pos, n >= 1] if all(any(p.eq(q) for q in s.pc) for p in (shape, whole, pos)) else None)
    products = ForAll([k], Implies(And(0 <= k, k < L), And(X(k) >= 1, n % X(k) == 0, Y(k) == n / X(k))))
    by(s, products, only=[f for f in (pos, quotients) if any(f.eq(p) for p in s.pc)])
    return [('pairs', ForAll([k], Implies(And(0 <= k, k < L), And(w.len(w.item(r, k)) == 2, V.is_i(w.item(w.item(r, k), IntVal(0))), V.is_i(w.item(w.item(r, k), IntVal(1))))))),
            ('products', products),
            ('each-once', ForAll([k, l], Implies(And(0 <= k, k < l, l < L), X(k) != X(l)))),
            frame(ctx, s)]


def product():
    m, d = Ints('m_l d_l')
    return [m >= 1, d >= 1, m % d == 0], And(d * (m / d) == m, m / d >= 1)


TARGETS = [
    Target('number2factor', M + 'number2factor', setup, pairs,
           allow_raise=lambda ctx, s, r: r.exc == 'TypeError', timeout=20000, note='whether reduce meets an empty list (it does not: 1 divides) is decided by the bounded check'),
    Lemma('quotient-times-divisor', product),
]
