"""The documented shape rules, as (conditions, result shape) over terms."""
from terms import *


def A(name, i=0):
    return mk("arg", i, name)


def batch(s):
    return field(s, None, "batch")


def vol(s):
    return field(s, None, "volume")


def depth(s):
    return field(s, None, "depth")


def dim(s, d):
    return mk("dim", s, d if isinstance(d, T) else num(d))


def RD(s, d, m):
    return mk("call", "Shape::resize_dim", s, d if isinstance(d, T) else num(d), m if isinstance(m, T) else num(m))


def RB(s, b):
    return mk("call", "Shape::resize_batch", s, b if isinstance(b, T) else num(b))


def NEW(dims, b):
    return mk("call", "Shape::new", mk("agg", ("array",), *dims), b)


def samedims(a, b):
    return mk("call", "Shape::has_same_dims", a, b)


def compat(a, b):
    return mk("call", "Shape::has_compatible_batch", a, b)


def imax(a, b):
    return mk("imax", a, b)


def u32len(ids):
    return mk("trunc", 32, length(ids)) if False else mk_trunc(length(ids))


def mk_trunc(t):
    return mk("trunc", num(32), t) if TR_NUM else mk("trunc", 32, t)


TR_NUM = False
Q = ()


def scalar_op(x, k):
    return [(Q, ceq(ZERO, depth(k))), (Q, compat(x, k))], RB(x, imax(batch(x), batch(k)))


def elementwise(a, b):
    return [(Q, samedims(a, b)), (Q, compat(a, b))], RB(a, imax(batch(a), batch(b)))


def broadcast(x, d, size):
    return [(Q, ceq(ONE, dim(x, d))), (Q, bnot(ceq(ZERO, size)))], RD(x, d, size)


def matmul(l, r):
    return [(Q, le(depth(l), num(2))), (Q, le(depth(r), num(2))), (Q, ceq(dim(l, 1), dim(r, 0))), (Q, compat(l, r))], \
        NEW([dim(l, 0), dim(r, 1)], imax(batch(l), batch(r)))


def transpose(x):
    return [(Q, le(depth(x), num(2)))], NEW([dim(x, 1), dim(x, 0)], batch(x))


def slice_(x, d, lo, up):
    return [(Q, lt(lo, up)), (Q, le(up, dim(x, d)))], RD(x, d, isub(up, lo))


def qk(n, depth_=0):
    return mk("qk", depth_, n)


def pick(x, ids, d):
    n = mk_trunc(length(ids))
    q = qk(n)
    return [(Q, bnot(ceq(ZERO, n))),
            (Q, bor(ceq(batch(x), n), ceq(ONE, batch(x)), ceq(ONE, n))),
            ((q,), lt(index(ids, q), dim(x, d)))], RB(RD(x, d, 1), imax(batch(x), n))


def batch_pick(x, ids):
    n = mk_trunc(length(ids))
    q = qk(length(ids))
    return [(Q, bnot(ceq(ZERO, n))), ((q,), lt(index(ids, q), batch(x)))], RB(x, n)


def batch_slice(x, lo, up):
    return [(Q, lt(lo, up)), (Q, le(up, batch(x)))], RB(x, isub(up, lo))


def concat(xs, d):
    n = isub(length(xs), ONE)
    ph, k = fresh("fv"), fresh("fv")
    x0 = index(xs, ZERO)
    xi = index(xs, iadd(ONE, k))
    step = ite(ceq(ONE, batch(ph)), RB(ph, batch(xi)), ph)
    q = qk(n)
    acc = mk("acc", n, x0, lam([ph, k], step), q)
    xq = index(xs, iadd(ONE, q))
    fin = fold(n, x0, ph, k, step)
    tot = fold(n, dim(x0, d), ph, k, iadd(ph, dim(xi, d)))
    return [(Q, bnot(ceq(ZERO, length(xs)))),
            ((q,), mk("call", "Shape::has_same_loo_dims", acc, xq, d)),
            ((q,), compat(acc, xq))], RD(fin, d, tot)


def batch_concat(xs):
    n = isub(length(xs), ONE)
    ph, k = fresh("fv"), fresh("fv")
    x0 = index(xs, ZERO)
    xi = index(xs, iadd(ONE, k))
    q = qk(n)
    xq = index(xs, iadd(ONE, q))
    tot = fold(n, batch(x0), ph, k, iadd(ph, batch(xi)))
    return [(Q, bnot(ceq(ZERO, length(xs)))), ((q,), samedims(x0, xq))], RB(x0, tot)


RULES = {"scalar_op": scalar_op, "elementwise": elementwise, "broadcast": broadcast, "matmul": matmul,
         "transpose": transpose, "slice": slice_, "pick": pick, "batch_pick": batch_pick,
         "batch_slice": batch_slice, "concat": concat, "batch_concat": batch_concat}
