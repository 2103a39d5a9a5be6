"""Where an expression is undefined: factors which must not vanish, or must be positive.

Two formulas that agree as rational functions may still differ at a point where one of them divides zero by zero
(y / x for x^(k-1), say). hazards() lists, from an expression as it is written, the factors it divides by (kind 'nz') and the
arguments of ln and sqrt ('pos'), after dropping everything that is positive for every argument."""
from terms import *
import alg


class Unclear(Exception):
    pass


def erase(t):
    """elements are told apart only by the operand they come from"""
    def f(u):
        if u.op == "X" and len(u.args) > 1:
            return mk("X", u.args[0])
        return None
    return rewrite(t, f)


def positive(p):
    """a polynomial which is positive whatever its atoms are"""
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        ok, st = True, True
        for a, e in m:
            k = sign(a)
            if k == 1:
                continue
            if k == 0 or e % 2 == 0:
                st = False
                continue
            ok = False
        if not ok:
            return False
        strict = strict or st
    return strict


def sign(a):
    """1: positive, 0: not negative, None: unknown"""
    if a.op in ("A_exp", "A_exp1"):
        return 1
    if a.op == "i2f":
        return 1            # extents and counts
    if a.op == "A_sqrt":
        n, d = alg.unkey(a.args[0])
        return 1 if positive(n) and positive(d) else 0
    if a.op == "A_sum":
        n, d = alg.unkey(a.args[1])
        return 1 if positive(n) and positive(d) else None
    if a.op == "A_pow":
        n, d = alg.unkey(a.args[0])
        return 1 if positive(n) and positive(d) else None
    return None


def factors(nf):
    """keys of the factors of a normal form which may vanish"""
    n, d = nf
    if not n:
        raise Unclear("division by an expression that is identically zero")
    return pfactors(n)


def pfactors(n):
    out = set()
    g = alg._monogcd(n, n)
    rest = alg._divm(n, g) if g else n
    for a, e in g.items():
        if sign(a) == 1:
            continue
        if a.op == "A_sqrt" or a.op == "A_pow" or a.op == "A_powi":
            p, q = alg.unkey(a.args[0])
            out |= pfactors(p)
        else:
            out.add(a)
    if not (len(rest) == 1 and () in rest) and not positive(rest) and not positive({m: -c for m, c in rest.items()}):
        m0 = min(rest, key=lambda m: [(a.uid, e) for a, e in m])
        c = rest[m0]
        out.add(alg.key(({m: x / c for m, x in rest.items()}, {(): alg.Fraction(1)})))
    return out


def hazards(t, conv, raw=lambda t: None):
    """{(kind, factor)} of the expression as written; conv: term -> normal form.
    Conditions are respected coarsely: what is only computed under a condition on the same operands is left out.
    raw(t): (kind, argument) for other spellings of such an operation."""
    t = erase(t)
    out = set()
    seen = set()

    def leaves(u):
        return {x for x in subterms(u) if x.op == "X"}

    def go(u, conds):
        if (u, conds) in seen:
            return
        seen.add((u, conds))
        if u.op == "ite":
            c2 = conds | frozenset(leaves(u.args[0]))
            go(u.args[1], c2)
            go(u.args[2], c2)
            return
        kind, arg = None, None
        if u.op == "fdiv":
            kind, arg = "nz", u.args[1]
        elif u.op == "fn" and u.args[0] == "recip":
            kind, arg = "nz", u.args[1]
        elif u.op == "fn" and u.args[0] in ("ln", "sqrt", "log2", "log10"):
            kind, arg = "pos", u.args[1]
        elif u.op == "fn" and u.args[0] == "ln_1p":
            kind, arg = "pos", mk("fadd", num(1), u.args[1])
        elif u.op == "fn" and u.args[0] == "tan":
            kind, arg = "nz", mk("fn", "cos", u.args[1])
        elif u.op == "fn" and u.args[0] in ("powi", "powf") and is_num(u.args[2]) and u.args[2].args[0] < 0:
            kind, arg = "nz", u.args[1]
        else:
            r = raw(u)
            if r is not None:
                kind, arg = r
        if kind is not None and not (leaves(arg) & conds):
            n, d = conv(arg)
            if kind == "nz":
                for f in factors((n, d)):
                    out.add(("nz", f))
            elif not (positive(n) and positive(d)):
                for f in factors((n, d)):
                    out.add(("pos", f))
        for a in u.args:
            if isinstance(a, T):
                go(a, conds)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        go(b, conds)
    go(t, frozenset())
    return out


def exceeds(have, allowed):
    """hazards of the first expression which the second does not have"""
    nz = {f for _, f in allowed}
    pos = {f for k, f in allowed if k == "pos"}
    return [(k, f) for k, f in sorted(have, key=lambda kf: (kf[0], kf[1].uid)) if f not in (nz if k == "nz" else pos)]


def tensor_ops(u):
    """the surface forms of division, logarithm, square root and tangent on whole tensors"""
    import re
    import tens
    c = tens.callname(u)
    if c is None:
        return None
    kind, o, a = c
    if kind == "dev":
        if not o.endswith("_fw"):
            return None
        o = o[:-3]
    if re.match(r"^div(_scalar|_const)?(_r)?$", o) and len(a) >= 2:
        return "nz", a[1]
    if re.match(r"^div(_scalar|_const)?_l$", o):
        return "nz", a[0]
    if o in ("ln", "sqrt"):
        return "pos", a[0]
    if o == "tan":
        return "nz", mk("fn", "cos", a[0])
    if o in ("powi", "powf", "pow", "powf_const_r") and len(a) > 1 and is_num(a[1]) and a[1].args[0] < 0:
        return "nz", a[0]
    return None
