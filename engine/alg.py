"""Algebra of real-valued expressions: rational-function normal form over
transcendental atoms, equality by cross-multiplication, symbolic derivative.
(No numbers are ever evaluated: two formulas are equal iff their normal forms are.)"""
from fractions import Fraction
from terms import *
import terms as tm

# A normal form is (num, den): dicts mono -> Fraction, mono = tuple((atom T, exp)) sorted


def const(c):
    return ({(): Fraction(c)} if c else {}, {(): Fraction(1)})


def atom(t):
    return ({((t, 1),): Fraction(1)}, {(): Fraction(1)})


def _reduce_trig(p):
    """sin(u)^2 -> 1 - cos(u)^2 ; sqrt(u)^2 -> u"""
    ch = True
    while ch:
        ch = False
        for m, c in list(p.items()):
            for a, e in m:
                if a.op == "A_sin" and e >= 2:
                    rest = tuple((x, y) for x, y in m if x is not a)
                    base = {rest: c} if e == 2 else {mmul(rest, ((a, e - 2),)): c}
                    cosm = ((mk("A_cos", *a.args), 2),)
                    q = padd(base, pmul(base, {cosm: Fraction(1)}), -1)
                    del p[m]
                    p = padd(p, q)
                    ch = True
                    break
                if a.op == "A_sqrt" and e >= 2:
                    u = unkey(a.args[0])
                    if u[1] == {(): Fraction(1)}:
                        rest = tuple((x, y) for x, y in m if x is not a) + (((a, e % 2),) if e % 2 else ())
                        del p[m]
                        p = padd(p, pmul({tuple(sorted(rest, key=lambda x: x[0].uid)): c}, power(u, e // 2)[0]))
                        ch = True
                        break
            if ch:
                break
    return p


def _monogcd(p, q):
    g = None
    for d in (p, q):
        for m in d:
            mm = dict(m)
            if g is None:
                g = mm
            else:
                g = {a: min(e, mm[a]) for a, e in g.items() if a in mm}
    return g or {}


def _divm(p, g):
    r = {}
    for m, c in p.items():
        mm = dict(m)
        for a, e in g.items():
            mm[a] -= e
        r[tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda x: x[0].uid))] = c
    return r


def norm(n, d):
    n, d = _reduce_trig(dict(n)), _reduce_trig(dict(d))
    if not n:
        return ({}, {(): Fraction(1)})
    # negative exponents (exp atoms) are moved across
    neg = {}
    for p in (n, d):
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
    if neg:
        f = tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda x: x[0].uid))
        n, d = pmul(n, {f: Fraction(1)}), pmul(d, {f: Fraction(1)})
    g = _monogcd(n, d)
    if g:
        n, d = _divm(n, g), _divm(d, g)
    # proportional polynomials
    if set(n) == set(d):
        m0 = next(iter(n))
        r = Fraction(n[m0]) / d[m0]
        if all(n[m] == r * d[m] for m in n):
            return ({(): r}, {(): Fraction(1)})
    m0 = min(d, key=lambda m: [(a.uid, e) for a, e in m])
    c = Fraction(d[m0])
    return ({m: x / c for m, x in n.items()}, {m: x / c for m, x in d.items()})


def add(a, b, s=1):
    if a[1] == b[1]:
        return norm(padd(a[0], b[0], s), a[1])
    return norm(padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1]))


def mul(a, b):
    return norm(pmul(a[0], b[0]), pmul(a[1], b[1]))


def div(a, b):
    if not b[0]:
        return atom(mk("A_divzero"))
    return norm(pmul(a[0], b[1]), pmul(a[1], b[0]))


def neg(a):
    return ({m: -c for m, c in a[0].items()}, a[1])


def equal(a, b):
    if a == b:
        return True
    x = _reduce_trig(pmul(a[0], b[1]))
    y = _reduce_trig(pmul(b[0], a[1]))
    return not padd(x, y, -1)


def is_const(a):
    if not a[0]:
        return Fraction(0)
    if a[1] == {(): 1} and set(a[0]) == {()}:
        return a[0][()]
    return None


def key(a):
    """an interned term standing for a normal form"""
    def p(d):
        return tuple(sorted(((m, c) for m, c in d.items()), key=lambda mc: [(x.uid, e) for x, e in mc[0]]))
    if a[1] == {(): 1}:
        if len(a[0]) == 1:
            (m, c), = a[0].items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    return mk("NF", p(a[0]), p(a[1]))


def unkey(t):
    if t.op == "NF":
        return (dict(t.args[0]), dict(t.args[1]))
    return atom(t)


def n_exp(a):
    """exp of a normal form: product of exp atoms"""
    r = const(1)
    n, d = a
    if d != {(): Fraction(1)}:
        return atom(mk("A_exp", key(a)))
    for m, c in n.items():
        if m == ():
            r = mul(r, atom(mk("A_exp1", c)) if c != 0 else const(1))
            continue
        # exp(ln u * k)
        if len(m) == 1 and m[0][0].op == "A_ln" and m[0][1] == 1 and c.denominator == 1:
            r = mul(r, power(unkey(m[0][0].args[0]), int(c)))
            continue
        base = ({m: Fraction(1, c.denominator)}, {(): Fraction(1)})
        e = c.numerator
        at = mk("A_exp", key(base))
        r = mul(r, ({((at, e),): Fraction(1)}, {(): Fraction(1)}))
    return r


def power(a, k):
    if k < 0:
        return div(const(1), power(a, -k))
    r = const(1)
    for _ in range(k):
        r = mul(r, a)
    return r


def n_ln(a):
    n, d = a
    r = const(0)
    for p, s in ((n, 1), (d, -1)):
        if p == {(): Fraction(1)}:
            continue
        # pull out exponential monomial factors
        g = {x: e for x, e in _monogcd(p, p).items() if x.op in ("A_exp", "A_exp1")}
        if g:
            p = _divm(p, g)
            for x, e in g.items():
                r = add(r, mul(const(s * e), unkey(x.args[0]) if x.op == "A_exp" else const(x.args[0])))
        if p != {(): Fraction(1)}:
            r = add(r, mul(const(s), atom(mk("A_ln", key((p, {(): Fraction(1)}))))))
    return r


class Unknown(Exception):
    pass


class Conv:
    """term -> normal form, under an assignment of float conditions"""

    def __init__(self, assign, leaf=None, subst=None):
        self.assign = assign
        self.leaf = leaf
        self.memo = {}

    def cond(self, c):
        """truth value of a condition under the assignment or None"""
        if c.op == "bool":
            return c.args[0]
        if c in self.assign:
            return self.assign[c]
        if c.op == "not":
            v = self.cond(c.args[0])
            return None if v is None else not v
        if c.op == "and":
            vs = [self.cond(x) for x in c.args]
            if False in vs:
                return False
            return None if None in vs else True
        if c.op == "or":
            vs = [self.cond(x) for x in c.args]
            if True in vs:
                return True
            return None if None in vs else False
        if c.op in ("flt", "fle"):
            k = self.ckey(c)
            if k is True or k is False:
                return k
            return self.assign.get(k[0], None) if k[1] else (
                None if self.assign.get(k[0]) is None else not self.assign[k[0]])
        return None

    def ckey(self, c):
        """canonical (cond term, positive?) for a comparison; a<b and b>=a identified"""
        a, b = self(c.args[0]), self(c.args[1])
        d = add(a, b, -1)
        k = is_const(d)
        if k is not None:
            return (k < 0) if c.op == "flt" else (k <= 0)
        # a<b : d<0 ; a<=b : d<=0 = not(0<d)
        if c.op == "flt":
            return (mk("neg", key(d)), True)
        return (mk("neg", key(neg(d))), False)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.conv(t)
            self.memo[t] = r
        return r

    def conv(self, t):
        op, a = t.op, t.args
        if op == "num":
            return const(a[0])
        if op == "fadd":
            return add(self(a[0]), self(a[1]))
        if op == "fsub":
            return add(self(a[0]), self(a[1]), -1)
        if op == "fmul":
            return mul(self(a[0]), self(a[1]))
        if op == "fdiv":
            return div(self(a[0]), self(a[1]))
        if op == "fneg":
            return neg(self(a[0]))
        if op in ("f2f",):
            return self(a[1])
        if op == "i2f":
            x = a[0]
            if x.op == "poly":
                r = const(0)
                for m, c in x.args[0]:
                    q = const(c)
                    for at, e in m:
                        for _ in range(e):
                            q = mul(q, self(mk("i2f", at)))
                    r = add(r, q)
                return r
            if x.op == "num":
                return const(x.args[0])
            if x.op == "ite":
                return self(ite(x.args[0], mk("i2f", x.args[1]), mk("i2f", x.args[2])))
            if x.op == "trunc":
                return self(mk("i2f", x.args[1]))
            return atom(t)
        if op == "ite":
            c = self.cond(a[0])
            if c is None:
                x, y = self(a[1]), self(a[2])
                if equal(x, y):
                    return x
                raise NeedCond(self.first(a[0]))
            return self(a[1] if c else a[2])
        if op == "poly":
            # integer index arithmetic does not occur in values
            return atom(t)
        if op == "fn":
            f = a[0]
            if f == "exp":
                return n_exp(self(a[1]))
            if f == "ln":
                return n_ln(self(a[1]))
            if f == "ln_1p":
                return n_ln(add(const(1), self(a[1])))
            if f == "exp_m1":
                return add(n_exp(self(a[1])), const(1), -1)
            if f == "tanh":
                e = n_exp(mul(const(2), self(a[1])))
                return div(add(e, const(1), -1), add(e, const(1)))
            if f in ("sinh", "cosh"):
                e = n_exp(self(a[1]))
                i = div(const(1), e)
                return mul(const(Fraction(1, 2)), add(e, i, -1 if f == "sinh" else 1))
            if f == "sin":
                return atom(mk("A_sin", key(self(a[1]))))
            if f == "cos":
                return atom(mk("A_cos", key(self(a[1]))))
            if f == "tan":
                u = key(self(a[1]))
                return div(atom(mk("A_sin", u)), atom(mk("A_cos", u)))
            if f == "sqrt":
                return atom(mk("A_sqrt", key(self(a[1]))))
            if f == "recip":
                return div(const(1), self(a[1]))
            if f == "abs":
                c = mk("flt", num(0), a[1])
                v = self.cond(c)
                if v is None:
                    raise NeedCond(c)
                return self(a[1]) if v else neg(self(a[1]))
            if f in ("max", "min"):
                c = mk("flt", a[1], a[2])
                v = self.cond(c)
                if v is None:
                    raise NeedCond(c)
                return self(a[2] if v == (f == "max") else a[1])
            if f == "signum":
                c = mk("flt", num(0), a[1])
                v = self.cond(c)
                if v is None:
                    raise NeedCond(c)
                return const(1 if v else -1)
            if f == "powf":
                return self.pw(self(a[1]), self(a[2]))
            if f == "powi":
                k = a[2]
                if k.op == "poly" or k.op == "num":
                    p = as_poly(k)
                    off = p.pop((), Fraction(0))
                    base = from_poly(p)
                    x = self(a[1])
                    if base is ZERO:
                        return power(x, int(off))
                    return mul(atom(mk("A_powi", key(x), base)), power(x, int(off)))
                return atom(mk("A_powi", key(self(a[1])), k))
            return atom(mk("A_fn", f, *[key(self(x)) if isinstance(x, T) else x for x in a[1:]]))
        if op == "fsum":
            return self.fsum(t)
        if op == "fold":
            return self.fold(t)
        if self.leaf is not None:
            r = self.leaf(t)
            if r is not None:
                return self(r) if isinstance(r, T) and r is not t else atom(t)
        return atom(t)

    def pw(self, x, k):
        c = is_const(k)
        if c is not None and c.denominator == 1 and abs(c) <= 6:
            return power(x, int(c))
        if c == Fraction(1, 2):
            return atom(mk("A_sqrt", key(x)))
        # powf(x, u + n) = powf(x,u) * x^n
        off = Fraction(0)
        if k[1] == {(): Fraction(1)}:
            off = k[0].get((), Fraction(0))
            if off.denominator == 1 and len(k[0]) > 1:
                k = ({m: c for m, c in k[0].items() if m != ()}, k[1])
            else:
                off = Fraction(0)
        return mul(atom(mk("A_pow", key(x), key(k))), power(x, int(off)))

    def fsum(self, t):
        N, init, l = t.args
        f = fresh("bvv")
        body = apply_lam(l, [f])
        b = self(body)
        i = self(init)
        # loop-invariant factors and additive constants are not split further than a common factor
        pulled, rest = split_factor(b, f)
        kb = canon_bound(key(rest), f)
        r = mul(pulled, atom(mk("A_sum", N, kb)))
        return add(i, r)

    def fold(self, t):
        N, init, l = t.args
        if len(l.args[0]) == 2:
            acc, k = fresh("acc"), fresh("bvv")
            body = apply_lam(l, [acc, k])
            red = self.reduction(body, acc, k)
            if red is not None:
                kind, e = red
                ini = self(init)
                return self.mkred(kind, N, ini, e, k)
        accs = [fresh("bvv") for _ in l.args[0]]
        body = apply_lam(l, accs)
        return atom(mk("A_fold", N, init, l))

    def reduction(self, body, acc, k):
        """recognise acc' = op(acc, e(k))"""
        b = body
        if b.op == "fn" and b.args[0] in ("max", "min"):
            x, y = b.args[1], b.args[2]
            if x is acc:
                return b.args[0], y
            if y is acc:
                return b.args[0], x
        if b.op == "ite" and b.args[0].op in ("flt", "fle"):
            x, y = b.args[0].args
            p, q = b.args[1], b.args[2]
            if {x, y} == {p, q} and acc in (x, y):
                e = y if x is acc else x
                # x<y ? p : q
                if p is y:
                    return "max", e
                return "min", e
        # log-sum-exp: both branches equal ln(exp acc + exp e)
        for e in self.cands(body, acc):
            want = n_ln(add(n_exp(atom(acc)), n_exp(self(e))))
            try:
                if all(equal(got, want) for _, (got,) in cases([body], self.leaf, self.assign, limit=3)):
                    return "lse", e
            except (NeedCond, Unknown):
                pass
        return None

    def cands(self, body, acc):
        seen = []
        for c in tm.subterms(body):
            if c.op in ("flt", "fle") and acc in c.args:
                seen.append(c.args[0] if c.args[1] is acc else c.args[1])
        if not seen and self.leaf is not None:
            seen = [x for x in tm.subterms(body) if x.op == "X"][:2]
        return list(dict.fromkeys(seen))

    def mkred(self, kind, N, ini, e, k):
        ne = self(e)
        ke = key(ne)
        # the initial element is e(-1) (range extends down) or e(0) (idempotent)
        em1 = self(subst(e, {k: num(-1)}))
        e0 = self(subst(e, {k: num(0)}))
        if kind == "lse":
            if equal(ini, em1):
                sh = self(subst(e, {k: isub(k, ONE)}))
                x = n_exp(sh)
                pulled, rest = split_factor(x, k)
                return n_ln(mul(pulled, atom(mk("A_sum", iadd(N, ONE), canon_bound(key(rest), k)))))
            return atom(mk("A_red", kind, N, key(ini), canon_bound(ke, k)))
        if equal(ini, em1):
            sh = self(subst(e, {k: isub(k, ONE)}))
            return atom(mk("A_red", kind, iadd(N, ONE), canon_bound(key(sh), k)))
        if equal(ini, e0):
            return atom(mk("A_red", kind, N, canon_bound(ke, k)))
        return atom(mk("A_redi", kind, N, key(ini), canon_bound(ke, k)))

    def first(self, c):
        """an undecided comparison inside a condition"""
        if c.op in ("not",):
            return self.first(c.args[0])
        if c.op in ("and", "or"):
            for x in c.args:
                if self.cond(x) is None:
                    return self.first(x)
        return c


BOUND = mk("BOUND", 0)


def canon_bound(t, f):
    """replace the bound variable by a canonical one (nesting depth indexed)"""
    d = 0
    for s in tm.subterms(t):
        if s.op == "BOUND":
            d = max(d, s.args[0] + 1)
    return subst(t, {f: mk("BOUND", d)})


def split_factor(b, f):
    """b = pulled * rest where pulled does not mention f (monomial content only)"""
    n, d = b
    def has(a):
        return any(x is f for x in tm.subterms(a))
    def content(p):
        g = {a: e for a, e in _monogcd(p, p).items() if not has(a)}
        return g
    gn, gd = content(n), content(d)
    n2, d2 = _divm(n, gn), _divm(d, gd)
    c = Fraction(1)
    if len(n2) == 1:
        m0 = next(iter(n2))
        c = n2[m0]
        n2 = {m0: Fraction(1)}
    one = lambda g: {tuple(sorted(g.items(), key=lambda x: x[0].uid)): Fraction(1)}
    pn, pd = pmul(one(gn), {(): c}), one(gd)
    # f-free whole denominators/numerators
    if not any(has(a) for m in d2 for a, _ in m) and d2 != {(): Fraction(1)}:
        pd = pmul(pd, d2)
        d2 = {(): Fraction(1)}
    if not any(has(a) for m in n2 for a, _ in m):
        pn = pmul(pn, n2)
        n2 = {(): Fraction(1)}
    return (pn, pd), (n2, d2)


class NeedCond(Exception):
    def __init__(self, c):
        self.c = c


def cases(terms, leaf=None, base=None, limit=6):
    """yield (assignment, [normal forms]) over all outcomes of the comparisons involved"""
    def rec(assign, depth):
        cv = Conv(assign, leaf)
        try:
            out = [cv(t) for t in terms]
            yield assign, out
        except NeedCond as e:
            if depth >= limit:
                raise Unknown("too many conditions")
            c = e.c
            if c.op in ("flt", "fle"):
                k = cv.ckey(c)
                k = k[0]
                # d<0 and -d<0 are exclusive
                for v in (True, False):
                    a2 = dict(assign)
                    a2[k] = v
                    o = mk("neg", key(neg(unkey(k.args[0]))))
                    if v:
                        a2[o] = False
                    elif assign.get(o) is None:
                        a2[o] = True   # the boundary d = 0 has measure zero
                    yield from rec(a2, depth + 1)
            else:
                for v in (True, False):
                    a2 = dict(assign)
                    a2[c] = v
                    yield from rec(a2, depth + 1)
    yield from rec(dict(base or {}), 0)


def equal_terms(a, b, leaf=None, base=None):
    for asg, (x, y) in cases([a, b], leaf, base):
        if not equal(x, y):
            return False
    return True


# ------------------------------------------------------------------ derivative
def deriv(t, x, leafval=None):
    """d t / d x as a term (ite/abs are differentiated branch-wise)"""
    op, a = t.op, t.args
    if t is x:
        return num(1)
    D = lambda u: deriv(u, x)
    Z = num(0)
    add_ = lambda p, q: q if p is Z else p if q is Z else mk("fadd", p, q)
    mul_ = lambda p, q: Z if p is Z or q is Z else mk("fmul", p, q)
    if op == "num":
        return Z
    if op == "fadd":
        return add_(D(a[0]), D(a[1]))
    if op == "fsub":
        return mk("fsub", D(a[0]), D(a[1]))
    if op == "fneg":
        return mk("fneg", D(a[0]))
    if op == "fmul":
        return add_(mul_(D(a[0]), a[1]), mul_(a[0], D(a[1])))
    if op == "fdiv":
        return mk("fdiv", mk("fsub", mul_(D(a[0]), a[1]), mul_(a[0], D(a[1]))), mk("fmul", a[1], a[1]))
    if op == "f2f":
        return D(a[1])
    if op == "ite":
        return ite(a[0], D(a[1]), D(a[2]))
    if op == "i2f":
        return Z
    if op == "fn":
        f = a[0]
        u = a[1]
        if f == "powf":
            k = a[2]
            du, dk = D(u), D(k)
            r = mul_(mul_(k, mk("fn", "powf", u, mk("fsub", k, num(1)))), du)
            if dk is not Z:
                r = add_(r, mul_(mul_(t, mk("fn", "ln", u)), dk))
            return r
        if f == "powi":
            k = a[2]
            return mul_(mul_(mk("i2f", k), mk("fn", "powi", u, isub(k, ONE))), D(u))
        du = D(u)
        g = {"exp": lambda: t, "ln": lambda: mk("fdiv", num(1), u),
             "sin": lambda: mk("fn", "cos", u), "cos": lambda: mk("fneg", mk("fn", "sin", u)),
             "tan": lambda: mk("fadd", num(1), mk("fmul", t, t)),
             "tanh": lambda: mk("fsub", num(1), mk("fmul", t, t)),
             "sqrt": lambda: mk("fdiv", num(Fraction(1, 2)), t),
             "ln_1p": lambda: mk("fdiv", num(1), mk("fadd", num(1), u)),
             "exp_m1": lambda: mk("fn", "exp", u),
             "abs": lambda: mk("fn", "signum", u),
             "sinh": lambda: mk("fn", "cosh", u), "cosh": lambda: mk("fn", "sinh", u),
             "recip": lambda: mk("fneg", mk("fdiv", num(1), mk("fmul", u, u)))}.get(f)
        if g is None:
            if not contains(t, lambda y: y is x):
                return Z
            raise Unknown("derivative of " + str(f))
        return mul_(g(), du)
    if not contains(t, lambda y: y is x):
        return Z
    raise Unknown("derivative through " + op)
