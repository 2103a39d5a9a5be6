"""Interned terms with normalising constructors (value numbering domain).

Integer arithmetic is kept as a canonical multivariate polynomial over opaque
atoms; conditions as and/or/not normal forms; joins as if-then-else (gated)
terms.  Nothing here enumerates paths or calls a solver.
"""
from fractions import Fraction
import itertools

_tab = {}
_uid = itertools.count(1)


class T:
    __slots__ = ("op", "args", "uid", "_fv", "_bh", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = next(_uid)
        t._fv = None
        t._bh = None
        _tab[key] = t
    return t


_fresh = itertools.count(1)


def fresh(tag="fv"):
    return mk(tag, next(_fresh))


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def num(x):
    if type(x) is not int:
        x = Fraction(x)
        if x.denominator == 1:
            x = x.numerator
    return mk("num", x)


ZERO = num(0)
ONE = num(1)


def boolc(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == "num"


# ---------------------------------------------------------------- polynomials
def as_poly(t):
    """dict mono -> coef ; mono = tuple of (atom, exp) sorted by uid"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: [(a.uid, e) for a, e in mc[0]]))
    return mk("poly", items)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c != 0}


def mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def iadd(a, b):
    return from_poly(padd(as_poly(a), as_poly(b)))


def isub(a, b):
    return from_poly(padd(as_poly(a), as_poly(b), -1))


def imul(a, b):
    # distribute over ite with a zero arm so that guarded strides stay affine
    return from_poly(pmul(as_poly(a), as_poly(b)))


def ineg(a):
    return isub(ZERO, a)


def mono_div(num_p, den):
    """exact division of polynomial by a single monomial term, or None"""
    d = as_poly(den)
    if len(d) != 1:
        return None
    (dm, dc), = d.items()
    if dc == 0:
        return None
    r = {}
    dd = dict(dm)
    for m, c in num_p.items():
        q = dict(m)
        for a, e in dd.items():
            if q.get(a, 0) < e:
                return None
            q[a] -= e
        mm = tuple(sorted(((a, e) for a, e in q.items() if e), key=lambda x: x[0].uid))
        cc = Fraction(c) / dc
        if cc.denominator != 1:
            return None
        r[mm] = r.get(mm, 0) + cc
    return r


def idiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y > 0) else -q)
    if b is ONE:
        return a
    q = mono_div(as_poly(a), b)
    if q is not None:
        return from_poly(q)
    return mk("idiv", a, b)


def irem(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if b is ONE:
        return ZERO
    if mono_div(as_poly(a), b) is not None:
        return ZERO
    return mk("irem", a, b)


# ---------------------------------------------------------------- booleans
def bnot(c):
    if c.op == "bool":
        return boolc(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return le(c.args[1], c.args[0])
    if c.op == "le":
        return lt(c.args[1], c.args[0])
    return mk("not", c)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def band(*xs):
    xs = _flat("and", xs)
    s = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in s:
            continue
        s.append(x)
    for x in s:
        if bnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    # absorb: a & (!a | b) -> a & b
    r = []
    for x in s:
        if x.op == "or":
            rest = [y for y in x.args if bnot(y) not in s]
            if any(y in s for y in x.args):
                continue
            x = bor(*rest) if len(rest) != len(x.args) else x
        r.append(x)
    if r != s:
        return band(*r)
    return mk("and", *sorted(set(s), key=lambda t: t.uid))


def bor(*xs):
    xs = _flat("or", xs)
    s = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in s:
            continue
        s.append(x)
    for x in s:
        if bnot(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    r = []
    for x in s:
        if x.op == "and":
            rest = [y for y in x.args if bnot(y) not in s]
            if any(y in s for y in x.args):
                continue
            x = band(*rest) if len(rest) != len(x.args) else x
        r.append(x)
    if r != s:
        return bor(*r)
    return mk("or", *sorted(set(s), key=lambda t: t.uid))


def ceq(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] == b.args[0])
    if a.op == "bool":
        a, b = b, a
    if b.op == "bool":
        return a if b.args[0] else bnot(a)
    if a.op == "str" and b.op == "str":
        return boolc(a.args[0] == b.args[0])
    if a.op == "ite" and b.op in ("num",):
        return ite(a.args[0], ceq(a.args[1], b), ceq(a.args[2], b))
    if b.op == "ite" and a.op in ("num",):
        return ite(b.args[0], ceq(a, b.args[1]), ceq(a, b.args[2]))
    if a.op == "agg" and b.op == "agg":
        if a.args[0] != b.args[0]:
            return FALSE
        if len(a.args) == len(b.args):
            return band(*[ceq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] < b.args[0])
    return mk("lt", a, b)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] <= b.args[0])
    return mk("le", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "le":  # canonical: use lt guards
        return ite(mk("lt", c.args[1], c.args[0]), b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "bool" and b.op == "bool":
        return c if a.args[0] else bnot(c)
    if b is FALSE:
        return band(c, a)
    if a is FALSE:
        return band(bnot(c), b)
    if a is TRUE:
        return bor(c, b)
    if b is TRUE:
        return bor(bnot(c), a)
    # ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return mk("agg", a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- floats
def fbin(op, a, b):
    if op in ("fadd", "fmul") and a.uid > b.uid:
        a, b = b, a
    return mk(op, a, b)


# ---------------------------------------------------------------- aggregates
def agg(kind, *fields):
    return mk("agg", kind, *fields)


def tup(*fields):
    return mk("agg", ("tuple",), *fields)


OPTION = "std::option::Option"


def some(x):
    return mk("agg", ("adt", OPTION, 1, "Some", ("0",)), x)


NONE = mk("agg", ("adt", OPTION, 0, "None", ()))


def field(v, idx, name):
    """project a field from a value"""
    if v.op == "agg":
        k = v.args[0]
        if k[0] == "adt":
            names = k[4]
            if name in names:
                return v.args[1 + names.index(name)]
        if idx is not None and 1 + idx < len(v.args):
            return v.args[1 + idx]
        return mk("bad", "field", v, name)
    if v.op == "ite":
        return ite(v.args[0], field(v.args[1], idx, name), field(v.args[2], idx, name))
    if v.op == "with":
        for n, x in reversed(v.args[1]):
            if n == name:
                return x
        return field(v.args[0], idx, name)
    return mk("field", v, name)


def with_field(v, idx, name, x):
    if v.op == "agg":
        k = v.args[0]
        fs = list(v.args[1:])
        if k[0] == "adt" and name in k[4]:
            fs[k[4].index(name)] = x
            return mk("agg", k, *fs)
        if idx is not None and idx < len(fs):
            fs[idx] = x
            return mk("agg", k, *fs)
    base, ups = (v.args[0], list(v.args[1])) if v.op == "with" else (v, [])
    ups = [(n, y) for n, y in ups if n != name]
    if x is field(base, idx, name):
        return base if not ups else mk("with", base, tuple(ups))
    ups.append((name, x))
    ups.sort(key=lambda p: p[0])
    return mk("with", base, tuple(ups))


def downcast(v, idx, name):
    if v.op == "agg":
        return v
    if v.op == "ite":
        a, b = v.args[1], v.args[2]
        # a definite arm of the wrong variant is infeasible under the downcast
        if a.op == "agg" and a.args[0][0] == "adt" and a.args[0][2] != idx:
            return downcast(b, idx, name)
        if b.op == "agg" and b.args[0][0] == "adt" and b.args[0][2] != idx:
            return downcast(a, idx, name)
        return ite(v.args[0], downcast(a, idx, name), downcast(b, idx, name))
    return mk("as", v, name or str(idx))


def discr(v):
    if v.op == "agg" and v.args[0][0] == "adt":
        return num(v.args[0][2])
    if v.op == "ite":
        return ite(v.args[0], discr(v.args[1]), discr(v.args[2]))
    return mk("discr", v)


# ---------------------------------------------------------------- traversal
def _children(t):
    """immediate T children (through tuples)"""
    st = list(t.args)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def atoms(t):
    """free variable-ish leaves (fresh variables, loop counters, phis)"""
    if t._fv is None:
        if t.op in ("fv", "k", "phi", "bv"):
            s = frozenset([t])
        else:
            s = frozenset()
            for c in _children(t):
                s |= atoms(c)
        t._fv = s
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in args[0]:
            x = num(c)
            for a, e in m:
                for _ in range(e):
                    x = imul(x, a)
            r = iadd(r, x)
        return r
    if op == "idiv":
        return idiv(*args)
    if op == "irem":
        return irem(*args)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "not":
        return bnot(*args)
    if op == "eq":
        return ceq(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op in ("fadd", "fmul"):
        return fbin(op, *args)
    if op == "field":
        return field(args[0], None, args[1])
    if op == "as":
        return downcast(args[0], None, args[1]) if args[0].op != "agg" else args[0]
    if op == "discr":
        return discr(args[0])
    if op == "index":
        return index(*args)
    if op == "len":
        return length(*args)
    if op == "pt":
        return mk("pt", *args)
    return mk(op, *args)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
        memo[t] = r
        return r

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    na = tuple(go(x) for x in t.args)
    r = t if na == t.args else rebuild(t, na)
    memo[t] = r
    return r


def rewrite(t, f, memo=None):
    """bottom-up rewriting with f: T -> T or None"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return rewrite(x, f, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    na = tuple(go(x) for x in t.args)
    r = t if na == t.args else rebuild(t, na)
    for _ in range(20):
        n = f(r)
        if n is None or n is r:
            break
        r = n
    memo[t] = r
    return r


# ---------------------------------------------------------------- sequences
def bheight(t):
    if t._bh is None:
        h = 0
        for c in _children(t):
            h = max(h, bheight(c))
        if t.op in ("seq", "fold", "fsum", "lam"):
            h += 1
        t._bh = h
    return t._bh


def seq(n, fv, elem):
    """sequence of length n whose fv-th element is elem"""
    h = bheight(elem) + 1
    bv = mk("bv", h)
    return mk("seq", n, bv, subst(elem, {fv: bv}))


def seq_elem(s, i):
    return subst(s.args[2], {s.args[1]: i})


def is_seq(t):
    return t.op == "seq"


def lam(fvs, body):
    h = bheight(body) + 1
    bvs = [mk("bv", h, j) for j in range(len(fvs))]
    return mk("lam", tuple(bvs), subst(body, dict(zip(fvs, bvs))))


def apply_lam(l, args):
    return subst(l.args[1], dict(zip(l.args[0], args)))


def fold(n, init, acc, k, body):
    l = lam([acc, k], body)
    return mk("fold", n, init, l)


def length(t):
    if t.op == "seq":
        return t.args[0]
    if t.op == "agg" and t.args[0][0] == "array":
        return num(len(t.args) - 1)
    if t.op == "repeat":
        return t.args[1]
    if t.op == "upd":
        return length(t.args[0])
    if t.op == "push":
        return iadd(length(t.args[0]), ONE)
    if t.op == "subslice":
        return isub(t.args[2], t.args[1])
    if t.op == "alloc":
        return t.args[2]
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    return mk("len", t)


def index(t, i):
    if t.op == "seq":
        return seq_elem(t, i)
    if t.op == "agg" and t.args[0][0] == "array" and is_num(i):
        j = int(i.args[0])
        if 0 <= j < len(t.args) - 1:
            return t.args[1 + j]
        return mk("oob", t, i)
    if t.op == "repeat":
        return t.args[0]
    if t.op == "upd":
        if t.args[1] is i:
            return t.args[2]
        d = as_poly(isub(t.args[1], i))
        if d and set(d) == {()}:
            return index(t.args[0], i)
        return mk("index", t, i)
    if t.op == "subslice":
        return index(t.args[0], iadd(t.args[1], i))
    if t.op == "ite":
        return ite(t.args[0], index(t.args[1], i), index(t.args[2], i))
    return mk("index", t, i)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12:
        return "…"
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "bool":
        return str(a[0]).lower()
    if op == "str":
        return repr(a[0])
    if op == "arg":
        return str(a[-1])
    if op == "field":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if op == "index":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "poly":
        s = []
        for m, c in a[0]:
            f = [show(x, d + 1) + ("^%d" % e if e > 1 else "") for x, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            s.append("*".join(f))
        return "(" + " + ".join(s) + ")"
    if op == "agg":
        k = a[0]
        if k[0] == "adt":
            return "%s::%s{%s}" % (
                k[1].split("::")[-1], k[3],
                ", ".join("%s:%s" % (n, show(x, d + 1)) for n, x in zip(k[4], a[1:])))
        return "%s(%s)" % (k[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if op == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1:]))
    if op == "k":
        return "k%d" % t.uid
    if op == "phi":
        return "phi%d" % t.uid
    if op in ("fv", "bv"):
        return op + "_".join(str(x) for x in a)
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))


def short(p):
    if not isinstance(p, str):
        return str(p)
    out, depth = "", 0
    return p
