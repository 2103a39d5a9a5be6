"""Deciding equality of extracted terms and guards after canonicalisation.
Every decision is by rewriting to a normal form and comparing structure; answers are
True / False / None (None: the forms are outside what the normal form decides)."""
import itertools
from terms import *
from effects import walk

INTOPS = ("num", "poly")


def is_intlike(t):
    if t.op in ("num", "poly", "imax", "imin", "idiv", "irem", "len", "dim", "lvol", "trunc", "cut", "ceildiv"):
        return True
    if t.op == "field" and t.args[1] in ("batch", "volume", "depth"):
        return True
    return False


def is_shape(t):
    if t.op == "field" and t.args[1] == "shape":
        return True
    if t.op == "call" and (str(t.args[0]).startswith("Shape::") or str(t.args[0]).startswith("shape_ops::")):
        return True
    return False


# ------------------------------------------------------------------ integers
def orient(p):
    """sign-canonical polynomial and the sign applied"""
    items = sorted(((m, c) for m, c in p.items() if c), key=lambda mc: ([(a.uid, e) for a, e in mc[0]], ))
    lead = None
    for m, c in items:
        if m != ():
            lead = c
            break
    if lead is None or lead > 0:
        return p, 1
    return {m: -c for m, c in p.items()}, -1


def ge0(t):
    """formula for t >= 0"""
    p = {m: c for m, c in as_poly(t).items() if c}
    if not p:
        return TRUE
    if set(p) == {()}:
        return boolc(p[()] >= 0)
    vars_ = [m for m in p if m != ()]
    k = p.get((), 0)
    if len(vars_) == 1 and abs(p[vars_[0]]) == 1:
        x = from_poly({vars_[0]: 1})
        if p[vars_[0]] == 1 and k == -1:      # x >= 1 for unsigned x
            return bnot(eq0(x))
        if p[vars_[0]] == -1 and k == 0:      # x <= 0
            return eq0(x)
        if p[vars_[0]] == 1 and k >= 0:
            return TRUE
        if p[vars_[0]] == -1 and k < 0:
            return FALSE
    q, s = orient(p)
    if s > 0:
        return mk("ge0", from_poly(q))
    # -q >= 0  <=>  not (q - 1 >= 0)
    r = dict(q)
    r[()] = r.get((), 0) - 1
    return bnot(mk("ge0", from_poly(r)))


def eq0(t):
    p = {m: c for m, c in as_poly(t).items() if c}
    if not p:
        return TRUE
    if set(p) == {()}:
        return FALSE
    q, s = orient(p)
    return mk("eq", ZERO, from_poly(q))


# ------------------------------------------------------------------ shapes
ONES = mk("ones")


def shape_den(t):
    """(base shape term, {dim: extent}, batch) of a shape term"""
    if t.op == "shp":
        return t.args[0], dict(t.args[1]), t.args[2]
    if t.op == "call":
        n = t.args[0]
        if n == "Shape::resize_dim":
            b, o, bt = shape_den(t.args[1])
            o = dict(o)
            o[t.args[2]] = t.args[3]
            return b, o, bt
        if n == "Shape::resize_batch":
            b, o, _ = shape_den(t.args[1])
            return b, o, t.args[2]
        if n == "Shape::new" and t.args[1].op == "agg":
            return ONES, {num(i): x for i, x in enumerate(t.args[1].args[1:])}, t.args[2]
    if t.op == "agg" and t.args[0][0] == "adt" and t.args[0][3] == "Shape":
        return t, {}, field(t, None, "batch")
    return t, {}, field(t, None, "batch")


def shape_nf(t, c):
    b, o, bt = shape_den(t)
    o2 = []
    for d, v in o.items():
        if b is ONES:
            if v is ONE:
                continue
        elif v is mk("dim", b, d):
            continue
        o2.append((d, v))
    o2.sort(key=lambda p: (p[0].uid, p[1].uid))
    if not o2 and b is not ONES and bt is field(b, None, "batch"):
        return b
    return mk("shp", b, tuple(o2), bt)


class Canon:
    """canonical rewriting under a set of asserted equalities"""

    def __init__(self, eqs=()):
        self.rep = {}
        self.memo = {}
        for _ in range(6):
            ch = False
            for a, b in eqs:
                x, y = self(a), self(b)
                if x is y:
                    continue
                # prefer simpler representative
                if self.weight(y) > self.weight(x):
                    x, y = y, x
                self.rep[x] = y
                self.memo = {}
                ch = True
            if not ch:
                break

    @staticmethod
    def weight(t):
        n = sum(1 for _ in subterms(t))
        return (n, t.uid)

    def __call__(self, t):
        return rewrite(t, self.step, self.memo)

    def step(self, t):
        if t in self.rep:
            return self.rep[t]
        op = t.op
        if op == "trunc" and t.args[1].op == "len":
            return t.args[1]
        if op in ("imax", "imin") and t.args[0].uid > t.args[1].uid:
            return mk(op, t.args[1], t.args[0])
        if op == "lt" and not is_float(t):
            return ge0(isub(isub(t.args[1], t.args[0]), ONE))
        if op == "le" and not is_float(t):
            return ge0(isub(t.args[1], t.args[0]))
        if op == "eq" and (is_intlike(t.args[0]) or is_intlike(t.args[1])):
            r = eq0(isub(t.args[0], t.args[1]))
            return r if r is not t else None
        if op == "eq":
            a, b = t.args
            if is_shape(a) or is_shape(b) or a.op == "shp" or b.op == "shp":
                x, y = shape_nf2(a, self), shape_nf2(b, self)
                if x is y:
                    return TRUE
                if x.uid > y.uid:
                    x, y = y, x
                r = mk("eq", x, y)
                return r if r is not t else None
        if op == "call":
            n = t.args[0]
            if n == "Shape::has_compatible_batch":
                a, b = batch_of(t.args[1], self), batch_of(t.args[2], self)
                return bor(self.step2(eq0(isub(a, b))), self.step2(eq0(isub(a, ONE))), self.step2(eq0(isub(b, ONE))))
            if n == "Shape::has_same_dims":
                a, b = shape_nf2(t.args[1], self), shape_nf2(t.args[2], self)
                a, b = drop_batch(a), drop_batch(b)
                if a is b:
                    return TRUE
                if a.uid > b.uid:
                    a, b = b, a
                return mk("samedims", a, b)
            if n in ("Shape::resize_dim", "Shape::resize_batch", "Shape::new"):
                r = shape_nf(t, self)
                return r if r is not t else None
        if op == "field" and t.args[0].op == "shp":
            if t.args[1] == "batch":
                return t.args[0].args[2]
        if op == "dim" and t.args[0].op == "shp":
            b, o, _ = t.args[0].args
            d = t.args[1]
            for dd, v in o:
                if dd is d:
                    return v
            if all(is_num(dd) for dd, _ in o) and is_num(d):
                return ONE if b is ONES else mk("dim", b, d)
        return None

    def step2(self, t):
        return self(t)


def is_float(t):
    return any(x.op in ("fadd", "fmul", "fsub", "fdiv", "ld", "load", "fneg", "fnum", "real") for x in t.args if isinstance(x, T))


def shape_nf2(t, c):
    return t if t.op == "shp" else shape_nf(t, c)


def batch_of(t, c):
    if t.op == "shp":
        return t.args[2]
    return shape_den(t)[2]


def drop_batch(t):
    if t.op == "shp":
        if not t.args[1] and t.args[0] is not ONES:
            return t.args[0]
        return mk("shp", t.args[0], t.args[1], ZERO)
    return t


# ------------------------------------------------------------------ formulas
def formula_atoms(f, out=None):
    if out is None:
        out = {}
    if f.op in ("and", "or"):
        for x in f.args:
            formula_atoms(x, out)
    elif f.op == "not":
        formula_atoms(f.args[0], out)
    elif f.op == "ite":
        for x in f.args:
            formula_atoms(x, out)
    elif f.op != "bool":
        out[f] = 1
    return out


def evalf(f, m):
    if f.op == "bool":
        return f.args[0]
    if f.op == "and":
        return all(evalf(x, m) for x in f.args)
    if f.op == "or":
        return any(evalf(x, m) for x in f.args)
    if f.op == "not":
        return not evalf(f.args[0], m)
    if f.op == "ite":
        return evalf(f.args[1] if evalf(f.args[0], m) else f.args[2], m)
    return m[f]


def consistent(m):
    """equality/order theory pruning of a truth assignment"""
    par = {}

    def find(x):
        while par.get(x, x) is not x:
            x = par[x]
        return x
    ineq = []
    ges = []
    for a, v in m.items():
        if a.op == "eq":
            x, y = a.args
            if x is ZERO and y.op == "poly":
                p = as_poly(y)
                # difference of two atoms, or atom minus constant
                ms = [(mm, c) for mm, c in p.items() if mm != ()]
                k = p.get((), 0)
                if len(ms) == 2 and k == 0 and ms[0][1] == -ms[1][1] and abs(ms[0][1]) == 1:
                    x, y = from_poly({ms[0][0]: 1}), from_poly({ms[1][0]: 1})
                elif len(ms) == 1 and abs(ms[0][1]) == 1:
                    x, y = from_poly({ms[0][0]: 1}), num(-k * ms[0][1])
            if v:
                rx, ry = find(x), find(y)
                if rx is not ry:
                    if is_num(rx) and is_num(ry):
                        return False
                    if is_num(rx):
                        rx, ry = ry, rx
                    par[rx] = ry
            else:
                ineq.append((x, y))
        elif a.op == "ge0":
            p = as_poly(a.args[0])
            if not v:
                p = {mm: -c for mm, c in p.items()}
                p[()] = p.get((), 0) - 1
            ges.append(p)
    # equality of dimensions is an equivalence relation
    for a, v in m.items():
        r = _dimrel(a)
        if r and v:
            x, y = find((r[0], r[1])), find((r[0], r[2]))
            if x != y:
                par[x] = y
    for a, v in m.items():
        r = _dimrel(a)
        if r and not v and find((r[0], r[1])) == find((r[0], r[2])):
            return False
    for x, y in ineq:
        if find(x) is find(y):
            return False
    for p, q in itertools.combinations(ges, 2):
        s = padd(p, q)
        s = {mm: c for mm, c in s.items() if c}
        if not s:
            continue
        if set(s) == {()} and s[()] < 0:
            return False
    return True


def _dimrel(a):
    if a.op == "samedims":
        return None, a.args[0], a.args[1]
    if a.op == "call" and a.args[0] == "Shape::has_same_loo_dims":
        return a.args[3], a.args[1], a.args[2]
    return None


def unroll(t, memo=None):
    """folds and loop-carried values with a known trip count, written out"""
    def f(u):
        if u.op == "fold" and is_num(u.args[0]) and 0 <= int(u.args[0].args[0]) <= 6:
            v = u.args[1]
            for i in range(int(u.args[0].args[0])):
                v = unroll(apply_lam(u.args[2], [v, num(i)]))
            return v
        if u.op == "acc" and is_num(u.args[3]) and 0 <= int(u.args[3].args[0]) <= 6:
            v = u.args[1]
            for i in range(int(u.args[3].args[0])):
                v = unroll(apply_lam(u.args[2], [v, num(i)]))
            return v
        return None
    return rewrite(t, f, memo)


def lift(f):
    """conditionals inside an atom become conditionals between atoms"""
    if f.op in ("and", "or", "not"):
        xs = [lift(x) for x in f.args]
        return band(*xs) if f.op == "and" else bor(*xs) if f.op == "or" else bnot(xs[0])
    if f.op == "ite":
        return ite(*[lift(x) for x in f.args])
    if f.op == "bool":
        return f
    i = next((x for x in subterms(f) if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0]))), None)
    if i is None:
        return f
    return ite(lift(i.args[0]), lift(subst(f, {i: i.args[1]})), lift(subst(f, {i: i.args[2]})))


def assignments(fs, limit=13):
    """consistent truth assignments of the atoms of the formulas, or None when there are too many"""
    ats = {}
    for f in fs:
        formula_atoms(f, ats)
    ats = list(ats)
    if len(ats) > limit:
        return None
    return [m for m in (dict(zip(ats, v)) for v in itertools.product((True, False), repeat=len(ats))) if consistent(m)]


def equiv(f, g, under=TRUE, limit=12):
    """f <=> g under an assumption; True/False/None"""
    if f is g:
        return True
    ats = formula_atoms(f)
    formula_atoms(g, ats)
    formula_atoms(under, ats)
    ats = list(ats)
    if len(ats) > limit:
        return None
    for vals in itertools.product((True, False), repeat=len(ats)):
        m = dict(zip(ats, vals))
        if not consistent(m):
            continue
        if not evalf(under, m):
            continue
        if evalf(f, m) != evalf(g, m):
            return False
    return True


def implies(f, g, limit=14):
    return equiv(band(f, g), f, limit=limit)


# ------------------------------------------------------------------ preconditions
def quant(e, depth):
    return mk("qk", depth, e.N)


def preconditions(effs, stop=None):
    """[(quantifier tuple, path condition, cond, why)] of asserts, loop variables canonicalised.
    stop(effect) ends the collection (asserts after it are ignored)"""
    out = []
    done = [False]

    def go(effs, q, path, sub):
        for e in effs:
            if done[0]:
                return
            if stop is not None and e.kind == "call" and stop(e):
                done[0] = True
                return
            if e.kind == "assert":
                out.append((q, path, subst(e.cond, sub), e.why))
            elif e.kind == "panic":
                out.append((q, path, FALSE, "panic"))
            elif e.kind == "if":
                c = subst(e.cond, sub)
                go(e.then, q, band(path, c), sub)
                if e.els:
                    go(e.els, q, band(path, bnot(c)), sub)
            elif e.kind == "loop":
                if e.lkind != "count":
                    out.append((q + (mk("while", e.k),), path, FALSE, "while"))
                    continue
                s2 = dict(sub)
                N = subst(e.N, sub)
                qk = mk("qk", len(q), N)
                s2[e.k] = qk
                for ph, (ini, st) in e.phis.items():
                    s2[ph] = mk("acc", N, ini, lam([ph, e.k], st), qk)
                go(e.body, q + (qk,), path, s2)
    go(effs, (), TRUE, {})
    return out


def pre_formulas(effs, stop=None, skip=("other", "index", "unwrap", "overflow")):
    """{quantifier: (formula, canon)} ; asserts generated by language checks are skipped"""
    pcs = [p for p in preconditions(effs, stop) if p[3] not in skip]
    groups = {}
    for q, path, c, why in pcs:
        groups.setdefault(q, []).append(bor(bnot(path), c))
    return groups


def conj_eqs(fs):
    eqs = []
    for f in fs:
        for x in (f.args if f.op == "and" else (f,)):
            if x.op == "eq":
                a, b = x.args
                if a is ZERO and b.op == "poly":
                    ms = [(m, c) for m, c in as_poly(b).items() if m != ()]
                    k = as_poly(b).get((), 0)
                    if len(ms) == 2 and k == 0 and ms[0][1] == -ms[1][1] and abs(ms[0][1]) == 1:
                        a, b = from_poly({ms[0][0]: 1}), from_poly({ms[1][0]: 1})
                    elif len(ms) == 1 and abs(ms[0][1]) == 1:
                        a, b = from_poly({ms[0][0]: 1}), num(-k * ms[0][1])
                eqs.append((a, b))
    return eqs


def _conj(fs, c):
    return band(*[c(f) for f in fs]) if fs else TRUE


def opaqueish(f):
    """mentions a loop-carried value or an un-modelled call: not something the normal form decides"""
    return contains(f, lambda x: x.op in ("acc", "fold", "phi", "while", "havoc", "bad") or
                    (x.op == "call" and not str(x.args[0]).startswith("Shape::")))


def split_conj(f):
    return list(f.args) if f.op == "and" else [f]


def compare_guards(actual, spec, base=()):
    """actual: {q:[formula]}, spec: [(q, formula)] -> (missing, extra, undecided) lists of formulas"""
    sp = {}
    for q, f in spec:
        sp.setdefault(q, []).append(f)
    c0 = Canon(base)
    actual = {tuple(c0(x) for x in q): fs for q, fs in actual.items()}
    sp = {tuple(c0(x) for x in q): fs for q, fs in sp.items()}
    missing, extra, und = [], [], []

    def closure(groups):
        fs = []
        for f in groups.get((), []):
            fs.extend(split_conj(c0(f)))
        return Canon(list(base) + conj_eqs(fs))
    ca, cs = closure(actual), closure(sp)
    for q, fs in sp.items():
        for f in fs:
            r = entailed(f, actual, q, c0, ca)
            if r is False:
                missing.append((q, f))
            elif r is None:
                und.append((q, f))
    for q, fs in actual.items():
        for f in fs:
            r = entailed(f, sp, q, c0, cs)
            if r is False:
                extra.append((q, f))
            elif r is None:
                und.append((q, f))
    return missing, extra, und


def tvars(f):
    return {x for x in subterms(f) if x.op in ("arg", "field", "dim", "index", "len", "qk", "call")}


def entailed(f, groups, q, c0, cc):
    for c in (c0, cc):
        g = c(f)
        if g is TRUE:
            return True
        pool = []
        for qq in {(), q}:
            for x in groups.get(qq, []):
                pool.extend(split_conj(c(x)))
        if all(h in pool for h in split_conj(g)):
            return True
        ats = set(formula_atoms(g))
        rel = [x for x in pool if set(formula_atoms(x)) & ats or x.op == "eq"]
        # relevant assumptions only, keep the table small
        rel = [x for x in rel if set(formula_atoms(x)) & ats] or rel[:0]
        h = band(*rel) if rel else TRUE
        r = equiv(band(h, g), h, limit=12)
        if r:
            return True
        # widen: atoms sharing integer variables
        vs = tvars(g)
        rel2 = [x for x in pool if tvars(x) & vs]
        h = band(*rel2) if rel2 else TRUE
        r = equiv(band(h, g), h, limit=10)
        if r:
            return True
    if r is None or opaqueish(f):
        return None
    return False
