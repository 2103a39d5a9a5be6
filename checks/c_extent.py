"""The extent algebra itself: which shapes exist, what they report, and when extents are too large.

Abstract interpretation of the bodies of Shape's functions over a finite domain of extents: an extent is 0, 1 or
one of a few symbols standing for any value >= 2 (two different symbols are different extents).  The loops run over
at most MAX_DEPTH axes, so following them axis by axis covers every shape of that kind, for all values of the symbols."""
import itertools
import os
from terms import *
from effects import *
import interp
import policies

LIMIT = 1 << 32


class ExtentLayer(interp.Policy):
    unroll = True
    max_steps = 3000

    def decide(self, c):
        return decide(c)


def ext(name):
    return mk("ext", name)


def shifted(p):
    """coefficients of the polynomial in x-2, for every symbol"""
    out = {}
    for m, c in p.items():
        cur = {(): c}
        for a, e in m:
            if a.op != "ext" or e < 0:
                return None
            for _ in range(int(e)):
                nxt = {}
                for mm, cc in cur.items():
                    nxt[mm] = nxt.get(mm, 0) + 2 * cc
                    k = tuple(sorted(mm + (a.uid,)))
                    nxt[k] = nxt.get(k, 0) + cc
                cur = nxt
        for k, v in cur.items():
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def sign(p):
    """'+','-','0','>=','<=' or None for a polynomial over extents >= 2"""
    q = shifted(p)
    if q is None:
        return None
    if not q:
        return "0"
    if all(v > 0 for v in q.values()):
        return "+" if () in q else ">="
    if all(v < 0 for v in q.values()):
        return "-" if () in q else "<="
    return None


def decide(c):
    if c.op == "not":
        return bnot(decide(c.args[0]))
    if c.op == "and":
        return band(*[decide(x) for x in c.args])
    if c.op == "or":
        return bor(*[decide(x) for x in c.args])
    if c.op == "ite":
        return ite(decide(c.args[0]), decide(c.args[1]), decide(c.args[2]))
    if c.op in ("eq", "lt", "le"):
        a, b = c.args
        if a.op == "ext" and is_num(b) and b.args[0] >= LIMIT - 1 and (c.op == "le" or b.args[0] >= LIMIT and c.op == "lt"):
            return TRUE
        if a.op == "ext" and b.op == "ext":
            return boolc(a is b) if c.op == "eq" else c
        if not (a.op in ("ext", "poly", "num") and b.op in ("ext", "poly", "num")):
            return c
        s = sign(as_poly(isub(b, a)))
        if c.op == "eq":
            return TRUE if s == "0" else FALSE if s in ("+", "-") else c
        if c.op == "lt":
            return TRUE if s == "+" else FALSE if s in ("-", "<=", "0") else c
        return TRUE if s in ("+", ">=", "0") else FALSE if s == "-" else c
    if c.op == "nooverflow":
        a, b = c.args[2], c.args[3]
        if c.args[0] == "mul" and (a is ONE or b is ONE) or c.args[0] in ("add", "sub") and b is ZERO:
            return TRUE
        if c.args[0] == "add" and a is ZERO:
            return TRUE
        if c.args[0] == "sub" and is_num(a) and is_num(b):
            return boolc(a.args[0] >= b.args[0])
        if is_num(a) and is_num(b):
            return TRUE
    return c


# ------------------------------------------------------------------ running a body on a case
class Run:
    """outcome of a function on one case: panics / value / state of the receiver / conditions it asserts"""

    def __init__(self, ctx, name, args, cells=None):
        f = ctx.fn(name)
        it = interp.Interp(ctx.prog, ExtentLayer())
        self.err = None
        self.panics = False
        self.ret = None
        self.asserts = []
        self.odd = []
        self.span = str(f.span)
        try:
            s = it.summarize(f, argvals=args, cells=cells)
        except (interp.Undecided, RecursionError) as e:
            self.err = "%s" % (e,)
            return
        except Exception as e:
            if os.environ.get("VP_DEBUG"):
                raise
            self.err = repr(e)
            return
        self.s = s
        ctx.analysed.add(name)
        self.arith = it.arith
        self.fit = set()
        for e, p in walk(s.effects):
            conds = [x[1] for x in p if x[0] == "if"]
            if any(c is FALSE for c in conds):
                continue
            if e.kind == "assert":
                c = decide(self.narrow(e.cond))
                if limit_of(c) is not None:
                    self.fit.add(limit_of(c))
                if c is TRUE:
                    continue
                if c is FALSE and not conds:
                    self.panics = True
                if conds or not limit_of(c):
                    self.odd.append(c)
                self.asserts.append(c)
            elif e.kind == "panic":
                if not conds:
                    self.panics = True
                else:
                    self.odd.append(band(*conds))
            elif e.kind in ("call", "loop", "store"):
                self.odd.append(mk("effect", e.kind, str(e.a.get("name"))))
        if s.state is None:
            self.panics = True
        else:
            self.ret = self.narrow(s.ret)

    def narrow(self, t):
        """truncations of values that were required to fit"""
        return rewrite(t, lambda u: u.args[1] if u.op == "trunc" and u.args[0] == 32 and
                       (u.args[1].op == "ext" or is_num(u.args[1]) or u.args[1] in self.fit) else None)

    def cell(self, c):
        v = self.s.state.cells.get(c)
        return v if v is None else self.narrow(v)


def limit_of(c):
    """the product or sum a condition keeps within 32 bits, or None"""
    if c.op == "nooverflow" and c.args[1] in ("u32",):
        return {"mul": imul, "add": iadd}.get(c.args[0], lambda a, b: None)(c.args[2], c.args[3])
    if c.op == "nooverflow":
        return c.args[2]        # a wider type: no restriction on 32-bit quantities
    if c.op in ("lt", "le") and is_num(c.args[1]):
        if c.args[1].args[0] == LIMIT - (1 if c.op == "le" else 0):
            return c.args[0]
    return None


def prod(xs):
    r = ONE
    for x in xs:
        r = imul(r, x)
    return r


def width(p):
    """number of symbol factors of a product term"""
    q = as_poly(p)
    return max((sum(e for a, e in m) for m in q), default=0)


def unchecked(r, fits):
    """32-bit products/sums formed without a check that neither divide nor equal something known to fit"""
    out = []
    known = [x for x in fits if x is not None]
    for c in r.asserts:
        x = limit_of(c)
        if x is not None and (c.op != "nooverflow" or c.args[1] == "u32"):
            known.append(x)
    for (op, a, b), (ty, span) in r.arith.items():
        if ty != "u32":
            continue
        v = (imul if op == "Mul" else iadd)(a, b)
        if op == "Add" and (is_num(a) or is_num(b)):
            if not contains(v, lambda u: u.op == "ext"):
                continue
            out.append((v, span))
            continue
        if not contains(v, lambda u: u.op == "ext") or (op == "Mul" and (is_num(a) or is_num(b))
                                                        and (a is ONE or b is ONE or ZERO in (a, b))):
            continue
        if any(x is v or mono_div(as_poly(x), v) is not None for x in known if v.op in ("poly", "ext")):
            continue
        out.append((v, span))
    return out


# ------------------------------------------------------------------ the documented algebra
class Dims:
    """the extents of a shape, without trailing ones"""

    def __init__(self, ds, batch):
        ds = list(ds)
        while ds and ds[-1] is ONE:
            ds.pop()
        self.ds = ds
        self.batch = batch

    def __getitem__(self, i):
        return self.ds[i] if i < len(self.ds) else ONE

    def vol(self):
        return prod(self.ds)

    def __repr__(self):
        return "[%s]x%s" % (",".join(show(x) for x in self.ds), show(self.batch))


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.canon = {}

    def arr(self, xs):
        return mk("agg", ("array",), *xs)

    def new(self, xs, b):
        return Run(self.ctx, "Shape::new", [mk("ref", ("in", "dims"), ()), b], {("in", "dims"): self.arr(xs)})

    def value(self, d):
        """the value the constructor yields for a shape"""
        k = (tuple(d.ds), d.batch)
        if k not in self.canon:
            r = self.new(d.ds, d.batch)
            v = None if r.err or r.panics or r.odd else value_of(r.ret)
            self.canon[k] = None if v is None or contains(v, lambda u: u.op not in ("agg", "num", "bool", "ext", "poly")) else v
            if v is not None and self.canon[k] is None:
                self.ctx.undecided("value:%r" % d, "the constructor yields " + show(v)[:200])
        return self.canon[k]

    def method(self, name, v, *args):
        return Run(self.ctx, name, [mk("ref", ("in", "self"), ()), *args], {("in", "self"): v})

    def fail(self, key, what, r=None):
        self.ctx.violation(key, what, r.span if r is not None else "")

    def expect_panic(self, key, r, what):
        self.n += 1
        if r.err:
            self.ctx.undecided(key, r.err)
        elif r.panics:
            self.ctx.ok(key)
        elif r.odd:
            self.ctx.undecided(key, "panics under conditions not decided: " + show(band(*r.odd))[:200])
        else:
            self.fail(key, what, r)

    def expect(self, key, r, want, what, fits=(), must=None):
        """the outcome equals want, nothing wraps around, and `must` (if any) is kept within 32 bits"""
        self.n += 1
        if r.err:
            self.ctx.undecided(key, r.err)
            return False
        if r.panics:
            self.fail(key, "%s panics although it is defined" % what, r)
            return False
        if r.odd:
            self.ctx.undecided(key, "conditions not decided: " + show(band(*r.odd))[:200])
            return False
        bad = unchecked(r, fits)
        if bad:
            self.fail(key, "%s: %s may wrap around 32 bits unnoticed (%s)" % (what, show(bad[0][0]), bad[0][1]), r)
            return False
        if must is not None and width(must) > 1 and not any(x is must or mono_div(as_poly(x), must) is not None for x in fits):
            lims = [limit_of(c) for c in r.asserts]
            if not any(x is must for x in lims):
                self.fail(key, "%s: nothing requires %s to fit into 32 bits" % (what, show(must)), r)
                return False
        for c in r.asserts:
            x = limit_of(c)
            if c.op == "nooverflow" and c.args[1] != "u32":
                continue
            if x is not None and must is not None and (x is must or mono_div(as_poly(must), x) is not None):
                continue
            if x is not None and any(x is f or mono_div(as_poly(f), x) is not None for f in fits):
                continue
            self.fail(key, "%s additionally requires %s" % (what, show(c)), r)
            return False
        if want is None:
            self.ctx.ok(key)
            return True
        got = value_of(r.ret)
        if got is want:
            self.ctx.ok(key)
            return True
        if contains(got, lambda u: u.op not in ("agg", "num", "bool", "ext", "poly")):
            self.ctx.undecided(key, "yields " + show(got)[:200])
            return False
        self.fail(key, "%s yields %s instead of %s" % (what, show(got)[:200], show(want)[:200]), r)
        return False


def value_of(t):
    """normal form of a result: conditions decided, slices of literals cut"""
    def f(u):
        if u.op in ("eq", "lt", "le", "not", "and", "or", "nooverflow"):
            v = decide(u)
            return v if v is not u else None
        if u.op == "subslice":
            b, lo, hi = u.args
            if b.op == "agg" and is_num(lo) and is_num(hi):
                return mk("agg", ("array",), *b.args[1:][int(lo.args[0]):int(hi.args[0])])
        if u.op == "ite":
            return ite(decide(u.args[0]), u.args[1], u.args[2])
        return None
    for _ in range(3):
        t = rewrite(t, f)
    return t


AX = 8
NAMES = "PQRSTUVW"


def patterns(n, deep):
    """which of n axes have extent one"""
    if deep or n <= 5:
        return list(itertools.product((0, 1), repeat=n))
    out = [p for p in itertools.product((0, 1), repeat=n) if sum(p) >= n - 1 or sum(p) <= 1]
    out += [tuple(i % 2 for i in range(n)), tuple((i + 1) % 2 for i in range(n))]
    return sorted(set(out))


def dims_of(p, names=NAMES):
    return [ext(names[i]) if x else ONE for i, x in enumerate(p)]


def run_extents(ctx):
    ctx.rule = ("Abstract interpretation of the bodies of Shape's constructor, mutators, queries and comparison over extents in "
                "{0, 1, symbolic >= 2} (pairwise different symbols), loops followed axis by axis up to the eight axes that exist; "
                "results are compared as integer polynomials with the documented algebra, every 32-bit product or sum formed must be "
                "overflow-checked or divide one that is, and the concatenation rules must check the sums they form.")
    deep = ctx.tier == "thorough"
    j = Judge(ctx)
    B = ext("B")
    need = ["Shape::new", "Shape::depth", "Shape::dims", "Shape::batch", "Shape::volume", "Shape::lower_volume", "Shape::size",
            "Shape::has_batch", "Shape::has_compatible_batch", "Shape::is_scalar", "Shape::is_column_vector", "Shape::is_matrix",
            "Shape::has_same_dims", "Shape::has_same_loo_dims", "Shape::resize_dim", "Shape::resize_batch", "Shape::update_dim",
            "Shape::update_batch", "Shape.Index<u32>::index", "Shape.PartialEq<Shape>::eq"]
    have = set()
    for n in need:
        if ctx.fn(n) is None:
            ctx.violation("anchor:" + n, "%s not found" % n)
        else:
            have.add(n)
    if "Shape::new" not in have:
        return
    writers(ctx, need)
    construct(ctx, j, deep, B)
    queries(ctx, j, deep, B, have)
    pairs(ctx, j, deep, have)
    mutators(ctx, j, deep, have)
    concats(ctx)
    if not ctx.und and not ctx.viol:
        ctx.floor("cases", j.n, 900)


# ------------------------------------------------------------------ construction
def construct(ctx, j, deep, B):
    for n in range(AX + 1):
        for p in patterns(n, deep):
            for b in ((ONE, B) if n <= 3 else (B,)):
                ds = dims_of(p)
                d = Dims(ds, b)
                key = "new:%d:%s:%s" % (n, "".join(map(str, p)), show(b))
                r = j.new(ds, b)
                if not j.expect(key, r, None, "Shape::new(&[%s], %s)" % (", ".join(show(x) for x in ds), show(b)), must=d.vol()):
                    continue
                c = j.value(d)
                if c is None:
                    continue
                if value_of(r.ret) is not value_of(c):
                    e = Run(ctx, "Shape.PartialEq<Shape>::eq", [mk("ref", ("in", 0), ()), mk("ref", ("in", 1), ())],
                            {("in", 0): r.ret, ("in", 1): c})
                    j.expect(key + ":eq", e, TRUE, "comparing Shape::new(&[%s]) with the same shape without trailing ones" % ", ".join(show(x) for x in ds))
        if n:
            for i in range(n):
                ds = dims_of((1,) * n)
                ds[i] = ZERO
                j.expect_panic("new:zero:%d:%d" % (n, i), j.new(ds, B), "Shape::new accepts a zero extent at axis %d of %d" % (i, n))
    j.expect_panic("new:batch0", j.new(dims_of((1, 1)), ZERO), "Shape::new accepts a batch of zero")
    for p in ((1,) * 9, (0,) * 9, (1,) * 8 + (0,)):
        j.expect_panic("new:nine:%s" % "".join(map(str, p)), j.new(dims_of(p, "PQRSTUVWX"), B), "Shape::new accepts nine axes")


def states(deep):
    for p in itertools.product((0, 1), repeat=AX):
        k = max([i + 1 for i, x in enumerate(p) if x], default=0)
        q = p[:k]
        if deep or k <= 4 or sum(q) == 1 or (sum(q) >= k - 1 and k in (7, 8)):
            yield dims_of(q)


# ------------------------------------------------------------------ queries
def queries(ctx, j, deep, B, have):
    for ds in states(deep):
        for b in (ONE, B):
            d = Dims(ds, b)
            v = j.value(d)
            if v is None:
                continue
            observe(ctx, j, d, v, have, "q")


def observe(ctx, j, d, v, have, tag):
    n = len(d.ds)
    ok = True

    def q(name, want, *args, must=None, fits=()):
        nonlocal ok
        name = name if "." in name else "Shape::" + name
        if name not in have:
            return
        key = "%s:%r:%s(%s)" % (tag, d, name, ",".join(show(a) for a in args))
        r = j.method(name, v, *args)
        what = "%s(%s) of %r" % (name, ", ".join(show(a) for a in args), d)
        if not j.expect(key, r, want, what, fits=list(fits) + [d.vol()], must=must):
            ok = False
    q("depth", num(n))
    q("volume", d.vol())
    q("batch", d.batch)
    q("size", imul(d.vol(), d.batch), must=imul(d.vol(), d.batch))
    q("has_batch", boolc(d.batch is not ONE))
    q("is_scalar", boolc(n == 0))
    q("is_column_vector", boolc(n <= 1))
    q("is_matrix", boolc(n <= 2))
    if d.batch is not ONE and tag == "q":
        return ok
    q("dims", mk("agg", ("array",), *d.ds))
    for i in range(AX + 2):
        q("lower_volume", prod(d.ds[:i]), num(i))
        q("Shape.Index<u32>::index", d[i], num(i))
    return ok


# ------------------------------------------------------------------ comparisons
def pairs(ctx, j, deep, have):
    X, Y, B, C = ext("P"), ext("Q"), ext("B"), ext("C")
    opts = ((ONE, ONE), (ONE, X), (X, ONE), (X, X), (X, Y))
    pats = set(itertools.product(opts, repeat=3))
    for n in (4, 5, 6, 7, 8):
        for o in opts:
            for i in range(n):
                for base in ((X, X), (ONE, ONE)):
                    p = [base] * n
                    p[i] = o
                    pats.add(tuple(p))
    if deep:
        pats |= set(itertools.product(opts, repeat=4))
    pats = sorted(pats, key=lambda p: (len(p), [(opts.index(o)) for o in p]))
    for p in pats:
        a = Dims([x if x is ONE else ext(x.args[0] + str(i)) for i, (x, y) in enumerate(p)], ONE)
        b = Dims([y if y is ONE else ext(y.args[0] + str(i)) for i, (x, y) in enumerate(p)], ONE)
        va, vb = j.value(a), j.value(b)
        if va is None or vb is None:
            continue
        n = max(len(p), 1)
        same = all(a[i] is b[i] for i in range(n))
        if "Shape::has_same_dims" in have:
            j.expect("samedims:%r:%r" % (a, b), j.method("Shape::has_same_dims", va, vb), boolc(same), "has_same_dims of %r and %r" % (a, b))
        if "Shape::has_same_loo_dims" in have and (len(p) <= 3 or deep or len(p) == 8):
            for dim in range(len(p) + 1 if len(p) < 8 else 9):
                w = all(a[i] is b[i] for i in range(n) if i != dim)
                j.expect("loo:%r:%r:%d" % (a, b, dim), j.method("Shape::has_same_loo_dims", va, vb, num(dim)), boolc(w),
                         "has_same_loo_dims of %r and %r at %d" % (a, b, dim))
        if "Shape.PartialEq<Shape>::eq" in have and (len(p) <= 3 or deep):
            eq(ctx, j, a, b, va, vb, same)
    for x, y in ((ONE, ONE), (ONE, B), (B, ONE), (B, B), (B, C)):
        for ds in ([], [X], [X, Y]):
            a, b = Dims(ds, x), Dims(ds, y)
            va, vb = j.value(a), j.value(b)
            if va is None or vb is None:
                continue
            if "Shape::has_compatible_batch" in have:
                j.expect("batch:%r:%r" % (a, b), j.method("Shape::has_compatible_batch", va, vb),
                         boolc(x is y or x is ONE or y is ONE), "has_compatible_batch of %r and %r" % (a, b))
            if "Shape::has_same_dims" in have:
                j.expect("samedims:%r:%r" % (a, b), j.method("Shape::has_same_dims", va, vb), TRUE, "has_same_dims of %r and %r" % (a, b))
            if "Shape.PartialEq<Shape>::eq" in have:
                eq(ctx, j, a, b, va, vb, x is y)


def eq(ctx, j, a, b, va, vb, same):
    for n, w in (("eq", same), ("ne", not same)):
        name = "Shape.PartialEq<Shape>::" + n
        if ctx.fn(name) is None:
            continue
        r = Run(ctx, name, [mk("ref", ("in", 0), ()), mk("ref", ("in", 1), ())], {("in", 0): va, ("in", 1): vb})
        j.expect("%s:%r:%r" % (n, a, b), r, boolc(w), "%s of %r and %r" % (n, a, b))


# ------------------------------------------------------------------ changing an extent
def mutators(ctx, j, deep, have):
    M, B, C = ext("M"), ext("B"), ext("C")
    for ds in states(deep):
        d = Dims(ds, B)
        v = j.value(d)
        if v is None:
            continue
        full = deep or len(ds) <= 2 or len(ds) >= 7
        for dim in range(AX):
            if not full and dim not in (0, len(ds) - 1, len(ds), AX - 1):
                continue
            for m in (ONE, M):
                e = [d[i] for i in range(AX)]
                e[dim] = m
                changed(ctx, j, "dim", d, v, Dims(e, B), have, num(dim), m)
        if len(ds) <= 2:
            for dim in (0, 1, 7):
                for name in ("update_dim", "resize_dim"):
                    if "Shape::" + name in have:
                        j.expect_panic("%s:zero:%r:%d" % (name, d, dim), j.method("Shape::" + name, v, num(dim), ZERO),
                                       "%s accepts a zero extent" % name)
            for dim in (8, 9):
                for name in ("update_dim", "resize_dim"):
                    if "Shape::" + name in have:
                        j.expect_panic("%s:axis:%r:%d" % (name, d, dim), j.method("Shape::" + name, v, num(dim), M),
                                       "%s accepts axis %d" % (name, dim))
            for b0 in (ONE, B):
                w = j.value(Dims(ds, b0))
                if w is None:
                    continue
                for b in (ONE, C):
                    changed(ctx, j, "batch", Dims(ds, b0), w, Dims(ds, b), have, b)
                for name in ("update_batch", "resize_batch"):
                    if "Shape::" + name in have:
                        j.expect_panic("%s:zero:%r" % (name, d), j.method("Shape::" + name, w, ZERO), "%s accepts a batch of zero" % name)


def changed(ctx, j, what, d, v, want, have, *args):
    wv = j.value(want)
    for name in ("update_" + what, "resize_" + what):
        if "Shape::" + name not in have or wv is None:
            continue
        key = "%s:%r:%s" % (name, d, ",".join(show(a) for a in args))
        r = j.method("Shape::" + name, v, *args)
        say = "%s(%s) of %r" % (name, ", ".join(show(a) for a in args), d)
        if not j.expect(key, r, None, say, fits=[d.vol()], must=want.vol() if what == "dim" and args[1] is not ONE else None):
            continue
        if name.startswith("update"):
            got = r.cell(("in", "self"))
        else:
            got = r.ret
            if r.cell(("in", "self")) is not None and value_of(r.cell(("in", "self"))) is not value_of(v):
                j.fail(key + ":self", "%s changes the shape it is called on" % say, r)
        got = value_of(got)
        if got is value_of(wv):
            continue
        # another representation of the shape: it has to behave the same and compare equal
        if contains(got, lambda u: u.op not in ("agg", "num", "bool", "ext", "poly")):
            ctx.undecided(key, "leaves " + show(got)[:200])
            continue
        n0 = len(ctx.viol)
        observe(ctx, j, want, got, have, key)
        if len(ctx.viol) == n0:
            e = Run(ctx, "Shape.PartialEq<Shape>::eq", [mk("ref", ("in", 0), ()), mk("ref", ("in", 1), ())],
                    {("in", 0): got, ("in", 1): wv})
            if j.expect(key + ":eq", e, TRUE, "comparing the result of %s with %r" % (say, want)):
                ctx.undecided(key, "another representation of the same shape")


# ------------------------------------------------------------------ sums formed by the concatenation rules
def concats(ctx):
    n = 0
    for name in sorted(policies.SHAPE_OPS):
        f = "shape_ops::" + name
        if ctx.fn(f) is None:
            continue
        it = interp.Interp(ctx.prog, policies.ShapeOpsLayer())
        try:
            s = it.summarize(ctx.fn(f))
        except (interp.Undecided, RecursionError) as e:
            ctx.undecided("sums:" + f, str(e))
            continue
        ctx.analysed.add(f)
        known = set()
        for e, p in walk(s.effects):
            if e.kind == "assert":
                for u in subterms(e.cond):
                    if u.op == "nooverflow":
                        known.add(limit_of(u))
                    elif u.op in ("lt", "le") and limit_of(u) is not None:
                        known.add(limit_of(u))
        for (op, a, b), (ty, span) in it.arith.items():
            if ty != "u32":
                continue
            v = (iadd if op == "Add" else imul)(a, b)
            if is_num(v) or v in known:
                continue
            big = [x for x in (a, b) if not is_num(x)]
            if op == "Add" and len(big) < 2:
                continue        # a counter or an offset of a constant: bounded by the list or by the extents
            ctx.violation("wrap:%s:%s" % (name, show(v)[:80]), "shape rule %s forms %s in 32 bits without a check" % (name, show(v)[:200]), str(span))
        if name in ("concat", "batch_concat"):
            n += 1
            terms = [x for x in known if x is not None and len(as_poly(x)) >= 2]
            inline = [u for e, p in walk(s.effects) for t in e.a.values() if isinstance(t, T) for u in subterms(t) if u.op == "nooverflow"]
            if not terms and not inline:
                ctx.violation("sum:" + name, "shape rule %s adds up extents without any overflow check" % name, ctx.where(f))
            else:
                ctx.ok("sum:" + name)
    ctx.floor("rules that add up extents", n, 2)


# ------------------------------------------------------------------ who can make or change a shape
def writers(ctx, need):
    n = 0
    for f in ctx.prog.fns.values():
        if "::tests::" in f.path or "test_utils" in f.path or f.crate.name != "prima_undine":
            continue
        name = ctx.prog.fname(f)
        if name.split("::{closure}")[0] in need or "Clone" in name or name.startswith("Shape::"):
            n += 1
            continue
        for blk in f.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("shape::Shape"):
                    ctx.undecided("maker:" + name, "builds a Shape without its constructor")
    ctx.floor("functions of Shape", n, 18)
