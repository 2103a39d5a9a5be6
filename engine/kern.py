"""Kernels as (iteration domain, index polynomial, value) over symbolic extents.

A World gives every shape query of a kernel a value over extent symbols (L, N, M, B, ...), each a positive integer.
Loop counters whose range is a product of symbols are split into one digit per symbol, so that division and remainder
by products of symbols disappear and every index becomes a polynomial in digits."""
from fractions import Fraction
import itertools
from terms import *
import terms as tm
import alg


def sym(name):
    return mk("sym", name)


def dig(name, ext):
    return mk("dig", name, ext)


class TS:
    """shape of one tensor: extents before, at and after the distinguished dimension, and batch"""

    def __init__(self, L=ONE, N=ONE, M=ONE, batch=ONE, matrix=None, vol=None, dims=None):
        self.L, self.N, self.M, self.batch, self.matrix = L, N, M, batch, matrix
        self.dims = dims
        if dims is not None:
            self.vol = ONE
            for x in dims:
                self.vol = imul(self.vol, x)
        elif vol is not None:
            self.vol = vol
        elif matrix:
            self.vol = imul(matrix[0], matrix[1])
        else:
            self.vol = imul(imul(L, N), M)
        self.plain = vol is not None

    def dim(self, d, w):
        if self.dims is not None:
            return (self.dims[int(d.args[0])] if d.args[0] < len(self.dims) else ONE) if is_num(d) else None
        if self.matrix:
            if is_num(d):
                i = int(d.args[0])
                return self.matrix[i] if i < 2 else ONE
            return None
        if self.plain:
            return None
        if d is w.d:
            return self.N
        return None

    def lvol(self, d, w):
        if is_num(d) and d is ZERO:
            return ONE
        if self.dims is not None:
            if not is_num(d):
                return None
            v = ONE
            for x in self.dims[:int(d.args[0])]:
                v = imul(v, x)
            return v
        if self.matrix:
            if is_num(d):
                i = int(d.args[0])
                return ONE if i == 0 else self.matrix[0] if i == 1 else self.vol
            return None
        if self.plain:
            return None
        if d is w.d:
            return self.L
        if d is iadd(w.d, ONE):
            return imul(self.L, self.N)
        return None


D0 = mk("sym", "d")


def _value(q, env):
    s = Fraction(0)
    for m, c in q.items():
        x = c
        for a, e in m:
            x *= env[a] ** e
        s += x
    return s


def ieval(t, env):
    """value of an integer term under env (KeyError when it has other parts)"""
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == "num":
        return int(a[0])
    if op == "poly":
        s = 0
        for m, c in as_poly(t).items():
            x = c
            for at, e in m:
                x *= ieval(at, env) ** e
            s += x
        return int(s)
    if op in ("imin", "imax"):
        return (min if op == "imin" else max)(ieval(a[0], env), ieval(a[1], env))
    if op in ("idiv", "ceildiv", "irem"):
        x, y = ieval(a[0], env), ieval(a[1], env)
        if y <= 0:
            raise ZeroDivisionError
        return x // y if op == "idiv" else -(-x // y) if op == "ceildiv" else x % y
    if op in ("lt", "le", "eq"):
        x, y = ieval(a[0], env), ieval(a[1], env)
        return int(x < y if op == "lt" else x <= y if op == "le" else x == y)
    if op == "ite":
        return ieval(a[1] if ieval(a[0], env) else a[2], env)
    if op == "bool":
        return int(bool(a[0]))
    if op == "not":
        return 1 - ieval(a[0], env)
    if op == "and":
        return int(all(ieval(x, env) for x in a))
    if op == "or":
        return int(any(ieval(x, env) for x in a))
    raise KeyError(op)


class Budget(Exception):
    pass


class World:
    """one case of operand shapes for one kernel"""

    def __init__(self, name, ts, u32=(), u32len=None, f32len=None, nxs=None, mins=None, expand=None, d=None, order=(),
                 bound=None, kind="fw", facts=()):
        self.name = name
        self.ts = ts              # 'x0','x1','y0','gy0','gx','xk' -> TS
        self.u32 = dict(u32)      # position -> value term
        self.u32len = u32len
        self.f32len = f32len
        self.nxs = nxs
        self.mins = dict(mins or {})       # symbol name -> minimum (default 1)
        self.expand = dict(expand or {})   # symbol -> polynomial over smaller symbols
        self.d = d if d is not None else D0
        self.order = list(order)
        self.idbound = bound      # term -> exclusive upper bound of an index-list entry
        self.kind = kind
        self.prefix_map = {}
        self.memo = {}

    # ---------------------------------------------------------------- positivity
    def lo(self, p):
        """polynomial over symbols -> shifted so that every symbol is >= 0"""
        p = self.fullexpand(p)
        m = {}
        for a in list(atoms_of(p)):
            if a.op == "sym":
                k = self.mins.get(a.args[0], 1)
                if k:
                    m[a] = iadd(mk("sy0", a.args[0]), num(k))
                else:
                    m[a] = mk("sy0", a.args[0])
        return subst_poly(p, m)

    def fullexpand(self, p):
        for _ in range(3):
            m = {a: self.expand[a] for a in atoms_of(p) if a in self.expand}
            if not m:
                return p
            p = subst_poly(p, m)
        return p

    def vertices(self, p):
        """values of a multi-affine polynomial at the corners of its digit box"""
        ds = []
        for a in atoms_of(p):
            if a.op == "dig":
                ds.append((a, isub(a.args[1], ONE)))
            elif self.idbound is not None and self.idbound(a) is not None:
                ds.append((a, isub(self.idbound(a), ONE)))
        if len(ds) > 8:
            return None
        out = []
        for sel in itertools.product((0, 1), repeat=len(ds)):
            out.append(subst_poly(p, {a: (hi if s else ZERO) for s, (a, hi) in zip(sel, ds)}))
        return out

    def loops_run(self, t, digits=()):
        """least extents for which every loop counter of t has a value; the other (composite) extents to check"""
        ds_ = {a for a in atoms_of(t) if a.op == "dig"} | set(digits)
        mins, rest = dict(self.mins), []
        for d in ds_:
            p = as_poly(d.args[1])
            lin = [(m, c) for m, c in p.items() if m]
            k = p.get((), 0)
            if len(lin) == 1 and lin[0][1] == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 and lin[0][0][0][0].op == "sym":
                if k < 0:
                    s = lin[0][0][0][0].args[0]
                    mins[s] = max(mins.get(s, 1), 1 - int(k))
            else:
                rest.append(d.args[1])
        return mins, rest

    def nonneg(self, t, digits=()):
        """True when proven >= 0 over all extents and digits"""
        keep = self.mins
        self.mins, _ = self.loops_run(t, digits)
        try:
            return self._nonneg(t)
        finally:
            self.mins = keep

    def negative_somewhere(self, t, digits=()):
        """a corner and extents at which t < 0 (all atoms known), or None"""
        keep = self.mins
        self.mins, rest = self.loops_run(t, digits)
        try:
            return self._negative_somewhere(t, [as_poly(self.lo(e)) for e in rest])
        finally:
            self.mins = keep

    def corner_below_zero(self, t, digits=()):
        """like negative_somewhere for terms with min/max/division: extents and loop-counter corners at which t < 0"""
        ds_ = set(digits) | {a for a in subterms(t) if a.op == "dig"}
        while True:
            more = {a for d in ds_ for a in subterms(d.args[1]) if a.op == "dig"} - ds_
            if not more:
                break
            ds_ |= more
        syms = sorted({a for x in [t] + [d.args[1] for d in ds_] for a in subterms(x) if a.op == "sym"})
        order = []
        while len(order) < len(ds_):
            nxt = [d for d in sorted(ds_) if d not in order and all(a in order for a in subterms(d.args[1]) if a.op == "dig")]
            if not nxt:
                return None
            order += nxt
        if len(order) > 8:
            return None
        vals = (1, 2, 3, 9, 17) if len(syms) <= 4 else (1, 2, 9)
        for vs in itertools.product(vals, repeat=len(syms)):
            env = dict(zip(syms, vs))
            if any(v < self.mins.get(s.args[0], 1) for s, v in env.items()):
                continue
            for corner in itertools.product((1, 0), repeat=len(order)):
                e = dict(env)
                try:
                    for d, c in zip(order, corner):
                        x = ieval(d.args[1], e)
                        if x < 1:
                            raise ZeroDivisionError
                        e[d] = x - 1 if c else 0
                    if ieval(t, e) < 0:
                        return ", ".join("%s=%d" % (s.args[0], v) for s, v in env.items())
                except ZeroDivisionError:
                    continue
                except KeyError:
                    return None
        return None

    def flat_entry(self, e):
        """the entry with defined extents written out"""
        m = {a: self.expand[a] for a in self.expand}
        if not m:
            return e
        dm = {}
        f = lambda t: subst(subst(subst(t, m), m), m)
        return Entry(e.buf, [f(d) for d in e.digits], f(e.idx), e.mode, f(e.val), [f(g) for g in e.guards], e.base)

    def extents(self, entries, terms=()):
        """concrete extents worth looking at: small ones, and ones next to the constants the guards compare with"""
        parts = list(terms)
        consts = set()
        for e in entries:
            own = list(e.guards) + [d.args[1] for d in e.digits]
            parts += [e.idx] + own
            for x in own:
                for u in subterms(x):
                    if u.op == "num" and int(u.args[0]) == u.args[0]:
                        consts.add(abs(int(u.args[0])))
                    if u.op == "poly":
                        consts |= {abs(int(c)) for m, c in u.args[0] if not m and int(c) == c}
        syms = sorted({a for x in parts for a in subterms(x) if a.op == "sym"})
        if len(syms) > 5:
            return
        low = [self.mins.get(s.args[0], 1) for s in syms]
        for vs in itertools.product((1, 2, 3), repeat=len(syms)):
            if all(v >= l for v, l in zip(vs, low)):
                yield dict(zip(syms, vs))
        for c in sorted(x for x in consts if 2 < x <= 70000)[:6]:
            for i in range(len(syms)):
                for v in (c, c + 1, c + 2):
                    yield {s: v if k == i else max(low[k], 1) for k, s in enumerate(syms)}

    def never_stored(self, entries, size):
        """an element below size that no entry stores to, at some small extents; None when there is none or it cannot be told"""
        entries = [self.flat_entry(e) for e in entries]
        size = self.fullexpand(size)
        for env in self.extents(entries, [size]):
            try:
                n = ieval(size, env)
                if n > 200000:
                    continue
                got = set()
                for e in entries:
                    self._stored(e, list(e.digits), env, got)
            except Budget:
                continue
            except (KeyError, ZeroDivisionError):
                return None
            miss = [i for i in range(n) if i not in got]
            if miss:
                return "element %d when %s" % (miss[0], ", ".join("%s=%d" % (s.args[0], v) for s, v in env.items()))
        return None

    def gap(self, entries, specs, counts):
        """an element a documented map (specs) reaches at some extents and the kernel's entries do not (with counts: less often); or None"""
        entries = [self.flat_entry(e) for e in entries]
        specs = [self.flat_entry(e) for e in specs]
        for env in self.extents(entries + specs):
            try:
                got, want = {}, {}
                for es, d in ((entries, got), (specs, want)):
                    for e in es:
                        self._stored(e, list(e.digits), env, d)
            except Budget:
                continue
            except (KeyError, ZeroDivisionError):
                return None
            for i in sorted(want):
                if i not in got or counts and got[i] != want[i]:
                    return "element %d %s when %s" % (i, "is not reached" if i not in got else "receives %d terms instead of %d" % (got[i], want[i]),
                                                      ", ".join("%s=%d" % (s.args[0], v) for s, v in env.items()))
        return None

    def _stored(self, e, left, env, got, left_n=None):
        if left_n is None:
            left_n = [200000]
            env = dict(env)
            for x in [e.idx] + list(e.guards):
                for u in subterms(x):
                    if u.op == "u32":
                        raise KeyError("listed number")
        ready = [d for d in left if all(a in env for a in subterms(d.args[1]) if a.op == "dig")]
        if left and not ready:
            raise KeyError("cyclic")
        if not left:
            left_n[0] -= 1
            if left_n[0] < 0:
                raise Budget()
            if all(ieval(g, env) for g in e.guards):
                i = ieval(e.idx, env)
                if isinstance(got, dict):
                    got[i] = got.get(i, 0) + 1
                else:
                    got.add(i)
            return
        d = ready[0]
        rest = [x for x in left if x is not d]
        for v in range(ieval(d.args[1], env)):
            env[d] = v
            self._stored(e, rest, env, got, left_n)
        env.pop(d, None)

    def _nonneg(self, t):
        vs = self.vertices(t)
        if vs is None:
            return False
        for v in vs:
            q = as_poly(self.lo(v))
            for m, c in q.items():
                if c < 0:
                    return False
                for a, e in m:
                    if a.op != "sy0":
                        return False
        return True

    def _negative_somewhere(self, t, exts):
        vs = self.vertices(t)
        if any(a.op != "sy0" for q in exts for m in q for a, _ in m):
            return None
        if vs is None:
            return None
        for v in vs:
            q = as_poly(self.lo(v))
            ats = sorted({a for p in [q] + exts for m in p for a, _ in m})
            if any(a.op != "sy0" for a in ats) or len(ats) > 7:
                continue
            for vals in itertools.product((0, 1, 2), repeat=len(ats)):
                env = dict(zip(ats, vals))
                if any(_value(p, env) < 1 for p in exts):
                    continue
                if _value(q, env) < 0:
                    return ", ".join("%s=%d" % (a.args[0], env[a] + self.mins.get(a.args[0], 1)) for a in ats)
        return None

    # ---------------------------------------------------------------- rewriting
    def tensor(self, t):
        """name of the operand a tensor term denotes"""
        fw = self.kind != "bw"
        if t.op == "arg" and not fw and t.args[0] == 6:
            return "gx"
        if t.op == "index" and t.args[0].op == "arg":
            a, i = t.args[0].args[0], t.args[1]
            g = {1: "x", 4: "y" if self.kind == "fw" else None}.get(a) if fw else {1: "x", 2: "y", 3: "gy"}.get(a)
            if g is None:
                return None
            if is_num(i):
                return "%s%d" % (g, int(i.args[0]))
            if g == "x" and "xk" in self.ts:
                return "xk"
        return None

    def shape_of(self, t):
        if t.op == "field" and t.args[1] == "shape":
            n = self.tensor(t.args[0])
            if n == "xk":
                return self.xk(t.args[0].args[1])
            return self.ts.get(n)
        return None

    def xk(self, k):
        return self.ts["xk"]

    def prefix(self, st):
        """sum of st over the operands before the k-th; st linear in the k-th operand's own extents"""
        r = ZERO
        for m, c in as_poly(st).items():
            hit = [a for a, e in m if a in self.prefix_map]
            if len(hit) != 1 or dict(m)[hit[0]] != 1:
                return mk("opq", st)
            x = num(c)
            for a, e in m:
                for _ in range(e):
                    x = imul(x, self.prefix_map.get(a, a))
            r = iadd(r, x)
        return r

    def simp(self, t):
        return rewrite(t, self.step, self.memo)

    def buffer(self, t):
        """operand name of the buffer a base term denotes"""
        if t.op == "ld" and t.args[0].op == "field" and t.args[0].args[1] == "handle":
            return self.tensor(t.args[0].args[0])
        if t.op == "call" and t.args[0] == "Tensor.BasicFunctions::to_vec":
            return self.tensor(t.args[1])
        if t.op == "arg":
            if self.kind != "bw" and t.args[0] == 4:
                return "host"
        return None

    def sign(self, p):
        """'pos' (>=1), 'neg' (<=-1), 'zero' or None"""
        if p is ZERO:
            return "zero"
        if self.nonneg(isub(p, ONE)):
            return "pos"
        if self.nonneg(isub(ineg(p), ONE)):
            return "neg"
        return None

    def step(self, t):
        op, a = t.op, t.args
        if op == "field":
            s = self.shape_of(a[0])
            if s is not None:
                if a[1] == "batch":
                    return s.batch
                if a[1] == "volume":
                    return s.vol
            return None
        if op == "dim":
            s = self.shape_of(a[0])
            return s.dim(a[1], self) if s is not None else None
        if op == "lvol":
            s = self.shape_of(a[0])
            return s.lvol(a[1], self) if s is not None else None
        if op == "trunc":
            return a[1]
        if op == "cut":
            if intlike(a[1]) and self.nonneg(a[1]) and self.nonneg(isub(num((1 << a[0]) - 1), a[1])):
                return a[1]
            return None
        if op == "len":
            if a[0].op == "arg":
                n = a[0].args[0]
                if n == 1:
                    return self.nxs
                if n == (2 if self.kind != "bw" else 4):
                    return self.u32len
                if n == (3 if self.kind != "bw" else 5) and self.kind != "host":
                    return self.f32len
                if n == 4 and self.kind == "host":
                    return self.ts["host"].vol
                if n == 4 and self.kind == "fw":
                    return ONE
                if n in (2, 3) and self.kind == "bw":
                    return ONE
            if a[0].op == "call" and a[0].args[0] == "Tensor.BasicFunctions::to_vec":
                n = self.tensor(a[0].args[1])
                if n in self.ts:
                    return imul(self.ts[n].vol, self.ts[n].batch)
            return None
        if op == "index":
            b = a[0]
            if b.op == "arg":
                n = b.args[0]
                if n == (2 if self.kind != "bw" else 4):
                    if is_num(a[1]) and int(a[1].args[0]) in self.u32:
                        return self.u32[int(a[1].args[0])]
                    return mk("u32", a[1])
                if self.kind != "host" and n == (3 if self.kind != "bw" else 5):
                    return mk("f32", a[1])
                return None
            n = self.buffer(b)
            if n is not None:
                if n == "xk":
                    return mk("X", n, a[1], b.args[0].args[0].args[1])
                return mk("X", n, a[1])
            return None
        if op == "load":
            n = self.buffer(a[0])
            if n is not None:
                return mk("OUT", n, a[1])
            return None
        if op == "poly":
            # known facts about index-list entries carry no arithmetic
            return None
        if op in ("eq", "lt", "le"):
            if any(x.op in ("str",) or not intlike(x) for x in a):
                return None
            s = self.sign(isub(a[1], a[0]))
            if s == "zero":
                return boolc(op != "lt")
            if s == "pos":
                return boolc(op != "eq")
            if s == "neg":
                return FALSE
            if op == "lt" and self.nonneg(isub(a[0], a[1])):
                return FALSE
            if op == "le" and self.nonneg(isub(a[1], a[0])):
                return TRUE
            return None
        if op in ("imin", "imax"):
            if self.nonneg(isub(a[1], a[0])):
                return a[0] if op == "imin" else a[1]
            if self.nonneg(isub(a[0], a[1])):
                return a[1] if op == "imin" else a[0]
            return None
        if op == "ceildiv":
            q = mono_div(as_poly(a[0]), a[1])
            if q is not None:
                return from_poly(q)
            return None
        if op in ("idiv", "irem"):
            r = self.divide(a[0], a[1])
            if r is not None:
                return r[0] if op == "idiv" else r[1]
            return None
        return None

    def divide(self, n, d):
        """n = d*q + r with 0 <= r < d, or None"""
        dp = as_poly(d)
        if len(dp) != 1:
            return None
        q, r = {}, {}
        for m, c in as_poly(n).items():
            x = mono_div({m: c}, d)
            if x is not None and all(v.denominator == 1 for v in x.values()):
                q = padd(q, x)
            else:
                r[m] = c
        q, r = from_poly(q), from_poly(r)
        if any(x.op not in ("sym", "dig") for x in atoms_of(r)):
            return None
        if self.nonneg(r) and self.nonneg(isub(isub(d, ONE), r)):
            if self.nonneg(q):
                return q, r
        return None

    # ---------------------------------------------------------------- digits
    def split(self, k, ext, uniq):
        """(value of the counter, digits)"""
        if ext is ONE:
            return ZERO, []
        p = as_poly(ext)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and m and all(a.op == "sym" for a, _ in m):
                fs = []
                for a, e in m:
                    fs += [a] * e
                fs.sort(key=lambda a: (self.order.index(a.args[0]) if a.args[0] in self.order else 99, a.args[0]))
                v, s, ds = ZERO, ONE, []
                for f in fs:
                    d = dig("%s#%d" % (f.args[0], next(uniq)), f)
                    v = iadd(v, imul(s, d))
                    s = imul(s, f)
                    ds.append(d)
                return v, ds
        d = dig("k#%d" % next(uniq), ext)
        return d, [d]


def intlike(t):
    return t.op in ("num", "poly", "sym", "dig", "u32", "idiv", "irem", "imin", "imax", "ceildiv", "len", "field", "dim",
                    "lvol", "k", "bv", "fv", "phi", "trunc", "cut", "ite", "arg", "psum", "i2i", "N")


def atoms_of(t):
    if t.op == "num":
        return set()
    if t.op == "poly":
        return {a for m, c in t.args[0] for a, e in m}
    return {t}


def subst_poly(p, m):
    """substitute atoms of a polynomial (not inside atoms)"""
    if not m:
        return p
    r = ZERO
    for mono, c in as_poly(p).items():
        x = num(c)
        for a, e in mono:
            for _ in range(e):
                x = imul(x, m.get(a, a))
        r = iadd(r, x)
    return r


def large(t):
    """an integer term with every extent and listed number at 2^20 and every counter at its last value; None: unknown parts"""
    if t.op == "num":
        return int(t.args[0])
    if t.op in ("sym", "u32"):
        return 1 << 20
    if t.op == "dig":
        v = large(t.args[1])
        return None if v is None else v - 1
    if t.op == "poly":
        s = 0
        for m, c in t.args[0]:
            x = c
            for a, e in m:
                v = large(a)
                if v is None:
                    return None
                x *= v ** e
            s += x
        return int(s) if s == int(s) and s >= 0 else None
    return None


class Entry:
    """for every value of the digits: out[idx] (mode) val, under guards"""
    __slots__ = ("buf", "digits", "idx", "mode", "val", "guards", "site", "base")

    def __init__(self, buf, digits, idx, mode, val, guards=(), base=None):
        self.buf, self.digits, self.idx, self.mode, self.val, self.guards, self.base = buf, list(digits), idx, mode, val, tuple(guards), base

    def __repr__(self):
        return "for %s: %s[%s] %s %s%s" % (",".join("%s<%s" % (show(d), show(d.args[1])) for d in self.digits), self.buf, show(self.idx),
                                           {"set": ":=", "acc": "+=", "upd": ":~"}[self.mode], show(self.val)[:300],
                                           " if " + " & ".join(show(g)[:120] for g in self.guards) if self.guards else "")


class Opaque(Exception):
    pass


class Reader:
    """effects of a kernel under a world -> entries, asserts and accesses"""

    def __init__(self, world, effects):
        self.w = world
        self.uniq = itertools.count(1)
        self.entries = []
        self.asserts = []
        self.calls = []
        self.notes = []
        self.tables = {}          # local table -> {position: value}, while every access is at a known position
        self.reads = {}
        self.run(effects, {}, [], [])

    def term(self, t, sub):
        return self.concrete(self.w.simp(subst(t, sub)))

    def narrowed(self):
        """positions or extents cast to an integer type that cannot hold them: [(bits, value)]"""
        ts = []
        for e in self.entries:
            ts.append(((e.idx, e.val) + tuple(d.args[1] for d in e.digits), e.guards))
        for c, why, ds_, gs in self.asserts:
            ts.append(((c,) + tuple(d.args[1] for d in ds_), gs))
        for c, xs, ds_, gs in self.calls:
            ts.append((tuple(x for x in xs if x is not None) + tuple(d.args[1] for d in ds_), gs))
        out = []
        for vs, gs in ts:
            for v in vs:
                for x in subterms(v):
                    if x.op == "cut" and not gs:
                        ev = large(x.args[1])
                        if ev is not None and ev >> x.args[0]:
                            out.append((x.args[0], x.args[1]))
        return out

    def concrete(self, t):
        """resolve reads of local tables and folds of known small length"""
        if not contains(t, lambda x: x.op == "fold" and is_num(x.args[0]) or x.op == "load" and x.args[0].op == "alloc"):
            return t

        def f(x):
            if x.op == "fold" and is_num(x.args[0]) and 0 <= x.args[0].args[0] <= 8:
                acc, l = x.args[1], x.args[2]
                for k in range(int(x.args[0].args[0])):
                    parts = list(acc.args[1:]) if acc.op == "agg" and acc.args[0][0] == "tuple" else [acc]
                    if len(parts) + 1 != len(l.args[0]):
                        return None
                    acc = self.concrete(self.w.simp(apply_lam(l, parts + [num(k)])))
                return acc
            if x.op == "load" and x.args[0].op == "alloc" and is_num(x.args[1]):
                tb = self.tables.get(x.args[0].args[0])
                if tb is None:
                    return None
                v = tb.get(x.args[1])
                if v is None:
                    self.reads.setdefault(x.args[0].args[0], set()).add(x.args[1])
                    return x.args[0].args[1]
                return v
            if x.op == "bad" and x.args[0] == "field" and x.args[1].op == "agg" and x.args[1].args[0][0] == "tuple" and str(x.args[2]).isdigit():
                return x.args[1].args[1 + int(x.args[2])]
            return None
        return self.w.simp(rewrite(t, f))

    def run(self, effs, sub, digits, guards):
        w = self.w
        for e in effs:
            if e.kind == "loop":
                self.loop(e, sub, digits, guards)
            elif e.kind == "if":
                c = self.term(e.cond, sub)
                if c is TRUE:
                    self.run(e.then, sub, digits, guards)
                elif c is FALSE:
                    self.run(e.els or [], sub, digits, guards)
                else:
                    self.run(e.then, sub, digits, guards + [c])
                    self.run(e.els or [], sub, digits, guards + [bnot(c)])
            elif e.kind == "store":
                self.store(e, sub, digits, guards)
            elif e.kind == "assert":
                self.asserts.append((self.term(e.cond, sub), e.why, tuple(digits), tuple(guards)))
            elif e.kind == "call":
                self.calls.append((e, [self.term(x, sub) for x in e.args], tuple(digits), tuple(guards)))
            elif e.kind in ("drop",):
                pass
            else:
                self.notes.append("effect " + e.kind)

    def loop(self, e, sub, digits, guards):
        w = self.w
        sub = dict(sub)
        N = e.N
        body = e.body
        if e.lkind != "count" and not e.phis and e.cont.op == "and" and all(
                c.op == "lt" and c.args[0] is e.k and not contains(c.args[1], lambda x: x is e.k) for c in e.cont.args):
            # left as soon as one of several bounds is reached
            lim = sorted(e.cont.args, key=lambda c: is_num(c.args[1]))
            N = lim[0].args[1]
            v, ds = w.split(e.k, self.term(N, sub), self.uniq)
            sub[e.k] = v
            more = [self.term(c, sub) for c in lim[1:]]
            if FALSE not in more:
                self.run(body, sub, digits + ds, guards + [c for c in more if c is not TRUE])
            return
        if e.lkind != "count":
            # `while k < E { S }` written by the summariser as: if E <= k {} else { S }
            if len(body) == 1 and body[0].kind == "if" and not e.phis:
                b = body[0]
                c, s = b.cond, None
                if not b.then and c.op == "le" and c.args[1] is e.k:
                    N, s = c.args[0], b.els
                elif not b.els and c.op == "lt" and c.args[0] is e.k:
                    N, s = c.args[1], b.then
                if s is None:
                    self.notes.append("loop of unknown length")
                    return
                body = s
            else:
                self.notes.append("loop of unknown length")
                return
        ext = self.term(N, sub)
        if is_num(ext) and 1 < ext.args[0] <= 8 and writes_table(body):
            cur = {ph: self.term(ini, sub) for ph, (ini, _) in e.phis.items()}
            for i in range(int(ext.args[0])):
                s2 = {**sub, e.k: num(i), **cur}
                self.run(body, s2, digits, guards)
                cur = {ph: self.term(nxt, s2) for ph, (_, nxt) in e.phis.items()}
            return
        v, ds = w.split(e.k, ext, self.uniq)
        sub[e.k] = v
        for ph, (ini, nxt) in e.phis.items():
            i0 = self.term(ini, sub)
            st = self.term(isub(nxt, ph), sub)
            if contains(st, lambda x: x is ph) or not ds:
                if not ds:
                    sub[ph] = i0
                    continue
                # not an accumulated sum: leave opaque
                sub[ph] = mk("opq", ph)
                continue
            if contains(st, lambda x: x.op in ("opq",)):
                sub[ph] = mk("opq", ph)
                continue
            if any(contains(st, lambda x, d=d: x is d) for d in ds):
                sub[ph] = mk("opq", ph)
                continue
            # constant step, or step depending on the k-th operand only through its symbols
            if "xk" in w.ts and e.k in {x for x in subterms(nxt)}:
                # prefix sum over operands: linear in the operand's own extent
                sub[ph] = iadd(i0, w.prefix(st))
            else:
                sub[ph] = iadd(i0, imul(v, st))
        self.run(body, sub, digits + ds, guards)

    def store(self, e, sub, digits, guards):
        w = self.w
        buf = w.buffer(e.base)
        if buf is None and e.base.op == "pt":
            buf = w.buffer(e.base.args[0])
        idx = self.term(e.idx, sub)
        val = self.term(e.val, sub)
        if e.base.op == "alloc" and is_num(idx) and not digits and not guards:
            tb = self.tables.setdefault(e.base.args[0], {})
            if idx in tb or idx in self.reads.get(e.base.args[0], ()):
                self.notes.append("a local table is rewritten")
            tb[idx] = val
            return
        self.entries.append(Entry(buf, digits, idx, "set", val, guards, base=e.base))

    # ------------------------------------------------------------ classification
    def classify(self, en):
        """split an accumulation out of a store's value"""
        if en.buf is None:
            return en
        old = mk("OUT", en.buf, en.idx)
        outs = [x for x in subterms(en.val) if x.op == "OUT"]
        if not outs:
            return en
        if any(x is not old for x in outs):
            raise Opaque("reads the output at another index: %s" % show(en.val)[:200])
        r = linear_in(en.val, old)
        if r is not None:
            return Entry(en.buf, en.digits, en.idx, "acc", r, en.guards, en.base)
        return Entry(en.buf, en.digits, en.idx, "upd", en.val, en.guards, en.base)

    def lift_sums(self, en):
        """turn a top-level finite sum into extra iterations; returns entries"""
        t, s = en.val, 1
        while t.op == "fneg":
            t, s = t.args[0], -s
        if t.op != "fsum":
            return [en]
        Nn, init, l = t.args
        out = []
        ext = self.w.simp(Nn)
        v, ds = self.w.split(None, ext, self.uniq)
        body = self.w.simp(apply_lam(l, [v]))
        if s < 0:
            body = mk("fneg", body)
        if not (init.op == "num" and init.args[0] == 0):
            out.append(Entry(en.buf, en.digits, en.idx, "acc", init if s > 0 else mk("fneg", init), en.guards, en.base))
        out += self.lift_sums(Entry(en.buf, en.digits + ds, en.idx, "acc", body, en.guards, en.base))
        return out


def writes_table(effs):
    return any(e.kind == "store" and e.base.op == "alloc" or e.kind == "loop" and writes_table(e.body) or
               e.kind == "if" and (writes_table(e.then) or writes_table(e.els or [])) for e in effs)


def linear_in(t, x):
    """e with t = x + e over the reals, or None"""
    try:
        cv = alg.Conv({})
        cv.leaf = lambda u: u if u.op in ("X", "OUT", "f32", "i2f", "fv") else None
        # syntactic first: keeps conditional values intact
        e = strip(t, x)
        if e is not None:
            return e
        n = cv(t)
        d = alg.add(n, alg.atom(x), -1)
        if any(a is x for p in d for m in p for a, _ in m):
            return None
        return mk("NF", alg.key(d))
    except (alg.Unknown, alg.NeedCond):
        return None


def strip(t, x):
    if t.op == "fadd":
        a, b = t.args
        if a is x and not has(b, x):
            return b
        if b is x and not has(a, x):
            return a
        for p, q in ((a, b), (b, a)):
            r = strip(p, x)
            if r is not None and not has(q, x):
                return mk("fadd", r, q)
    if t.op == "fsub":
        a, b = t.args
        if a is x and not has(b, x):
            return mk("fneg", b)
        r = strip(a, x)
        if r is not None and not has(b, x):
            return mk("fsub", r, b)
    return None


def has(t, x):
    return contains(t, lambda u: u is x)


# ------------------------------------------------------------------ tiles
def merge_tiles(w, en):
    """for t < ceil(E/c) { for j < min(E, c*t+c) - c*t {..c*t+j..} }  ==  for k < E {..k..}"""
    digits, idx, val, guards = list(en.digits), en.idx, en.val, en.guards
    ch = True
    while ch:
        ch = False
        for t in digits:
            if t.args[1].op != "ceildiv":
                continue
            E, c = t.args[1].args
            start = imul(c, t)
            want = isub(mk("imin", E, iadd(c, start)), start)
            want2 = isub(mk("imin", iadd(c, start), E), start)
            want3 = w.simp(mk("imin", c, isub(E, start)))
            for j in digits:
                if j.args[1] not in (want, want2, want3, mk("imin", isub(E, start), c)):
                    continue
                k = dig("t" + j.args[0], E)
                m = {j: isub(k, start)}
                i2, v2, g2 = subst(idx, m), subst(val, m), tuple(subst(g, m) for g in guards)
                if any(has(x, t) for x in (i2, v2) + g2):
                    continue
                ds = [k if d is j else d for d in digits if d is not t]
                if any(has(d.args[1], t) for d in ds if d is not k):
                    continue
                # the merged counter is split again when its extent allows
                digits, idx, val, guards = ds, w.simp(i2), w.simp(v2), tuple(map(w.simp, g2))
                ch = True
                break
            if ch:
                break
    return Entry(en.buf, digits, idx, en.mode, val, guards, en.base)


def tile_fault(w, en):
    """a blocked loop that cannot cover its range exactly: t < ceil(E/c), j < min(F, c2*t + s) - c2*t"""
    for t in en.digits:
        if t.args[1].op != "ceildiv":
            continue
        E, c = t.args[1].args
        for j in en.digits:
            if j is t or not has(j.args[1], t):
                continue
            for m in subterms(j.args[1]):
                if m.op != "imin":
                    continue
                for F, top in (m.args, m.args[::-1]):
                    if has(F, t) or not has(top, t):
                        continue
                    start = isub(m, j.args[1])
                    if start is not imul(c, t):
                        continue
                    width = isub(top, start)
                    if width is c:
                        if F is not E and w.negative_somewhere(isub(F, E)) and w.negative_somewhere(isub(E, F)):
                            return "blocks of %s counted over %s are clipped at %s" % (show(c), show(E), show(F))
                    elif width.op == "num" and c.op == "num":
                        return "blocks start every %s but cover %s" % (show(c), show(width))
    return None


# ------------------------------------------------------------------ comparison
def int_canon(t):
    """integer comparisons as ge0(p) with a fixed orientation"""
    def f(x):
        if x.op in ("lt", "le") and all(intlike(y) for y in x.args):
            p = isub(x.args[1], x.args[0])
            if x.op == "lt":
                p = isub(p, ONE)
            return ge0c(p)
        return None
    return rewrite(t, f)


def ge0c(p):
    q = as_poly(p)
    if not q:
        return TRUE
    if set(q) == {()}:
        return boolc(q[()] >= 0)
    lead = min((m for m in q if m != ()), key=lambda m: [(show(a), e) for a, e in m])
    if q[lead] > 0:
        return mk("ige0", p)
    return bnot(mk("ige0", isub(ineg(p), ONE)))


def leaf(t):
    if t.op in ("X", "OUT", "f32", "fv", "NF"):
        return t
    return None


class KConv(alg.Conv):
    def conv(self, t):
        if t.op == "NF":
            return alg.unkey(t.args[0])
        return super().conv(t)


def values_equal(a, b, inf=True):
    """True / False / None(undecided)"""
    a, b = int_canon(a), int_canon(b)
    old = alg.Conv
    alg.Conv = KConv
    try:
        for asg, (x, y) in alg.cases([a, b], leaf):
            if not alg.equal(x, y):
                if unread_fold(x) or unread_fold(y):
                    return refuted(a, b)
                return False
        return True
    except alg.Unknown:
        return None
    finally:
        alg.Conv = old


def unread_fold(nf):
    return any(contains(at, lambda u: u.op in ("A_fold", "A_redi")) for p in nf for m in p for at, _ in m)


def unroll(t, n):
    """iterations made explicit when the extent of the reduced dimension is n"""
    t = subst(t, {sym("N"): num(n)})

    def f(x):
        if x.op in ("fold", "fsum") and is_num(x.args[0]):
            c = int(x.args[0].args[0])
            acc, l = x.args[1], x.args[2]
            if c < 0 or c > 4:
                return None
            for k in range(c):
                if x.op == "fsum":
                    acc = mk("fadd", acc, unroll(apply_lam(l, [num(k)]), n))
                elif len(l.args[0]) == 2:
                    acc = unroll(apply_lam(l, [acc, num(k)]), n)
                else:
                    return None
            return acc
        return None
    return rewrite(t, f)


def refuted(a, b):
    """False when the two reductions differ already for one, two or three reduced elements; None otherwise"""
    for n in (1, 2, 3):
        x, y = unroll(a, n), unroll(b, n)
        try:
            for asg, (p, q) in alg.cases([x, y], leaf):
                if unread_fold(p) or unread_fold(q):
                    return None
                if not alg.equal(p, q):
                    return False
        except alg.Unknown:
            return None
    return None


def known_value(t):
    """True when the value mentions only operands and understood operations"""
    BAD = ("opq", "N", "phi", "k", "load", "call", "oob", "A_fold", "alloc", "ld", "havoc", "N?")
    for x in subterms(t):
        if x.op in BAD or x.op.startswith("?"):
            return False
    return True


def match(w, ke, se):
    """can kernel entry ke be renamed into spec entry se?  -> (True|False|None, reason)"""
    if len(ke.digits) != len(se.digits):
        return False, "iterates over %s, documented %s" % (dl(ke), dl(se))
    ks = sorted(show(d.args[1]) for d in ke.digits)
    ss = sorted(show(d.args[1]) for d in se.digits)
    if ks != ss:
        return False, "iterates over %s, documented %s" % (dl(ke), dl(se))
    groups = {}
    for d in se.digits:
        groups.setdefault(d.args[1], []).append(d)
    kg = {}
    for d in ke.digits:
        kg.setdefault(d.args[1], []).append(d)
    best, why = False, "writes element %s, documented %s" % (show(ke.idx), show(se.idx))
    for perm in itertools.product(*[list(itertools.permutations(kg[x])) for x in groups]):
        ren = {}
        for g, p in zip(groups.values(), perm):
            for s, k in zip(g, p):
                ren[k] = s
        # reversals: decided by the sign with which the digit enters the output index
        ds = list(ren)
        base = subst(ke.idx, ren)
        cands = [()]
        if base is not se.idx:
            cands = [c for r in range(1, len(ds) + 1) for c in itertools.combinations(ds, r)][:31]
        elif any(True for d in ds if not has(se.idx, ren[d])):
            free = [d for d in ds if not has(se.idx, ren[d])]
            cands = [c for r in range(0, len(free) + 1) for c in itertools.combinations(free, r)][:16]
        for c in cands:
            m = {k: (isub(isub(k.args[1], ONE), s) if k in c else s) for k, s in ren.items()}
            i2 = w.simp(subst(ke.idx, m))
            if i2 is not se.idx:
                continue
            v2 = w.simp(subst(ke.val, m))
            r = values_equal(v2, se.val)
            if r:
                g2 = set(int_canon(w.simp(subst(g, m))) for g in ke.guards)
                g1 = set(int_canon(g) for g in se.guards)
                if g1 == g2:
                    return True, ""
                return None, "guards differ"
            if r is None:
                best = None
            why = "element %s receives %s, documented %s" % (show(se.idx), showv(v2), showv(se.val))
    return best, why


def dl(e):
    return "{" + ", ".join(sorted(show(d.args[1]) for d in e.digits)) + "}"


def showv(t):
    return show(t)[:260]


def count(en):
    r = ONE
    for d in en.digits:
        r = imul(r, d.args[1])
    return r
