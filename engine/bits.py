"""Known-bits and interval evaluation of unsigned integer terms."""
from terms import *

W = 64
FULL = (1 << W) - 1


class NoIdea(Exception):
    pass


class B:
    """an unsigned value: bounds lo..hi, bits known to be zero (z) and one (o)"""
    __slots__ = ("lo", "hi", "z", "o")

    def __init__(self, lo, hi, z=0, o=0):
        if lo > hi:
            raise NoIdea("empty")
        # bits above the highest differing bit of the bounds are common to every value between
        d = (lo ^ hi).bit_length()
        common = FULL & ~((1 << d) - 1)
        o |= lo & common
        z |= ~lo & common & FULL
        lo, hi = max(lo, o), min(hi, FULL & ~z)
        self.lo, self.hi, self.z, self.o = lo, hi, z & FULL, o & FULL

    @property
    def const(self):
        if self.lo == self.hi:
            return self.lo
        if (self.z | self.o) == FULL:
            return self.o
        return None

    def __repr__(self):
        return "[%d..%d]" % (self.lo, self.hi)


def const(n):
    return B(n, n, FULL & ~n, n)


TRUE3, FALSE3, MAYBE = (True,), (False,), (True, False)


def add(a, b):
    if a.hi + b.hi > FULL:
        raise NoIdea("overflow")
    # carry-aware known bits
    z = o = 0
    carry = {0}
    for i in range(W):
        x = {0} if a.z >> i & 1 else {1} if a.o >> i & 1 else {0, 1}
        y = {0} if b.z >> i & 1 else {1} if b.o >> i & 1 else {0, 1}
        s = {(p + q + c) & 1 for p in x for q in y for c in carry}
        carry = {(p + q + c) >> 1 for p in x for q in y for c in carry}
        if s == {0}:
            z |= 1 << i
        elif s == {1}:
            o |= 1 << i
    return B(a.lo + b.lo, a.hi + b.hi, z, o)


def mulc(a, c):
    r = a.const
    if r is not None:
        return const(r * c)
    if c & (c - 1) == 0 and c:
        k = c.bit_length() - 1
        return B(a.lo * c, a.hi * c, (a.z << k | (c - 1)) & FULL, (a.o << k) & FULL)
    return B(a.lo * c, a.hi * c)


def or_(a, b):
    return B(max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, a.z & b.z, a.o | b.o)


def and_(a, b):
    return B(0, min(a.hi, b.hi), a.z | b.z, a.o & b.o)


def xor_(a, b):
    return B(0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, a.z & b.z | a.o & b.o, a.z & b.o | a.o & b.z)


def shr(a, n):
    return B(a.lo >> n, a.hi >> n, a.z >> n | (FULL & ~(FULL >> n)), a.o >> n)


def shl(a, n, width=32):
    if a.hi << n > FULL:
        raise NoIdea("shift overflow")
    return B(a.lo << n, a.hi << n, (a.z << n | ((1 << n) - 1)) & FULL, (a.o << n) & FULL)


def union(a, b):
    return B(min(a.lo, b.lo), max(a.hi, b.hi), a.z & b.z, a.o & b.o)


def clog(v, width=32):
    """leading zeros of v in the given width, as a value"""
    return B(width - v.hi.bit_length(), width - v.lo.bit_length())


class Eval:
    def __init__(self, env, width=32):
        self.env, self.width = env, width
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if is_num(t):
            n = t.args[0]
            if n.denominator != 1 or n < 0:
                raise NoIdea("constant " + show(t))
            return const(int(n))
        if t.op == "poly":
            return self.poly(t)
        if t.op in ("bitor", "bitand", "bitxor"):
            f = {"bitor": or_, "bitand": and_, "bitxor": xor_}[t.op]
            r = self(t.args[0])
            for x in t.args[1:]:
                r = f(r, self(x))
            return r
        if t.op == "bin":
            a, b = self(t.args[1]), self(t.args[2])
            n = b.const
            if t.args[0] in ("Shr", "Shl"):
                if n is None:
                    if t.args[0] == "Shl" and b.hi < 64:
                        return B(a.lo << b.lo, a.hi << b.hi)
                    raise NoIdea("shift by " + repr(b))
                return (shr if t.args[0] == "Shr" else shl)(a, n)
            if t.args[0] in ("BitOr", "BitAnd", "BitXor"):
                return {"BitOr": or_, "BitAnd": and_, "BitXor": xor_}[t.args[0]](a, b)
            raise NoIdea(t.args[0])
        if t.op in ("imax", "imin"):
            vs = [self(x) for x in t.args]
            f = max if t.op == "imax" else min
            for v in vs:
                if t.op == "imax" and all(v is w or v.lo >= w.hi for w in vs) or t.op == "imin" and all(v is w or v.hi <= w.lo for w in vs):
                    return v
            return B(f(v.lo for v in vs), f(v.hi for v in vs))
        if t.op == "ite":
            c = self.truth(t.args[0])
            if c == TRUE3:
                return self(t.args[1])
            if c == FALSE3:
                return self(t.args[2])
            return union(self(t.args[1]), self(t.args[2]))
        if t.op in ("b2i", "bint", "boolint") or t.op in ("eq", "lt", "le", "not", "and", "or", "bool"):
            c = self.truth(t.args[0] if t.op in ("b2i", "bint", "boolint") else t)
            return const(1) if c == TRUE3 else const(0) if c == FALSE3 else B(0, 1)
        if t.op == "idiv":
            a, n = self(t.args[0]), self(t.args[1]).const
            if n:
                return B(a.lo // n, a.hi // n)
        if t.op == "irem":
            a, n = self(t.args[0]), self(t.args[1]).const
            if n:
                return const(a.const % n) if a.const is not None else B(0, n - 1)
        if t.op == "cut":
            v = self(t.args[1])
            if v.hi < 1 << t.args[0]:
                return v
            if v.lo >> t.args[0] == v.hi >> t.args[0]:
                return B(v.lo & (1 << t.args[0]) - 1, v.hi & (1 << t.args[0]) - 1)
            return B(0, (1 << t.args[0]) - 1)
        if t.op in ("cast", "trunc") and isinstance(t.args[-1], T):
            return self(t.args[-1])
        if t.op == "call":
            n = t.args[0].split("::")[-1]
            xs = [x for x in t.args[1:] if isinstance(x, T) and x.op != "occ"]
            if len(xs) == 1:
                v = self(xs[0])
                w = 64 if "usize" in t.args[0] or "u64" in t.args[0] else self.width
                if n == "leading_zeros":
                    return clog(v, w)
                if n in ("ilog2",):
                    return B(v.lo.bit_length() - 1, v.hi.bit_length() - 1)
                if n == "next_power_of_two":
                    p = lambda x: 1 << (x - 1).bit_length() if x else 1
                    return B(p(v.lo), p(v.hi))
                if n == "trailing_zeros" and v.const:
                    return const((v.const & -v.const).bit_length() - 1)
                if n == "count_ones" and v.const is not None:
                    return const(bin(v.const).count("1"))
                if n == "count_ones":
                    return B(bin(v.o).count("1"), W - bin(v.z).count("1"))
        raise NoIdea(t.op + " " + show(t)[:60])

    def poly(self, t):
        pos, neg = [], []
        for m, c in as_poly(t).items():
            if getattr(c, "denominator", 1) != 1:
                raise NoIdea("fraction")
            x = None
            for a, e in m:
                for _ in range(e):
                    v = self(a)
                    x = v if x is None else (mulc(v, x.const) if x.const is not None else mulc(x, v.const) if v.const is not None else B(x.lo * v.lo, x.hi * v.hi))
            k = abs(int(c))
            x = const(k) if x is None else mulc(x, k)
            (pos if c > 0 else neg).append(x)
        r = const(0)
        for x in pos:
            r = add(r, x)
        for x in neg:
            c = x.const
            if c is not None and r.const is not None:
                if r.const < c:
                    raise NoIdea("negative")
                r = const(r.const - c)
                continue
            lo, hi = r.lo - x.hi, r.hi - x.lo
            if lo < 0:
                raise NoIdea("possibly negative")
            r = B(lo, hi)
        return r

    def truth(self, c):
        if c.op == "bool":
            return TRUE3 if c.args[0] else FALSE3
        if c.op == "not":
            return tuple(not x for x in self.truth(c.args[0]))
        if c.op in ("and", "or"):
            rs = [self.truth(x) for x in c.args]
            if c.op == "and":
                return FALSE3 if FALSE3 in rs else TRUE3 if all(r == TRUE3 for r in rs) else MAYBE
            return TRUE3 if TRUE3 in rs else FALSE3 if all(r == FALSE3 for r in rs) else MAYBE
        if c.op in ("eq", "lt", "le"):
            a, b = self(c.args[0]), self(c.args[1])
            if c.op == "eq":
                if a.const is not None and a.const == b.const:
                    return TRUE3
                if a.hi < b.lo or b.hi < a.lo or a.o & b.z or a.z & b.o:
                    return FALSE3
                return MAYBE
            if c.op == "lt":
                return TRUE3 if a.hi < b.lo else FALSE3 if a.lo >= b.hi else MAYBE
            return TRUE3 if a.hi <= b.lo else FALSE3 if a.lo > b.hi else MAYBE
        raise NoIdea("condition " + show(c)[:60])
