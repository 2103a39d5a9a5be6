"""Tensor-level algebra: expressions over whole tensors in a normal form.

Element-wise arithmetic (in any of its surface forms: device operation, operator overload, tensor method,
tensor/scalar/constant variant) becomes real arithmetic in alg.py; operations that move or reduce elements become
opaque functions of their normal-formed argument, with rational factors pulled out of linear ones."""
import re
from fractions import Fraction
from terms import *
import alg

ELEM = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "ln": "ln", "tanh": "tanh"}
OPAQUE_ELEM = {"abs": 1, "prelu": 2, "elu": 2}
LINEAR = {"sum", "batch_sum", "broadcast", "transpose", "slice", "batch_slice", "pick", "batch_pick", "flatten", "reshape",
          "triangular_l", "triangular_u", "sumall", "batch_concat", "concat"}
# (operation, number of tensor operands)
STRUCT = {"sum": 1, "max": 1, "min": 1, "broadcast": 1, "logsumexp": 1, "matmul": 2, "transpose": 1, "triangular_l": 1,
          "triangular_u": 1, "slice": 1, "batch_slice": 1, "pick": 1, "batch_pick": 1, "batch_sum": 1}
BIN = {"add": "fadd", "sub": "fsub", "mul": "fmul", "div": "fdiv"}


class NotTensor(Exception):
    pass


def callname(t):
    """(kind, operation, args) of a tensor-producing call term, or None; kind: 'dev' | 'ten' | 'ops'"""
    if t.op != "call":
        return None
    n = t.args[0]
    m = re.match(r"^Device\.\w+DeviceFunctions::(\w+)$", n)
    if m:
        return "dev", m.group(1), t.args[2:]
    m = re.match(r"^Tensor\.BasicFunctions::(\w+)$", n)
    if m:
        return "ten", m.group(1), t.args[1:]
    m = re.match(r"^(Tensor|f32)\.(Add|Sub|Mul|Div)<(Tensor|f32)>::\w+$", n)
    if m:
        return "ops", m.group(2).lower(), t.args[1:]
    if n == "Tensor.Neg::neg":
        return "ops", "neg", t.args[1:]
    return None


class TN:
    """tensor term -> alg term; `sub` maps leaf terms to alg terms; `icanon` canonicalises integer/shape arguments"""

    def __init__(self, sub=None, icanon=None):
        self.sub = sub or {}
        self.ic = icanon or (lambda t: t)
        self.memo = {}
        self.parts = {}
        self.cv = alg.Conv({})

    def nf(self, t):
        return self.cv(self(t))

    def key(self, t):
        return alg.key(self.nf(t))

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def mk(self, op, tensors, rest):
        """structural operation"""
        rest = [self.ic(r) for r in rest]
        if op == "sum" and tensors[0].op == "top" and tensors[0].args[0] == "flatten" and rest[0] is ZERO:
            return mk("top", "sumall", tensors[0].args[1])
        if op == "transpose":
            # transposition is an involution and reverses products
            x = tensors[0]
            if x.op == "fneg":
                return mk("fneg", self.mk(op, [x.args[0]], rest))
            p = self.parts.get(x)
            if p and p[0] == "transpose":
                return p[1][0]
            if p and p[0] == "matmul":
                return self.mk("matmul", [self.mk(op, [p[1][1]], []), self.mk(op, [p[1][0]], [])], [])
        if op in ("transpose", "matmul"):
            r = self.mk1(op, tensors, rest)
            self.parts.setdefault(r, (op, tensors))
            return r
        return self.mk1(op, tensors, rest)

    def mk1(self, op, tensors, rest):
        if op in LINEAR and len(tensors) == 1:
            n, d = self.cv(tensors[0])
            if n:
                c = content(n)
                if c != 1:
                    n = {m: Fraction(x) / c for m, x in n.items()}
                    return mk("fmul", num(c), mk("top", op, alg.key((n, d)), *rest))
            return mk("top", op, alg.key((n, d)), *rest)
        return mk("top", op, *([alg.key(self.cv(x)) for x in tensors] + rest))

    def go(self, t):
        if t in self.sub:
            return self.sub[t]
        op, a = t.op, t.args
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return mk(op, self(a[0]), self(a[1]))
        if op == "fneg":
            return mk(op, self(a[0]))
        if op == "fn":
            return mk("fn", a[0], *[self(x) if isinstance(x, T) else x for x in a[1:]])
        if op == "top":
            return t
        if op == "VJP":
            return t
        if op == "with":
            # a copied tensor given another shape
            base, chg = a[0], a[1]
            if base.op == "call" and base.args[0] == "Device::copy_tensor" and len(chg) == 1 and chg[0][0] == "shape":
                src = base.args[2]
                return self.reshape(src, chg[0][1])
            raise NotTensor(show(t)[:200])
        if op == "call":
            if a[0] == "Device::copy_tensor":
                return self(a[2])
            c = callname(t)
            if c is None:
                if a[0].startswith(("Tensor::", "Device::", "Node")):
                    raise NotTensor(show(t)[:200])
                return t
            return self.api(c[0], c[1], c[2], t)
        if op == "ite":
            raise NotTensor("conditional tensor " + show(t)[:200])
        return t

    def reshape(self, src, shp):
        n = self(src)
        if shp.op == "call" and shp.args[0] == "Shape::new":
            d, bt = shp.args[1], shp.args[2]
            es = d.args[1:] if d.op == "agg" else ()
            if len(es) == 1 and es[0].op == "field" and es[0].args[1] == "volume":
                s = es[0].args[0]
                b2 = field(s, None, "batch")
                if bt is b2 or self.ic(bt) is self.ic(b2):
                    return self.mk("flatten", [n], [])
        return self.mk("reshape", [n], [shp])

    def api(self, kind, op, a, t):
        if kind == "dev":
            if op.endswith("_fw"):
                op = op[:-3]
            if op.startswith("powf"):
                op = "pow" + op[4:]
            m = re.match(r"^(add|sub|mul|div|pow)(_scalar|_const)?(_l|_r)?$", op)
            if m:
                x, y = self(a[0]), self(a[1])
                if m.group(3) == "_l":
                    x, y = y, x
                return self.bin(m.group(1), x, y)
        elif kind == "ops" and op in BIN:
            return self.bin(op, self(a[0]), self(a[1]))
        elif kind == "ten" and op in ("pow", "powf"):
            return self.bin("pow", self(a[0]), self(a[1]))
        if op == "neg":
            return mk("fneg", self(a[0]))
        if op == "powi":
            return mk("fn", "powi", self(a[0]), untrunc(self.ic(a[1])))
        if op in ELEM:
            return mk("fn", ELEM[op], self(a[0]))
        if op == "sigmoid":
            return mk("fdiv", num(1), mk("fadd", num(1), mk("fn", "exp", mk("fneg", self(a[0])))))
        if op == "softplus":
            return mk("fn", "ln", mk("fadd", num(1), mk("fn", "exp", self(a[0]))))
        if op in OPAQUE_ELEM:
            return mk("top", op, self.key(a[0]), *[alg.key(self.cv(x)) for x in a[1:]])
        if op in ("concat", "batch_concat"):
            es = a[0]
            if es.op == "agg" and es.args[0] in (("array",), "array"):
                es = mk("agg", ("array",), *[self.key(x) for x in es.args[1:]])
            return mk("top", op, es, *[self.ic(x) for x in a[1:]])
        if op == "flatten" and len(a) == 1:
            return self.mk("flatten", [self(a[0])], [])
        if op == "pick" and len(a) == 3:
            return self.mk("pick", [self(a[0])], a[1:])
        if op in STRUCT:
            k = STRUCT[op]
            return self.mk(op, [self(x) for x in a[:k]], a[k:])
        if op.startswith("random_"):
            return t
        raise NotTensor("unknown operation " + op)

    def bin(self, op, x, y):
        if op == "pow":
            return mk("fn", "powf", x, y)
        return mk(BIN[op], x, y)


def untrunc(t):
    while t.op in ("trunc", "bitcast", "i2i", "cast"):
        t = t.args[-1]
    return t


def content(n):
    """rational content with the sign of the leading monomial"""
    from math import gcd
    ms = sorted(n, key=lambda m: [(a.uid, e) for a, e in m])
    lead = n[ms[0]]
    num_, den = 0, 1
    for c in n.values():
        num_ = gcd(num_, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    g = Fraction(num_, den)
    return g if lead > 0 else -g


# ---------------------------------------------------------------- gradient contributions
def vjp(op, a, tn, K):
    """device backward operation -> (alg term of the amount added to its last argument) or None.
    a: arguments after the device, the accumulated gradient included. K: tensor term -> alg term"""
    f = lambda o, *x: mk(o, *x)
    g = lambda *x: mk("fn", *x)
    if op in ("slice_bw",):
        return linear(tn, op, a[0], [a[1], a[2]])
    if op == "batch_slice_bw":
        return linear(tn, op, a[0], [a[1]])
    if op == "pick_bw":
        return linear(tn, op, a[0], [a[1], a[2]])
    if op == "batch_pick_bw":
        return linear(tn, op, a[0], [a[1]])
    if op.endswith(("_bw_a", "_bw_b")):
        x, b, y, gy = [K(t) for t in a[:4]]
        first = op.endswith("_a")
        o = op[:-5]
        if o == "add":
            return gy
        if o == "sub":
            return gy if first else f("fneg", gy)
        if o == "mul":
            return f("fmul", gy, b if first else x)
        if o == "div":
            return f("fdiv", gy, b) if first else f("fneg", f("fdiv", f("fmul", gy, x), f("fmul", b, b)))
        if o == "powf":
            if first:
                return f("fmul", gy, f("fmul", b, g("powf", x, f("fsub", b, num(1)))))
            return f("fmul", gy, f("fmul", g("powf", x, b), g("ln", x)))
        if o == "matmul":
            if first:
                return tn.mk("matmul", [gy, tn.mk("transpose", [b], [])], [])
            return tn.mk("matmul", [tn.mk("transpose", [x], []), gy], [])
        return None
    if not op.endswith("_bw"):
        return None
    o = op[:-3]
    x, y, gy = [K(t) for t in a[:3]]
    p = a[3:-1]
    mul = lambda u, v: f("fmul", u, v)
    if o == "neg":
        return f("fneg", gy)
    if o in ("add_const", "sub_const_r"):
        return gy
    if o == "sub_const_l":
        return f("fneg", gy)
    if p and o in ("mul_const", "div_const_l", "div_const_r", "powf_const_l", "powf_const_r"):
        k = K(p[0])
        return {"mul_const": lambda: mul(gy, k),
                "div_const_l": lambda: f("fneg", f("fdiv", mul(gy, k), mul(x, x))),
                "div_const_r": lambda: f("fdiv", gy, k),
                "powf_const_l": lambda: mul(gy, mul(g("powf", k, x), g("ln", k))),
                "powf_const_r": lambda: mul(gy, mul(k, g("powf", x, f("fsub", k, num(1)))))}[o]()
    if o == "powi":
        k = untrunc(tn.ic(p[0]))
        return mul(gy, mul(mk("i2f", k), g("powi", x, isub(k, ONE))))
    d = {"sqrt": lambda: f("fdiv", num(Fraction(1, 2)), g("sqrt", x)),
         "sin": lambda: g("cos", x), "cos": lambda: f("fneg", g("sin", x)),
         "tan": lambda: f("fadd", num(1), mul(g("tan", x), g("tan", x))),
         "exp": lambda: g("exp", x), "ln": lambda: f("fdiv", num(1), x),
         "tanh": lambda: f("fsub", num(1), mul(g("tanh", x), g("tanh", x)))}
    if o in d:
        return mul(gy, d[o]())
    if o == "sigmoid":
        s = f("fdiv", num(1), f("fadd", num(1), g("exp", f("fneg", x))))
        return mul(gy, mul(s, f("fsub", num(1), s)))
    if o in ("abs", "prelu", "elu"):
        return mul(gy, mk("top", "d_" + o, tn.key(a[0]), *[alg.key(tn.cv(q)) for q in p]))
    if o in ("max", "min"):
        return mk("top", o + "_bw", tn.key(a[0]), alg.key(tn.cv(gy)), *[tn.ic(q) for q in p])
    if o == "transpose":
        return tn.mk("transpose", [gy], [])
    if o in ("triangular_l", "triangular_u"):
        return tn.mk(o, [gy], list(p))
    return None


def linear(tn, op, gy, rest):
    n, d = tn.nf(gy)
    rest = [tn.ic(r) for r in rest]
    c = content(n) if n else Fraction(1)
    if c != 1:
        return mk("fmul", num(c), mk("top", op, alg.key(({m: Fraction(x) / c for m, x in n.items()}, d)), *rest))
    return mk("top", op, alg.key((n, d)), *rest)
