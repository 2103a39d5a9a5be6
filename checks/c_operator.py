"""Graph operators: forward, backward (as vector-Jacobian products) and declared shapes."""
import re
from terms import *
from effects import *
from compare import *
import alg
import domain
import policies
import tens
import kern
import shapespec as S
import c_device
from c_shape import report_guards, fmtf

X, Y, GY, GX = (mk("opv", n) for n in ("x", "y", "gy", "gx"))
DEV = mk("opv", "device")


def P(i):
    return mk("par", num(i))


def x(i):
    return index(X, num(i))


def gy(i=0):
    return index(GY, num(i))


def y(i=0):
    return index(Y, num(i))


def shp(t):
    return field(t, None, "shape")


def D(name, *a):
    for g in (c_device.AR, c_device.BA):
        if g + name in c_device.SPECS:
            return mk("call", g + name, DEV, *a)
    raise KeyError(name)


def M(name, *a):
    """tensor-level method"""
    return mk("call", "Tensor.BasicFunctions::" + name, *a)


def fadd(a, b):
    return mk("fadd", a, b)


def fsub(a, b):
    return mk("fsub", a, b)


def fmul(a, b):
    return mk("fmul", a, b)


def fdiv(a, b):
    return mk("fdiv", a, b)


def fneg(a):
    return mk("fneg", a)


def fn(n, *a):
    return mk("fn", n, *a)


def sumall(t):
    return ("sumall", t)


class B:
    """expected contribution: target argument, value (tensor/alg term) or device backward op with its arguments"""

    def __init__(self, target, val=None, op=None, args=(), loop=None):
        self.target, self.val, self.op, self.args, self.loop = target, val, op, args, loop


def bwop(op, i, *a):
    return B(index(GX, num(i)), op=op, args=list(a) + [index(GX, num(i))])


SPECS = {}


def op_ab(name, base):
    SPECS[name] = (2, 0, lambda: [D(base + "_fw", x(0), x(1))],
                   lambda: [bwop(base + "_bw_a", 0, x(0), x(1), y(), gy()), bwop(base + "_bw_b", 1, x(0), x(1), y(), gy())])


def op_x(name, base):
    SPECS[name] = (1, 0, lambda: [D(base + "_fw", x(0))], lambda: [bwop(base + "_bw", 0, x(0), y(), gy())])


def op_k(name, base):
    SPECS[name] = (1, 1, lambda: [D(base + "_fw", x(0), P(1))], lambda: [bwop(base + "_bw", 0, x(0), y(), gy(), P(1))])


def op(name, nx, npar, fw, bw):
    SPECS[name] = (nx, npar, fw, bw)


def g0(v):
    return B(index(GX, num(0)), v)


def g1(v):
    return B(index(GX, num(1)), v)


for _n in ("Add", "Sub", "Mul", "Div"):
    op_ab(_n, _n.lower())
op_ab("Pow", "powf")
op_ab("Matmul", "matmul")
for _n in ("Neg", "Sqrt", "Abs", "Sin", "Cos", "Tan", "Exp", "Ln", "Tanh", "Sigmoid", "Transpose"):
    op_x(_n, _n.lower())
for _n, _b in (("AddConst", "add_const"), ("SubConstL", "sub_const_l"), ("SubConstR", "sub_const_r"), ("MulConst", "mul_const"),
               ("DivConstL", "div_const_l"), ("DivConstR", "div_const_r"), ("PowConstL", "powf_const_l"), ("PowConstR", "powf_const_r"),
               ("PReLU", "prelu"), ("ELU", "elu"), ("Powi", "powi"), ("Max", "max"), ("Min", "min"),
               ("TriangularL", "triangular_l"), ("TriangularU", "triangular_u")):
    op_k(_n, _b)
FL = lambda t: mk("SUMALL", t)
op("AddScalar", 2, 0, lambda: [D("add_scalar_fw", x(0), x(1))], lambda: [g0(gy()), g1(FL(gy()))])
op("SubScalarR", 2, 0, lambda: [D("sub_scalar_r_fw", x(0), x(1))], lambda: [g0(gy()), g1(fneg(FL(gy())))])
op("SubScalarL", 2, 0, lambda: [D("sub_scalar_l_fw", x(0), x(1))], lambda: [g0(fneg(gy())), g1(FL(gy()))])
op("MulScalar", 2, 0, lambda: [D("mul_scalar_fw", x(0), x(1))], lambda: [g0(fmul(gy(), x(1))), g1(FL(fmul(gy(), x(0))))])
op("DivScalarR", 2, 0, lambda: [D("div_scalar_r_fw", x(0), x(1))], lambda: [
    g0(fdiv(gy(), x(1))), g1(fneg(FL(fdiv(fmul(gy(), x(0)), fmul(x(1), x(1))))))])
op("DivScalarL", 2, 0, lambda: [D("div_scalar_l_fw", x(0), x(1))], lambda: [
    g0(fneg(fdiv(fmul(gy(), x(1)), fmul(x(0), x(0))))), g1(FL(fdiv(gy(), x(0))))])
op("PowScalarR", 2, 0, lambda: [D("powf_scalar_r_fw", x(0), x(1))], lambda: [
    g0(fmul(gy(), fmul(x(1), fn("powf", x(0), fsub(x(1), num(1)))))), g1(FL(fmul(gy(), fmul(fn("powf", x(0), x(1)), fn("ln", x(0))))))])
op("PowScalarL", 2, 0, lambda: [D("powf_scalar_l_fw", x(0), x(1))], lambda: [
    g0(fmul(gy(), fmul(fn("powf", x(1), x(0)), fn("ln", x(1))))),
    g1(FL(fmul(gy(), fmul(x(0), fn("powf", x(1), fsub(x(0), num(1)))))))])
op("Softplus", 1, 0, lambda: [D("softplus_fw", x(0))], lambda: [g0(fmul(gy(), M("sigmoid", x(0))))])
XD = lambda d: S.dim(shp(x(0)), d)
op("Sum", 1, 1, lambda: [D("sum_fw", x(0), P(1))], lambda: [g0(M("broadcast", gy(), P(1), XD(P(1))))])
op("Logsumexp", 1, 1, lambda: [D("logsumexp_fw", x(0), P(1))], lambda: [
    g0(fmul(fn("exp", fsub(x(0), M("broadcast", M("logsumexp", x(0), P(1)), P(1), XD(P(1))))), M("broadcast", gy(), P(1), XD(P(1)))))])
op("Broadcast", 1, 2, lambda: [D("broadcast_fw", x(0), P(1), P(2))], lambda: [g0(M("sum", gy(), P(1)))])
op("BatchSum", 1, 0, lambda: [D("batch_sum_fw", x(0))], lambda: [g0(gy())])
op("Slice", 1, 3, lambda: [D("slice_fw", x(0), P(1), P(2), P(3))], lambda: [bwop("slice_bw", 0, gy(), P(1), P(2))])
op("BatchSlice", 1, 2, lambda: [D("batch_slice_fw", x(0), P(1), P(2))], lambda: [bwop("batch_slice_bw", 0, gy(), P(1))])
op("Pick", 1, 2, lambda: [D("pick_fw", x(0), P(1), P(2))], lambda: [bwop("pick_bw", 0, gy(), P(1), P(2))])
op("BatchPick", 1, 1, lambda: [D("batch_pick_fw", x(0), P(1))], lambda: [bwop("batch_pick_bw", 0, gy(), P(1))])
op("Reshape", 1, 1, lambda: [mk("with", mk("call", "Device::copy_tensor", DEV, x(0)), (("shape", P(1)),))],
   lambda: [g0(mk("with", mk("call", "Device::copy_tensor", DEV, gy()), (("shape", shp(x(0))),)))])
K0 = mk("fv", "i0")


def psum(e):
    return mk("psum", ZERO, e, K0)


op("Concat", None, 1, lambda: [D("concat_fw", X, P(1))], lambda: [
    B(index(GX, K0), M("slice", gy(), P(1), psum(S.dim(shp(index(X, K0)), P(1))),
                       iadd(psum(S.dim(shp(index(X, K0)), P(1))), S.dim(shp(index(X, K0)), P(1)))), loop=length(X))])
op("BatchConcat", None, 0, lambda: [D("batch_concat_fw", X)], lambda: [
    B(index(GX, K0), M("batch_slice", gy(), psum(S.batch(shp(index(X, K0)))),
                       iadd(psum(S.batch(shp(index(X, K0)))), S.batch(shp(index(X, K0))))), loop=length(X))])


def split_spec(tot, n, fwop, bwname, pre):
    sk = lambda: idiv(tot(), n)
    return (lambda: [("loop", n, D(fwop, x(0), *(pre + [imul(sk(), K0), iadd(imul(sk(), K0), sk())])))],
            lambda: [B(index(GX, ZERO), op=bwname, args=[index(GY, K0)] + pre + [imul(sk(), K0), index(GX, ZERO)], loop=n)])


op("Split", 1, 2, *split_spec(lambda: XD(P(1)), P(2), "slice_fw", "slice_bw", [P(1)]))
op("BatchSplit", 1, 1, *split_spec(lambda: S.batch(shp(x(0))), P(1), "batch_slice_fw", "batch_slice_bw", []))
LS = lambda: fsub(x(0), M("broadcast", M("logsumexp", x(0), PD()), PD(), XD(PD())))
PD = lambda: P(1)
op("SoftmaxCrossEntropy", 2, 1, lambda: [fneg(mk("TOP", "sum", fmul(x(1), LS()), P(1)))], lambda: [
    g0(fmul(fsub(fn("exp", LS()), x(1)), M("broadcast", gy(), P(1), XD(P(1))))),
    g1(fneg(fmul(LS(), M("broadcast", gy(), P(1), XD(P(1))))))])


def LS2():
    return fsub(x(0), M("broadcast", M("logsumexp", x(0), P(2)), P(2), XD(P(2))))


op("SparseSoftmaxCrossEntropy", 1, 2, lambda: [fneg(mk("TOP", "pick", LS2(), P(1), P(2)))], lambda: [
    g0(fmul(fn("exp", LS2()), M("broadcast", gy(), P(2), XD(P(2))))),
    B(index(GX, ZERO), op="pick_bw", args=[fneg(gy()), P(1), P(2), index(GX, ZERO)])])
VAL = mk("opv", "value")
GRAD = mk("opv", "gradient")
op("Input<>", 0, 0, lambda: [VAL], lambda: [])
op("InputOwner", 0, 0, lambda: [VAL], lambda: [])
op("Parameter<>", 0, 0, lambda: [VAL], lambda: [B(GRAD, gy())])


# ------------------------------------------------------------------------------------------------
class SpecTN(tens.TN):
    def go(self, t):
        if t.op == "SUMALL":
            return self.mk("sumall", [self(t.args[0])], [])
        if t.op == "TOP":
            return self.mk(t.args[0], [self(t.args[1])], list(t.args[2:]))
        return tens.TN.go(self, t)


def ctor_env(ctx, name):
    """{field access on self: canonical parameter}; the constructor's own dataflow is looked through"""
    s = ctx.summary(name + "::new", policies.TensorLayer)
    if s is None or s.ret is None or s.ret.op != "agg":
        return None
    m = {}
    for i, a in enumerate(s.args):
        m[a] = P(i)
    if name in ("Input<>", "InputOwner"):
        m = {s.args[0]: VAL}
    elif name == "Parameter<>":
        m = {field(s.args[0], None, "value"): VAL, field(s.args[0], None, "gradient"): GRAD}
    elif s.args:
        m[s.args[0]] = DEV
    return subst(s.ret, m)


class View:
    """one operator method with canonical argument names"""

    def __init__(self, ctx, name, meth, args, adt, declared=None, layer=policies.TensorLayer):
        f = "%s.Operator::%s" % (name, meth)
        s = ctx.summary(f, layer)
        self.s = s
        self.f = f
        if s is None:
            return
        self.m = dict(zip(s.args, [adt] + list(args)))
        self.declared = declared
        self.memo = {}

    def sub(self, t):
        t = subst(t, self.m)
        return rewrite(t, self.norm, self.memo)

    def norm(self, t):
        # gradients have the shape of what they are gradients of; results have the declared shape
        if t.op == "field" and t.args[1] == "shape":
            b = t.args[0]
            if b.op == "index" and b.args[0] is GX:
                return shp(index(X, b.args[1]))
            if b.op == "index" and b.args[0] in (GY, Y) and self.declared is not None:
                d = self.declared
                if d.op == "agg":
                    es = elems(d)
                    if es and is_num(b.args[1]) and int(b.args[1].args[0]) < len(es):
                        return es[int(b.args[1].args[0])]
                elif d.op == "alloc":
                    return d.args[1]
            if b.op == "index" and b.args[0] is GY:
                return shp(index(Y, b.args[1]))
        if t.op == "len" and t.args[0] is GX:
            return length(X)
        if t.op == "len" and t.args[0] is GY:
            return length(Y)
        if t.op == "field" and t.args[1] == "0" and t.args[0].op == "as":
            pass
        return None


class Und(Exception):
    pass


NOEFFECT = ("alloc", "copy_tensor")


def paths(effs):
    """effects of each top-level branch combination: [(conds, effs)]"""
    out = [((), [])]
    for e in effs:
        if e.kind == "if" and interesting([e]):
            n = []
            for c, l in out:
                for pc, pl in paths(e.then):
                    n.append((c + (e.cond,) + pc, l + pl))
                for pc, pl in paths(e.els or []):
                    n.append((c + (bnot(e.cond),) + pc, l + pl))
            out = n
            if len(out) > 16:
                raise Und("too many paths")
        else:
            for c, l in out:
                l.append(e)
    return out


WRITES = {"Tensor.AddAssign<Tensor>::add_assign": (0, 1), "Tensor.SubAssign<Tensor>::sub_assign": (0, -1)}


def interesting(effs):
    for e, p in walk(effs):
        if e.kind == "call" and (e.name in WRITES or e.name.startswith(("Tensor.MulAssign", "Tensor::re", "Tensor::alloc", "Device::reset"))
                                 or re.search(r"(_bw(_a|_b)?|_assign(_const)?)$", e.name)):
            return True
        if e.kind in ("set", "store"):
            return True
    return False


def falling(view, e):
    """K0, or the number of the step from the end when the loop visits the lists it works on from the end"""
    ls = {e.k: K0}
    for ph, (ini, st) in e.phis.items():
        d = isub(st, ph)
        if not contains(d, lambda q: q is ph or q is e.k):
            ls[ph] = iadd(view.sub(ini), imul(K0, view.sub(d)))
    ways = set()
    for c, _ in walk(e.body):
        for t in c.args if c.kind == "call" else ():
            for u in subterms(view.sub(subst(t, ls))):
                if u.op == "index" and u.args[0] in (X, Y, GX, GY) and contains(u.args[1], lambda q: q is K0):
                    ways.add(not contains(iadd(u.args[1], K0), lambda q: q is K0))
    return isub(isub(view.sub(e.N), num(1)), K0) if ways == {True} else K0


def too_few(k, gs, got, want, ic):
    """one contribution per step of a loop that makes fewer steps than there are contributions (at some small size)"""
    mine = [q for q in gs if target_base(q[0]) is target_base(k[0])]
    if len(mine) != 1 or mine[0][1] is None or k[1] is None or sum(1 for q in want.sums if target_base(q[0]) is target_base(k[0])) != 1:
        return False
    if sum(c for q, c in got.count.items() if q[0] is mine[0][0]) != 1 or len({u for u in subterms(gs[mine[0]]) if u.op == "index" and u.args[0] is GY}) > 1:
        return False
    syms = [u for u in set(subterms(mine[0][1])) | set(subterms(k[1])) if u.op in ("par", "index", "opv", "call", "len")]
    if len(syms) != 1:
        return False
    for v in (1, 2, 3, 5):
        try:
            if kern.ieval(mine[0][1], {syms[0]: v}) < kern.ieval(k[1], {syms[0]: v}):
                return True
        except (KeyError, ZeroDivisionError):
            return False
    return False


class Contrib:
    def __init__(self, tn, view):
        self.tn, self.view = tn, view
        self.sums = {}
        self.bad = []
        self.odd = []
        self.raws = {}
        self.count = {}

    def add(self, target, loop, term, raw=None):
        k = (target, loop)
        self.count[k] = self.count.get(k, 0) + 1
        if raw is not None:
            self.raws.setdefault(k, []).append(raw)
        self.sums[k] = mk("fadd", self.sums[k], term) if k in self.sums else term

    def collect(self, effs, loop=None, lsub=None):
        v = self.view
        for e in effs:
            if e.kind == "loop":
                if not interesting([e]):
                    continue
                if loop is not None or e.lkind != "count":
                    raise Und("nested or non-counting loop")
                at = falling(v, e)
                ls = {e.k: at}
                for ph, (ini, st) in e.phis.items():
                    d = isub(st, ph)
                    if contains(d, lambda q: q is ph):
                        raise Und("loop-carried value")
                    d = v.sub(subst(d, {e.k: K0}))
                    if contains(d, lambda q: q is K0):
                        if at is not K0:
                            raise Und("loop-carried value of a loop that counts down")
                        ps = iadd(v.sub(ini), mk("psum", ZERO, d, K0))
                    else:
                        ps = iadd(v.sub(ini), imul(at, d))
                    ls[ph] = ps
                self.collect(e.body, v.sub(e.N), ls)
            elif e.kind == "call":
                self.call(e, loop, lsub)
            elif e.kind in ("set", "store"):
                t = v.sub(subst(e.base, lsub or {}))
                raise Und("direct write to " + show(t)[:100])
            elif e.kind == "if" and interesting([e]):
                raise Und("conditional inside a loop")

    def call(self, e, loop, lsub):
        v, tn = self.view, self.tn
        S_ = lambda t: v.sub(subst(t, lsub) if lsub else t)
        n = e.name
        if n in WRITES:
            i, sg = WRITES[n]
            t, val = S_(e.args[0]), tn(S_(e.args[1]))
            self.add(t, loop, val if sg > 0 else mk("fneg", val), S_(e.args[1]))
            return
        m = re.match(r"^Device\.\w+DeviceFunctions::(\w+)$", n)
        if m:
            o = m.group(1)
            if o in ("add_assign", "sub_assign"):
                val = tn(S_(e.args[1]))
                self.add(S_(e.args[2]), loop, val if o[0] == "a" else mk("fneg", val), S_(e.args[1]))
                return
            if re.search(r"_bw(_a|_b)?$", o):
                a = [S_(t) for t in e.args[1:]]
                r = tens.vjp(o, a, tn, tn)
                if r is None:
                    raise Und("unknown backward operation " + o)
                self.operands(o, a)
                self.add(a[-1], loop, r)
                return
            if o.endswith("_assign_const"):
                self.bad.append("%s on %s" % (o, show(S_(e.args[-1]))))
            return
        if n.startswith("Tensor.MulAssign") or n in ("Tensor::reset", "Tensor::replace", "Tensor::refer"):
            self.bad.append("%s on %s" % (n, show(S_(e.args[0]))))
        elif n.startswith("Device::reset_tensor"):
            self.bad.append("%s on %s" % (n, show(S_(e.args[1]))))


    def operands(self, o, a):
        """a backward operation needs the operands of a forward operation together with its result"""
        if re.match(r"^(batch_)?(slice|pick)_bw$", o):
            return
        k = 2 if o.endswith(("_bw_a", "_bw_b")) else 1
        fw = re.sub(r"_bw(_a|_b)?$", "_fw", o)
        got, want = self.tn.nf(a[k]), self.tn.nf(D(fw, *a[:k], *a[k + 2:-1]))
        if not alg.equal(got, want):
            if opaque_val(alg.key(got)) or opaque_val(alg.key(want)):
                raise Und("operands of " + o)
            self.odd.append("%s is given %s as the result of %s on %s" % (o, show(a[k])[:100], fw, ", ".join(show(t)[:100] for t in a[:k])))


def opaque_val(t):
    return contains(t, lambda q: q.op in ("phi", "fold", "acc", "havoc", "out", "bad") or
                    (q.op == "call" and not str(q.args[0]).startswith(("Shape::", "shape_ops::"))))


def each_op(ctx, minimum=45):
    seen = 0
    allops = sorted({n.split(".")[0] for n in (ctx.prog and ctx.byname) if ".Operator::forward" in n})
    for n in allops:
        if n not in SPECS:
            ctx.violation("unknown-operator:" + n, "operator %s has no documented definition" % n) if False else ctx.undecided(n, "operator without a definition")
    for n in sorted(SPECS):
        if ctx.fn(n + ".Operator::forward") is None:
            if n == "PowConstL" or n == "ELU":
                pass
            ctx.violation("anchor:" + n, "operator %s not found" % n)
            continue
        adt = ctor_env(ctx, n)
        if adt is None:
            ctx.undecided(n, "constructor not understood")
            continue
        seen += 1
        yield n, SPECS[n], adt
    if seen < minimum:
        ctx.violation("anchor:operators", "only %d operators analysed" % seen)


class ShapesLayer(c_device.DevLayer):
    pass


def declared_shapes(ctx, n, adt):
    """shape list term returned by the operator, over X (arguments' shapes as x[i].shape)"""
    v = View(ctx, n, "forward_shape", [mk("opv", "xs")], adt, layer=ShapesLayer)
    if v.s is None or v.s.ret is None:
        return v, None
    XS = mk("opv", "xs")

    def norm(t):
        if t.op == "index" and t.args[0] is XS:
            return shp(index(X, t.args[1]))
        if t.op == "len" and t.args[0] is XS:
            return length(X)
        return None
    v.extra = norm
    return v, rewrite(v.sub(v.s.ret), norm)


def produced(view, effs, tn):
    """{output index term (or K0 under a loop): (loop bound, tensor term)}"""
    out = {}

    def go(effs, loop, ls):
        for e in effs:
            if e.kind == "loop":
                if not interesting([e]):
                    continue
                if loop is not None or e.lkind != "count":
                    raise Und("loop not understood")
                at = falling(view, e)
                l2 = {e.k: at}
                for ph, (ini, st) in e.phis.items():
                    d = isub(st, ph)
                    if contains(d, lambda q: q is ph or q is e.k):
                        raise Und("loop-carried value")
                    l2[ph] = iadd(view.sub(ini), imul(at, view.sub(d)))
                go(e.body, view.sub(e.N), l2)
            elif e.kind == "call":
                S_ = lambda t: view.sub(subst(t, ls) if ls else t)
                if e.name in ("Tensor::replace", "Tensor::refer"):
                    put(S_(e.args[0]), loop, S_(e.args[1]))
                elif e.name == "Device::reset_tensor_by_tensor":
                    put(S_(e.args[1]), loop, S_(e.args[2]))
                elif e.name in ("Device::reset_tensor", "Tensor::reset"):
                    t = S_(e.args[1] if e.name[0] == "D" else e.args[0])
                    put(t, loop, mk("constant", t))
            elif e.kind == "if" and interesting([e]):
                raise Und("conditional in a loop")

    def put(t, loop, v):
        if t.op == "index" and t.args[0] is Y:
            out.setdefault((t.args[1], loop), []).append(v)
    go(effs, None, None)
    return out


def exclusive(ctx, n, s, w):
    """Two arguments may be the same node, and then share one gradient cell: while one argument's gradient is
    borrowed, no other argument's may be."""
    gx = s.args[4]

    def cells(t):
        return {u for u in subterms(t) if u.op == "index" and u.args[0] is gx}
    ev = []
    for e, p in walk(s.effects):
        if e.kind == "call":
            for a in e.args:
                c = cells(a) if a.op in ("index", "with", "out") else set()
                if len(c) == 1:
                    ev.append(("use", c.pop(), e))
        elif e.kind == "drop" and str(e.a.get("ty", "")).startswith("RefMut"):
            c = cells(e.val)
            if len(c) == 1:
                ev.append(("drop", c.pop(), e))
    held, uses = {}, 0
    for i, (k, c, e) in enumerate(ev):
        if k == "use":
            uses += 1
            held.setdefault(c, i)
        elif c in held:
            between = [x for x in ev[held.pop(c):i] if x[0] == "use" and x[1] is not c]
            if between:
                ctx.violation(n + ":exclusive", "%s.backward still holds the gradient of %s while it works on that of %s: when both arguments are the same node this panics" %
                              (n, show(c), show(between[0][1])), w)
                return
    if uses:
        ctx.ok(n + ":exclusive")


def run_vjp(ctx):
    ctx.rule = ("Per operator: what forward stores in each output is normalised to a tensor-level expression and compared with the "
                "operator's definition; the amounts backward adds to each argument's gradient are summed per argument, normalised with "
                "results replaced by the operator's own forward expression, and compared with its vector-Jacobian product.")
    cnt = 0
    for n, spec, adt in each_op(ctx):
        nx, npar, fw, bw = spec
        w = ctx.where(n + ".Operator::forward")
        dv, decl = declared_shapes(ctx, n, adt)
        ic = Canon()
        sp_fw = fw()
        # ---- forward
        v = View(ctx, n, "forward", [X, Y], adt, decl)
        if v.s is None:
            continue
        stn = SpecTN(icanon=ic)
        try:
            for conds, effs in paths(v.s.effects):
                pr = produced(v, effs, stn)
                want = {}
                for i, t in enumerate(sp_fw):
                    if isinstance(t, tuple):
                        want[(K0, ic(t[1]))] = t[2]
                    else:
                        want[(num(i), None)] = t
                pr = {(k[0], ic(k[1]) if k[1] is not None else None): val for k, val in pr.items()}
                for k, t in want.items():
                    key = "%s:forward:%s" % (n, show(k[0]))
                    if k not in pr:
                        if any(q[1] is not None for q in pr) and k[1] is None or (k[1] is not None and any(q[1] is None for q in pr)):
                            raise Und("outputs produced in another pattern")
                        ctx.violation(key, "%s.forward leaves output %s unset%s" % (n, show(k[0]), condtext(conds)), w)
                        continue
                    if len(pr[k]) > 1:
                        raise Und("output written several times")
                    got = pr[k][0]
                    a, b = stn.nf(got), stn.nf(t)
                    if alg.equal(a, b):
                        ctx.ok(key)
                        cnt += 1
                    elif opaque_val(alg.key(a)):
                        ctx.undecided(key, show(got)[:200])
                    else:
                        ctx.violation(key, "%s.forward stores %s, defined as %s%s" % (n, show(got)[:500], show(t)[:300], condtext(conds)), w)
        except (Und, tens.NotTensor, alg.Unknown, alg.NeedCond) as e:
            ctx.undecided(n + ":forward", repr(e))
        # ---- backward
        v = View(ctx, n, "backward", [X, Y, GY, GX], adt, decl)
        if v.s is None:
            continue
        w = ctx.where(n + ".Operator::backward")
        exclusive(ctx, n, v.s, w)
        ysub = {}
        for i, t in enumerate(sp_fw):
            if not isinstance(t, tuple):
                ysub[y(i)] = SpecTN(icanon=ic)(t)
        tn = SpecTN(sub=ysub, icanon=ic)
        try:
            want = Contrib(tn, v)
            for b in bw():
                t = tens.vjp(b.op, b.args, tn, tn) if b.op else tn(b.val)
                want.add(b.target, ic(b.loop) if b.loop is not None else None, t, t if b.op else b.val)
            for conds, effs in paths(v.s.effects):
                got = Contrib(tn, v)
                got.collect(effs)
                gs = {(k[0], ic(k[1]) if k[1] is not None else None): t for k, t in got.sums.items()}
                for bmsg in got.bad:
                    ctx.violation("%s:overwrite:%s" % (n, bmsg[:60]), "%s.backward does not only accumulate: %s" % (n, bmsg[:300]), w)
                for o in got.odd:
                    ctx.violation("%s:operands:%s" % (n, o[:60]), "%s.backward: %s" % (n, o), w)
                for e, _ in walk(effs):
                    for t in e.args if e.kind == "call" else ():
                        for u in subterms(v.sub(t)):
                            if u.op == "index" and is_num(u.args[1]) and not any(isinstance(q, tuple) for q in sp_fw):
                                most = {X: nx, GX: nx, Y: len(sp_fw), GY: len(sp_fw)}.get(u.args[0])
                                if most is not None and nx is not None and int(u.args[1].args[0]) >= most:
                                    ctx.violation("%s:operand count" % n, "%s.backward reads %s of %s" % (n, show(u), most), w)
                und = [t for t in gs.values() if opaque_val(alg.key(tn.cv(t)))]
                for k, t in want.sums.items():
                    key = "%s:backward:%s" % (n, show(k[0]))
                    if k not in gs:
                        if gs and any(q[1] is not k[1] for q in gs) and any(target_base(q[0]) is target_base(k[0]) and q[0] is not k[0] or (q[0] is k[0]) for q in gs):
                            if too_few(k, gs, got, want, ic):
                                ctx.violation(key, "%s.backward adds to the gradient of %s %s times instead of %s%s" % (n, show(k[0]), show([q for q in gs if target_base(q[0]) is target_base(k[0])][0][1]), show(k[1]), condtext(conds)), w)
                                continue
                            raise Und("contributions in another loop pattern: " + ", ".join("%s|%s" % (show(q[0]), q[1] and show(q[1])) for q in gs))
                        ctx.violation(key, "%s.backward never accumulates into the gradient of %s%s" % (n, show(k[0]), condtext(conds)), w)
                        continue
                    a, b = tn.cv(gs[k]), tn.cv(t)
                    if alg.equal(a, b):
                        ctx.ok(key)
                        cnt += 1
                        raws = {(q[0], ic(q[1]) if q[1] is not None else None): r for q, r in got.raws.items()}
                        undefined(ctx, n, key, k, tn, raws.get(k, []), want.raws.get(k, []), w)
                    elif und:
                        ctx.undecided(key, show(gs[k])[:200])
                    else:
                        ctx.violation(key, "%s.backward adds %s to the gradient of %s; the vector-Jacobian product is %s%s" % (
                            n, show(gs[k])[:600], show(k[0]), show(t)[:400], condtext(conds)), w)
                for k in gs:
                    if k not in want.sums:
                        a = tn.cv(gs[k])
                        if not a[0]:
                            continue
                        if und:
                            raise Und("extra contribution")
                        ctx.violation("%s:backward-extra:%s" % (n, show(k[0])), "%s.backward also adds %s to %s" % (n, show(gs[k])[:300], show(k[0])), w)
        except (Und, tens.NotTensor, alg.Unknown, alg.NeedCond) as e:
            ctx.undecided(n + ":backward", repr(e))
    if cnt < 90 and not ctx.viol and len(ctx.und) == 0:
        ctx.violation("anchor:vjp", "only %d operator obligations" % cnt)


def undefined(ctx, n, key, k, tn, code, spec, w):
    """equal amounts must also be defined at the same points: y / x is not x^(k-1) where x is zero"""
    hz = lambda ts: set().union(*[domain.hazards(t, tn.nf, domain.tensor_ops) for t in ts])
    try:
        more = domain.exceeds(hz(code), hz(spec))
    except (tens.NotTensor, alg.Unknown, alg.NeedCond, domain.Unclear):
        return
    if more:
        kind, f = more[0]
        ctx.violation(key + ":defined", "%s.backward adds %s to the gradient of %s: undefined where %s %s, the derivative is not" % (
            n, " + ".join(show(t)[:300] for t in code), show(k[0]), show(f)[:100], "is zero" if kind == "nz" else "is not positive"), w)
    else:
        ctx.ok(key + ":defined")


def target_base(t):
    return t.args[0] if t.op == "index" else t


def condtext(conds):
    return " when " + " and ".join(show(c)[:120] for c in conds) if conds else ""


# ------------------------------------------------------------------------------------------------
class NoShape(Exception):
    pass


def shape_of(t, conds):
    """documented shape of a tensor expression; the conditions under which it is defined are appended"""
    if t in (VAL,) or (t.op == "index" and t.args[0] in (X, Y)):
        return shp(t)
    if t.op == "with":
        return t.args[1][0][1]
    if t.op in ("fneg",):
        return shape_of(t.args[0], conds)
    if t.op == "call":
        n = t.args[0]
        if n == "Device::copy_tensor":
            return shape_of(t.args[2], conds)
        c = tens.callname(t)
        if c is None:
            raise NoShape(show(t)[:100])
        kind, o, a = c
        a = list(a)
        if kind == "ops" or (kind == "ten" and o == "pow"):
            if o == "neg":
                return shape_of(a[0], conds)
            ts = [q for q in a if is_tensor(q)]
            if len(ts) == 1:
                return shape_of(ts[0], conds)
            p, q = shape_of(a[0], conds), shape_of(a[1], conds)
            conds.append(((), S.compat(p, q)))
            conds.append(((), S.samedims(p, q)))
            return S.RB(p, S.imax(S.batch(p), S.batch(q)))
        if kind == "ten":
            full = next((g + o + "_fw" for g in (c_device.AR, c_device.BA) if g + o + "_fw" in c_device.SPECS), None)
            if full is None:
                raise NoShape(o)
        else:
            full = n
        if full not in c_device.SPECS:
            raise NoShape(full)
        if o.startswith(("concat", "batch_concat")):
            sp = c_device.SPECS[full]([DEV] + a)
        else:
            sub = {}
            args = [DEV]
            for i, q in enumerate(a):
                if is_tensor(q) and not (q.op == "index" and q.args[0] is X):
                    s = shape_of(q, conds)
                    h = mk("opv", "T%d" % i)
                    sub[shp(h)] = s
                    args.append(h)
                else:
                    args.append(q)
            sp = c_device.SPECS[full](args)
            if sub:
                conds.extend((q, subst(f, sub)) for q, f in sp.conds)
                return subst(sp.shape, sub)
        conds.extend(sp.conds)
        return sp.shape
    raise NoShape(show(t)[:100])


def is_tensor(q):
    if q.op == "index":
        return q.args[0] in (X, Y, GY, GX)
    return q is VAL or q.op == "with" or (q.op == "call" and (tens.callname(q) is not None or q.args[0] == "Device::copy_tensor"))


def run_shapes(ctx):
    ctx.rule = ("Per operator: the shape list it declares is extracted as a term over the argument shapes and compared with the documented "
                "shape of the tensors its forward actually stores; the conditions it asserts are compared with those of the operation performed.")
    cnt = 0
    for n, spec, adt in each_op(ctx):
        w = ctx.where(n + ".Operator::forward_shape")
        dv, decl = declared_shapes(ctx, n, adt)
        if decl is None:
            continue
        v = View(ctx, n, "forward", [X, Y], adt, decl)
        if v.s is None:
            continue
        ic = Canon()
        try:
            for conds, effs in paths(v.s.effects):
                pr = produced(v, effs, None)
                es = elems(decl)
                if es is None and decl.op == "alloc":
                    # n copies of one shape
                    cnt_t, each = decl.args[2], decl.args[1]
                    items = [((K0, cnt_t), each)]
                elif es is not None:
                    items = [((num(i), None), e) for i, e in enumerate(es)]
                else:
                    raise Und("declared shapes: " + show(decl)[:200])
                prc = {(k[0], ic(k[1]) if k[1] is not None else None): val for k, val in pr.items()}
                if len(items) != len(prc) or any((k[0], ic(k[1]) if k[1] is not None else None) not in prc for k, _ in items):
                    if any(k[1] is not None for k in prc) != any(k[1] is not None for k, _ in items):
                        raise Und("outputs declared and produced in different patterns")
                    ctx.violation(n + ":count", "%s declares outputs %s but forward produces %s%s" % (
                        n, [show(k[0]) + ("<" + show(k[1]) if k[1] is not None else "") for k, _ in items],
                        [show(k[0]) + ("<" + show(k[1]) if k[1] is not None else "") for k in prc], condtext(conds)), w)
                    continue
                for k, s in items:
                    cs = []
                    t = prc[(k[0], ic(k[1]) if k[1] is not None else None)][0]
                    p = shape_of(t, cs)
                    key = "%s:shape:%s" % (n, show(k[0]))
                    r = shapes_equal(s, p, cs, dv)
                    if r is None:
                        ctx.undecided(key, show(s)[:200])
                    elif r:
                        ctx.ok(key)
                        cnt += 1
                    else:
                        ctx.violation(key, "%s declares shape %s but its forward produces %s" % (n, show(s)[:300], show(p)[:300]), w)
                    # conditions asserted when the node is built: none beyond the operation's own
                    pre = pre_formulas(dv.s.effects)
                    pre = {tuple(dv_sub(dv, q) for q in qs): [dv_sub(dv, f) for f in fs] for qs, fs in pre.items()}
                    if k[1] is None:
                        nm = lambda t: imaxnorm(dv_sub(dv, t))
                        pre = {tuple(nm(q) for q in qs): [nm(f) for f in fs] for qs, fs in pre.items()}
                        m, e, u = compare_guards(pre, [(tuple(nm(q) for q in qs), nm(f)) for qs, f in cs])
                        if u:
                            ctx.undecided(n + ":declared-guards", "")
                        else:
                            for x_ in e:
                                if n == "SoftmaxCrossEntropy":
                                    continue
                                ctx.violation(n + ":over-strict:" + fmtf(x_)[:100], "building a node with %s additionally requires `%s`" % (n, fmtf(x_)[:300]), w)
                            if not e:
                                ctx.ok(n + ":declared-guards")
        except (Und, NoShape, tens.NotTensor) as e:
            ctx.undecided(n + ":shape", repr(e))
    if cnt < 40 and not ctx.viol and len(ctx.und) == 0:
        ctx.violation("anchor:shapes", "only %d shape obligations" % cnt)


def dv_sub(dv, t):
    return rewrite(dv.sub(t), dv.extra)


def shapes_equal(a, b, conds, dv):
    eqs = []
    for q, f in conds:
        if q == ():
            eqs.extend(split_conj(Canon()(f)))
    pre = pre_formulas(dv.s.effects)
    for fs in [fs for q, fs in pre.items() if q == ()]:
        for f in fs:
            eqs.extend(split_conj(Canon()(dv_sub(dv, f))))
    same = []
    for f in eqs:
        if f.op == "samedims" and not any(x.op == "shp" for x in f.args):
            p, q = [strip_rb(imaxnorm(h)) for h in f.args]
            if p is not q:
                same.append((p, q))
    if same:
        # operands of equal dimensions: write every shape over one of them
        def sd(t):
            for p, q in same:
                if t is q:
                    return S.RB(p, S.batch(q))
            return None
        a2, b2 = rb(a, same), rb(b, same)
    else:
        a2, b2 = a, b
    from c_shape import same_shape
    return same_shape(imaxnorm(rb(imaxnorm(a2), same)), imaxnorm(rb(imaxnorm(b2), same)), [f for f in eqs])


def rb(t, same):
    """re-base a shape term on the first of two shapes of equal dimensions"""
    if t.op == "call" and t.args[0] in ("Shape::resize_dim", "Shape::resize_batch"):
        return mk("call", t.args[0], rb(t.args[1], same), *t.args[2:])
    for p, q in same:
        if t is q:
            return S.RB(p, S.batch(q))
    return t


def strip_rb(t):
    while t.op == "call" and t.args[0] == "Shape::resize_batch":
        t = t.args[1]
    return t


def imaxnorm(t):
    def f(u):
        if u.op == "imax":
            if u.args[0] is u.args[1]:
                return u.args[0]
            if u.args[0].uid > u.args[1].uid:
                return mk("imax", u.args[1], u.args[0])
        if u.op == "field" and u.args[1] == "batch" and u.args[0].op == "call":
            return shape_den(u.args[0])[2]
        if u.op == "call" and u.args[0] == "Shape::resize_dim":
            b, d, n = u.args[1:]
            if b.op == "call" and b.args[0] == "Shape::resize_dim" and b.args[2] is d:
                return mk("call", "Shape::resize_dim", b.args[1], d, n)
            if n is S.dim(b, d):
                return b
        if u.op == "call" and u.args[0] == "Shape::resize_batch":
            b, n = u.args[1:]
            if n is S.batch(b):
                return b
            if b.op == "call" and b.args[0] == "Shape::resize_batch":
                return S.RB(b.args[1], n)
        return None
    for _ in range(6):
        t = rewrite(t, f)
    return t
