"""Functions offered on tensors and nodes: parity, operator overloads, composite definitions."""
import re
import itertools
from terms import *
from effects import *
from compare import *
import alg
import policies
import tens
import shapespec as S
import c_operator as O
from c_operator import SpecTN, D, M, X, P, DEV, K0, shp, fadd, fsub, fmul, fdiv, fneg, fn

PURE_READ = ("Node::inner_value", "Node::inner_gradient")
BF = ".BasicFunctions::"


def strip_occ(t):
    def f(u):
        if u.op == "call" and len(u.args) > 1 and isinstance(u.args[-1], T) and u.args[-1].op == "occ" and "random_" not in u.args[0]:
            return mk("call", *u.args[:-1])
        return None
    return rewrite(t, f)


def tensor_name(n):
    n = re.sub(r"^&?Node(<>)?\.", "Tensor.", n)
    n = re.sub(r"<&?Node(<>)?>", "<Tensor>", n)
    return n


class Unread(Exception):
    pass


def toten(t):
    """a node-level term as the tensor-level term it evaluates to"""
    t = strip_occ(t)

    def f(u):
        if u.op == "field" and u.args[0].op == "call" and u.args[0].args[0] in PURE_READ[:1]:
            return field(u.args[0].args[1], u.args[1] if False else None, u.args[1])
        if u.op == "call":
            n = u.args[0]
            if n == "Node::inner_value":
                return u.args[1]
            m = tensor_name(n)
            if m != n:
                return mk("call", m, *u.args[1:])
            if n == "Node::create":
                return created(u)
            mm = re.match(r"^(Node|Tensor)(<>)?\.From<.*>::from$", n)
            if mm:
                return u.args[1]
        if u.op == "index" and u.args[0].op == "outs":
            es = u.args[0].args
            i = u.args[1]
            if len(es) == 1:
                return es[0]
        return None
    return rewrite(t, f)


def created(u):
    o, args = u.args[1], u.args[2]
    if o.op == "call" and o.args[0].endswith("::new"):
        name, pars = o.args[0][:-5], o.args[1:]
    elif o.op == "agg" and o.args[0][0] == "adt":
        return None
    else:
        return None
    sp = O.SPECS.get(name) or O.SPECS.get(name + "<>")
    if sp is None:
        return None
    outs = sp[2]()
    m = {P(i): p for i, p in enumerate(pars)}
    if name in ("Input", "InputOwner", "Input<>"):
        m[O.VAL] = pars[0]
    elif name in ("Parameter", "Parameter<>"):
        m[O.VAL] = field(pars[0], None, "value")
    else:
        m[DEV] = pars[0]
    es = elems(args)
    if es is not None:
        for i, e in enumerate(es):
            m[index(X, num(i))] = e
    m[X] = args
    if len(outs) == 1 and isinstance(outs[0], tuple):
        return mk("outlist", subst(outs[0][1], m), subst(outs[0][2], m))
    return mk("outs", *[subst(o_, m) for o_ in outs])


def layer_for(n):
    return policies.NodeLayer


# ---------------------------------------------------------------- definitions of tensor-level methods
def ln_softmax(x, d):
    return fsub(x, M("broadcast", M("logsumexp", x, d), d, S.dim(shp(x), d)))


def softmax(x, d):
    return fn("exp", ln_softmax(x, d))


def split_def(x, tot, n, mk_):
    sk = idiv(tot, n)
    return ("list", n, mk_(imul(sk, K0), iadd(imul(sk, K0), sk)))


COMPOSITE = {
    "ln_softmax": ln_softmax,
    "softmax": softmax,
    "softmax_cross_entropy": lambda x, t, d: fneg(mk("TOP", "sum", fmul(t, ln_softmax(x, d)), d)),
    "sparse_softmax_cross_entropy": lambda x, ids, d: fneg(mk("TOP", "pick", ln_softmax(x, d), ids, d)),
    "relu": lambda x: M("prelu", x, num(0)),
    "lrelu": lambda x: M("prelu", x, mk("f32c", "0.01")),
    "flatten": lambda x: mk("FLAT", x),
    "reshape": lambda x, s: mk("with", mk("call", "Device::copy_tensor", DEV, x), (("shape", s),)),
    "split": lambda x, d, n: split_def(x, S.dim(shp(x), d), n, lambda a, b: M("slice", x, d, a, b)),
    "batch_split": lambda x, n: split_def(x, S.batch(shp(x)), n, lambda a, b: M("batch_slice", x, a, b)),
}
READS = {"to_vec": lambda x: mk("call", "Device::tensor_to_vector", DEV, x),
         "to_float": lambda x: mk("call", "Device::tensor_to_float", DEV, x),
         "argmax": lambda x, d: mk("call", "Device.BasicDeviceFunctions::argmax", DEV, x, d),
         "argmin": lambda x, d: mk("call", "Device.BasicDeviceFunctions::argmin", DEV, x, d),
         "argsort": lambda x, d: mk("call", "Device.BasicDeviceFunctions::argsort", DEV, x, d)}
SIMPLE = ["pow", "powf", "powi", "sqrt", "abs", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "sum", "max", "min",
          "broadcast", "logsumexp", "matmul", "transpose", "triangular_l", "triangular_u", "prelu", "elu", "slice", "pick", "concat",
          "batch_sum", "batch_slice", "batch_pick", "batch_concat"]


class FTN(SpecTN):
    def go(self, t):
        if t.op == "FLAT":
            return self.mk("flatten", [self(t.args[0])], [])
        if t.op == "f32c":
            return t
        if t.op == "call" and t.args[0].startswith("Tensor.ContribFunctions::"):
            o = t.args[0].split("::")[-1]
            return self(CONTRIB[o][1](*t.args[1:]))
        if t.op == "call" and t.args[0].startswith("Tensor.BasicFunctions::"):
            o = t.args[0].split("::")[-1]
            if o in COMPOSITE and o not in ("split", "batch_split"):
                return self(COMPOSITE[o](*t.args[1:]))
        if t.op == "call" and t.args[0].startswith(("Tensor.From<", "Device::new_tensor_by_constant")):
            if t.args[0].startswith("Tensor.From<"):
                return self(t.args[1])
            return t.args[3]
        return SpecTN.go(self, t)


def reads(n, t):
    """argmax and friends in one form"""
    m = re.match(r"^Tensor\.BasicFunctions::(to_vec|to_float|argmax|argmin|argsort)$", t.args[0]) if t.op == "call" else None
    if m:
        return READS[m.group(1)](*t.args[1:])
    if t.op == "call" and t.args[0] in ("Device::tensor_to_vector", "Device::tensor_to_float", "Device.BasicDeviceFunctions::argmax",
                                        "Device.BasicDeviceFunctions::argmin", "Device.BasicDeviceFunctions::argsort"):
        return mk("call", t.args[0], DEV, *t.args[2:])
    return t


def scalar_atom(x):
    return ceq(ZERO, field(shp(x), None, "depth"))


def case_split(t, xs):
    """[(case dict, term)] over which operands are scalar"""
    out = []
    for vals in itertools.product((True, False), repeat=len(xs)):
        m = {scalar_atom(x): (TRUE if v else FALSE) for x, v in zip(xs, vals)}
        m.update({mk("is_scalar", shp(x)): (TRUE if v else FALSE) for x, v in zip(xs, vals)})
        out.append((dict(zip(xs, vals)), simplify_ite(subst(t, m))))
    return out


def simplify_ite(t):
    return rewrite(t, lambda u: ite(*u.args) if u.op == "ite" and u.args[0] in (TRUE, FALSE) else None)


def form_ok(t, case):
    """the selected device operation fits the operand kinds: None when no form is involved"""
    c = tens.callname(t)
    if c is None or c[0] != "dev":
        return None
    o, a = c[1], c[2]
    m = re.match(r"^(add|sub|mul|div|powf)_scalar(_l|_r)?_fw$", o)
    if m:
        return case.get(a[1], None)
    if re.match(r"^(add|sub|mul|div|powf)_fw$", o):
        p, q = case.get(a[0]), case.get(a[1])
        return None if p is None or q is None else p == q
    return None


def canon_args(s, kinds):
    """argument symbols: a0, a1, ... independent of parameter names"""
    return {a: mk("opv", "a%d" % i) for i, a in enumerate(s.args)}


def value_of(ctx, f, layer=policies.NodeLayer):
    s = ctx.summary(f, layer)
    if s is None or s.ret is None:
        return None, None, s
    m = canon_args(s, None)
    r = subst(s.ret, m)
    return toten(r), [m[a] for a in s.args], s


IC = None


def compare_value(ctx, key, what, got, want, tn, where, case=""):
    """True when decided equal; reports otherwise"""
    try:
        a = tn.nf(got)
    except (tens.NotTensor, alg.Unknown, alg.NeedCond, AttributeError) as e:
        ctx.undecided(key, repr(e)[:300])
        return False
    b = tn.nf(want)
    if alg.equal(a, b):
        ctx.ok(key + case)
        return True
    if O.opaque_val(alg.key(a)) or leftover(got):
        ctx.undecided(key, show(got)[:300])
    else:
        ctx.violation(key, "%s computes %s, defined as %s%s" % (what, show(got)[:500], show(want)[:300], case), where)
    return False


def leftover(t):
    return contains(t, lambda u: u.op in ("outs", "outlist", "phi", "havoc", "bad", "fold", "acc") or
                    (u.op == "call" and (str(u.args[0]).startswith("Node") or str(u.args[0]).endswith("::new") and not str(u.args[0]).startswith("Shape"))))


def listval(t):
    """(length, element at K0) of a list value"""
    if t.op == "outlist":
        return t.args
    if t.op == "seq":
        return t.args[0], seq_elem(t, K0)
    return None


def pushes(t):
    """(steps, items appended per step) of a list built by a loop"""
    if t.op != "fold" or len(t.args) < 3 or t.args[1] is not mk("agg", ("array",)) or t.args[2].op != "lam":
        return None
    ps, b = t.args[2].args[0], t.args[2].args[1]
    n = 0
    while b.op == "push":
        n, b = n + 1, b.args[0]
    return (t.args[0], n) if ps and b is ps[0] else None


def method_fns(ctx, ty):
    ctx.prog
    out = {}
    for n, fs in ctx.byname.items():
        m = re.match(r"^%s(<>)?\.BasicFunctions::(\w+)$" % ty, n)
        if m:
            out[m.group(2)] = (n, fs[0])
    return out


def run_parity(ctx):
    ctx.rule = ("Every function of the shared trait, on tensors and on nodes, is reduced to one tensor-level expression over its arguments "
                "(node side: constructed operator, its parameters and its arguments replaced by the operator's forward definition) and both are "
                "compared with the function's definition and so with each other. Host reads on nodes must evaluate the node first.")
    ts, ns = method_fns(ctx, "Tensor"), method_fns(ctx, "Node")
    if len(ts) < 45 or set(ts) != set(ns):
        ctx.violation("anchor:functions", "tensor functions %d, node functions %d" % (len(ts), len(ns)))
    ic = Canon()
    cnt = 0
    for m in sorted(set(ts) & set(ns)):
        for side, (n, f) in (("tensor", ts[m]), ("node", ns[m])):
            w = ctx.where(f)
            key = "%s.%s" % (side, m)
            v, args, s = value_of(ctx, f)
            if v is None:
                ctx.undecided(key, "no value")
                continue
            cnt += one_method(ctx, key, m, side, v, args, s, w, ic)
    if cnt < 85 and not ctx.viol and not ctx.und:
        ctx.violation("anchor:parity", "only %d functions decided" % cnt)


def one_method(ctx, key, m, side, v, args, s, w, ic):
    what = "%s on %ss" % (m, side)
    if m == "shape":
        return ctx.require(v is shp(args[0]), key, "%s yields %s" % (what, show(v)[:200]), w)
    if m in READS:
        g, want = reads(m, v), READS[m](*args)
        if side == "node":
            fwd = first_effect(s, "Node::forward", s.args[0])
            rd = first_effect(s, "Node::inner_value", None)
            if fwd is None:
                ctx.violation(key + ":forward", "%s reads the value without evaluating the node" % what, w)
            elif rd is not None and rd < fwd:
                ctx.violation(key + ":forward", "%s reads the value before evaluating the node" % what, w)
            else:
                ctx.ok(key + ":forward")
        if g is want:
            ctx.ok(key)
            return 1
        if leftover(g):
            ctx.undecided(key, show(g)[:200])
            return 0
        ctx.violation(key, "%s yields %s, defined as %s" % (what, show(g)[:300], show(want)), w)
        return 0
    tn = FTN(icanon=ic)
    if m in ("split", "batch_split"):
        lv = listval(v)
        _, n, e = COMPOSITE[m](*args)
        if lv is None:
            k = pushes(v)
            if k is not None and k[1] != 1 and ic(k[0]) is ic(n):
                ctx.violation(key + ":count", "%s yields %d pieces for every one of %s" % (what, k[1], show(n)), w)
                return 0
            ctx.undecided(key, show(v)[:200])
            return 0
        if ic(lv[0]) is not ic(n):
            ctx.violation(key + ":count", "%s yields %s pieces, defined as %s" % (what, show(lv[0]), show(n)), w)
            return 0
        return compare_value(ctx, key, what, lv[1], e, tn, w)
    if m in COMPOSITE:
        want = COMPOSITE[m](*args)
    elif m in SIMPLE:
        want = M(m, *args)
    else:
        ctx.undecided(key, "no definition")
        return 0
    if m == "pow":
        return cases(ctx, key, what, v, args, lambda a, b: fn("powf", a, b), tn, w)
    if m in ("relu", "lrelu"):
        return ramp(ctx, key, what, m, v, args, w)
    return compare_value(ctx, key, what, v, want, tn, w)


def ramp(ctx, key, what, m, v, args, w):
    c = tens.callname(v)
    if c is None or c[1] not in ("prelu_fw", "prelu") or c[2][0] is not args[0]:
        ctx.undecided(key, show(v)[:200])
        return 0
    k = c[2][1]
    want = 0.0 if m == "relu" else 0.01
    try:
        val = alg.Conv({})(k)
    except Exception:
        ctx.undecided(key, show(k))
        return 0
    fv = constf(k)
    if fv is None:
        ctx.undecided(key, show(k))
        return 0
    return ctx.require(abs(fv - want) < 1e-7, key, "%s uses slope %s" % (what, show(k)), w)


def constf(k):
    if is_num(k):
        return float(k.args[0])
    if k.op in ("fnum", "real", "f32") and k.args:
        try:
            return float(k.args[0])
        except (TypeError, ValueError):
            return None
    return None


def first_effect(s, name, arg):
    for i, (e, p) in enumerate(walk(s.effects)):
        if e.kind == "call" and e.name == name and (arg is None or e.args[0] is arg) and not p:
            return i
    return None


def one_case(ctx, key, what, t, case, args, arith, tn, w, ct):
    fo = form_ok(t, case)
    if fo is False:
        ctx.violation(key + ":form", "%s selects %s%s" % (what, show(t)[:200], ct), w)
        return False
    return compare_value(ctx, key, what, t, arith(*args[:2]), tn, w, ct)


def cases(ctx, key, what, v, args, arith, tn, w):
    good = 0
    for case, t in case_split(v, args[:2]):
        ct = " when %s" % ", ".join("operand %d is %sscalar" % (i, "" if case[a] else "not ") for i, a in enumerate(args[:2]))
        if contains(t, lambda u: u.op == "ite"):
            # a further choice by the number of minibatches, which is independent of the case
            bat = {c for u in subterms(t) if u.op == "ite" for c in subterms(u.args[0]) if c.op == "eq" and c.args[0] is ONE and
                   any(c.args[1] is S.batch(shp(a)) for a in args[:2])}
            arms = []
            for vals in itertools.product((TRUE, FALSE), repeat=len(bat) if len(bat) <= 2 else 0):
                arms.append((dict(zip(bat, vals)), rewrite(t, lambda u, e=dict(zip(bat, vals)): e.get(u))))
            if not arms or any(contains(x, lambda u: u.op == "ite") for _, x in arms):
                ctx.undecided(key + ct, show(t)[:200])
                continue
        else:
            arms = [({}, t)]
        ok = True
        for env, x in arms:
            ok &= bool(one_case(ctx, key, what, x, case, args, arith, tn, w, ct + "".join(
                " and operand %d has %s" % (i, "one minibatch" if v is TRUE else "several minibatches")
                for c, v in env.items() for i, a in enumerate(args[:2]) if c.args[1] is S.batch(shp(a)))))
        good += ok
    return good == 4


# ---------------------------------------------------------------- overloads
ARITH = {"Add": fadd, "Sub": fsub, "Mul": fmul, "Div": fdiv}


def run_overloads(ctx):
    ctx.rule = ("Every operator overload found in the type-checked program (tensor, node, number; owned and borrowed; compound assignment) is "
                "summarised; its result is split on which operands are scalar and each case compared with the arithmetic of the operands in "
                "written order, in the operation form that accepts those operand kinds.")
    ctx.prog
    ic = Canon()
    cnt = 0
    for n, fs in sorted(ctx.byname.items()):
        m = re.match(r"^(Tensor|Node|f32)(?:<>)?\.(Add|Sub|Mul|Div)<(Tensor|Node|f32)(?:<>)?>::(\w+)$", n)
        for f in fs:
            w = ctx.where(f)
            if m:
                key = "%s %s %s" % (m.group(1), m.group(2), m.group(3))
                v, args, s = value_of(ctx, f)
                if v is None:
                    continue
                tn = FTN(icanon=ic)
                ar = ARITH[m.group(2)]
                if "f32" in (m.group(1), m.group(3)):
                    cnt += bool(compare_value(ctx, key, n, v, ar(*args), tn, w))
                else:
                    cnt += bool(cases(ctx, key, n, v, args, ar, tn, w))
            elif re.match(r"^(Tensor|Node)(<>)?\.Neg::neg$", n):
                v, args, s = value_of(ctx, f)
                if v is not None:
                    cnt += bool(compare_value(ctx, n, n, v, fneg(args[0]), FTN(icanon=ic), w))
            elif re.match(r"^Tensor\.(Add|Sub|Mul)Assign<(Tensor|f32)>::", n):
                cnt += assign(ctx, n, f, w)
    for m in ("Tensor", "Node"):
        for n in ("%s.BasicFunctions::pow" % m, "%s<>.BasicFunctions::pow" % m):
            f = ctx.fn(n)
            if f:
                v, args, s = value_of(ctx, f)
                if v is not None:
                    cnt += bool(cases(ctx, n, n, v, args, lambda a, b: fn("powf", a, b), FTN(icanon=ic), ctx.where(f)))
    if cnt < 107 and not ctx.viol and not ctx.und:
        ctx.violation("anchor:overloads", "only %d overloads decided" % cnt)


def assign(ctx, n, f, w):
    s = ctx.summary(f, policies.TensorLayer)
    if s is None:
        return 0
    self, other = s.args[:2]
    want = {"Add": ("Device.ArithmeticDeviceFunctions::add_assign", (other, self)), "Sub": ("Device.ArithmeticDeviceFunctions::sub_assign", (other, self)),
            "Mul": ("Device.ArithmeticDeviceFunctions::mul_assign_const", (other, self))}[re.search(r"\.(Add|Sub|Mul)", n).group(1)]
    got = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and (e.name in O.WRITES or "assign" in e.name or e.name.startswith("Device::reset"))]
    sets = [e for e, p in walk(s.effects) if e.kind in ("set", "store")]
    if sets or not all(e.name.startswith("Device.Arith") for e, p in got):
        ctx.undecided(n, "updates in an unrecognised way")
        return 0
    if any(p for e, p in got):
        ctx.undecided(n, "conditional update")
        return 0
    ok = len(got) == 1 and got[0][0].name == want[0] and tuple(strip_occ(x) for x in got[0][0].args[1:3]) == want[1]
    ctx.require(ok, n, "%s performs %s" % (n, "; ".join("%s(%s)" % (e.name, ", ".join(show(x) for x in e.args[1:])) for e, p in got)), w)
    return 1 if ok else 0


# ---------------------------------------------------------------- composites and contrib
def cmean(x, d):
    return fdiv(mk("TOP", "sum", x, d), mk("i2f", S.dim(shp(x), d)))


def cbmean(x):
    return fdiv(mk("TOP", "batch_sum", x), mk("i2f", S.batch(shp(x))))


def norm_by(x, g, b, eps, mean):
    m = mean(x)
    sh = fsub(x, m)
    var = fadd(mean(fmul(sh, sh)), eps)
    return fadd(fmul(g, fdiv(sh, fn("sqrt", var))), b)


def fmean(x):
    return fdiv(mk("TOP", "sum", mk("FLAT", x), ZERO), mk("i2f", S.vol(shp(x))))



SHAPE = Canon()


def dropout(x, rate, en, mask):
    p = fsub(num(1), rate)
    return ("cases", en, ("cases", fle(num(1), rate), fmul(num(0), x), fmul(fmul(fdiv(num(1), p), x), mask(p))), fmul(num(1), x))


def fle(a, b):
    return mk("fle", a, b)


def bern(shape, p):
    return mk("call", "Device.RandomDeviceFunctions::random_bernoulli", DEV, shape, p)


CONTRIB = {
    "mean": cmean,
    "batch_mean": cbmean,
    "batch_normalization": lambda x, g, b, eps, en: ("cases", en, norm_by(x, g, b, eps, cbmean), x),
    "layer_normalization": lambda x, g, b, eps: norm_by(x, g, b, eps, fmean),
    "dropout": lambda x, r, en: dropout(x, r, en, lambda p: bern(shp(x), p)),
    "dropout_dim": lambda x, d, r, en: dropout(x, r, en, lambda p: M("broadcast", bern(mk("call", "Shape::resize_dim", shp(x), d, ONE), p), d,
                                                                     S.dim(shp(x), d))),
}


class CTN(FTN):
    """also reads the random masks and knows the shapes of element-wise combinations with a reduced copy of the same tensor"""

    def go(self, t):
        if t.op == "call" and "::random_" in t.args[0]:
            return mk("top", t.args[0].split("::")[-1], self.ic(t.args[2]), *[alg.key(self.cv(self(a))) for a in t.args[3:] if a.op != "occ"])
        return FTN.go(self, t)


def SCAL(t):
    return is_num(t) or t.op in ("f32c", "i2f")


def base_shape(t):
    """(tensor, dims known to be one?, batch known to be one?) whose shape t has, for element-wise combinations; or None"""
    t = strip_occ(t)
    if t.op == "opv":
        return t, 0, 0
    if t.op == "TOP":
        t = M(t.args[0], *t.args[1:])
    if t.op == "FLAT":
        return ("flat", base_shape(t.args[0])), 0, 0
    mm = re.match(r"^(Tensor|f32)\.\w+<(Tensor|f32)>::", str(t.args[0])) if t.op == "call" else None
    if mm and "f32" in mm.groups():
        return base_shape(t.args[1] if mm.group(1) == "Tensor" else t.args[2])
    if t.op in ("fmul", "fadd", "fsub", "fdiv"):
        c = ("ops", "mul", t.args)
    else:
        c = tens.callname(t)
    if c is None:
        if t.op == "call" and t.args[0] == "Device::copy_tensor":
            return base_shape(t.args[2])
        if t.op == "with" and t.args[1] and t.args[1][0][0] == "shape":
            sh = t.args[1][0][1]
            es = elems(sh.args[1]) if sh.op == "call" and sh.args[0] == "Shape::new" else None
            if es and len(es) == 1:
                return ("flat", base_shape(t.args[0])), 0, 0
        return None
    k, o, a = c
    if o in ("batch_sum",):
        b = base_shape(a[0])
        return b and (b[0], b[1], 1)
    if o == "sum" and a[1] is ZERO:
        b = base_shape(a[0])
        if b and isinstance(b[0], tuple):
            i = b[0][1]
            return i and (i[0], 1, i[2])
        return None
    if o in ("neg", "sqrt", "exp", "ln", "abs", "tanh", "sin", "cos", "tan", "sigmoid", "softplus", "powi"):
        return base_shape(a[0])
    if o in ("add", "sub", "mul", "div"):
        x, y = base_shape(a[0]), base_shape(a[1])
        if x is None and (SCAL(a[0])):
            return y
        if y is None and (SCAL(a[1])):
            return x
        if x is None or y is None:
            return None
        if x[0] is y[0]:
            return x[0], min(x[1], y[1]), min(x[2], y[2])
    return None


def shapes(t):
    """reads of the shape of a combination of x with reductions of x are reads of x's shape"""
    def f(u):
        if u.op == "field" and u.args[1] == "shape":
            b = base_shape(u.args[0])
            if b and not isinstance(b[0], tuple) and not b[1] and not b[2]:
                return shp(b[0])
        if u.op == "dim" and u.args[0].op == "call" and u.args[0].args[0] == "Shape::new" and u.args[1] is ZERO:
            es = elems(u.args[0].args[1])
            if es and len(es) == 1:
                return es[0]
        if (u.op == "field" and u.args[1] == "0" and u.args[0].op == "as" and u.args[0].args[0].op == "field" and u.args[0].args[0].args[1] == "device"):
            return DEV
        if u.op == "call" and u.args[0] == "Operator.Operator::device":
            return DEV
        return None
    for _ in range(4):
        v = rewrite(t, f)
        if v is t:
            break
        t = v
    return t


def run_contrib(ctx):
    ctx.rule = ("Each convenience function (mean, batch mean, dropout, normalisation, sum of a list), on tensors and on nodes, is reduced to one "
                "tensor-level expression and compared with its definition in every combination of its switches; the list sum for lists of 1 to 3.")
    ctx.prog
    seen = 0
    for n, fs in sorted(ctx.byname.items()):
        m = re.match(r"^(Tensor|Node)(<>)?\.ContribFunctions::(\w+)$", n)
        if not m:
            continue
        for f in fs:
            w = ctx.where(f)
            side, o = m.group(1).lower(), m.group(3)
            key = "%s.%s" % (side, o)
            v, args, s = value_of(ctx, f)
            if v is None:
                ctx.undecided(key, "no value")
                continue
            seen += 1
            v = shapes(v)
            if o == "slice_sum":
                list_sum(ctx, key, "%s on %ss" % (o, side), v, args, w)
            elif o in CONTRIB:
                by_case(ctx, key, "%s on %ss" % (o, side), v, CONTRIB[o](*args), {}, w)
            else:
                ctx.undecided(key, "no definition")
    ic = Canon()
    for ty in ("Tensor", "Node"):
        for m, (n, f) in sorted(method_fns(ctx, ty).items()):
            if m not in COMPOSITE:
                continue
            v, args, s = value_of(ctx, f)
            key = "%s.%s" % (ty.lower(), m)
            if v is None:
                ctx.undecided(key, "no value")
                continue
            seen += 1
            one_method(ctx, key, m, ty.lower(), v, args, s, ctx.where(f), ic)
    if seen < 34:
        ctx.violation("anchor:contrib", "only %d convenience functions found" % seen)


def by_case(ctx, key, what, v, want, case, w):
    v = shapes(v)
    if isinstance(want, tuple):
        _, c, a, b = want
        if c.op in ("flt", "fle"):
            return by_region(ctx, key, what, v, want, case, w)
        for val, sub_ in ((TRUE, a), (FALSE, b)):
            by_case(ctx, key, what, simplify_ite(subst(v, {c: val, bnot(c): bnot(val)})), sub_, dict(case, **{show(c): val is TRUE}), w)
        return
    txt = "".join(" when %s is %s" % kv for kv in case.items())
    ncond = next((u for u in subterms(v) if u.op == "ite"), None)
    if ncond is not None:
        return ctx.undecided(key + txt, "extra condition %s" % show(ncond.args[0])[:200])
    compare_value(ctx, key, what, v, shapes(want), CTN(icanon=Canon()), w, txt)


def affine(t, x, cv):
    """(k, c) with t = k*x + c, or None"""
    try:
        n, d = cv(t)
    except (alg.Unknown, alg.NeedCond, ZeroDivisionError):
        return None
    if d != {(): 1}:
        return None
    k = c = 0
    for m, q in n.items():
        if m == ():
            c = q
        elif len(m) == 1 and m[0] == (x, 1):
            k = q
        else:
            return None
    return k, c


def by_region(ctx, key, what, v, want, case, w):
    """the definition switches on one number: every comparison with a constant cuts its axis, and between and at the
    cuts (from zero upwards) the selected alternatives are compared"""
    c = want[1]
    x = next(a for a in c.args if not is_num(a) and a.op != "f32c")
    cv = alg.Conv({})
    gap = {}

    def collect(t):
        for u in subterms(t):
            if u.op in ("flt", "fle", "feq") or (u.op == "fn" and u.args[0] in ("max", "min")):
                p, q = [affine(a, x, cv) for a in u.args[-2:]]
                if p and q and p[0] != q[0]:
                    gap[u] = (p[0] - q[0], p[1] - q[1])

    collect(v)
    t = want
    while isinstance(t, tuple):
        collect(t[1])
        t = t[3]
    cuts = sorted({Fraction(-g[1]) / g[0] for g in gap.values()} | {0})
    cells = []
    for i, k in enumerate(cuts):
        if k < 0:
            continue
        cells.append((k, True))
        cells.append((Fraction(k + cuts[i + 1]) / 2 if i + 1 < len(cuts) else k + 1, False))

    def at(t, s):
        def f(u):
            if u in gap:
                d = gap[u][0] * s + gap[u][1]
                if u.op == "fn":
                    return u.args[-2] if (d > 0) == (u.args[0] == "max") else u.args[-1]
                return boolc(d < 0 if u.op == "flt" else d <= 0 if u.op == "fle" else d == 0)
            if u.op == "not" and u.args[0].op == "bool":
                return bnot(u.args[0])
            if u.op in ("and", "or") and any(z.op == "bool" for z in u.args):
                stop, go = (FALSE, TRUE) if u.op == "and" else (TRUE, FALSE)
                if stop in u.args:
                    return stop
                rest = [z for z in u.args if z is not go]
                return go if not rest else rest[0] if len(rest) == 1 else mk(u.op, *rest)
            if u.op == "ite" and u.args[0] in (TRUE, FALSE):
                return ite(*u.args)
            return None
        return at_memo(t, f)

    def at_memo(t, f):
        """top-down on the recorded comparisons (they are matched before their parts change)"""
        memo = {}

        def go(u):
            if isinstance(u, tuple):
                return tuple(go(y) for y in u)
            if not isinstance(u, T):
                return u
            if u in memo:
                return memo[u]
            r = f(u) if u in gap else None
            if r is None:
                na = tuple(go(y) for y in u.args)
                q = u if na == u.args else rebuild(u, na)
                r = f(q) if q not in gap else None
                r = q if r is None else r
            memo[u] = r
            return r
        return go(t)

    for s, point in cells:
        t = want
        while isinstance(t, tuple):
            t = t[2] if at(t[1], s) is TRUE else t[3]
        got = at(v, s)
        txt = dict(case, **{show(x): ("%s" if point else "around %s") % s})
        if point:
            at_point(ctx, key, what, got, t, {x: num(s)}, txt, w)
        else:
            by_case(ctx, key, what, got, t, txt, w)


def at_point(ctx, key, what, got, want, m, case, w):
    txt = "".join(" when %s is %s" % kv for kv in case.items())
    if any(u.op == "ite" for u in subterms(got)):
        return by_case(ctx, key, what, got, want, case, w)
    tn = CTN(icanon=Canon())
    try:
        if alg.equal(tn.nf(shapes(got)), tn.nf(shapes(want))):
            return ctx.ok(key + txt)
    except (tens.NotTensor, alg.Unknown, alg.NeedCond, AttributeError, ZeroDivisionError):
        pass

    def sure(t):
        """a mask in which every element is kept is the number one"""
        def f(u):
            if u.op == "call" and "::random_bernoulli" in str(u.args[0]):
                try:
                    if alg.is_const(alg.Conv({})(u.args[3])) == 1:
                        return num(1)
                except (alg.Unknown, alg.NeedCond):
                    pass
            if u.op in ("TOP",) and u.args[0] == "broadcast" and is_num(u.args[1]):
                return u.args[1]
            if u.op == "call" and re.search(r"::broadcast$", str(u.args[0])) and is_num(u.args[1]):
                return u.args[1]
            if u.op == "call" and re.search(r"Mul::mul$", str(u.args[0])) and is_num(u.args[2]):
                return fmul(u.args[1], u.args[2])
            return None
        return rewrite(subst(t, m), f)
    try:
        compare_value(ctx, key, what, shapes(sure(got)), shapes(sure(want)), tn, w, txt)
    except ZeroDivisionError:
        ctx.violation(key, "%s divides by zero%s" % (what, txt), w)


def list_sum(ctx, key, what, v, args, w):
    xs = args[0]
    for k in (1, 2, 3):
        t = simplify_ite(unroll(subst(v, {length(xs): num(k)})))
        if contains(t, lambda u: u.op in ("fold", "ite", "lam")):
            return ctx.undecided(key, show(v)[:300])
        want = index(xs, ZERO)
        for i in range(1, k):
            want = fadd(want, index(xs, num(i)))
        compare_value(ctx, key, what, t, want, CTN(icanon=Canon()), w, " for %d operands" % k)
