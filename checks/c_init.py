"""Initializers, new parameters (C21) and random fills (C22)."""
import re
from terms import *
from effects import *
import alg
import policies

RN = "Device.RandomDeviceFunctions::random_"


class Stop(Exception):
    pass


class Fill:
    """what every tensor holds after the effects, in program order: ('none',), ('raw',) or what was put into it"""

    def __init__(self, s, fresh=(), effects=None):
        self.held = {t: ("none",) for t in fresh}
        self.faults = []
        self.asserts = []
        self.run(unroll(s.effects if effects is None else effects))

    def get(self, t):
        if t in self.held:
            return self.held[t]
        if t.op == "call":
            n = t.args[0]
            a = t.args[1:]
            if n == "Tensor::new":
                return ("none",)
            if n.startswith(RN):
                return ("random", n[len(RN):], a[0], a[1], tuple(x for x in a[2:] if x.op != "occ"))
            if n == "Device::new_tensor_by_constant":
                return ("const", a[2], a[0], a[1])
            if n == "Device::copy_tensor":
                return ("copy", a[1], a[0], field(a[1], None, "shape"))
        return None

    def where(self, t):
        """device and shape a tensor term has"""
        if t.op == "call":
            n, a = t.args[0], t.args[1:]
            if n in ("Tensor::new", "Device::new_tensor_by_constant", "Device::new_tensor_by_slice") or n.startswith(RN):
                return a[0], a[1]
            if n == "Device::copy_tensor":
                return a[0], field(a[1], None, "shape")
        d = field(t, None, "device")
        return field(downcast(d, 1, "Some"), 0, "0"), field(t, None, "shape")

    def run(self, effs):
        for e in effs:
            if e.kind == "assert":
                self.asserts.append(e.cond)
            elif e.kind == "call":
                self.call(e)
            elif e.kind == "if":
                a, b = dict(self.held), None
                self.run(e.then)
                b = dict(self.held)
                self.held = dict(a)
                self.run(e.els)
                for t in set(b) | set(self.held):
                    x, y = b.get(t), self.held.get(t)
                    if x != y:
                        if {x and x[0], y and y[0]} <= {"raw", None, "none"}:
                            self.held[t] = ("raw",)
                        else:
                            raise Stop("depends on " + show(e.cond)[:80])
            elif e.kind == "drop":
                pass
            else:
                raise Stop(e.kind)

    def call(self, e):
        n, a = e.name, e.args
        put = {"Tensor::alloc": 0, "Tensor::replace": 0, "Tensor::reset": 0, "Device::reset_tensor": 1, "Device::reset_tensor_by_tensor": 1}.get(n)
        if put is not None:
            was = self.held.get(a[put])
            makes = n in ("Tensor::alloc", "Tensor::replace")
            if was is not None and (was == ("none",)) != makes:
                self.faults.append("%s on a tensor %s" % (n, "that already has a buffer" if makes else "without a buffer"))
        if n == "Tensor::alloc":
            self.held[a[0]] = ("raw",)
        elif n in ("Tensor::reset", "Device::reset_tensor"):
            if n != "Tensor::reset":
                a = a[1:]
            self.held[a[0]] = ("const", a[1]) + self.where(a[0])
        elif n == "Device::reset_tensor_by_tensor":
            self.held[a[1]] = ("copy", a[2]) + self.where(a[1])
        elif n == "Tensor::replace":
            v = self.get(a[1])
            if v is None:
                raise Stop("replaced by " + show(a[1])[:100])
            self.held[a[0]] = v
            self.held[a[1]] = ("none",)
        elif n == "Initializer.Initializer::apply":
            self.held[a[1]] = ("init", a[0]) + self.where(a[1])
        elif n.startswith(RN) or n in ("Tensor::new", "Device::new_tensor_by_constant", "Device::copy_tensor", "HashMap::new", "HashMap::contains_key"):
            pass
        else:
            raise Stop(n)


def alternatives(effs, limit=32):
    """[(conditions, effects without branches)], or Stop"""
    out = [((), [])]
    for e in effs:
        if e.kind == "if" and (e.then or e.els):
            arms = [((c,) + cs, xs) for c, b in ((e.cond, e.then), (bnot(e.cond), e.els or [])) for cs, xs in alternatives(b, limit)]
            out = [(cs + ds, xs + ys) for cs, xs in out for ds, ys in arms]
            if len(out) > limit:
                raise Stop("too many paths")
        else:
            for cs, xs in out:
                xs.append(e)
            out = [(cs, list(xs)) for cs, xs in out]
    return out


WITNESS = [d for d in ((), (2,), (3, 2), (1, 3), (2, 3, 4), (7,), (7, 2), (2, 7), (16, 16), (100, 30), (1024, 3), (2, 2, 2, 2))]


def shape_eval(t, shp, dims, batch):
    """a condition over the extents of shp for concrete extents (KeyError when it has other parts)"""
    op, a = t.op, t.args
    if op == "num":
        return a[0]
    if op == "dim" and a[0] is shp and is_num(a[1]):
        return dims[int(a[1].args[0])] if a[1].args[0] < len(dims) else 1
    if op == "field" and a[0] is shp:
        v = 1
        for d in dims:
            v *= d
        return {"depth": len(dims), "volume": v, "batch": batch, "size": v * batch}[a[1]]
    if op in ("trunc",):
        return shape_eval(a[1], shp, dims, batch)
    if op == "poly":
        s = 0
        for m, c in t.args[0]:
            x = c
            for at, e in m:
                x *= shape_eval(at, shp, dims, batch) ** e
            s += x
        return s
    if op in ("lt", "le", "eq"):
        x, y = shape_eval(a[0], shp, dims, batch), shape_eval(a[1], shp, dims, batch)
        return x < y if op == "lt" else x <= y if op == "le" else x == y
    if op == "not":
        return not shape_eval(a[0], shp, dims, batch)
    if op in ("and", "or"):
        return (all if op == "and" else any)([shape_eval(x, shp, dims, batch) for x in a])
    raise KeyError(op)


def reachable(conds, shp):
    """a shape under which all conditions hold, None when there is none to be found"""
    for dims in WITNESS:
        for batch in (1, 3):
            try:
                if all(shape_eval(c, shp, dims, batch) for c in conds):
                    return "%s; %d" % (list(dims), batch)
            except KeyError:
                return None
    return None


def with_self(t, me, val):
    """the term with the receiver's fields replaced by what its constructor put there"""
    t = subst(t, {me: val})
    return rewrite(t, lambda u: field(u.args[0], None, u.args[1]) if u.op == "field" and u.args[0].op == "agg" else None)


def made_by(ctx, ty, params):
    """the value of an initializer built by its constructor from symbolic parameters"""
    f = ctx.fn(ty + "::new")
    if f is None:
        ctx.violation("anchor:%s::new" % ty, "no constructor of %s" % ty)
        return None
    s = ctx.summary(f, policies.InitLayer)
    if s is None or s.ret is None or len(s.args) != len(params):
        ctx.undecided(ty + "::new", "constructor not summarised")
        return None
    if s.ret.op != "agg":
        ctx.undecided(ty + "::new", show(s.ret)[:100])
        return None
    return subst(s.ret, dict(zip(s.args, params)))


def same_real(a, b):
    try:
        return alg.equal_terms(a, b)
    except (alg.Unknown, alg.NeedCond):
        return None


def params(*names):
    return [mk("par", n) for n in names]


def run_init(ctx):
    ctx.rule = ("Every initializer is executed, in program order, on a symbolic tensor with its fields taken from its own constructor; what the tensor holds afterwards "
                "(constant, or the distribution drawn from, its parameters, device and shape) is compared with the documented rule; the same for new parameters.")
    n = 0
    fs = [f for f in ctx.prog.fns.values() if ".Initializer::apply" in ctx.prog.fname(f) and not f.closure
          and "::tests::" not in f.path and f.crate.name == "prima_undine"]
    for f in sorted(fs, key=lambda f: f.key):
        ty = ctx.prog.fname(f).split(".")[0]
        if ty not in SPEC:
            ctx.undecided(ty, "an initializer without a documented rule here")
            continue
        n += 1
        one(ctx, ty, f)
    for ty in SPEC:
        if not any(ctx.prog.fname(f).split(".")[0] == ty for f in fs):
            ctx.violation("anchor:" + ty, "initializer %s not found" % ty)
    ctx.floor("initializers", n, 4)
    parameter(ctx)


def one(ctx, ty, f):
    names, kind = SPEC[ty]
    ps = params(*names)
    me = made_by(ctx, ty, ps)
    s = ctx.summary(f, policies.InitLayer)
    w = ctx.where(f)
    if me is None or s is None:
        return
    x = s.args[1]
    try:
        fl = Fill(s, [x])
    except Stop as e:
        try:
            alts = alternatives(s.effects)
            if len(alts) < 2:
                raise e
            for conds, effs in alts:
                wit = reachable(list(conds) + [a.cond for a in effs if a.kind == "assert" and contains(a.cond, lambda u: u is field(x, None, "shape"))],
                                field(x, None, "shape"))
                if wit:
                    judge(ctx, ty, Fill(s, [x], effs), s, x, me, ps, kind, w, " (shape [%s])" % wit)
                else:
                    ctx.undecided(ty, "path not reached by a listed shape: " + "; ".join(show(c)[:60] for c in conds))
        except Stop as e:
            ctx.undecided(ty, "not followed: %s" % e)
        return
    judge(ctx, ty, fl, s, x, me, ps, kind, w, "")


def judge(ctx, ty, fl, s, x, me, ps, kind, w, case):
    for q in fl.faults:
        ctx.violation("%s: buffer%s" % (ty, case), "%s calls %s" % (ty, q), w)
    got = fl.held.get(x)
    if got is None or got[0] in ("none", "raw"):
        ctx.violation("%s: filled%s" % (ty, case), "%s leaves the tensor %s%s" % (ty, "without values" if got else "untouched", case), w)
        return
    if got[0] == "copy":
        ctx.undecided(ty, "filled by a copy")
        return
    dev = field(downcast(field(x, None, "device"), 1, "Some"), 0, "0")
    shp = field(x, None, "shape")
    want = kind(ps, x, shp)
    got = tuple(with_self(g, s.args[0], me) if isinstance(g, T) else tuple(with_self(y, s.args[0], me) for y in g) if isinstance(g, tuple) else g for g in got)
    if got[0] != want[0] or got[0] == "random" and got[1] != want[1]:
        ctx.violation("%s: distribution%s" % (ty, case), "%s fills with %s instead of %s%s" % (ty, got[:2], want[:2], case), w)
        return
    gd, gs = (got[2], got[3])
    ctx.require(gd is dev and gs is shp, "%s: tensor%s" % (ty, case), "%s draws a tensor of shape %s on %s" % (ty, show(gs)[:100], show(gd)[:100]), w)
    gv = [got[1]] if got[0] == "const" else list(got[4])
    wv = [want[1]] if want[0] == "const" else list(want[2])
    for i, (g, v) in enumerate(zip(gv, wv)):
        r = None
        if v.op == "bound":
            r = same_bound(g, v)
            v = v.args[0]
        else:
            r = True if g is v else same_real(g, v)
        if r is None:
            ctx.undecided("%s: value %d%s" % (ty, i, case), show(g)[:200])
        else:
            ctx.require(r, "%s: value %d%s" % (ty, i, case), "%s uses %s instead of %s" % (ty, show(g)[:300], show(v)[:300]), w)
    if ty == "XavierUniform":
        ok = guards_matrix(fl.asserts, x)
        if ok is None:
            ctx.undecided(ty + ": matrix" + case, "guards: " + "; ".join(show(c)[:60] for c in fl.asserts))
        else:
            ctx.require(ok, ty + ": matrix" + case, "%s accepts tensors that are not matrices" % ty, w)


def guards_matrix(asserts, x):
    d = field(field(x, None, "shape"), None, "depth")
    for c in asserts:
        if c.op in ("le", "lt") and c.args[0] is d and is_num(c.args[1]):
            lim = c.args[1].args[0] - (1 if c.op == "lt" else 0)
            if lim <= 2:
                return lim == 2
        elif c.op in ("le", "lt", "eq", "not", "or", "and") and contains(c, lambda u: u.op in ("call", "dim", "len") or u is d) and \
                not contains(c, lambda u: u.op == "discr"):
            return None
    return False


def bound_of(scale, shp, sgn):
    n = iadd(mk("dim", shp, ZERO), mk("dim", shp, ONE))
    b = fbin("fmul", scale, mk("fn", "sqrt", mk("fdiv", num(6), mk("i2f", n))))
    return mk("bound", b if sgn > 0 else mk("fneg", b), sgn)


def sq(p):
    """square of a normal form whose only radicals are square roots appearing once: a quotient of polynomials, or None"""
    def unsq(d):
        out = alg.const(0)
        if len(d) != 1:
            return out if False else (None if any(a.op == "A_sqrt" for m in d for a, e in m) else alg.mul((d, {(): 1}), (d, {(): 1})))
        (m, c), = d.items()
        r = alg.const(c * c)
        for a, e in m:
            if a.op == "A_sqrt":
                base = alg.unkey(a.args[0])
                for _ in range(e):
                    r = alg.mul(r, base)
            else:
                for _ in range(2 * e):
                    r = alg.mul(r, alg.atom(a))
        return r
    a, b = unsq(p[0]), unsq(p[1])
    return None if a is None or b is None else alg.div(a, b)


def sign(p):
    s = 1
    for d in p:
        if len(d) != 1:
            return None
        (m, c), = d.items()
        s *= 1 if c > 0 else -1
    return s


def unclamp(g):
    """without the clamps that no pair of extents reaches; (term, whether some clamp is reached). sqrt(6/(a+b)) lies in (0.00003, sqrt(3)]"""
    odd = []

    def go(u):
        if u.op == "fn" and u.args[0] in ("max", "min") and len(u.args) == 3:
            a, b = u.args[1], u.args[2]
            if is_num(a):
                a, b = b, a
            if is_num(b) and a.op == "fn" and a.args[0] == "sqrt":
                c = float(b.args[0])
                if c <= 0.00003 if u.args[0] == "max" else c >= 1.7320509:
                    return a
                odd.append(u)
        return None
    return rewrite(g, go), bool(odd)


def same_bound(g, v):
    """equal up to the laws of square roots (extents are positive)"""
    want = v.args[0]
    if g is want:
        return True
    g, odd = unclamp(g)
    if odd:
        return False
    try:
        x, y = alg.Conv({})(g), alg.Conv({})(want)
    except (alg.Unknown, alg.NeedCond):
        return None
    if alg.equal(x, y):
        return True
    if not x[0]:
        return False
    a, b = sq(x), sq(y)
    if a is None or b is None or sign(x) is None:
        return None
    return alg.equal(a, b) and sign(x) == sign(y)


SPEC = {
    "Constant": (("k",), lambda p, x, s: ("const", p[0])),
    "Normal": (("mean", "sd"), lambda p, x, s: ("random", "normal", (p[0], p[1]))),
    "Uniform": (("lower", "upper"), lambda p, x, s: ("random", "uniform", (p[0], p[1]))),
    "XavierUniform": (("scale",), lambda p, x, s: ("random", "uniform", (bound_of(p[0], s, -1), bound_of(p[0], s, 1)))),
}


# ------------------------------------------------------------------ new parameters
def parameter(ctx):
    f = ctx.fn("Device::new_parameter")
    if f is None:
        ctx.violation("anchor:new_parameter", "Device::new_parameter not found")
        return
    s = ctx.summary(f, policies.InitLayer)
    w = ctx.where(f)
    if s is None or s.ret is None or s.ret.op != "agg":
        ctx.undecided("new_parameter", "not summarised")
        return
    try:
        fl = Fill(s)
    except Stop as e:
        ctx.undecided("new_parameter", "not followed: %s" % e)
        return
    dev, shp, ini = s.args
    v, g = field(s.ret, None, "value"), field(s.ret, None, "gradient")
    hv, hg = [fl.held.get(t) or fl.get(t) for t in (v, g)]
    for nm, t, h, ok in (("value", v, hv, hv and hv[0] == "init" and hv[1] is ini),
                         ("gradient", g, hg, hg and hg[0] == "const" and is_num(hg[1]) and hg[1].args[0] == 0)):
        if h is None:
            ctx.undecided("new_parameter: " + nm, show(t)[:100])
            continue
        ctx.require(ok, "new_parameter: " + nm, "the %s of a new parameter is %s" % (nm, "; ".join(show(q) if isinstance(q, T) else str(q) for q in h)[:200]), w)
        if len(h) >= 4:
            d, sh = h[2], h[3]
            ctx.require(d is dev and sh is shp, "new_parameter: %s shape" % nm, "the %s of a new parameter has shape %s on %s" % (nm, show(sh), show(d)), w)
    st = field(s.ret, None, "stats")
    ctx.require(st.op == "call" and "HashMap::new" in st.args[0] or st.op == "call" and "default" in st.args[0].lower() or st.op not in ("call",),
                "new_parameter: stats", "a new parameter starts with statistics " + show(st)[:100], w)
    rg = ctx.fn("Parameter::reset_gradient")
    s = ctx.summary(rg, policies.InitLayer) if rg else None
    if s is not None:
        try:
            fl = Fill(s)
            h = fl.held.get(field(s.args[0], None, "gradient"))
            others = [t for t in fl.held if t is not field(s.args[0], None, "gradient")]
            ctx.require(h and h[0] == "const" and is_num(h[1]) and h[1].args[0] == 0 and not others, "reset_gradient",
                        "resetting the gradient leaves %s" % "; ".join("%s: %s" % (show(t)[:40], h[0]) for t, h in fl.held.items()), ctx.where(rg))
        except Stop as e:
            ctx.undecided("reset_gradient", str(e))


# ------------------------------------------------------------------ random kernels and generators (C22)
KERNELS = {"random_bernoulli": ("fill_bernoulli", 1), "random_normal": ("fill_normal", 2), "random_uniform": ("fill_uniform", 2),
           "random_log_normal": ("fill_log_normal", 2)}
DISTS = {"fill_bernoulli": "Bernoulli", "fill_uniform": "Uniform", "fill_normal": "Normal", "fill_log_normal": "LogNormal"}


def plain(t):
    """conversions between float widths peeled off"""
    while t.op in ("f2f", "cast") and isinstance(t.args[-1], T):
        t = t.args[-1]
    return t


def run_random(ctx):
    ctx.rule = ("For every registered random kernel: the generator method called, the slice it fills (start and length as polynomials of the output's shape) and the roles of the "
                "scalar parameters are read from the MIR summary; for every generator: the distribution built, its parameters, and that each element of the slice is assigned its own sample.")
    regs = registered(ctx)
    n = 0
    for name, ty in sorted(regs.items()):
        key = name[:-5] if name.endswith("_impl") else name
        if not key.startswith("random_"):
            continue
        f = ctx.fn(ty + ".FunctionFwImpl::call")
        if f is None:
            ctx.undecided(name, "kernel body of %s not found" % ty)
            continue
        if key not in KERNELS:
            ctx.undecided(name, "no documented distribution")
            continue
        n += 1
        kernel(ctx, key, f)
    ctx.floor("random kernels", n, 3)
    m = 0
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.key):
        nm = ctx.prog.fname(f)
        if f.closure or "::tests::" in f.path or ".Randomizer::fill_" not in nm:
            continue
        if f.crate.name != "prima_undine":
            continue
        meth = nm.split("::")[1]
        if meth in DISTS:
            m += 1
            generator(ctx, meth, f)
    ctx.floor("generator methods", m, 4)
    generators_shared(ctx)


def registered(ctx):
    """kernel name -> kernel type, from the constructor of the reference device"""
    out = {}
    s = ctx.summary("Naive::new", policies.RegistryLayer)
    if s is None:
        return out
    for e, p in calls(s.effects, lambda n: n.startswith("Device::register_fw_impl")):
        nm = strval(e.args[1])
        if nm and e.args[2].op == "agg":
            out[nm] = e.args[2].args[0][1].split("::")[-1]
    return out


def kernel(ctx, key, f):
    meth, np = KERNELS[key]
    s = ctx.summary(f, policies.KernelLayer)
    w = ctx.where(f)
    if s is None:
        return
    fills = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and "Randomizer" in e.name and "::fill_" in e.name]
    if not fills:
        others = [e.name for e, p in walk(s.effects) if e.kind == "call" and not e.name.startswith("Mutex")]
        if others or any(e.kind == "store" for e, p in walk(s.effects)):
            ctx.undecided(key, "filled by other means: %s" % others[:4])
        else:
            ctx.violation(key + ": fill", "the kernel of %s never fills its output" % key, w)
        return
    if len(fills) > 1:
        ctx.undecided(key, "%d fills" % len(fills))
        return
    e, p = fills[0]
    if [x for x in p if x[0] == "loop"]:
        ctx.undecided(key, "filled piece by piece")
        return
    for x in p:
        if x[0] == "if":
            ctx.violation(key + ": condition", "the kernel of %s fills its output only if %s" % (key, show(x[1])[:200]), w)
    got = e.name.split("::")[-1]
    ctx.require(got == meth, key + ": distribution", "the kernel of %s draws with %s" % (key, got), w)
    fd, ys = s.args[3], s.args[4]
    a = e.args[1:]
    ctx.require(len(a) == np + 1 or got != meth, key + ": arity", "%d arguments" % len(a), w)
    for i in range(min(np, len(a) - 1)):
        x = plain(a[i])
        if x is index(fd, num(i)):
            ctx.ok(key + ": parameter %d" % i)
        elif contains(x, lambda u: u.op in ("call", "load")):
            ctx.undecided(key + ": parameter %d" % i, show(x)[:100])
        else:
            ctx.violation(key + ": parameter %d" % i, "the kernel of %s passes %s as parameter %d of %s" % (key, show(x)[:100], i, got), w)
    d = a[-1]
    y = index(ys, ZERO)
    shp = field(y, None, "shape")
    full = imul(field(shp, None, "batch"), field(shp, None, "volume"))
    if d.op == "subslice":
        b, lo, hi = d.args
        if not contains(b, lambda u: u is y):
            ctx.violation(key + ": output", "the kernel of %s fills %s instead of its output" % (key, show(b)[:100]), w)
            return
        if lo is ZERO and hi is full:
            ctx.ok(key + ": extent")
        elif any(contains(t, lambda u: u.op not in ("field", "poly", "num", "index", "arg", "dim", "lvol")) for t in (lo, hi)):
            ctx.undecided(key + ": extent", "%s .. %s" % (show(lo)[:80], show(hi)[:80]))
        else:
            ctx.violation(key + ": extent", "the kernel of %s fills elements %s .. %s of its output of %s elements" % (key, show(lo)[:80], show(hi)[:80], show(full)[:80]), w)
    else:
        ctx.undecided(key + ": extent", show(d)[:100])


def generator(ctx, meth, f):
    s = ctx.summary(f, policies.Policy)
    w = ctx.where(f)
    key = ctx.prog.fname(f)
    if s is None:
        return
    want = DISTS[meth]
    data = s.args[-1]
    pars = s.args[1:-1]
    stores = [(e, p) for e, p in walk(s.effects) if e.kind == "store"]
    if not stores:
        cs = [e.name for e, p in walk(s.effects) if e.kind == "call" and any(contains(a, lambda u: u is data) for a in e.args)]
        if cs:
            ctx.undecided(key, "no element stores: %s" % cs[:5])
        else:
            ctx.violation(key + ": fill", "%s assigns nothing" % key, w)
        return
    if len(stores) != 1:
        ctx.undecided(key, "%d stores" % len(stores))
        return
    e, p = stores[0]
    loops = [x[1] for x in p if x[0] == "loop"]
    conds = [x[1] for x in p if x[0] == "if" and x[1] is not TRUE]
    if len(loops) != 1 or loops[0].lkind != "count" or conds:
        ctx.undecided(key, "store under %d loops, conditions %s" % (len(loops), "; ".join(show(c)[:60] for c in conds)))
        return
    L = loops[0]
    base, idx = e.base, e.idx
    while base.op == "subslice":
        idx = iadd(base.args[1], idx)
        base = base.args[0]
    ok = base is data and L.N is length(data) and idx is L.k or base is data and idx is isub(isub(length(data), ONE), L.k) and L.N is length(data)
    if not ok and (contains(L.N, lambda u: u.op in ("N", "imin", "call")) or base is not data):
        ctx.undecided(key + ": extent", "%s[%s] for %s" % (show(base)[:60], show(idx)[:60], show(L.N)[:60]))
    else:
        ctx.require(ok, key + ": extent", "%s assigns element %s for %s steps instead of every element" % (key, show(idx)[:80], show(L.N)[:80]), w)
    val = e.val
    # the sample drawn in this very iteration
    inside = {c.res for c, q in walk(L.body) if c.kind == "call"}
    smp = [u for u in subterms(val) if u.op == "call" and u.args[0].split("::")[-1] in ("sample", "next", "gen", "gen_range", "gen_bool", "sample_single")]
    if not smp:
        if not contains(val, lambda u: u.op == "call"):
            ctx.violation(key + ": sample", "%s assigns %s, which is not a sample" % (key, show(val)[:100]), w)
        else:
            ctx.undecided(key + ": sample", show(val)[:150])
        return
    for u in smp:
        ctx.require(u in inside, key + ": independent", "%s assigns one and the same sample to every element" % key, w)
    dist = [u for u in subterms(val) if u.op == "call" and u.args[0].endswith(("::new", "::new_inclusive", "::from"))
            and not u.args[0].startswith(("rand::", "ThreadRng", "SmallRng", "StdRng"))]
    if len(set(dist)) != 1:
        ctx.undecided(key + ": distribution", show(val)[:150])
        return
    d = dist[0]
    dn = re.sub("<.*", "", d.args[0].split("::")[0])
    if dn in DISTS.values():
        ctx.require(dn == want, key + ": distribution", "%s draws from %s" % (key, dn), w)
    else:
        ctx.undecided(key + ": distribution", d.args[0])
        return
    for i, (g, v) in enumerate(zip(d.args[1:], pars)):
        g = plain(g)
        if g is v:
            ctx.ok(key + ": parameter %d" % i)
        else:
            r = same_real(g, v)
            if r is None:
                ctx.undecided(key + ": parameter %d" % i, show(g)[:100])
            else:
                ctx.require(r, key + ": parameter %d" % i, "%s builds %s with %s as parameter %d instead of %s" % (key, dn, show(g)[:100], i, show(v)), w)
    if meth == "fill_bernoulli":
        v = rewrite(val, lambda u: mk("par", "hit") if u is smp[0] else None)
        hit = mk("par", "hit")
        good = (ite(hit, num(1), num(0)), mk("i2f", hit), hit)
        bad = ite(hit, num(0), num(1))
        if v in good:
            ctx.ok(key + ": success")
        elif v is bad:
            ctx.violation(key + ": success", "%s assigns zero on success" % key, w)
        elif v.op == "ite" and is_num(v.args[1]) and is_num(v.args[2]):
            ctx.violation(key + ": success", "%s assigns %s on success and %s otherwise" % (key, show(v.args[1]), show(v.args[2])), w)
        else:
            ctx.undecided(key + ": success", show(v)[:100])
    else:
        if plain(val) is smp[0]:
            ctx.ok(key + ": value")
        elif any(u.op == "f2i" and contains(u, lambda q: q is smp[0]) for u in subterms(val)):
            ctx.violation(key + ": value", "%s assigns %s, which keeps only the integer part of the sample" % (key, show(val)[:150]), w)
        elif val.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fn") and not same_real(val, smp[0]):
            ctx.violation(key + ": value", "%s assigns %s instead of the sample" % (key, show(val)[:150]), w)
        else:
            ctx.undecided(key + ": value", show(val)[:150])


def generators_shared(ctx):
    """the random kernels of one device share one generator"""
    s = ctx.summary("Naive::new", policies.RegistryLayer)
    if s is None:
        return
    made = {}
    for e, p in calls(s.effects, lambda n: n.startswith("Device::register_fw_impl")):
        nm = strval(e.args[1])
        if nm and nm.startswith("random_") and e.args[2].op == "agg":
            for x in e.args[2].args[1:]:
                made[nm] = x
    kinds = {show(v) for v in made.values()}
    ctx.require(len(kinds) <= 1, "one generator", "the random kernels of a device use different generators: %s" % ", ".join(sorted(kinds))[:200], ctx.where("Naive::new"))
