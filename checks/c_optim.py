"""Optimizers: update rules (C15) and the order of one optimisation step (C16)."""
import itertools
import re

from terms import *
from effects import walk, strval, unroll
import alg
import policies
import tens

V, G = mk("opv", "value"), mk("opv", "gradient")
WD, CLIP, SCALE = mk("par", "weight_decay"), mk("par", "clipping"), mk("par", "scale")


def fadd(a, b): return mk("fadd", a, b)
def fsub(a, b): return mk("fsub", a, b)
def fmul(a, b): return mk("fmul", a, b)
def fdiv(a, b): return mk("fdiv", a, b)
def fsqrt(a): return mk("fn", "sqrt", a)


class Opaque(Exception):
    pass


class Partial(Exception):
    pass


def strip_occ_last(t):
    if t.op == "call" and len(t.args) > 1 and isinstance(t.args[-1], T) and t.args[-1].op == "occ":
        return mk(t.op, *t.args[:-1])
    return t


ASSIGN = re.compile(r"^Tensor\.(Add|Sub|Mul|Div)Assign<(Tensor|f32)>::\w+$")


class Exec:
    """runs the effects of a summary over symbolic tensor values, in program order"""

    def __init__(self, place, leaf):
        self.place, self.leaf = place, leaf
        self.state, self.env, self.events, self.loops = {}, {}, [], []
        self.held, self.pending = [], []

    def read(self, p):
        return self.state.get(p, V if p == "V" else G if p == "G" else mk("opv", p))

    def ev(self, t):
        p = self.place(t)
        if p is not None:
            return self.read(p)
        r = self.env.get(t)
        if r is not None:
            return r
        r = self.leaf(t)
        if r is not None:
            return r
        if t.op in ("fsum",) and len(t.args) == 3 and t.args[2].op == "lam" and len(t.args[2].args[0]) == 1:
            for k, n in reversed(self.loops):
                if n is t.args[0]:
                    b = apply_lam(t.args[2], [k])
                    if all(c in self.env for c in subterms(b) if c.op == "call" and tens.callname(c)):
                        s = mk("sumP", self.ev(b))
                        return fadd(self.ev(t.args[1]), s) if not is_zero(t.args[1]) else s
            raise Opaque("sum over " + show(t.args[0]))
        if t.op in ("fsum", "fold", "phi", "havoc"):
            raise Opaque(show(t)[:200])
        if t.op == "call" and t.args[0] in ("Tensor.BasicFunctions::to_float", "Device::tensor_to_float"):
            return self.ev(t.args[-1])
        if t.op == "fn" and t.args[0] == "powi":
            k = t.args[2]
            while k.op == "f2i" and k.args[-1].op == "i2f" or k.op in ("cast", "trunc") and len(k.args) and isinstance(k.args[-1], T):
                k = k.args[-1].args[0] if k.op == "f2i" else k.args[-1]
            return mk("fn", "powf", self.ev(t.args[1]), self.ev(mk("i2f", k)))
        if t.op == "i2f" and t.args[0].op == "poly":
            out = None
            for m, c in as_poly(t.args[0]).items():
                x = num(c)
                for a, e in m:
                    for _ in range(e):
                        x = fmul(x, mk("i2f", a))
                out = x if out is None else fadd(out, x)
            return self.ev(out)

        def go(x):
            if isinstance(x, T):
                return self.ev(x)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.args)
        return t if na == t.args else rebuild(t, na)

    def run(self, effs, conds=()):
        for e in effs:
            if e.kind == "call":
                self.call(e, conds)
            elif e.kind == "if":
                c = self.ev(e.cond)
                a, b = self.fork(e.then, conds + (c,)), self.fork(e.els or [], conds + (bnot(c),))
                for k in set(a) | set(b):
                    x = a.get(k, self.read(k))
                    y = b.get(k, self.read(k))
                    self.state[k] = x if x is y else mk("pif", c, x, y)
            elif e.kind == "loop":
                if e.lkind != "count":
                    raise Opaque("loop of unknown extent")
                if not self.every(e):
                    raise Opaque("loop over %s" % show(e.N)[:80])
                self.loops.append((e.k, e.N))
                self.run(e.body, conds + (("each", e.k),))
            elif e.kind in ("set", "store"):
                self.set(e, conds)
            elif e.kind == "assert":
                self.events.append(("assert", conds, e))
            elif e.kind == "drop":
                self.drop(e)
            else:
                raise Opaque("effect " + e.kind)

    def fork(self, effs, conds):
        keep = self.state
        self.state = dict(keep)
        try:
            self.run(effs, conds)
            return self.state
        finally:
            self.state = keep

    def every(self, e):
        return e.N.op == "len"

    def drop(self, e):
        """a tensor held through a mutable borrow is replaced: its old content is dropped, and the
        borrow ends holding the new one"""
        p = self.place(e.val)
        ty = e.a.get("ty") or ""
        if ty == "Tensor" and p is not None and p.startswith("S:"):
            if p not in self.pending:
                self.pending.append(p)
        elif ty.startswith("RefMut<"):
            if p is not None:
                if p in self.held:
                    self.held.remove(p)
                return
            todo = [q for q in reversed(self.held) if q in self.pending]
            if not todo:
                raise Opaque("borrow ending with " + show(e.val)[:100])
            self.held.remove(todo[0])
            self.pending.remove(todo[0])
            self.state[todo[0]] = self.ev(e.val)

    def set(self, e, conds):
        if e.kind == "set" and len(e.path) == 1 and not conds:
            p = self.place(field(e.base, None, e.path[0][-1] if isinstance(e.path[0], tuple) else e.path[0]))
            if p is not None:
                self.state[p] = self.ev(e.val)
                return
        self.events.append(("set", conds, e, self.ev(e.val)))

    def call(self, e, conds):
        m = ASSIGN.match(e.name)
        if m or e.name in ("Tensor::reset", "Device::reset_tensor") or re.match(r"^Device\.\w+::(add|sub|mul)_assign", e.name):
            if e.name == "Tensor::reset":
                dst, val = e.args[0], e.args[1]
            elif e.name == "Device::reset_tensor":
                dst, val = e.args[1], e.args[2]
            elif m:
                dst = e.args[0]
                val = mk("f" + m.group(1).lower(), self.ev(dst), self.ev(e.args[1]))
            else:
                dst = e.args[-1]
                val = mk("f" + re.search(r"::(add|sub|mul)_assign", e.name).group(1), self.ev(dst), self.ev(e.args[1]))
            p = self.place(dst)
            if p is None:
                if dst in self.env:
                    self.env[dst] = self.ev(val)
                    return
                raise Opaque("assignment to " + show(dst)[:120])
            self.state[p] = self.ev(val)
            return
        p = self.place(e.res)
        if p is not None and p.startswith("S:") and p not in self.held:
            self.held.append(p)
        if p is not None or self.leaf(e.res) is not None:
            return
        if tens.callname(e.res) or e.name in ("Device::copy_tensor", "Tensor.BasicFunctions::to_float", "Device::tensor_to_float"):
            r = strip_occ_last(e.res)
            if e.name in ("Tensor.BasicFunctions::to_float", "Device::tensor_to_float", "Device::copy_tensor"):
                self.env[e.res] = self.ev(e.args[-1])
            else:
                self.env[e.res] = mk("call", *[self.ev(x) if isinstance(x, T) else x for x in r.args])
            return
        self.events.append(("call", conds, e, [self.ev(a) if isinstance(a, T) else a for a in e.args]))


def is_zero(t):
    return is_num(t) and t.args[0] == 0


# ---------------------------------------------------------------- normal forms
class NF:
    def __init__(self):
        self.tn = tens.TN()

    def resolve(self, t, dec):
        """choose branches of pif by dec(cond) -> bool"""
        if t.op == "pif":
            return self.resolve(t.args[1] if dec(t.args[0]) else t.args[2], dec)
        if t.op == "fn" and t.args[0] in ("max", "min") and len(t.args) == 3:
            try:
                less = dec(mk("flt", t.args[1], t.args[2]))
            except Cond:
                less = None
            if less is not None:
                return self.resolve(t.args[2] if less == (t.args[0] == "max") else t.args[1], dec)

        def go(x):
            if isinstance(x, T):
                return self.resolve(x, dec)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.args)
        return t if na == t.args else rebuild(t, na)

    def __call__(self, t):
        return self.tn.nf(self.sums(t))

    def sums(self, t):
        def f(u):
            if u.op == "sumP":
                return mk("top", "sumP", self.tn.key(u.args[0]))
            return None
        return rewrite(t, f)


# role: published formula, given g (gradient), v, hyper-parameters h[i], scale s, time t and previous states
def sgd(g, v, h, s, t, st):
    return fsub(v, fmul(fmul(s, h[0]), g)), {}


def momentum(g, v, h, s, t, st):
    m = fsub(fmul(h[1], st["m"]), fmul(fmul(s, h[0]), g))
    return fadd(v, m), {"m": m}


def adam(g, v, h, s, t, st):
    one = num(1)
    m1 = fadd(fmul(h[1], st["m1"]), fmul(fsub(one, h[1]), g))
    m2 = fadd(fmul(h[2], st["m2"]), fmul(fsub(one, h[2]), fmul(g, g)))
    mm1 = fdiv(m1, fsub(one, mk("fn", "powf", h[1], t)))
    mm2 = fdiv(m2, fsub(one, mk("fn", "powf", h[2], t)))
    return fsub(v, fdiv(fmul(fmul(s, h[0]), mm1), fadd(fsqrt(mm2), h[3]))), {"m1": m1, "m2": m2}


RULES = {"SGD": (sgd, 1, []), "MomentumSGD": (momentum, 2, ["m"]), "Adam": (adam, 4, ["m1", "m2"])}


def optimizers(ctx):
    ctx.prog
    return sorted({n.split(".")[0] for n in ctx.byname if n.endswith(".Optimizer::update_parameter") and not n.startswith("Self")})


def stat_name(t):
    """name of the statistic a term reads, or None"""
    t = strip_occ_last(t)
    if t.op == "call" and "HashMap" in t.args[0] and t.args[0].split("::")[-1] in ("index", "get", "get_mut") and len(t.args) == 3:
        return strval(t.args[2]) or show(t.args[2])
    if t.op == "field" and t.args[0].op == "as" and str(t.args[1]) == "0":
        return stat_name(t.args[0].args[0])
    return None


def param_place(par):
    def place(t):
        if t.op == "field" and t.args[1] == "value" and t.args[0] is par:
            return "V"
        if t.op == "field" and t.args[1] == "gradient" and t.args[0] is par:
            return "G"
        n = stat_name(t)
        if n is not None:
            return "S:" + n
        return None
    return place


def struct_fields(ctx, name):
    """(field of the step counter, [field of each constructor argument], {field: initial value})"""
    f = ctx.fn(name + "::new")
    s = ctx.summary(f, policies.OptLayer) if f else None
    if s is None or s.ret is None or s.ret.op != "agg":
        return None
    me = mk("arg", 0, "self")
    init = {}
    names = field_names(s.ret)
    if names is None:
        return None
    for n, v in zip(names, s.ret.args[1:]):
        init[n] = v
    ctor = []
    for a in s.args:
        fs = [n for n, v in init.items() if v is a]
        ctor.append(fs[0] if len(fs) == 1 else None)
    return init, ctor


def field_names(t):
    d = t.args[0]
    for x in d:
        if isinstance(x, tuple) and all(isinstance(y, str) for y in x):
            return list(x)
    return None


def ref_field(t):
    """field of self a returned reference designates"""
    if t.op == "field" and t.args[0].op == "arg" and t.args[0].args[0] == 0:
        return t.args[1]
    return None


def step_offset(ctx):
    """0 when the step count is advanced before the updates of a step, 1 when after"""
    s = ctx.summary("optimizer::Optimizer::update_parameters", policies.OptLayer)
    if s is None:
        return 1
    seen = []
    for e, p in walk(s.effects):
        if e.kind == "call" and e.name.endswith("Optimizer::update_parameter"):
            seen.append("u")
        if e.kind == "set" and contains(e.base, lambda x: x.op == "call" and x.args[0].endswith("::epoch")):
            seen.append("e")
    return 0 if seen[:2] == ["e", "u"] else 1


def run_rules(ctx):
    ctx.rule = ("Each optimizer's update is executed over symbolic tensors in program order; the resulting value and state expressions are compared, over the reals, with the "
                "published recurrences. State creation must be guarded by the absence of the same state and start at zero.")
    found = optimizers(ctx)
    off = step_offset(ctx)
    for name, (rule, nh, roles) in RULES.items():
        f = ctx.fn(name + ".Optimizer::update_parameter")
        if f is None:
            ctx.violation("anchor:" + name, "no update rule found for optimizer " + name)
            continue
        w = ctx.where(f)
        s = ctx.summary(f, policies.OptLayer)
        sf = struct_fields(ctx, name)
        if s is None or sf is None:
            ctx.undecided(name, "constructor or update rule not in reach")
            continue
        init, ctor = sf
        if len(ctor) != nh or any(c is None for c in ctor):
            ctx.violation("ctor:" + name, "%s::new does not store each of its %d arguments in a field of its own" % (name, nh), ctx.where(name + "::new"))
            continue
        ctx.ok("ctor:" + name)
        me, sc, par = s.args[0], s.args[1], s.args[2]
        es = ctx.summary(name + ".OptimizerBase::epoch", policies.OptLayer)
        ef = ref_field(es.ret) if es and es.ret is not None else None
        first = off
        if ef is None or not is_num(init.get(ef, V)):
            ctx.undecided(name + ":epoch", "step counter not identified")
            ef = ef or "epoch"
        else:
            first = off - int(init[ef].args[0])

        def leaf(t):
            if t is sc:
                return SCALE
            if t.op == "field" and t.args[0] is me:
                if t.args[1] in ctor:
                    return mk("par", ctor.index(t.args[1]))
                if t.args[1] == ef:
                    return mk("par", "epoch")
                return mk("par", "field " + t.args[1])
            return None
        x = Exec(param_place(par), leaf)
        try:
            x.run(unroll(s.effects))
        except Opaque as o:
            ctx.undecided(name, str(o))
            continue
        nf = NF()
        h = [mk("par", i) for i in range(nh)]
        ep = mk("i2f", mk("par", "epoch"))
        t = fadd(ep, num(first)) if first else ep
        used = sorted({p for p in x.state if p.startswith("S:")})
        best = None
        done = False
        for perm in itertools.permutations(used, len(roles)) if len(used) >= len(roles) else []:
            st = {r: mk("opv", p) for r, p in zip(roles, perm)}
            v2, m2 = rule(G, V, h, SCALE, t, st)
            bad = []
            try:
                cmpv(nf, bad, "value", x.read("V"), v2)
                cmpv(nf, bad, "gradient", x.read("G"), G)
                for r, p in zip(roles, perm):
                    cmpv(nf, bad, "state " + p[2:], x.read(p), m2[r])
                for p in used:
                    if p not in perm:
                        bad.append(("extra", "updates an additional state %s" % p[2:], False))
            except (tens.NotTensor, alg.Unknown, alg.NeedCond, AttributeError) as e:
                ctx.undecided(name, repr(e)[:200])
                done = True
                break
            if not bad:
                done = True
                ctx.ok(name + ": update rule")
                for e in x.events:
                    if e[0] == "set":
                        ctx.violation(name, "the update also writes %s" % show(e[2].base)[:100], w)
                break
            if best is None or len(bad) < len(best):
                best = bad
        if not done:
            if best is None:
                ctx.violation(name, "keeps %d state tensors, its published rule has %d" % (len(used), len(roles)), w)
            elif any(b[2] for b in best):
                ctx.undecided(name, "; ".join(b[1] for b in best)[:300])
            else:
                ctx.violation(name, "; ".join("%s: %s" % (b[0], b[1]) for b in best)[:1500], w)
        configured(ctx, name, used)
    for n in found:
        if n not in RULES:
            ctx.undecided(n, "no published rule recorded for this optimizer")
    ctx.floor("optimizers", len(found), 3)
    add_stat(ctx)


def cmpv(nf, bad, what, got, want):
    a, b = nf(got), nf(want)
    if not alg.equal(a, b):
        op = contains(alg.key(a), lambda u: u.op in ("pif", "call", "havoc", "phi", "ite", "index", "ld"))
        bad.append((what, "becomes %s, the published rule gives %s" % (show(got)[:500], show(want)[:400]), op))


def configured(ctx, name, used):
    f = ctx.fn(name + ".Optimizer::configure_parameter")
    s = ctx.summary(f, policies.OptLayer) if f else None
    if s is None:
        ctx.undecided(name + ":configure", "not in reach")
        return
    w = ctx.where(f)
    par = s.args[1]
    made = set()
    for e, path in walk(unroll(s.effects)):
        if e.kind != "call" or not ("HashMap" in e.name and e.name.endswith("::insert")):
            continue
        key = strval(e.args[1]) or (strval(e.args[1].args[0]) if e.args[1].op == "tostr" else None)
        if key is None:
            ctx.undecided(name + ":configure", "state name " + show(e.args[1])[:80])
            continue
        made.add("S:" + key)
        k = "%s: state %s" % (name, key)
        guards = [strip_occ_all(c) for p in path if p[0] == "if" for c in [p[1]]]
        has = [g for g in guards if g.op == "not" and is_has(g.args[0], key)]
        other = [g for g in guards if g.op == "not" and g not in has and g.args[0].op == "call" and "contains_key" in str(g.args[0].args[0])]
        if has:
            ctx.ok(k + " created when absent")
        else:
            ctx.violation(k, "state %s is created %s: configuring a parameter twice fails or loses its state" % (
                key, "when another state is absent" if other else "unconditionally"), w)
        t = e.args[2]
        if t.op == "call" and t.args[0] == "Device::new_tensor_by_constant":
            sh, c = t.args[2], t.args[3]
            want = field(field(par, None, "value"), None, "shape")
            if sh is not want:
                ctx.violation(k, "state %s has shape %s, not the parameter's" % (key, show(sh)[:100]), w)
            elif not is_zero(c):
                ctx.violation(k, "state %s starts at %s, not at zero" % (key, show(c)[:60]), w)
            else:
                ctx.ok(k + " zero-initialised")
        else:
            ctx.undecided(k, "initial value " + show(t)[:100])
    for u in used:
        if u not in made:
            ctx.violation("%s: state %s" % (name, u[2:]), "the update uses state %s, which configure_parameter never creates" % u[2:], w)


def strip_occ_all(t):
    def f(u):
        v = strip_occ_last(u)
        return v if v is not u else None
    return rewrite(t, f)


def is_has(t, key):
    return t.op == "call" and "contains_key" in t.args[0] and strval(t.args[2]) == key


def add_stat(ctx):
    f = ctx.fn("Parameter::add_stat")
    if f is None:
        return
    s = ctx.summary(f, policies.OptLayer)
    if s is None:
        return
    w = ctx.where(f)
    ins = [e for e, p in walk(s.effects) if e.kind == "call" and "HashMap" in e.name and e.name.endswith("::insert")]
    if len(ins) != 1:
        ctx.undecided("Parameter::add_stat", "%d insertions" % len(ins))
        return
    t = ins[0].args[2]
    nm = ins[0].args[1]
    nm = nm.args[0] if nm.op == "tostr" else nm
    ctx.require(nm is s.args[1], "add_stat: name", "the statistic is stored under %s" % show(nm)[:100], w)
    if t.op == "call" and t.args[0] == "Device::new_tensor_by_constant":
        ctx.require(t.args[2] is s.args[2] and is_zero(t.args[3]), "add_stat: value", "the statistic starts as %s" % show(t)[:200], w)
    else:
        ctx.undecided("add_stat: value", show(t)[:100])


# ---------------------------------------------------------------- one step
def run_step(ctx):
    ctx.rule = ("update_parameters is executed over a generic parameter in program order; the gradient handed to the update rule is compared with the decayed and clipped gradient "
                "in every combination of settings, and the order and number of updates, resets and step increments is checked. Accessors of every optimizer are paired.")
    f = ctx.fn("optimizer::Optimizer::update_parameters")
    if f is None:
        ctx.violation("anchor:update_parameters", "no optimisation step found")
        return
    step(ctx, f)
    accessors(ctx)
    delegates(ctx)


def getter(t, name):
    t = strip_occ_last(t)
    return t.op == "call" and t.args[0].endswith("OptimizerBase::" + name)


class StepExec(Exec):
    def __init__(self, params):
        self.params = params

        def place(t):
            if t.op == "field" and t.args[1] in ("value", "gradient") and t.args[0].op == "index" and t.args[0].args[0] is params:
                return "V" if t.args[1] == "value" else "G"
            return None

        def leaf(t):
            if getter(t, "get_weight_decay"):
                return WD
            if getter(t, "get_gradient_clipping"):
                return CLIP
            if getter(t, "get_learning_rate_scaling"):
                return SCALE
            return None
        Exec.__init__(self, place, leaf)

    def every(self, e):
        n = mk("len", self.params)
        if e.N is n:
            return True
        d = isub(e.N, n)
        if is_num(d) and d.args[0] < 0 and any(self.touches(x) for x, _ in walk(e.body)):
            raise Partial("a loop of the step covers %s of the %s parameters" % (show(e.N), show(n)))
        return False

    def touches(self, e):
        return e.kind == "call" and (ASSIGN.match(e.name) or e.name.endswith(("Optimizer::update_parameter", "Tensor::reset")) or not self.single) and \
            any(contains(a, lambda u: u.op == "index" and u.args[0] is self.params) for a in e.args if isinstance(a, T))

    def call(self, e, conds):
        if e.name.endswith("Optimizer::update_parameter"):
            self.events.append(("update", conds, e, self.ev(e.args[1]), e.args[2], self.read("G"), self.read("V")))
            return
        if e.name.endswith("OptimizerBase::epoch"):
            return
        Exec.call(self, e, conds)


def step(ctx, f):
    w = ctx.where(f)
    s = ctx.summary(f, policies.OptLayer)
    if s is None:
        return
    x = StepExec(s.args[1])
    # a parameter handled on its own, outside the loops
    x.single = any(contains(a, lambda u: u.op == "index" and u.args[0] is s.args[1] and is_num(u.args[1]))
                   for e, p in walk(s.effects) if e.kind == "call" for a in e.args if isinstance(a, T))
    try:
        x.run(unroll(s.effects))
    except Opaque as o:
        ctx.undecided("update_parameters", str(o))
        return
    except Partial as o:
        ctx.violation("update_parameters: every parameter", str(o), w)
        return
    nf = NF()
    ups = [e for e in x.events if e[0] == "update"]
    if len(ups) != 1:
        ctx.violation("update_parameters: updates", "the update rule is applied %s per parameter and step" % ("%d times" % len(ups)), w)
        return
    up = ups[0]
    eachs = [c for c in up[1] if isinstance(c, tuple)]
    guards = [c for c in up[1] if not isinstance(c, tuple)]
    if guards:
        ctx.violation("update_parameters: updates", "parameters are only updated when %s" % "; ".join(show(c) for c in guards)[:300], w)
    else:
        ctx.ok("update_parameters: every parameter updated once")
    ctx.require(up[3] is SCALE, "update_parameters: scale", "the update rule receives %s instead of the learning-rate scale" % show(up[3])[:200], w)
    ctx.require(up[6] is V, "update_parameters: value", "parameter values are changed to %s outside the update rule" % show(up[6])[:200], w)
    final = x.read("G")
    ctx.require(is_zero(final), "update_parameters: gradients cleared", "after the step a gradient is %s, not zero" % show(final)[:300], w)
    gradient(ctx, nf, up[5], w)
    # step counter
    sets = [e for e in x.events if e[0] == "set" and contains(e[2].base, lambda u: getter(u, "epoch"))]
    oth = [e for e in x.events if e[0] == "set" and e not in sets]
    if oth:
        ctx.undecided("update_parameters", "writes " + show(oth[0][2].base)[:100])
    if len(sets) != 1 or sets[0][1]:
        ctx.violation("update_parameters: step count", "the step count is advanced %s" % ("conditionally or per parameter" if sets else "never"), w)
    else:
        v = strip_occ_all(sets[0][2].val)
        base = strip_occ_all(sets[0][2].base)
        ctx.require(isub(v, ONE) is base or isub(v, ONE).op == "call" and getter(isub(v, ONE), "epoch"), "update_parameters: step count",
                    "the step count becomes %s" % show(v)[:200], w)


def is_part(t):
    """a proper part of a list, in general"""
    if t.op != "subslice" or len(t.args) < 3:
        return False
    return is_num(t.args[2]) or is_num(t.args[1]) and t.args[1].args[0] > 0


class Cond(Exception):
    pass


def scen(wd, clip, exceed, nf, want_s, bad):
    def dec(c):
        if c.op == "not":
            return not dec(c.args[0])
        if c.op == "and":
            return all(dec(y) for y in c.args)
        if c.op == "or":
            return any(dec(y) for y in c.args)
        if c.op == "bool":
            return bool(c.args[0])
        if c.op in ("flt", "fle", "feq"):
            a, b = c.args
            if clip and want_s is not None:
                # the factor threshold / norm takes every value between zero and one, or every value from one on
                for x, y in ((a, b), (b, a)):
                    if is_num(y) and alg.equal(nf(nf.resolve(x, dec)), nf(fdiv(CLIP, fsqrt(want_s)))):
                        v = y.args[0]
                        if (0 < v < 1) if exceed else v > 1:
                            bad.append("the clipping factor is treated differently from %s on" % show(y))
                        below = exceed and v >= 1
                        return (x is a) == below if c.op != "feq" else False
        if c.op in ("flt", "fle", "feq"):
            a, b = c.args
            for x, on in ((WD, wd), (CLIP, clip)):
                if is_zero(a) and b is x or c.op == "feq" and is_zero(b) and a is x:
                    # settings are never negative
                    return {"flt": on, "fle": True, "feq": not on}[c.op]
                if is_zero(b) and a is x:
                    return {"flt": False, "fle": not on, "feq": not on}[c.op]
            if c.op in ("flt", "fle"):
                for lo, hi, r in ((a, b, True), (b, a, False)):
                    # lo < hi : threshold against norm
                    if contains(hi, lambda u: u.op == "sumP") and not contains(lo, lambda u: u.op == "sumP"):
                        h = nf.resolve(hi, dec)
                        l = nf.resolve(lo, dec)
                        hn, ln = nf(h), nf(l)
                        sq = nf(want_s)
                        ok = alg.equal(hn, sq) and alg.equal(ln, nf(fmul(CLIP, CLIP))) or \
                            alg.equal(hn, nf(fsqrt(want_s))) and alg.equal(ln, nf(CLIP))
                        if not ok:
                            bad.append("clipping compares %s with %s" % (show(h)[:300], show(l)[:100]))
                        return exceed if r else not exceed
                    if contains(lo, lambda u: u is CLIP) and not contains(hi, lambda u: u.op in ("sumP", "fsum", "phi", "fold", "havoc")) and \
                            contains(hi, lambda u: u is G):
                        bad.append("clipping compares the norm of a single gradient with %s" % show(lo)[:100])
                        return exceed if r else not exceed
        raise Cond("condition " + show(c)[:1500])
    return dec


def gradient(ctx, nf, got, w):
    for wd in (False, True):
        g1 = fadd(G, fmul(WD, V)) if wd else G
        want_s = mk("sumP", mk("top", "sumall", nf.tn.key(fmul(g1, g1))))
        for clip, exceed in ((False, False), (False, True), (True, False), (True, True)):
            nm = "decay %s, clipping %s%s" % ("on" if wd else "off", "on" if clip else "off", ", norm %s threshold" % ("above" if exceed else "within") if clip else "")
            k = "update_parameters: " + nm + (" (norm above zero)" if not clip and exceed else "")
            zero = {}
            if not wd:
                zero[WD] = num(0)
            if not clip:
                zero[CLIP] = num(0)
            bad = []
            try:
                g = nf.resolve(got, scen(wd, clip, exceed, nf, want_s, bad))
                if zero:
                    g = subst(g, zero)
                if bad and clip:
                    ctx.violation(k, "with %s: %s" % (nm, bad[0]), w)
                    continue
                want = fmul(g1, fdiv(CLIP, fsqrt(want_s))) if clip and exceed else g1
                a, b = nf(g), nf(want)
            except Cond as e:
                ctx.undecided(k, str(e))
                continue
            except (tens.NotTensor, alg.Unknown, alg.NeedCond, AttributeError) as e:
                ctx.undecided(k, repr(e)[:200])
                continue
            if alg.equal(a, b):
                ctx.ok(k)
            elif contains(alg.key(a), lambda u: u.op in ("call", "havoc", "phi", "ite", "ld")):
                ctx.undecided(k, show(g)[:200])
            else:
                ctx.violation(k, "with %s the update rule receives gradient %s, expected %s" % (nm, show(g)[:500], show(want)[:300]), w)


PAIRS = ("learning_rate_scaling", "weight_decay", "gradient_clipping")
DEFAULT = {"learning_rate_scaling": 1, "weight_decay": 0, "gradient_clipping": 0}


def accessors(ctx):
    n = 0
    for name in optimizers(ctx):
        sf = struct_fields(ctx, name)
        got = {}
        for p in PAIRS:
            gs = ctx.fn("%s.OptimizerBase::get_%s" % (name, p))
            ss = ctx.fn("%s.OptimizerBase::set_%s" % (name, p))
            if gs is None or ss is None:
                ctx.undecided("%s:%s" % (name, p), "accessor not found")
                continue
            a, b = ctx.summary(gs, policies.OptLayer), ctx.summary(ss, policies.OptLayer)
            if a is None or b is None:
                continue
            n += 1
            k = "%s:%s" % (name, p)
            fl = ref_field(a.ret) if a.ret is not None else None
            sets = [(e, q) for e, q in walk(b.effects) if e.kind in ("set", "store")]
            asserts = [e for e in b.effects if e.kind == "assert"]
            if fl is None:
                if a.ret is None or contains(a.ret, lambda u: u.op in ("call", "havoc")):
                    ctx.undecided(k, "get_%s returns %s" % (p, show(a.ret)[:100] if a.ret is not None else "?"))
                else:
                    ctx.violation(k, "get_%s returns %s instead of a stored setting" % (p, show(a.ret)[:100]), ctx.where(gs))
                continue
            got.setdefault(fl, []).append(p)
            mine = [(e, q) for e, q in sets if set_field(e, b.args[0]) == fl]
            if len(sets) == 1 and mine and not mine[0][1] and mine[0][0].val is b.args[1]:
                ctx.ok(k + " reads back")
            elif not mine:
                ctx.violation(k, "set_%s stores into %s, get_%s reads %s" % (p, ",".join(str(set_field(e, b.args[0])) for e, _ in sets) or "nothing", p, fl), ctx.where(ss))
            elif mine[0][1]:
                ctx.violation(k, "set_%s stores the value only when %s" % (p, show(mine[0][1][-1][1])[:100] if mine[0][1][-1][0] == "if" else "looping"), ctx.where(ss))
            elif mine[-1][0].val is not b.args[1]:
                ctx.violation(k, "set_%s stores %s" % (p, show(mine[-1][0].val)[:100]), ctx.where(ss))
            else:
                ctx.violation(k, "set_%s also changes %s" % (p, ", ".join(str(set_field(e, b.args[0])) for e, _ in sets)), ctx.where(ss))
            neg = rejects_negative(asserts, b.args[1])
            if neg is True:
                ctx.ok(k + " rejects negative settings")
            elif neg is None:
                ctx.undecided(k, "range check " + "; ".join(show(e.cond)[:60] for e in asserts))
            else:
                ctx.violation(k + " range", "set_%s %s" % (p, neg), ctx.where(ss))
            if sf:
                v = sf[0].get(fl)
                if v is not None:
                    ctx.require(is_num(v) and v.args[0] == DEFAULT[p], k + " default", "%s starts at %s" % (p, show(v)[:60]), ctx.where(name + "::new"))
        for fl, ps in got.items():
            if len(ps) > 1:
                ctx.violation("%s:%s" % (name, fl), "%s share the field %s" % (" and ".join(ps), fl), ctx.where(name + "::new"))
        es = ctx.summary(name + ".OptimizerBase::epoch", policies.OptLayer) if ctx.fn(name + ".OptimizerBase::epoch") else None
        if es is not None and es.ret is not None:
            ef = ref_field(es.ret)
            if ef is not None and sf:
                ctx.require(is_zero(sf[0].get(ef, ONE)) and ef not in got, name + ":epoch", "the step counter %s starts at %s%s" % (
                    ef, show(sf[0].get(ef)) if ef in sf[0] else "?", " and is shared with %s" % got[ef] if ef in got else ""), ctx.where(name + "::new"))
    ctx.floor("setting accessors", n, 9)


def set_field(e, me):
    b, p = e.base, e.path if e.kind == "set" else ()
    if b is me and p:
        x = p[0]
        return x[-1] if isinstance(x, tuple) else x
    if b.op == "field" and b.args[0] is me:
        return b.args[1]
    return None


def rejects_negative(asserts, a):
    """True, None (unknown) or why not"""
    cs = []
    for e in asserts:
        cs += list(e.cond.args) if e.cond.op == "and" else [e.cond]
    for c in cs:
        if c.op == "fle" and is_zero(c.args[0]) and c.args[1] is a:
            return True
        if c.op == "not" and c.args[0].op == "flt" and c.args[0].args[0] is a and is_zero(c.args[0].args[1]):
            return True
    for c in cs:
        if c.op == "flt" and is_zero(c.args[0]) and c.args[1] is a:
            return "also rejects zero"
        if c.op in ("fle", "flt") and c.args[0] is a:
            return "requires %s" % show(c)
    if not [c for c in cs if contains(c, lambda u: u is a)]:
        return "accepts negative values"
    return None


def delegates(ctx):
    """configure/update entry points pass on every parameter"""
    f = ctx.fn("optimizer::Optimizer::configure_parameters")
    s = ctx.summary(f, policies.OptLayer) if f else None
    if s is not None:
        cs = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and e.name.endswith("Optimizer::configure_parameter")]
        good = len(cs) == 1 and len(cs[0][1]) == 1 and cs[0][1][0][0] == "loop" and cs[0][1][0][1].N.op == "len" and cs[0][1][0][1].N.args[0] is s.args[1] \
            and cs[0][0].args[1] is index(s.args[1], cs[0][1][0][1].k)
        if good:
            ctx.ok("configure_parameters: every parameter")
        elif len(cs) == 1 and cs[0][1] and cs[0][1][0][0] == "loop" and cs[0][1][0][1].lkind != "count":
            ctx.undecided("configure_parameters", "loop not counted")
        else:
            ctx.violation("configure_parameters", "configure_parameter is not applied to every parameter exactly once: %s" % (
                "; ".join(show(e.args[1])[:80] for e, p in cs)[:300] or "it is never called"), ctx.where(f))
    for nm, to in (("configure_model", "configure_parameters"), ("update_model", "update_parameters")):
        f = ctx.fn("optimizer::Optimizer::" + nm)
        s = ctx.summary(f, ModelLayer) if f else None
        if s is None:
            continue
        cs = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and e.name.endswith("Optimizer::" + to)]
        ok = len(cs) == 1 and not cs[0][1] and cs[0][0].args[1].op == "call" and cs[0][0].args[1].args[0].endswith("::parameters_mut") and cs[0][0].args[1].args[1] is s.args[1]
        if ok:
            ctx.ok(nm)
        elif cs and len(cs) == 1 and not cs[0][1] and is_part(cs[0][0].args[1]):
            ctx.violation(nm, "%s hands only some of the model's parameters to %s: %s" % (nm, to, show(cs[0][0].args[1])[:120]), ctx.where(f))
        elif cs and len(cs) == 1 and not cs[0][1]:
            ctx.undecided(nm, "passes " + show(cs[0][0].args[1])[:120])
        else:
            ctx.violation(nm, "%s does not hand every parameter of the model to %s exactly once" % (nm, to), ctx.where(f))


class ModelLayer(policies.OptLayer):
    def opaque(self, it, ref):
        n = ref.name(it)
        return policies.OptLayer.opaque(self, it, ref) or n.endswith(("::update_parameters", "::configure_parameters"))
