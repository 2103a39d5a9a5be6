"""Shape rules (conditions under which an operation is defined, and the shape it yields)."""
from terms import *
from effects import *
from compare import *
import policies
import shapespec as S


def fmtf(qf):
    q, f = qf
    return ("for all %s: " % ",".join(show(x) for x in q) if q else "") + show(f)


def report_guards(ctx, key, missing, extra, und, where, what):
    ml = [m for m in missing if not opaqueish(m[1])]
    if und and (missing or extra):
        # something not understood could be the rephrasing of what looks missing
        loopish = [m for m in missing if m[0]]
        if any(u[0] for u in und):
            missing = [m for m in missing if m not in loopish]
            extra = [m for m in extra if not m[0]]
    for m in missing:
        ctx.violation(key + ":missing:" + fmtf(m), "%s accepts operands violating `%s`" % (what, fmtf(m)), where)
    for m in extra:
        ctx.violation(key + ":extra:" + fmtf(m), "%s additionally requires `%s`" % (what, fmtf(m)), where)
    for m in und:
        ctx.undecided(key, "guard not decided: " + fmtf(m))
    return not missing and not extra


def instance(t, xs, n, syms):
    """the term for a list of exactly n operands"""
    t = subst(t, {length(xs): num(n)})
    t = subst(t, {index(xs, num(i)): syms[i] for i in range(n)})
    t = unroll(t)
    return subst(t, {index(xs, num(i)): syms[i] for i in range(n)})


def clean(t):
    def f(u):
        if u.op == "call" and u.args[0] == "Shape::has_same_loo_dims":
            a, b = [x for x in u.args[1:3]]
            while a.op == "call" and a.args[0] == "Shape::resize_batch":
                a = a.args[1]
            while b.op == "call" and b.args[0] == "Shape::resize_batch":
                b = b.args[1]
            if a is b:
                return TRUE
            if a.uid > b.uid:
                a, b = b, a
            return mk("call", u.args[0], a, b, u.args[3])
        if u.op == "field" and u.args[1] == "batch" and u.args[0].op == "call":
            return shape_den(u.args[0])[2]
        return None
    return rewrite(t, f)


def formula_at(groups, xs, n, syms):
    out = []
    for q, fs in groups:
        for f in fs:
            if len(q) > 1:
                return None
            if q:
                m = instance(q[0].args[1], xs, n, syms)
                if not is_num(m):
                    return None
                for i in range(int(m.args[0])):
                    out.append(instance(subst(f, {q[0]: num(i)}), xs, n, syms))
            else:
                out.append(instance(f, xs, n, syms))
    return lift(Canon()(clean(lift(band(*out)))))


def bounded(pre, ret, conds, shp, xs, upto=3):
    """the rule restricted to lists of 1..upto operands: None (not decided), or (ok, message)"""
    for n in range(1, upto + 1):
        syms = [mk("opv", "shape%d" % i) for i in range(n)]
        a = formula_at(list(pre.items()), xs, n, syms)
        b = formula_at([(q, [f]) for q, f in conds], xs, n, syms)
        if a is None or b is None or opaqueish(a) or opaqueish(b):
            return None
        r, w = [lift_t(clean(instance(t, xs, n, syms))) for t in (ret, shp)]
        cs = [x.args[0] for t in (r, w) for x in subterms(t) if x.op == "ite"]
        cs = [lift(Canon()(clean(c))) for c in cs]
        ms = assignments([a, b] + cs)
        if ms is None:
            return None
        for m in ms:
            if evalf(a, m) != evalf(b, m):
                return False, "with %d operands it %s the case %s" % (n, "accepts" if evalf(a, m) else "rejects", showm(m))
            if evalf(a, m):
                eqs = [f.args for f, v in m.items() if v and f.op == "eq"]
                u, v = pick_ite(r, m), pick_ite(w, m)
                if u is None or v is None:
                    return None
                eqf = [f for f, t in m.items() if t and f.op == "eq"] + [f for f, t in m.items() if t and f.op == "samedims"]
                k = same_shape(u, v, eqf)
                if k is None:
                    return None
                if not k:
                    return False, "with %d operands it yields %s instead of %s in the case %s" % (n, show(u), show(v), showm(m))
    return True, ""


def lift_t(t):
    return t


def pick_ite(t, m):
    def f(u):
        if u.op == "ite":
            c = lift(Canon()(clean(u.args[0])))
            try:
                return u.args[1] if evalf(c, m) else u.args[2]
            except KeyError:
                return None
        return None
    for _ in range(6):
        t = clean(rewrite(t, f))
    return None if contains(t, lambda u: u.op == "ite") else t


def showm(m):
    return ", ".join(("" if v else "not ") + show(f) for f, v in m.items())


def is_listrule(x):
    return x.op == "arg"


def run_rules(ctx):
    ctx.rule = ("For every public shape rule the set of asserted conditions (path conditions included, loops as "
                "universally quantified conditions) and the resulting shape are extracted from MIR as terms and compared, "
                "by congruence closure over asserted equalities and truth tables over the condition atoms, with the documented rule.")
    for n, spec in S.RULES.items():
        s = ctx.summary("shape_ops::" + n, policies.ShapeOpsLayer)
        if s is None:
            ctx.violation("anchor:" + n, "shape rule %s not found" % n)
            continue
        conds, shp = spec(*s.args)
        w = ctx.where("shape_ops::" + n)
        m, e, u = compare_guards(pre_formulas(s.effects), conds)
        r = same_shape(s.ret, shp, [f for q, f in conds if q == ()])
        if (m or e or u or not r) and is_listrule(s.args[0]) and n in ("concat", "batch_concat"):
            try:
                bd = bounded(pre_formulas(s.effects), s.ret, conds, shp, s.args[0])
            except (RecursionError, KeyError):
                bd = None
            if bd is not None and not bd[0]:
                ctx.violation("rule:" + n, "shape rule %s deviates from the documented rule: %s" % (n, bd[1][:800]), w)
                continue
            if bd is not None:
                ctx.ok("rule:%s for up to three operands" % n)
            ctx.undecided("rule:" + n, "not decided for any number of operands")
            continue
        if report_guards(ctx, n, m, e, u, w, "shape rule " + n):
            if not u:
                ctx.ok("guards:" + n)
        if r is None:
            ctx.undecided("result:" + n, show(s.ret)[:300])
        else:
            ctx.require(r, "result:" + n, "shape rule %s yields %s, documented %s" % (n, show(s.ret)[:400], show(shp)[:400]), w)


def shp_parts(t):
    return t.args if t.op == "shp" else (t, (), field(t, None, "batch"))


def same_shape(a, b, conds=()):
    c = Canon(conj_eqs([x for f in conds for x in split_conj(Canon()(f))]))
    x, y = shape_nf(Canon()(a), None), shape_nf(Canon()(b), None)
    if x is y:
        return True
    x, y = c(a), c(b)
    x = x if x.op == "shp" else shape_nf(x, c)
    y = y if y.op == "shp" else shape_nf(y, c)
    if x is y:
        return True
    x, y = [c(mk("shp", *shp_parts(t))) for t in (x, y)]
    if x is y:
        return True
    if opaqueish(x) or opaqueish(y):
        return None
    return False
