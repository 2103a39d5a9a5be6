"""Graph construction and traversal protocols."""
import itertools
import effects
from terms import *
from effects import *
from compare import *
import alg
import policies
from c_operator import K0, X, Y, GX, GY

POPS = ("BinaryHeap::pop", "VecDeque::pop_front", "VecDeque::pop_back", "Vec::pop")
PUSHES = ("BinaryHeap::push", "VecDeque::push_back", "VecDeque::push_front", "Vec::push")
LAYER = policies.GraphLayer


def root(t):
    """the place behind in-place updates"""
    while True:
        if t.op == "out" and t.args[0].op == "call" and is_num_like(t.args[1]):
            t = t.args[0].args[1 + int_of(t.args[1])]
        elif t.op == "ite":
            t = t.args[1] if t.args[1].op not in ("out",) else t.args[2]
        else:
            return t


def is_num_like(x):
    return isinstance(x, int) or (isinstance(x, T) and is_num(x))


def int_of(x):
    return x if isinstance(x, int) else int(x.args[0])


def F(t, *names):
    for n in names:
        t = field(t, None, n)
    return t


def conds(p):
    """path condition components split into atoms"""
    out = []

    def go(c):
        if c.op == "and":
            for x in c.args:
                go(x)
        elif c is not TRUE:
            out.append(c)
    for x in p:
        if x[0] == "if":
            go(x[1])
    return out


def loops(p):
    return [x[1] for x in p if x[0] == "loop"]


def popped(t):
    """the pop call a term projects from"""
    return next((u for u in subterms(t) if u.op == "call" and u.args[0] in POPS), None)


def neg(c):
    return (c.args[0], True) if c.op == "not" else (c, False)


def is_call(t, *names):
    return t.op == "call" and t.args[0] in names


def only_pop(cont, pop):
    """loop continues exactly while the container yields an element"""
    c, n = neg(cont)
    return c.op == "eq" and all(u.op != "call" or u is pop or contains(pop, lambda v: v is u) for u in subterms(c)) and \
        contains(c, lambda u: u.op == "discr" and u.args[0] is pop)


class Trav:
    """positions of the interesting effects of one traversal"""

    def __init__(self, effects, opcall):
        self.seq = list(walk(effects))
        self.calls = [(i, e, p) for i, (e, p) in enumerate(self.seq) if e.kind == "call"]
        self.op = [(i, e, p) for i, e, p in self.calls if e.name == opcall]

    def named(self, *names):
        return [(i, e, p) for i, e, p in self.calls if e.name in names]


def expect_seq(ctx, key, t, n, elem, what, where, me=None):
    if t.op == "out" or t.op == "st":
        t = root(t)
    if t.op != "seq":
        return ctx.undecided(key, "%s: %s" % (what, show(t)[:200]))
    e = seq_elem(t, K0)
    if t.args[0] is n and e is elem:
        return ctx.ok(key)
    if contains(subst(e, {me: mk("opv", "op")}) if me is not None else e, lambda u: u.op in ("phi", "havoc", "bad", "lost", "fold")):
        return ctx.undecided(key, "%s: %s" % (what, show(e)[:200]))
    ctx.violation(key, "%s are %s for %s elements, expected %s for %s" % (what, show(e)[:200], show(t.args[0])[:100], show(elem)[:200], show(n)[:100]), where)


def operator_calls(ctx, tag, tr, where, backward):
    """the operator invocations; returns [(op term, loop, pop call)]"""
    out = []
    for i, e, p in tr.op:
        recv = e.args[0]
        if not (recv.op == "field" and recv.args[1] == "0"):
            ctx.undecided(tag + ":receiver", show(recv)[:200])
            continue
        o = recv.args[0]
        if not (o.op == "field" and o.args[1] == "operator"):
            ctx.undecided(tag + ":receiver", show(recv)[:200])
            continue
        o = o.args[0]
        nargs, nrets = length(F(o, "args")), length(F(o, "rets"))
        a = index(F(o, "args"), K0)
        own = index(F(a, "op", "rets"), F(a, "vid"))
        r = index(F(o, "rets"), K0)
        if backward:
            exp = [(nargs, F(own, "value"), "argument values"), (nrets, F(r, "value"), "result values"),
                   (nrets, F(r, "gradient"), "result gradients"), (nargs, F(own, "gradient"), "argument gradients")]
        else:
            exp = [(nargs, F(own, "value"), "argument values"), (nrets, F(r, "value"), "result places")]
        if len(e.args) != 1 + len(exp):
            ctx.undecided(tag + ":args", "unexpected arity")
        else:
            for t, (n, el, w) in zip(e.args[1:], exp):
                expect_seq(ctx, tag + ":" + w, t, n, el, "the %s handed to an operator" % w, where, o)
        pop = popped(o)
        ws = [l for l in loops(p) if l.lkind != "count"]
        if pop is None or not ws:
            ctx.undecided(tag + ":schedule", "operators are not taken from a work list")
            continue
        w = ws[-1]
        out.append((i, o, w, pop, p))
    return out


def cmp_order(ctx):
    """'asc' when a larger depth compares greater, 'desc' reversed, None unknown; plus text"""
    for n, fs in ctx.byname.items():
        if n.startswith("OperatorInfoCmp") and n.endswith("PartialOrd<OperatorInfoCmp<>>::partial_cmp") or \
                (n.startswith("OperatorInfoCmp") and n.endswith("::partial_cmp")):
            s = ctx.summary(fs[0], LAYER)
            if s is None or s.ret is None:
                return None, "no summary"
            r = s.ret
            flip = False
            if r.op == "agg" and "Some" in str(r.args[0]):
                r = r.args[1]
            if is_call(r, "usize.PartialOrd<usize>::partial_cmp", "usize.PartialOrd::partial_cmp"):
                pass
            while r.op == "call" and (r.args[0].endswith("Ordering::reverse")):
                flip = not flip
                r = r.args[1]
            if not (r.op == "call" and (r.args[0].endswith("::cmp") or r.args[0].endswith("::partial_cmp"))):
                return None, show(r)
            a, b = r.args[1], r.args[2]
            x, y = s.args[:2]

            def key(t, base):
                return subst(t, {base: mk("opv", "op")})
            if contains(a, lambda u: u is y):
                a, b, flip = b, a, not flip
            ka, kb = key(a, x), key(b, y)
            if ka is not kb:
                return None, show(r)
            if ka.op == "field" and ka.args[1] == "depth":
                return ("desc" if flip else "asc"), ""
            return "other", show(r)
    return None, "ordering not found"


def heap_item(t):
    """(number of Reverse wrappers, operator inside) of a pushed item"""
    n = 0
    while t.op == "agg":
        if "Reverse" in str(t.args[0]):
            n += 1
        xs = [x for x in t.args[1:] if isinstance(x, T)]
        if len(xs) != 1:
            return n, None
        t = xs[0]
    return n, t


def schedule(ctx, tag, tr, o, w, pop, where, backward):
    """direction of the ordered schedule; returns the push site into it"""
    if not only_pop(w.cont, pop):
        ctx.violation(tag + ":stop", "the scheduled operators are not all processed: the loop continues only while %s" % show(w.cont)[:300], where)
    else:
        ctx.ok(tag + ":stop")
    if pop.args[0] != "BinaryHeap::pop":
        ctx.undecided(tag + ":order", "schedule is not a heap")
        return None
    ps = tr.named("BinaryHeap::push")
    if len(ps) != 1:
        ctx.undecided(tag + ":order", "%d pushes" % len(ps))
        return None
    i, e, p = ps[0]
    rev, q = heap_item(e.args[1])
    if q is None:
        ctx.undecided(tag + ":order", show(e.args[1])[:200])
        return None
    d, txt = cmp_order(ctx)
    if d is None:
        ctx.undecided(tag + ":order", txt)
    elif d == "other":
        ctx.violation(tag + ":order", "operators are scheduled by %s, not by depth" % txt, where)
    else:
        largest = (d == "asc") == (rev % 2 == 0)
        ctx.require(largest == backward, tag + ":order", "operators are run with the %s depth first" % ("largest" if largest else "smallest"), where)
    return i, e, p, q


def visited_key(t, q):
    """does a set key identify the operator q?"""
    if t is q:
        return True
    if t.op == "call" and ("as_ptr" in t.args[0] or "addr" in t.args[0]) and t.args[1] is q:
        return True
    if t.op in ("cast", "ptr", "addr") and t.args[-1] is q:
        return True
    if t.op == "field" and contains(t, lambda u: u is q) or contains(q, lambda u: u is t):
        return False
    return None


def visit_guard(c, q):
    """'new' when the condition says q was not seen before, 'fwd' when it says q is not yet evaluated, 'bad' wrong key, None unknown"""
    c, n = neg(c)
    if c.op == "call" and c.args[0] in ("HashSet::contains", "BTreeSet::contains", "Vec::contains") and n or \
            c.op == "call" and c.args[0] in ("HashSet::insert", "BTreeSet::insert") and not n:
        k = visited_key(c.args[2], q)
        return "new" if k else "bad" if k is False else None
    if is_call(c, "Cell::get") and c.args[1] is F(q, "forwarded"):
        return "fwd" if n else None
    return None


def worklist(ctx, tag, tr, push, start, where, backward):
    """every operator the start depends on is scheduled, once; returns the worklist loop and its operator"""
    i, e, p, q = push
    ws = [l for l in loops(p) if l.lkind != "count"]
    pop = popped(q)
    if pop is None or not ws:
        ctx.undecided(tag + ":reach", "no work list")
        return None
    w = ws[-1]
    if not only_pop(w.cont, pop):
        ctx.violation(tag + ":reach:stop", "the walk over dependencies stops early: it continues only while %s" % show(w.cont)[:300], where)
    else:
        ctx.ok(tag + ":reach:stop")
    dedup = False
    bad = False
    for c in conds(p):
        g = visit_guard(c, q)
        if g == "new":
            dedup = True
        elif g == "fwd" and not backward:
            pass
        elif g == "bad":
            bad = True
            ctx.violation(tag + ":once", "operators are recognised as already seen by %s, which does not identify them" % show(c)[:200], where)
        else:
            bad = True
            ctx.violation(tag + ":reach", "a reached operator is scheduled only when %s" % show(c)[:200], where)
    # where dependencies enter the work list
    qs = [(j, f, r) for j, f, r in tr.named(*PUSHES) if f.name != "BinaryHeap::push" and any(l is w for l in loops(r))]
    if len(qs) != 1:
        if not qs:
            ctx.violation(tag + ":reach", "dependencies of a reached operator are never visited", where)
        else:
            ctx.undecided(tag + ":reach", "%d work list pushes" % len(qs))
        return w, q
    j, f, r = qs[0]
    x = f.args[1]
    il = [l for l in loops(r) if l is not w]
    if len(il) != 1 or not (x.op == "field" and x.args[1] == "op"):
        ctx.undecided(tag + ":reach", show(x)[:200])
        return w, q
    l = il[0]
    a = x.args[0]
    if not (a.op == "index" and a.args[0] is F(q, "args")):
        ctx.violation(tag + ":reach", "visits %s instead of the operator's arguments" % show(x)[:200], where)
        return w, q
    n = length(F(q, "args"))
    full = l.lkind == "count" and l.N is n and (a.args[1] is l.k or a.args[1] is isub(isub(n, ONE), l.k))
    if not full:
        if l.lkind == "count" and not contains(subst(l.N, {q: mk("opv", "op")}), lambda u: u.op in ("phi", "N")):
            ctx.violation(tag + ":reach", "visits only %s of %s arguments (index %s)" % (show(l.N)[:100], show(n)[:100], show(a.args[1])[:60]), where)
        else:
            ctx.undecided(tag + ":reach", "argument loop " + show(l.N)[:100])
        return w, q
    inner = [c for c in conds(r[r.index(("loop", w)) + 1:] if ("loop", w) in r else r)]
    for c in inner:
        g = visit_guard(c, x)
        if g != "new" and visit_guard(c, q) == "new":
            dedup = True
            continue
        if g == "new":
            cc, ng = neg(c)
            if cc.args[0].endswith("contains"):
                ins = [z for z in tr.named("HashSet::insert", "BTreeSet::insert", "Vec::push") if z[2] == r and z[1].args[1] is cc.args[2]]
                if not ins:
                    allins = tr.named("HashSet::insert", "BTreeSet::insert")
                    inw = [z for z in allins if any(l2 is w for l2 in loops(z[2]))]
                    if any(z[1].args[1] is q and z[2] == p for z in inw):
                        continue          # remembered when taken from the list: seen twice before that, see below
                    ctx.violation(tag + ":once", "a visited operator is not remembered", where) if backward else None
                    bad = True
                    continue
            dedup = True
        elif g == "fwd" and not backward:
            pass
        elif not backward and visit_guard(c, q) == "fwd":
            pass          # what an evaluated operator needed has been computed
        elif c.op == "lt" and c.args[0] is F(x, "depth") and c.args[1] is F(q, "depth"):
            pass          # an argument is always less deep (judged where operators are made)
        elif g == "bad":
            bad = True
            ctx.violation(tag + ":once", "operators are recognised as already seen by %s, which does not identify them" % show(c)[:200], where)
        else:
            bad = True
            ctx.violation(tag + ":reach", "an argument is visited only when %s" % show(c)[:200], where)
    if not bad:
        ctx.ok(tag + ":reach")
        if backward:
            ctx.require(dedup, tag + ":once", "an operator reached twice is scheduled twice", where)
        elif dedup:
            ctx.ok(tag + ":once")
    # the walk starts at the requested operator
    st = [z for z in tr.named(*PUSHES) if z[1].name != "BinaryHeap::push" and not loops(z[2]) and z[0] < i]
    if len(st) == 1:
        ctx.require(st[0][1].args[1] is start and not conds(st[0][2]), tag + ":start", "the walk starts at %s" % show(st[0][1].args[1])[:200], where)
    elif not any(l.phis for l in [w]) or not st:
        ctx.undecided(tag + ":start", "%d initial pushes" % len(st))
    return w, q


def run_eval(ctx):
    ctx.rule = ("Traversals are summarised from Node::forward and Node::backward with helpers looked through. Decided: the operator runs with its own "
                "arguments' values/gradients in order; it is taken from an ordered heap whose direction follows from the Ord impl and the wrappers; "
                "all scheduled operators are processed; the work list starts at the node's operator, visits every argument, remembers by identity; "
                "the evaluated flag guards and is set; depth at construction exceeds every argument's depth; a node names its own result.")
    ctx.prog
    construction(ctx)
    sf, sb = ctx.fn("Node<>::forward"), ctx.fn("Node<>::backward")
    if sf is None or sb is None:
        return ctx.violation("anchor:graph", "Node::forward / Node::backward not found")
    wf, wb = ctx.where(sf), ctx.where(sb)
    s = ctx.summary(sf, LAYER)
    if s is None:
        return ctx.undecided("forward", "no summary")
    forward_rules(ctx, "forward", s, wf)
    s = ctx.summary(sb, LAYER)
    if s is None:
        return ctx.undecided("backward", "no summary")
    fw = [i for i, (e, p) in enumerate(walk(s.effects)) if e.kind == "call" and e.name == "Operator.Operator::forward"]
    bw = [i for i, (e, p) in enumerate(walk(s.effects)) if e.kind == "call" and e.name == "Operator.Operator::backward"]
    if not bw:
        return ctx.violation("backward:runs", "differentiating a node runs no operator", wb)
    if not fw:
        ctx.violation("backward:evaluated", "a node is differentiated without being evaluated first", wb)
    else:
        ctx.require(max(fw) < min(bw), "backward:evaluated", "operators are differentiated before they are evaluated", wb)
        forward_rules(ctx, "backward:forward", s, wb, quiet=True)
    tr = Trav(s.effects, "Operator.Operator::backward")
    me = F(s.args[0], "data", "op")
    tr_b = cut(tr, max(fw) if fw else -1)
    for i, o, w, pop, p in operator_calls(ctx, "backward", tr_b, wb, True):
        inner = inner_conds(p, w)
        if inner:
            ctx.violation("backward:all", "a scheduled operator is differentiated only when %s" % "; ".join(show(c)[:150] for c in inner), wb)
        else:
            ctx.ok("backward:all")
        push = schedule(ctx, "backward", tr_b, o, w, pop, wb, True)
        if push:
            worklist(ctx, "backward", tr_b, push, me, wb, True)
    if len(tr_b.op) > 1:
        ctx.violation("backward:sites", "an operator is differentiated at %d places" % len(tr_b.op), wb) if False else ctx.undecided("backward:sites", "several")


def inner_conds(p, w):
    idx = next((k for k, x in enumerate(p) if x[0] == "loop" and x[1] is w), -1)
    return conds(p[idx + 1:])


def cut(tr, i0):
    t = Trav.__new__(Trav)
    t.seq = tr.seq
    t.calls = [c for c in tr.calls if c[0] > i0]
    t.op = [c for c in tr.op if c[0] > i0]
    return t


def forward_rules(ctx, tag, s, where, quiet=False):
    tr = Trav(s.effects, "Operator.Operator::forward")
    if not tr.op:
        return ctx.violation(tag + ":runs", "evaluating a node runs no operator", where)
    last = max(i for i, e, p in tr.op)
    for i, o, w, pop, p in operator_calls(ctx, tag, tr, where, False):
        flag = F(o, "forwarded")
        guarded = False
        for c in inner_conds(p, w):
            g = visit_guard(c, o)
            if g == "fwd":
                guarded = True
            else:
                ctx.violation(tag + ":all", "a scheduled operator is evaluated only when %s" % show(c)[:200], where)
        t2 = Trav.__new__(Trav)
        t2.seq, t2.calls, t2.op = tr.seq, [c for c in tr.calls if c[0] <= last + 4], tr.op
        heap = [z for z in t2.named("BinaryHeap::push")]
        if len(heap) == 1 and not guarded:
            q = heap_item(heap[0][1].args[1])[1]
            guarded = q is not None and any(visit_guard(c, q) == "fwd" for c in conds(heap[0][2]))
        sets = [z for z in tr.named("Cell::set") if any(l is w for l in loops(z[2])) and z[1].args[0] is flag]
        others = [z for z in tr.named("Cell::set") if z[1].args[0] is not flag and z[1].args[0].op == "field" and z[1].args[0].args[1] == "forwarded"]
        if others:
            ctx.violation(tag + ":flag", "marks %s as evaluated instead of the operator it runs" % show(others[0][1].args[0])[:200], where)
        elif not guarded:
            if tr.named("Cell::get") and not sets:
                ctx.undecided(tag + ":flag", "flag handled elsewhere")
            else:
                ctx.violation(tag + ":flag", "an operator already evaluated is evaluated again", where)
        elif not sets or not any(z[1].args[1] is TRUE and (z[2] == p or set(conds(z[2])) <= set(conds(p))) for z in sets):
            if tr.named("Cell::replace", "Cell::swap"):
                ctx.undecided(tag + ":flag", "flag replaced")
            else:
                ctx.violation(tag + ":flag", "an evaluated operator is not marked as evaluated", where)
        else:
            ctx.ok(tag + ":flag")
        push = schedule(ctx, tag, first_heap(t2, last), o, w, pop, where, False)
        if push:
            worklist(ctx, tag, first_heap(t2, last), push, F(s.args[0], "data", "op"), where, False)


def first_heap(tr, last):
    t = Trav.__new__(Trav)
    t.seq, t.op = tr.seq, tr.op
    t.calls = [c for c in tr.calls if c[0] <= last]
    return t


# ---------------------------------------------------------------- construction
def generic(ctx, name):
    for f in ctx.byname.get(name, []):
        s = ctx.summary(f, LAYER)
        if s is not None and s.ret is not None:
            return f, s
    return None, None


def construction(ctx):
    f, s = generic(ctx, "OperatorInfo<>::new")
    if s is None:
        f, s = generic(ctx, "Node<>::create")
        return ctx.undecided("construct", "constructor not found") if s is None else None
    w = ctx.where(f)
    a = s.ret
    if a.op != "agg":
        return ctx.undecided("construct", show(a)[:200])
    xs = s.args[1]
    g = lambda n: field(a, None, n)
    x = index(xs, K0)
    d = g("args")
    if d.op == "seq":
        e = seq_elem(d, K0)
        ok = d.args[0] is length(xs) and field(e, None, "op") is F(x, "data", "op") and field(e, None, "vid") is F(x, "data", "vid")
        ctx.require(ok, "construct:args", "a new operator records arguments %s" % show(e)[:300], w)
    else:
        ctx.undecided("construct:args", show(d)[:200])
    # rets
    r = g("rets")
    if r.op == "seq":
        fs = next((u for u in subterms(r) if u.op == "call" and u.args[0].endswith("Operator::forward_shape")), None)
        if fs is None:
            ctx.undecided("construct:rets", show(r)[:200])
        else:
            e = seq_elem(r, K0)
            ashape = fs.args[2]
            own = index(F(x, "data", "op", "rets"), F(x, "data", "vid"))
            expect_seq(ctx, "construct:shapes", ashape, length(xs), F(own, "value", "shape"), "shapes handed to the new operator", w)
            good = r.args[0] is length(fs)
            for m in ("value", "gradient"):
                v = field(e, None, m)
                if is_call(v, "Device::new_tensor"):
                    good = good and v.args[2] is index(fs, K0)
                else:
                    good = None
                    break
            if good is None:
                ctx.undecided("construct:rets", show(e)[:200])
            else:
                ctx.require(good, "construct:rets", "results are created as %s" % show(e)[:300], w)
    else:
        ctx.undecided("construct:rets", show(r)[:200])
    ctx.require(g("forwarded") in (FALSE,), "construct:flag", "a new operator starts as %s" % show(g("forwarded"))[:100], w) \
        if g("forwarded") in (TRUE, FALSE) else ctx.undecided("construct:flag", show(g("forwarded"))[:100])
    depth(ctx, g("depth"), xs, w)
    f, s = generic(ctx, "Node<>::create")
    if s is None:
        return ctx.undecided("create", "no summary")
    r = s.ret
    w = ctx.where(f)
    if r.op != "seq":
        return ctx.undecided("create", show(r)[:200])
    e = seq_elem(r, K0)
    o, v = F(e, "data", "op"), F(e, "data", "vid")
    rets = field(o, None, "rets")
    ctx.require(v is K0, "create:vid", "the i-th node of a new operator names result %s" % show(v)[:100], w)
    if rets.op == "seq" or r.args[0].op == "len" or True:
        ctx.require(r.args[0] is length(rets), "create:count", "%s nodes are created for %s results" % (show(r.args[0])[:100], show(length(rets))[:100]), w)
    for m, fld in (("inner_value", "value"), ("inner_gradient", "gradient")):
        f, s = generic(ctx, "Node<>::" + m)
        if s is not None:
            me = s.args[0]
            want = F(index(F(me, "data", "op", "rets"), F(me, "data", "vid")), fld)
            ctx.require(s.ret is want, "node:" + m, "%s refers to %s" % (m, show(s.ret)[:200]), ctx.where(f))


def depth(ctx, d, xs, w):
    """strictly above every argument, decided over all orderings of up to three argument depths"""
    for n in (0, 1, 2, 3):
        t = unroll(subst(d, {length(xs): num(n)}))
        if contains(t, lambda u: u.op in ("fold", "phi", "acc", "lam", "havoc", "bad", "N")):
            return ctx.undecided("construct:depth", show(d)[:200])
        at = {F(index(xs, num(i)), "data", "op", "depth"): i for i in range(n)}
        for vals in itertools.product((1, 3, 6), repeat=n):
            r = simplify(subst(t, {a: num(vals[i]) for a, i in at.items()}))
            if not is_num(r):
                return ctx.undecided("construct:depth", show(r)[:200])
            if n and int(r.args[0]) <= max(vals):
                return ctx.violation("construct:depth", "an operator whose arguments have depths %s gets depth %s" % (list(vals), show(r)), w)
    ctx.ok("construct:depth")


def simplify(t):
    def f(u):
        if u.op == "ite" and u.args[0] in (TRUE, FALSE):
            return ite(*u.args)
        if u.op in ("imax", "imin") and all(is_num(x) for x in u.args):
            return num((max if u.op == "imax" else min)(int(x.args[0]) for x in u.args))
        return None
    return rewrite(t, f)


# ---------------------------------------------------------------- gradients
def run_grad(ctx):
    ctx.rule = ("From the summary of Node::backward: every result gradient of every operator taken from the work list is allocated when absent and reset to "
                "zero on all paths; exactly one gradient, the requested result's, is then reset to one; both precede every operator's backward; no other "
                "gradient write happens in the traversal.")
    ctx.prog
    f = ctx.fn("Node<>::backward")
    s = ctx.summary(f, LAYER) if f else None
    if s is None:
        return ctx.violation("anchor:graph", "Node::backward not analysed")
    w = ctx.where(f)
    fw = [i for i, (e, p) in enumerate(walk(s.effects)) if e.kind == "call" and e.name == "Operator.Operator::forward"]
    tr = cut(Trav(s.effects, "Operator.Operator::backward"), max(fw) if fw else -1)
    if not tr.op:
        return ctx.violation("runs", "differentiating a node runs no operator", w)
    first = min(i for i, e, p in tr.op)
    rs = [(i, e, p) for i, e, p in tr.named("Tensor::reset")]
    one = [z for z in rs if is_num(z[1].args[1]) and not loops(z[2])]
    zero = [z for z in rs if is_num(z[1].args[1]) and int(z[1].args[1].args[0]) == 0 and loops(z[2])]
    me = F(s.args[0], "data")
    target = F(index(F(me, "op", "rets"), F(me, "vid")), "gradient")
    seeds = [z for z in rs if z not in zero]
    # ---- zeroing
    groups = {}
    for i, e, p in zero:
        g = root(e.args[0])
        groups.setdefault(g, []).append((i, e, p))
    if not zero:
        if rs or tr.named("Tensor::alloc"):
            ctx.violation("zero", "gradients of reached results are not reset to zero", w)
        else:
            ctx.undecided("zero", "no resets recognised")
    for g, zs in groups.items():
        ok = True
        i, e, p = zs[0]
        if max(z[0] for z in zs) > first:
            ctx.violation("zero:order", "gradients are reset after operators were differentiated", w)
            ok = False
        if not (g.op == "field" and g.args[1] == "gradient" and g.args[0].op == "index"):
            ctx.undecided("zero", show(g)[:200])
            continue
        rets, k = g.args[0].args
        cl = [l for l in loops(p) if l.lkind == "count"]
        wl = [l for l in loops(p) if l.lkind != "count"]
        if not (rets.op == "field" and rets.args[1] == "rets") or not wl or popped(rets) is None:
            ctx.undecided("zero", show(g)[:200])
            continue
        q = rets.args[0]
        if len(cl) != 1 or cl[0].k is not k or cl[0].N is not length(rets):
            ctx.violation("zero:all", "only result %s of a reached operator has its gradient reset" % show(k)[:100], w)
            ok = False
        disj = FALSE
        for z in zs:
            cs = [c for c in inner_conds(z[2], wl[-1]) if visit_guard(c, q) != "new"]
            disj = bor(disj, band(*cs) if cs else TRUE)
        if disj is not TRUE and not valid_split(disj):
            ctx.violation("zero", "the gradient of a reached result is reset only when %s" % show(disj)[:300], w)
            ok = False
        al = [z for z in tr.named("Tensor::alloc") if root(z[1].args[0]) is g]
        if not al:
            ctx.undecided("zero:alloc", "allocation not recognised") if tr.named("Tensor::alloc") else \
                ctx.violation("zero:alloc", "gradients are never allocated", w)
        elif al[0][0] > max(z[0] for z in zs):
            ctx.violation("zero:alloc", "a gradient is reset before it is allocated", w)
        else:
            cs = [c for c in inner_conds(al[0][2], wl[-1]) if visit_guard(c, q) != "new"]
            good = len(cs) == 1 and neg(cs[0])[1] and is_call(neg(cs[0])[0], "Tensor::valid") and root(neg(cs[0])[0].args[1]) is g
            ctx.require(good, "zero:alloc", "a gradient is allocated when %s" % ("; ".join(show(c)[:100] for c in cs) or "anything"), w)
        if ok:
            ctx.ok("zero")
    # ---- seed
    if len(seeds) == 0:
        (ctx.undecided if any(e.name.startswith(("Device::reset", "Tensor::reset_by", "Device.Arith")) for i, e, p in tr.calls) else ctx.violation)(
            "seed", "the requested output is not seeded with ones")
    good = 0
    for i, e, p in seeds:
        g, v = root(e.args[0]), e.args[1]
        if g is target and v is num(1) and not loops(p):
            if conds(p):
                ctx.violation("seed", "the requested output is seeded only when %s" % show(conds(p)[0])[:200], w)
            elif i > first:
                ctx.violation("seed:order", "the requested output is seeded after operators were differentiated", w)
            elif zero and i < max(z[0] for z in zero):
                ctx.violation("seed:order", "the seed is overwritten: gradients are zeroed after it", w)
            else:
                good += 1
        elif g is target or (g.op == "field" and g.args[1] == "gradient"):
            ctx.violation("seed:other", "%s is set to %s" % (show(g)[:200], show(v)[:60]), w)
        else:
            ctx.undecided("seed", show(g)[:200])
    if good:
        ctx.ok("seed")
    # ---- other writers
    for i, e, p in tr.calls:
        if e.name in ("Tensor::reset_by_slice", "Tensor::reset_by_vec", "Tensor::replace", "Tensor::refer") or "assign" in e.name.lower() or e.name.startswith("Device::reset"):
            g = root(e.args[0])
            if contains(g, lambda u: u.op == "field" and u.args[1] == "gradient"):
                ctx.violation("other", "%s changes %s during the traversal" % (e.name, show(g)[:200]), w)
    # ---- parameter operator keeps accumulating: no reset in any operator's backward
    cnt = 0
    for n, fs in sorted(ctx.byname.items()):
        if n.endswith(".Operator::backward"):
            so = ctx.summary(fs[0], policies.TensorLayer)
            if so is None:
                continue
            cnt += 1
            bad = [e for e, p in walk(so.effects) if e.kind == "call" and e.name in ("Tensor::reset", "Device::reset_tensor", "Tensor::replace", "Tensor::alloc",
                                                                                         "Device::reset_tensor_by_tensor")
                   and contains(e.args[1 if e.name.startswith("Device") else 0], lambda u: u in so.args or (u.op == "field" and u.args[1] == "gradient"))]
            ctx.require(not bad, "keeps:" + n, "%s clears a gradient with %s" % (n, bad[0].name if bad else ""), ctx.where(fs[0]))
    if cnt < 45:
        ctx.violation("anchor:operators", "only %d operators found" % cnt)


def valid_split(d):
    """conditions of the form valid(g) or not valid(g)"""
    if d.op != "or":
        return False
    xs = set()
    for a in d.args:
        c, n = neg(a)
        xs.add((root_cond(c), n))
    return any((c, not n) in xs for c, n in xs)


def root_cond(c):
    return mk("validof", root(c.args[1])) if is_call(c, "Tensor::valid") else c


# ---------------------------------------------------------------- C26: leaves, conversions, accessors
def adt_of(ctx, t):
    """the operator value a constructor call or literal denotes"""
    if t.op == "call" and t.args[0].endswith("::new"):
        s = ctx.summary(t.args[0], policies.TensorLayer)
        if s is not None and s.ret is not None and s.ret.op == "agg":
            return t.args[0][:-5], subst(s.ret, dict(zip(s.args, t.args[1:])))
        return None, None
    if t.op == "agg" and t.args[0][0] == "adt":
        for n in LEAVES:
            s = ctx.summary(n + "::new", policies.TensorLayer)
            if s is not None and s.ret is not None and s.ret.op == "agg" and s.ret.args[0][1:4] == t.args[0][1:4]:
                return n, t
        return t.args[0][3], t
    return None, None


LEAVES = ("Input<>", "InputOwner", "Parameter<>")


def device_src(t):
    """the tensor a device expression is the device of, or the expression itself"""
    if t.op == "call" and t.args[0] == "Tensor::device":
        return mk("devof", t.args[1])
    if t.op == "field" and t.args[1] == "0" and t.args[0].op == "as" and t.args[0].args[0].op == "field" and t.args[0].args[0].args[1] == "device":
        return mk("devof", t.args[0].args[0].args[0])
    return t


def leaf_node(ctx, key, f, src):
    """a conversion into a node: one leaf whose operator holds the source"""
    import c_operator as co
    s = ctx.summary(f, policies.NodeLayer)
    w = ctx.where(f)
    if s is None or s.ret is None:
        return ctx.undecided(key, "no summary")
    cs = [e for e, p in walk(s.effects) if e.kind == "call" and e.name == "Node::create"]
    if len(cs) != 1:
        return ctx.undecided(key, "%d nodes are created" % len(cs)) if cs or contains(s.ret, lambda u: u.op == "call") else \
            ctx.violation(key, "no leaf is created", w)
    c = cs[0]
    a = elems(c.args[1])
    if a is None:
        ctx.undecided(key + ":args", show(c.args[1])[:200])
    else:
        ctx.require(not a, key + ":args", "the leaf is given %d arguments" % len(a), w)
    r = s.ret
    if r.op == "index" and r.args[0] is c.res:
        ctx.ok(key + ":result")
    else:
        ctx.undecided(key + ":result", show(r)[:200])
    n, adt = adt_of(ctx, c.args[0])
    if n is None:
        return ctx.undecided(key, "operator %s not understood" % show(c.args[0])[:200])
    item = s.args[0]
    if src == "parameter":
        m = {F(item, "value"): co.VAL, F(item, "gradient"): co.GRAD}
    else:
        m = {item: co.VAL}
    adt = subst(adt, m)
    # what the operator produces and where it sends the gradient, with this very operator value
    fw = co.View(ctx, n, "forward", [X, Y], adt)
    bw = co.View(ctx, n, "backward", [X, Y, GY, GX], adt)
    sh = co.View(ctx, n, "forward_shape", [mk("opv", "xs")], adt, layer=co.ShapesLayer)
    dv = co.View(ctx, n, "device", [], adt)
    if any(v.s is None or v.s.ret is None for v in (fw, bw, sh, dv)):
        return ctx.undecided(key, "operator %s not understood" % n)
    try:
        out = co.produced(fw, fw.s.effects, None)
    except co.Und as e:
        out = None
        ctx.undecided(key + ":value", str(e))
    if out is not None:
        vals = [same_value(v) for (i, lp), vs in out.items() for v in vs]
        if len(out) == 1 and len(vals) == 1 and list(out)[0][0] is num(0):
            if vals[0] is co.VAL:
                ctx.ok(key + ":value")
            elif vals[0] is co.GRAD or vals[0].op == "constant" or is_place(vals[0]):
                ctx.violation(key + ":value", "the leaf's value is %s, not that of the %s" % (show(vals[0])[:150], src), w)
            else:
                ctx.undecided(key + ":value", show(vals[0])[:200])
        elif not out and not contains_call(fw.s.effects):
            ctx.violation(key + ":value", "the leaf produces no value", w)
        else:
            ctx.undecided(key + ":value", "%d results" % len(out))
    # gradient
    adds = []
    for e, p in walk(bw.s.effects):
        if e.kind == "call" and (e.name in co.WRITES or "Assign" in e.name or "_assign" in e.name):
            adds.append((co.WRITES.get(e.name), [bw.sub(a) for a in e.args], p))
    if src == "parameter":
        good = [a for k, a, p in adds if k and k[1] == 1 and a[0] is co.GRAD and a[1] is index(GY, num(0)) and not conds(p) and not loops(p)]
        if len(adds) == 1 and good:
            ctx.ok(key + ":gradient")
        elif not adds and not contains_call(bw.s.effects):
            ctx.violation(key + ":gradient", "differentiating a graph never reaches the gradient of a parameter turned into a node (operator %s)" % n, w)
        elif len(adds) == 1 and adds[0][0] == (0, -1) and adds[0][1][0] is co.GRAD and adds[0][1][1] is index(GY, num(0)):
            ctx.violation(key + ":gradient", "the gradient is subtracted from that of the parameter", w)
        elif len(adds) == 1 and adds[0][0] and adds[0][1][0] is not co.GRAD and is_place(adds[0][1][0]):
            ctx.violation(key + ":gradient", "the gradient of a parameter is accumulated into %s" % show(adds[0][1][0])[:150], w)
        else:
            ctx.undecided(key + ":gradient", "%d accumulations" % len(adds))
    else:
        if not adds:
            ctx.ok(key + ":gradient")
        elif any(is_place(a[0]) or a[0] is co.VAL for k, a, p in adds):
            ctx.violation(key + ":gradient", "differentiating a graph changes the tensor it was given", w)
        else:
            ctx.undecided(key + ":gradient", "%d accumulations" % len(adds))
    d = sh.sub(sh.s.ret)
    ds = elems(d)
    if ds is None:
        ctx.undecided(key + ":shape", show(d)[:200])
    else:
        good = len(ds) == 1 and ds[0].op == "field" and ds[0].args[1] == "shape" and same_value(ds[0].args[0]) is co.VAL
        bad = len(ds) != 1 or (is_place(ds[0]) and not good)
        ctx.ok(key + ":shape") if good else ctx.violation(key + ":shape", "the leaf declares shape %s" % show(d)[:150], w) if bad else \
            ctx.undecided(key + ":shape", show(d)[:150])
    d = device_src(dv.sub(dv.s.ret))
    if d.op == "devof" and same_value(d.args[0]) in (co.VAL, co.GRAD):
        ctx.ok(key + ":device")
    elif d.op == "opv" or (d.op == "devof" and is_place(d.args[0])):
        ctx.violation(key + ":device", "the leaf lives on %s" % show(d)[:150], w)
    else:
        ctx.undecided(key + ":device", show(d)[:150])


def contains_call(effs):
    return any(e.kind == "call" for e, p in walk(effs))


def is_place(t):
    while t.op in ("field", "index"):
        t = t.args[0]
    return t.op in ("opv", "arg")


def same_value(t):
    """a tensor with the same elements as t"""
    while True:
        if t.op == "call" and t.args[0] == "Device::copy_tensor":
            t = t.args[2]
        elif t.op == "out" and t.args[0].op == "call" and t.args[0].args[0] in ("Tensor::alloc",):
            t = t.args[0].args[1]
        else:
            return t


def made_from(ctx, key, f, src):
    """conversion into a tensor: same shape, device and elements as the source"""
    s = ctx.summary(f, policies.TensorLayer)
    w = ctx.where(f)
    if s is None or s.ret is None:
        return ctx.undecided(key, "no summary")
    item = s.args[0]
    val = F(item, "value") if src == "parameter" else item
    r = s.ret
    writes = []
    for e, p in walk(s.effects):
        if e.kind != "call":
            continue
        if e.name in ("Tensor::refer", "Tensor::replace") and root(e.args[0]) is root(r):
            writes.append((e, p, e.args[1]))
        elif e.name == "Device::reset_tensor_by_tensor" and root(e.args[1]) is root(r):
            writes.append((e, p, e.args[2]))
        elif e.name.startswith(("Tensor::reset", "Device::reset")) and root(e.args[0 if e.name[0] == "T" else 1]) is root(r):
            writes.append((e, p, mk("constant")))
        elif any(root(a) is val and i in (e.a.get("muts") or ()) for i, a in enumerate(e.args)):
            ctx.violation(key + ":source", "%s changes the tensor that is converted" % e.name, w)
    got = dev = None
    base = root(r)
    if base.op == "call" and base.args[0] == "Device::copy_tensor" and not writes:
        got, dev, shape = base.args[2], base.args[1], F(base.args[2], "shape")
    elif len(writes) == 1 and base.op == "call" and base.args[0] in ("Tensor::new", "Device::new_tensor") and not loops(writes[0][1]):
        if conds(writes[0][1]):
            ctx.violation(key + ":value", "the converted tensor gets its elements only when %s" % show(conds(writes[0][1])[0])[:150], w)
            return
        got, dev, shape = same_value(writes[0][2]), base.args[1], base.args[2]
    elif not writes and base.op == "call" and base.args[0] in ("Tensor::new", "Device::new_tensor"):
        return ctx.violation(key + ":value", "the converted tensor gets no elements", w)
    else:
        return ctx.undecided(key, show(r)[:200])
    if got is val:
        ctx.ok(key + ":value")
    elif is_place(got) or got.op == "constant":
        ctx.violation(key + ":value", "the converted tensor has the elements of %s" % show(got)[:100], w)
    else:
        ctx.undecided(key + ":value", show(got)[:100])
    good = shape is F(val, "shape") or shape is F(got, "shape")
    if good:
        ctx.ok(key + ":shape")
    else:
        (ctx.undecided(key + ":shape", show(shape)[:100]))
    d = device_src(dev)
    if d.op == "devof" and (same_value(d.args[0]) is val or (src == "parameter" and is_place(d.args[0]))):
        ctx.ok(key + ":device")
    else:
        ctx.undecided(key + ":device", show(dev)[:100])


def run_leaves(ctx):
    import c_operator as co
    ctx.rule = ("Conversions into nodes are composed with the forward, backward, shape and device routines of the operator they construct: value, gradient "
                "target, shape and device must be those of the source. Conversions into tensors, and the accessors of operators, nodes, tensors and "
                "parameters, are evaluated to the field they return.")
    ctx.prog
    n = 0
    for nm, src in (("Node<>.From<Tensor>::from", "tensor"), ("Node<>.From<Parameter>::from", "parameter")):
        for j, f in enumerate(ctx.byname.get(nm, [])):
            n += 1
            leaf_node(ctx, "%s#%d" % (nm, j), f, src)
    ctx.floor("conversions into nodes", n, 3)
    n = 0
    for nm, src in (("Tensor.From<Tensor>::from", "tensor"), ("Tensor.From<Parameter>::from", "parameter")):
        for j, f in enumerate(ctx.byname.get(nm, [])):
            n += 1
            made_from(ctx, "%s#%d" % (nm, j), f, src)
    ctx.floor("conversions into tensors", n, 2)
    # operators report the device they were built for
    n = 0
    for name in sorted({k.split(".")[0] for k in ctx.byname if k.endswith(".Operator::device")}):
        adt = co.ctor_env(ctx, name)
        v = co.View(ctx, name, "device", [], adt) if adt is not None else None
        if v is None or v.s is None or v.s.ret is None:
            ctx.undecided(name + ":device", "not understood")
            continue
        n += 1
        d = device_src(v.sub(v.s.ret))
        w = ctx.where(v.f)
        if d is co.DEV or (name in LEAVES and d.op == "devof" and d.args[0] in (co.VAL, co.GRAD)):
            ctx.ok(name + ":device")
        elif contains(d, lambda u: u.op in ("phi", "ite", "havoc", "bad", "lost")):
            ctx.undecided(name + ":device", show(d)[:150])
        else:
            ctx.violation(name + ":device", "%s reports device %s, not the one it was created with" % (name, show(d)[:150]), w)
    ctx.floor("operators", n, 45)
    f, s = generic(ctx, "Node<>::device")
    if s is None or s.ret is None:
        ctx.undecided("node:device", "no summary")
    else:
        me = s.args[0]
        o = F(me, "data", "op")
        own = index(F(o, "rets"), F(me, "data", "vid"))
        d = device_src(s.ret)
        if (d.op == "call" and d.args[0].endswith("Operator::device") and d.args[1] in (F(o, "operator", "0"), F(o, "operator"))) or \
                (d.op == "devof" and root(d.args[0]) in (F(own, "value"), F(own, "gradient"))):
            ctx.ok("node:device")
        elif contains(d, lambda u: u.op == "field" and u.args[1] == "args"):
            ctx.violation("node:device", "a node reports the device of one of its arguments: %s" % show(d)[:150], ctx.where(f))
        else:
            ctx.undecided("node:device", show(d)[:150])
    accessors(ctx)


def accessors(ctx):
    def want(name, layer, mkwant, what, alts=()):
        f = ctx.fn(name)
        if f is None:
            return ctx.violation("anchor:" + name, "%s not found" % name)
        s = ctx.summary(f, layer)
        if s is None or s.ret is None:
            return ctx.undecided(name, "no summary")
        w = mkwant(*s.args)
        if s.ret is w or s.ret in [a(*s.args) for a in alts]:
            ctx.ok(name)
        elif is_place(s.ret) or s.ret in (TRUE, FALSE) or s.ret is bnot(w):
            ctx.violation(name, "%s returns %s instead of %s" % (name, show(s.ret)[:150], what), ctx.where(f))
        else:
            ctx.undecided(name, show(s.ret)[:150])
    T, O = policies.TensorLayer, policies.OwnLayer
    want("Parameter::shape", T, lambda p: F(p, "value", "shape"), "the shape of its value")
    want("Parameter.Deref::deref", T, lambda p: F(p, "value"), "its value")
    want("Parameter::has_stat", T, lambda p, n: mk("call", "HashMap::contains_key", F(p, "stats"), n), "whether the statistic exists")
    want("Tensor.BasicFunctions::shape", T, lambda t: F(t, "shape"), "its shape")
    want("Tensor::handle", T, lambda t: F(t, "handle"), "its handle")
    for m, fld in (("inner_value", "value"), ("inner_gradient", "gradient")):
        want("Node<>::" + m, policies.GraphLayer, lambda me: F(index(F(me, "data", "op", "rets"), F(me, "data", "vid")), fld), "its own " + fld)
    f = ctx.fn("Tensor::device")
    s = ctx.summary("Tensor::device", T)
    if s is None or s.ret is None:
        ctx.violation("anchor:Tensor::device", "Tensor::device not found")
    else:
        d = device_src(s.ret)
        ctx.require(d.op == "devof" and d.args[0] is s.args[0], "Tensor::device", "Tensor::device returns %s" % show(s.ret)[:100], ctx.where(f))
    # a new parameter holds what it was given
    s = ctx.summary("Parameter::new", T)
    if s is None or s.ret is None or s.ret.op != "agg":
        return ctx.violation("anchor:Parameter::new", "Parameter::new not found") if ctx.fn("Parameter::new") is None else ctx.undecided("Parameter::new", "not understood")
    w = ctx.where("Parameter::new")
    for i, n in enumerate(("value", "gradient")):
        v = F(s.ret, n)
        if v is s.args[i]:
            ctx.ok("Parameter::new:" + n)
        elif v in s.args or v.op == "field":
            ctx.violation("Parameter::new:" + n, "a new parameter's %s is %s" % (n, show(v)[:100]), w)
        else:
            ctx.undecided("Parameter::new:" + n, show(v)[:100])
    st = F(s.ret, "stats")
    fills = [e for e, p in walk(s.effects) if e.kind == "call" and e.name.endswith("::insert")]
    if st.op == "call" and st.args[0] in ("HashMap::new", "HashMap.Default::default", "HashMap::with_capacity") or st.op == "agg":
        ctx.require(not fills, "Parameter::new:stats", "a new parameter starts with statistics", w)
    else:
        ctx.undecided("Parameter::new:stats", show(st)[:100])
    for i, n in enumerate(("value", "gradient")):
        b = F(s.args[i], "shape", "batch")
        cs = [e.cond for e, p in walk(effects.unroll(s.effects)) if e.kind == "assert" and contains(e.cond, lambda u: u is b)]
        if any(c is ceq(b, num(1)) for c in cs):
            ctx.ok("Parameter::new:batch of " + n)
        elif not cs:
            ctx.violation("Parameter::new:batch of " + n, "a parameter whose %s has several batches is accepted" % n, w)
        else:
            ctx.undecided("Parameter::new:batch of " + n, "; ".join(show(c)[:80] for c in cs))
