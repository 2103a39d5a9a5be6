"""Memory discipline of the reference device's kernels: bounds (C06), write sets (C24), definite assignment (C25)."""
import itertools

import re
from terms import *
from effects import strval
import kern
from kern import dig, Entry
import c_kernel
import policies
from c_kernel import D, ds, N, X, L, M, B, lnm, bcases, TS, World

VB = c_kernel.V


def rand_cases(params):
    for nm, b in bcases():
        yield c_kernel.Case(World(nm, {"y0": TS(vol=VB, batch=b)}, mins={"B": 2}, order=["V", "B"], nxs=ZERO, u32len=ZERO, f32len=num(params)), [])


def arg_cases(sort):
    def cases():
        for nm, b in bcases():
            n = N if sort else ONE
            yield c_kernel.Case(World(nm, {"x0": TS(L, N, M, b), "host": TS(vol=imul(imul(imul(L, n), M), b))}, mins={"B": 2},
                                order=["L", "N", "M", "B"], nxs=ONE, f32len=ZERO, u32={0: kern.D0}, u32len=ONE, kind="host"), [])
    return cases


def worlds(t, n):
    """the operand-shape cases of a kernel"""
    if t == "fw" and n.startswith("random_"):
        return lambda: rand_cases(1 if "bernoulli" in n else 2)
    if t == "fw":
        return c_kernel.FW.get(n)
    if t == "fw_f32":
        return c_kernel.HOST.get(n)
    if t == "fw_u32":
        return arg_cases(n.startswith("argsort"))
    if t == "bw":
        if n in ("max_bw_impl", "min_bw_impl"):
            return c_kernel.extremum_bw
        return c_kernel.BWD.get(n)
    return None


class Access:
    __slots__ = ("kind", "buf", "idx", "guards", "base", "digits")

    def __init__(self, kind, buf, idx, guards, base=None, digits=()):
        self.kind, self.buf, self.idx, self.guards, self.base, self.digits = kind, buf, idx, tuple(guards), base, tuple(digits)


def reads(w, r, t, guards, out, depth=0, digits=()):
    """element reads performed while evaluating t, with the conditions under which they happen"""
    if not isinstance(t, T) or depth > 60:
        return
    op, a = t.op, t.args
    if op == "ite":
        reads(w, r, a[0], guards, out, depth + 1, digits)
        reads(w, r, a[1], guards + [a[0]], out, depth + 1, digits)
        reads(w, r, a[2], guards + [bnot(a[0])], out, depth + 1, digits)
        return
    if op == "and":
        g = list(guards)
        for x in a:
            reads(w, r, x, g, out, depth + 1, digits)
            g.append(x)
        return
    if op in ("fsum", "fold") and len(a) == 3 and a[2].op == "lam":
        reads(w, r, a[1], guards, out, depth + 1, digits)
        ps = a[2].args[0]
        v, dd = w.split(None, w.simp(a[0]), r.uniq)
        body = r.concrete(w.simp(apply_lam(a[2], [mk("accv", depth, i) for i in range(len(ps) - 1)] + [v])))
        if w.simp(a[0]) is not ZERO:
            reads(w, r, body, guards, out, depth + 1, tuple(digits) + tuple(dd))
        return
    if op in ("X", "OUT"):
        out.append(Access("read", a[0], a[1], guards, digits=digits))
        reads(w, r, a[1], guards, out, depth + 1, digits)
        return
    if op == "u32":
        out.append(Access("read", "u32", a[0], guards))
        return
    if op == "f32":
        out.append(Access("read", "f32", a[0], guards))
        return
    if op == "index" or op == "load":
        out.append(Access("read", None, a[1], guards, base=a[0]))
    if op == "poly":
        for m in as_poly(t):
            for at, _ in m:
                reads(w, r, at, guards, out, depth + 1, digits)
        return
    for x in a:
        if isinstance(x, T):
            reads(w, r, x, guards, out, depth + 1, digits)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    reads(w, r, y, guards, out, depth + 1, digits)


def bind_searches(w, guards, ts):
    """iteration counts of search loops, bounded by the comparison that guards their use"""
    gs = c_kernel.flat_and(guards)
    m = {}
    for g in gs:
        if g.op == "lt" and g.args[0].op == "N":
            m[g.args[0]] = dig("hit" + show(g.args[0])[-8:], g.args[1])
    if not m:
        return [w.simp(x) for x in guards], ts, False
    return [w.simp(subst(x, m)) for x in gs if not (x.op == "lt" and x.args[0].op == "N")], [w.simp(subst(x, m)) for x in ts], True


def length(w, buf):
    if buf == "u32":
        return w.u32len
    if buf == "f32":
        return w.f32len
    y = w.ts.get(buf)
    return imul(y.vol, y.batch) if y is not None else None


def accesses(w, r):
    out = []
    for e in r.entries:
        e = kern.merge_tiles(w, e)
        out.append(Access("write", e.buf, e.idx, e.guards, base=e.base, digits=e.digits))
        gs = list(e.guards)
        pre = []
        for g in gs:
            reads(w, r, g, pre, out, 0, e.digits)
            pre = pre + [g]
        reads(w, r, e.idx, gs, out, 0, e.digits)
        reads(w, r, e.val, gs, out, 0, e.digits)
    for c, args, digits, guards in r.calls:
        for x in args:
            if not isinstance(x, T):
                continue
            if x.op != "sortfn":
                reads(w, r, x, list(guards), out, 0, digits)
                continue
            # a comparator is called with values of the sorted table
            root = next((y for y in subterms(args[0]) if y.op == "alloc"), None)
            for e in r.entries:
                if root is not None and e.base is not None and e.base.op == "alloc" and e.base.args[:-1] == root.args[:-1]:
                    reads(w, r, w.simp(subst(x.args[0], {mk("sym", "SORT0"): e.val, mk("sym", "SORT1"): e.val})), list(guards) + list(e.guards), out, 0, tuple(digits) + tuple(e.digits))
    return out


def upper(w, idx, n, digits=()):
    """'in', a witness that idx >= n or idx < 0, or None"""
    if not kern.known_value(idx) or contains(idx, lambda x: x.op in ("accv", "X", "OUT", "ite")):
        return None
    if w.nonneg(idx, digits) and w.nonneg(isub(isub(n, ONE), idx), digits):
        return "in"
    for t, why in ((isub(isub(n, ONE), idx), "at or beyond its %s elements" % show(n)), (idx, "before its first element")):
        x = w.negative_somewhere(t, digits)
        if x is None and not {a.op for a in kern.atoms_of(t)} - {"sym", "dig", "imin", "imax", "ceildiv", "idiv", "irem"}:
            x = w.corner_below_zero(t, digits)
        if x is not None:
            return (x, why)
    return None


def by_value(r, w, c):
    """a condition over counters of small constant range, as the conjunction of its instances"""
    small = [d for d in {a for a in subterms(c) if a.op == "dig"} if is_num(d.args[1]) and d.args[1].args[0] <= 8]
    if not small or not contains(c, lambda x: x.op == "load"):
        return c
    out = []
    for vs in itertools.product(*[range(int(d.args[1].args[0])) for d in small]):
        x = r.concrete(w.simp(subst(c, {d: num(v) for d, v in zip(small, vs)})))
        out.append(x)
    return band(*out) if out else TRUE


ANY = mk("sym", "any")


def same_buffer(t):
    """a buffer, whichever element of an operand list it belongs to"""
    return subst(t, {x.args[1]: ANY for x in subterms(t) if x.op == "index" and x.args[0].op == "arg"})


def nulls(t):
    """buffers a condition says something about"""
    return {same_buffer(a) for x in subterms(t) if x.op == "eq" for a in x.args if a.op == "ld" and any(b.op == "null" for b in x.args)}


def derefs(t):
    """buffers of operands a term reads"""
    for x in subterms(t):
        if x.op in ("index", "subslice", "pt") and x.args[0].op == "ld" and contains(x.args[0], lambda u: u.op == "arg"):
            yield x.args[0]


def have_buffers(ctx, n, f):
    """A tensor may have no buffer yet; no device operation refuses such an operand, so the kernel has to before it follows the handle."""
    s = ctx.summary(f, policies.KernelLayer)
    if s is None:
        return
    seen, bad = set(), []

    def look(t, known):
        known = known | nulls(t)
        for b in derefs(t):
            k = same_buffer(b)
            if k in known:
                seen.add(k)
            elif b not in bad:
                bad.append(b)

    def go(effs, known):
        for e in effs:
            if e.kind == "assert":
                known = known | nulls(e.cond)
                look(e.cond, known)
            elif e.kind == "if":
                look(e.cond, known)
                k = known | nulls(e.cond)
                a, b = go(e.then, k), go(e.els or [], k)
                known = known | (a & b) - nulls(e.cond)
            elif e.kind == "loop":
                known = go(e.body, known)
                for x in e.a.get("phis") or ():
                    for t in x if isinstance(x, (tuple, list)) else (x,):
                        if isinstance(t, T):
                            look(t, known)
                if isinstance(e.a.get("N"), T):
                    look(e.N, known)
            else:
                if e.kind == "store" and e.base.op == "ld":
                    look(index(e.base, e.idx), known)
                for t in e.a.values():
                    for x in t if isinstance(t, (tuple, list)) else (t,):
                        if isinstance(x, T):
                            look(x, known)
        return known

    go(s.effects, frozenset())
    for b in bad:
        ctx.violation(n + ":no buffer", "follows %s without having found that this operand has a buffer" % show(b)[:150], ctx.where(f))
    if not bad:
        for b in seen:
            ctx.ok("%s:has buffer:%s" % (n, show(b)[:80]))


def run_bounds(ctx):
    ctx.rule = ("Every element read or written by a kernel is an index polynomial over loop counters; its extremes over the loop domains are compared with the "
                "length of the buffer it addresses, for every combination of operand shapes the device accepts. Checked indexing must not fail either.")
    nk = 0
    for t, n, f in c_kernel.each_kernel(ctx, ("fw", "fw_f32", "fw_u32", "bw")):
        if f is None:
            ctx.violation("anchor:" + n, "no implementation found for kernel " + n)
            continue
        cases = worlds(t, n)
        if cases is None:
            ctx.undecided(n, "no operand-shape cases for this kernel")
            continue
        nk += 1
        have_buffers(ctx, n, f)
        for case in cases():
            w = case.w
            k = n + ":" + w.name
            r = c_kernel.read(ctx, f, w)
            if r is None:
                continue
            if r.notes:
                ctx.undecided(k, "; ".join(r.notes[:3]))
            seen = set()
            for a in accesses(w, r):
                if a.buf is None:
                    if a.base is not None and a.base.op in ("alloc", "arg", "call") or a.kind == "read":
                        continue       # checked indexing of a local vector or argument list: covered by its own assertion
                    ctx.undecided(k, "store through %s" % show(a.base)[:80])
                    continue
                if a.buf in ("u32", "f32", "host"):
                    continue           # bounds-checked slices: their assertions are obligations below
                ln = length(w, a.buf)
                if ln is None:
                    ctx.violation(k, "%s: addresses operand %s, which the operation does not have" % (w.name, a.buf), ctx.where(f))
                    continue
                gs, (idx,), hit = bind_searches(w, a.guards, [a.idx])
                key = (a.kind, a.buf, idx, tuple(gs))
                if key in seen:
                    continue
                seen.add(key)
                if contains(idx, lambda x: x.op == "imin"):
                    e = kern.merge_tiles(w, Entry(a.buf, list(a.digits), idx, "set", ZERO, tuple(gs)))
                    idx, a.digits = e.idx, e.digits
                u = upper(w, idx, ln, a.digits)
                kk = "%s:%s %s[%s]" % (k, a.kind, a.buf, show(idx)[:80])
                if u == "in":
                    ctx.ok(kk)
                elif u is None or [g for g in gs if g is not TRUE]:
                    ctx.undecided(kk, "bound not established: %s" % show(idx)[:160])
                else:
                    ctx.violation(k, "%s: %ss %s[%s], which for %s lies %s" % (w.name, a.kind, a.buf, show(idx)[:300], u[0], u[1]), ctx.where(f))
                    break
            # ranges handed out as slices
            for c, args, digits, guards in r.calls:
                for x in args:
                    for s in (y for y in subterms(x) if y.op == "subslice"):
                        b = w.buffer(s.args[0]) or (w.buffer(s.args[0].args[0]) if s.args[0].op == "pt" else None)
                        ln = length(w, b) if b else None
                        if ln is None:
                            continue
                        lo, hi = w.simp(s.args[1]), w.simp(s.args[2])
                        if w.nonneg(lo) and w.nonneg(isub(ln, hi)):
                            ctx.ok("%s:slice %s" % (k, show(hi)[:60]))
                        elif w.negative_somewhere(isub(ln, hi)) is not None and not guards:
                            ctx.violation(k, "%s: hands out elements %s..%s of %s, which has %s" % (w.name, show(lo), show(hi), b, show(ln)), ctx.where(f))
                        else:
                            ctx.undecided(k, "slice range %s..%s" % (show(lo)[:60], show(hi)[:60]))
            for c, why, digits, guards in r.asserts:
                if c.op in ("nooverflow",) or contains(c, lambda x: x.op in ("nooverflow", "discr", "null")):
                    continue           # the kernel's own checks, of arithmetic and of operands without a buffer
                gs, (c,), hit = bind_searches(w, guards, [c])
                c = r.concrete(c)
                c = by_value(r, w, c)
                kk = "%s:assert %s" % (k, show(c)[:80])
                if c is TRUE:
                    ctx.ok(kk)
                    continue
                gs = [g for g in gs if g is not TRUE]
                if c is FALSE and not gs:
                    ctx.violation(k, "%s: checked access (%s) always fails" % (w.name, why), ctx.where(f))
                    break
                if c.op in ("lt", "le") and kern.known_value(c):
                    p = isub(c.args[1], c.args[0])
                    if c.op == "lt":
                        p = isub(p, ONE)
                    if w.nonneg(p):
                        ctx.ok(kk)
                        continue
                    if not gs and not ({x.op for x in kern.atoms_of(p)} - {"sym", "dig"}):
                        x = w.negative_somewhere(p)
                        if x is not None:
                            ctx.violation(k, "%s: checked access requires %s, which fails for %s" % (w.name, show(c)[:300], x), ctx.where(f))
                            break
                ctx.undecided(kk, "check not established: %s" % show(c)[:160])
    ctx.floor("kernels", nk, 60)


# ---------------------------------------------------------------- write sets
OUTS = {"fw": 4, "bw": 6, "fw_u32": 4, "fw_f32": 4}


def root(t):
    """the argument a stored-to base term is derived from, 'local', or None"""
    while True:
        if t.op == "alloc":
            return "local"
        if t.op == "arg":
            return t.args[0]
        if t.op in ("pt", "ld", "subslice", "field", "index", "ref", "as", "with", "bitcast"):
            t = t.args[0]
            continue
        if t.op == "call" and t.args[0] in ("Tensor::handle", "AtomicPtr::load"):
            t = t.args[1]
            continue
        if t.op == "call":
            return "local"        # a freshly returned value
        return None


def stores_of(effs):
    for e in effs:
        if e.kind == "store" or e.kind == "set":
            yield e
        elif e.kind == "loop":
            yield from stores_of(e.body)
        elif e.kind == "if":
            yield from stores_of(e.then)
            yield from stores_of(e.els or [])


def calls_of(effs):
    for e in effs:
        if e.kind == "call":
            yield e
        elif e.kind == "loop":
            yield from calls_of(e.body)
        elif e.kind == "if":
            yield from calls_of(e.then)
            yield from calls_of(e.els or [])


NAMES = {"fw": {1: "xs", 2: "u32data", 3: "f32data", 4: "ys"}, "bw": {1: "xs", 2: "ys", 3: "gys", 4: "u32data", 5: "f32data", 6: "gx"}}


# library routines which always write through the mutable pointer or slice they are given
WRITER = re.compile(r"^(ptr|mem|intrinsics)::(write|swap|replace|copy|take|volatile)|^\*mut T::(write|swap|replace|copy_from)|"
                    r"^\[T\]::(fill|swap|reverse|rotate|sort|copy_|clone_from|select_nth|partition_dedup)")


def run_writes(ctx):
    ctx.rule = ("The buffer of every store, and every argument passed mutably to another operation, is traced to the kernel argument it is reached from; only the "
                "output argument (or a local allocation) is allowed.")
    nk = ns = 0
    for t, n, f in c_kernel.each_kernel(ctx, ("fw", "fw_f32", "fw_u32", "bw")):
        if f is None:
            ctx.violation("anchor:" + n, "no implementation found for kernel " + n)
            continue
        s = ctx.summary(f, policies.KernelLayer)
        if s is None:
            continue
        nk += 1
        names = NAMES["bw" if t == "bw" else "fw"]
        bad = False
        for e in stores_of(s.effects):
            ns += 1
            r = root(e.base)
            if r == OUTS[t] or r == "local":
                ctx.ok("%s:store %d" % (n, ns))
            elif r is None:
                ctx.undecided(n, "store through %s" % show(e.base)[:120])
            elif r in names:
                if not bad:
                    ctx.violation(n, "stores into %s (%s)" % (names[r], show(e.base)[:150]), ctx.where(f))
                bad = True
            else:
                ctx.undecided(n, "store through %s" % show(e.base)[:120])
        for e in calls_of(s.effects):
            for i, dst in mutated(e):
                ns += 1
                r = root(dst)
                if r == OUTS[t] or r == "local":
                    ctx.ok("%s:%s" % (n, e.name))
                elif r in names:
                    ctx.violation(n, "%s modifies %s" % (e.name, names[r]), ctx.where(f))
                else:
                    ctx.undecided(n, "%s writes %s" % (e.name, show(dst)[:100]))
            if list(mutated(e)):
                continue
            for i in e.a.get("muts") or ():
                r = root(e.args[i])
                if r in names and r != OUTS[t]:
                    d = "%s is given mutable access to %s" % (e.name, names[r])
                    ctx.violation(n, d, ctx.where(f)) if WRITER.search(e.name) else ctx.undecided(n, d)
    ctx.floor("kernels", nk, 60)
    ctx.floor("stores", ns, 60)
    for routine, pos, many in (("Device::call_fw_impl", 5, True), ("Device::call_bw_impl", 7, False)):
        borrowed(ctx, routine, pos, many)


def borrowed(ctx, routine, pos, many):
    """A tensor may merely borrow the buffer of another one. Before a kernel is handed such a destination, the destination must have got a copy
    of its own, or be refused."""
    s = ctx.summary(routine, policies.TableLayer)
    if s is None:
        ctx.violation("anchor:" + routine, "%s not found" % routine)
        return
    arg = s.args[pos]
    w = ctx.where(routine)
    calls_ = [i for i, e in enumerate(s.effects) if any(q.name.endswith("Impl::call") for q in calls_of([e]))]
    if len(calls_) != 1 or s.effects[calls_[0]].kind != "call":
        ctx.undecided(routine, "kernel call not found at the top level")
        return
    before = s.effects[:calls_[0]]
    effs, dst = before, arg
    done = False
    if many:
        for e in before:
            if e.kind == "loop" and e.lkind == "count":
                d = mk("index", arg, e.k)
                if e.N is mk("len", arg) and owned_after(ctx, routine, e.body, d, w):
                    done = True
    else:
        done = owned_after(ctx, routine, before, dst, w)
    if done is None:
        return
    ctx.require(done, "borrowed:" + routine, "%s hands a destination which borrows another tensor's buffer to the kernel: writing it changes the lender" % routine, w)


def lends(c):
    """+1: the condition says that some tensor borrows, -1: that it does not, 0: something else"""
    if c.op == "not":
        return -lends(c.args[0])
    if c.op == "eq":
        for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if b.op == "discr" and b.args[0].op == "field" and b.args[0].args[1] == "reference" and is_num(a):
                return 1 if int(a.args[0]) == 1 else -1
    if c.op == "call" and len(c.args) == 2 and c.args[1].op == "field" and c.args[1].args[1] == "reference":
        return {"Option::is_some": 1, "Option::is_none": -1}.get(c.args[0], 0)
    return 0


def owned_after(ctx, routine, effs, dst, w):
    """after these effects the destination does not borrow"""
    for e in effs:
        if e.kind == "assert" and lends(e.cond) < 0:
            return True
        if e.kind == "set" and e.base is dst and not e.path:
            if e.val.op == "call" and e.val.args[0] == "Device::copy_tensor":
                ctx.require(e.val.args[2] is dst, "copied:" + routine, "%s replaces a destination by a copy of %s" % (routine, show(e.val.args[2])[:100]), w)
                return True
            if e.val.op == "call" and e.val.args[0].startswith(("Device::new_tensor", "Tensor::new")):
                ctx.violation("copied:" + routine, "%s replaces a destination by a new tensor and loses its contents" % routine, w)
                return True
        if e.kind == "if":
            d = lends(e.cond)
            side = e.then if d > 0 else e.els if d < 0 else None
            if side and owned_after(ctx, routine, side, dst, w):
                return True
    return False


def mutated(e):
    """arguments a call effect writes to"""
    n, a = e.name, e.args
    if "Assign<" in n or n in ("Tensor::reset", "Tensor::alloc", "Tensor::refer", "Tensor::replace", "Tensor::update_shape", "Tensor::move_to_device"):
        yield 0, a[0]
    elif n.startswith("Device.") and (n.endswith("_assign") or n.endswith("_assign_const")):
        yield len(a) - 1, a[-1]
    elif n.startswith("Device.") and ("_bw" in n.split("::")[-1]):
        yield len(a) - 1, a[-1]
    elif n.startswith("Randomizer"):
        yield len(a) - 1, a[-1]


# ---------------------------------------------------------------- definite assignment
ASSIGNING = {"add_assign_impl", "sub_assign_impl", "mul_assign_const_impl"}


def covers2(w, e, size):
    """the store visits every element below size"""
    idx, digits = e.idx, list(e.digits)
    # a digit running backwards
    for d in list(digits):
        p = as_poly(idx)
        lead = [c for m, c in p.items() if m and any(a is d for a, _ in m)]
        if lead and all(c < 0 for c in lead):
            idx = w.simp(subst(idx, {d: isub(isub(d.args[1], ONE), d)}))
    # operands placed one after another fill the concatenated extent
    for ext, pre in w.prefix_map.items():
        full = [y for y, x in w.expand.items() if pre in kern.atoms_of(x)]
        hit = [d for d in digits if d.args[1] is ext and kern.has(idx, d)]
        nx = [d for d in digits if d.args[1] is w.nxs]
        if full and hit and nx:
            d2 = dig("cat", full[0])
            i2 = subst(idx, {hit[0]: isub(d2, pre)})
            if not kern.has(i2, pre):
                idx = w.simp(i2)
                digits = [d for d in digits if d is not hit[0] and d is not nx[0]] + [d2]
    digits = [d for d in digits if kern.has(idx, d)]
    return c_kernel.covers(w, idx, digits, size)


def run_assigned(ctx):
    ctx.rule = ("For every forward kernel the unconditional stores are shown to visit every element of the output before any element of it is read; every tensor allocated "
                "by the library is handed to an operation that fills it before it is returned.")
    nk = 0
    for t, n, f in c_kernel.each_kernel(ctx, ("fw", "fw_f32", "fw_u32")):
        if n in ASSIGNING:
            continue
        if f is None:
            ctx.violation("anchor:" + n, "no implementation found for kernel " + n)
            continue
        cases = worlds(t, n)
        if cases is None:
            ctx.undecided(n, "no operand-shape cases for this kernel")
            continue
        nk += 1
        for case in cases():
            w = case.w
            k = n + ":" + w.name
            r = c_kernel.read(ctx, f, w)
            if r is None:
                continue
            if r.notes:
                ctx.undecided(k, "; ".join(r.notes[:3]))
                continue
            out = "host" if w.kind == "host" else "y0"
            size = length(w, out)
            done = False
            assigned(ctx, k, f, w, r, out, size, t)
    ctx.floor("kernels", nk, 45)
    allocations(ctx)


def assigned(ctx, k, f, w, r, out, size, t):
    events = []       # in program order is not kept between calls and stores: fills through calls only precede element stores
    for c, args, digits, guards in r.calls:
        if c.name == "Tensor::reset" and w.tensor(c.args[0]) == out and not guards:
            ctx.ok(k)
            return
        if c.name.startswith("Randomizer") and args:
            s = args[-1]
            b = (w.buffer(s.args[0]) or (w.buffer(s.args[0].args[0]) if s.args[0].op == "pt" else None)) if s.op == "subslice" else None
            if b == out:
                hi = w.simp(s.args[2])
                if s.args[1] is ZERO and hi is size:
                    ctx.ok(k)
                elif w.negative_somewhere(isub(hi, size)) and not guards:
                    ctx.violation(k, "%s: only elements %s..%s of the output are filled, of %s" % (w.name, show(s.args[1]), show(hi), show(size)), ctx.where(f))
                else:
                    ctx.undecided(k, "filled range %s" % show(s)[:100])
                return
    mine = []
    for e in r.entries:
        if e.buf != out:
            continue
        try:
            e = r.classify(e)
        except kern.Opaque as x:
            ctx.undecided(k, str(x))
            return
        e = kern.merge_tiles(w, e)
        mine.append(c_kernel.resplit(w, r, e))
    mine = c_kernel.merge_guards([e for e in mine])
    if not mine:
        if r.calls:
            ctx.undecided(k, "filled through %s" % r.calls[0][0].name)
        else:
            ctx.violation(k, "%s: the output is never stored to" % w.name, ctx.where(f))
        return
    if not all(kern.known_value(e.idx) for e in mine):
        ctx.undecided(k, "store index not in normal form")
        return
    covered = False
    for i, e in enumerate(mine):
        if e.mode == "set" and not e.guards and covers2(w, e, size):
            covered = True
        elif not covered and (e.mode != "set" or contains(e.val, lambda x: x.op == "OUT")):
            before = [x for x in mine[:i] if x.mode == "set"]
            miss = w.never_stored(before, size) if not w.prefix_map else None
            if miss is not None and not e.guards:
                ctx.violation(k, "%s: element %s is updated from its previous content although %s has not been stored to" % (w.name, show(e.idx)[:200], miss), ctx.where(f))
            else:
                ctx.undecided(k, "update before full assignment")
            return
    if covered:
        ctx.ok(k)
        return
    miss = w.never_stored(mine, size) if not w.prefix_map else None
    if miss is not None:
        ctx.violation(k, "%s: %s is never stored to" % (w.name, miss), ctx.where(f))
        return
    for e in mine:
        if e.mode == "set" and e.guards:
            bare = kern.Entry(e.buf, e.digits, e.idx, "set", e.val, (), e.base)
            if covers2(w, bare, size):
                miss = w.gap(mine, [bare], False)
                if miss:
                    ctx.violation(k, "%s: %s" % (w.name, miss), ctx.where(f))
                    return
    ctx.undecided(k, "coverage not established: %s" % "; ".join(show(e.idx)[:80] for e in mine[:2]))


FILLS = ("Tensor::reset", "Device::reset_tensor")


def call_targets(e):
    """(terms read, terms filled, kernel name) of a call effect"""
    n, a = e.name, e.args
    if n in FILLS:
        return [], [a[0] if n.startswith("Tensor") else a[1]], None
    if n in ("Device::call_fw_impl", "Device::call_fw_u32_impl", "Device::call_fw_f32_impl"):
        return [a[2]], [a[5]], strval(a[1])
    if n == "Device::call_bw_impl":
        return [a[2], a[3], a[4], a[7]], [], strval(a[1])
    return None


def same_place(t, x):
    return contains(t, lambda y: y is x)


def follow(effs, i, x):
    """what happens to the freshly allocated tensor x after position i: 'filled', ('bad', why), 'open' or ('maybe', why)"""
    for e in effs[i:]:
        if e.kind == "call":
            ct = call_targets(e)
            if ct is None:
                continue
            rd, fl, kn = ct
            if any(same_place(t, x) for t in rd):
                return ("bad", "%s%s reads it before anything was stored to it" % (e.name, " %s" % kn if kn else ""))
            if any(same_place(t, x) for t in fl):
                if kn in ASSIGNING:
                    return ("bad", "%s adds to it before anything was stored to it" % kn)
                return "filled"
        elif e.kind == "if":
            r1 = follow(e.then, 0, x)
            r2 = follow(e.els or [], 0, x)
            for r in (r1, r2):
                if r[0] == "bad":
                    return r
            if r1 == "filled" and r2 == "filled":
                return "filled"
            if r1 != "open" or r2 != "open":
                rest = follow(effs, effs.index(e) + 1, x)
                if rest == "filled":
                    return rest
                sized = contains(e.cond, lambda y: y.op in ("len", "call") or y.op == "field" and y.args[1] in ("shape", "volume", "batch", "dims"))
                return ("maybe" if sized else "bad", "only filled depending on %s" % show(e.cond)[:120])
        elif e.kind == "loop":
            r = follow(e.body, 0, x)
            if r != "open":
                rest = follow(effs, effs.index(e) + 1, x)
                return rest if rest == "filled" else ("maybe", "filled inside a loop")
    return "open"


def alloc_sites(effs, tail=()):
    """(allocated tensor, its fate)"""
    for i, e in enumerate(effs):
        if e.kind == "call" and e.name == "Tensor::alloc":
            x = e.args[0]
            r = follow(effs, i + 1, x)
            for rest, inloop in tail:
                if r != "open":
                    break
                r = follow(rest, 0, x)
                if r == "open" and inloop and any(f.kind == "loop" and any(c.name in FILLS + ("Device::call_fw_impl",) for c in calls_of(f.body)) for f in rest):
                    r = ("maybe", "a later loop may fill it")
            yield e, x, r
        elif e.kind == "if":
            yield from alloc_sites(e.then, ((effs[i + 1:], False),) + tail)
            yield from alloc_sites(e.els or [], ((effs[i + 1:], False),) + tail)
        elif e.kind == "loop":
            yield from alloc_sites(e.body, ((effs[i + 1:], True),) + tail)


def callers(ctx, keys):
    """non-test functions that call one of the functions, with closures attributed to themselves"""
    out = []
    for f in ctx.prog.fns.values():
        if "::tests::" in f.path or "test_utils" in f.path:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn"):
                r = t[1]["fn"].get("r") or t[1]["fn"]
                if r.get("key") in keys or t[1]["fn"].get("key") in keys:
                    out.append(f)
                    break
    return out


def allocations(ctx):
    al = ctx.fn("Tensor::alloc")
    if al is None:
        ctx.violation("anchor:Tensor::alloc", "no function allocates tensors")
        return
    todo = [f for f in callers(ctx, {al.key})]
    seen = set()
    n = 0
    while todo:
        f = todo.pop()
        if f.key in seen or f.closure:
            continue
        seen.add(f.key)
        name = ctx.prog.fname(f)
        s = ctx.summary(f, policies.DeviceLayer)
        if s is None:
            continue
        for e, x, r in alloc_sites(s.effects):
            n += 1
            k = "alloc:%s:%s" % (name, show(x)[:80])
            if r == "filled":
                ctx.ok(k)
            elif r == "open":
                escapes = any(c is not None and contains(c, lambda y: y is x) for c in [s.ret]) or root(x) not in ("local", None)
                if escapes and not f.j.get("reach") and not f.trait:
                    todo += callers(ctx, {f.key})
                    ctx.ok(k + ":left to callers")
                else:
                    ctx.violation("alloc:" + name, "%s is allocated and %s without being filled" % (show(x)[:150], "handed out" if escapes else "left"), e.span)
            elif r[0] == "bad":
                ctx.violation("alloc:" + name, "%s: %s" % (show(x)[:150], r[1]), e.span)
            else:
                ctx.undecided(k, r[1])
    ctx.floor("allocations followed", n, 25)
