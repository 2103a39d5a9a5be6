"""Ownership of device buffers: tensors (C13) and the memory pool (C14)."""
import itertools

from terms import *
from effects import walk
import policies

NULL = mk("null")
SINKS = ("Device::drop_handle", "MemoryPool::drop_handle")
SOURCES = ("Device::new_handle", "MemoryPool::new_handle")
CELLS = {"handle", "reference", "host_values", "shape", "device"}
STATES = ("empty", "owning", "borrowing", "on host", "empty reference")


class Unclear(Exception):
    pass


# ------------------------------------------------------------------ which functions matter
def fn_paths(f):
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
            yield t[1]["fn"]["path"], (t[1]["fn"].get("r") or {}).get("key")


DANGER = ("std::mem::forget", "ManuallyDrop", "std::ptr::read", "std::mem::transmute", "Box::<T>::leak", "Box::<T, A>::leak", "Vec::<T, A>::leak",
          "MaybeUninit")


def touches(ctx, f):
    """why a body can change who holds a buffer, or None"""
    for b in f.blocks:
        for s in b["s"]:
            if s[0] != "=":
                continue
            names = [p[2] for p in s[1]["p"] if p[0] == "." and len(p) > 2]
            if names and names[-1] in ("handle", "reference", "host_values", "shape"):
                return "writes " + names[-1]
            rv = s[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("tensor::Tensor"):
                return "builds a tensor"
    for p, k in fn_paths(f):
        if p.startswith("std::sync::atomic::Atomic::<*mut") and not p.endswith(("::load", "::new")):
            return "writes a handle"
        if p.startswith(("device::Device", "prima_undine::Device")) and p.endswith(("::new_handle", "::drop_handle")):
            return "acquires or releases a buffer"
    return None


def roots(ctx):
    """functions to analyse on their own, with the helpers they absorb"""
    ctx.prog
    fs = [f for f in ctx.prog.fns.values() if "::tests::" not in f.path and "test_utils" not in f.path]
    direct = {f.key: touches(ctx, f) for f in fs}
    callers = {}
    for f in fs:
        for p, k in fn_paths(f):
            if k:
                callers.setdefault(k, []).append(f)
    out, seen, todo = [], set(), [f for f in fs if direct[f.key]]
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.closure:
            continue
        if not f.j.get("reach") and not f.trait and callers.get(f.key):
            todo += callers[f.key]      # a helper: judged where it is used
            continue
        out.append(f)
    return sorted(out, key=lambda f: f.key)


# ------------------------------------------------------------------ abstract tensors
def peel(t, cell):
    return t.op == "field" and t.args[1] == cell


def tensor_roots(ctx, f, s):
    """the tensors whose buffer cells the summary mentions"""
    rs = []

    def istensor(b):
        return b.op == "arg" and "Tensor<" in f.crate.types[f.locals[b.args[0] + 1]]["s"].split("::")[-1] + "<"

    for e, p in walk(s.effects):
        if e.kind == "set" and e.path:
            b = e.base
            for n in e.path[:-1]:
                b = field(b, None, n)
            if b not in rs and (e.path[-1] in ("handle", "reference", "host_values") or e.path[-1] == "shape" and istensor(b)):
                rs.append(b)

    def look(t):
        for u in subterms(t):
            if u.op == "field" and u.args[1] in ("handle", "reference", "host_values") and u.args[0].op in ("arg", "field", "index", "as", "call", "var"):
                if u.args[0] not in rs:
                    rs.append(u.args[0])
    for e, p in walk(s.effects):
        for v in e.a.values():
            if isinstance(v, T):
                look(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, T):
                        look(x)
    if s.ret is not None:
        look(s.ret)
    return rs


class Cell:
    """final buffer cells of one tensor on one path"""

    def __init__(self, h, ref, host, dev, shape):
        self.h, self.ref, self.host, self.dev, self.shape = h, ref, host, dev, shape

    def copy(self):
        return Cell(self.h, self.ref, self.host, self.dev, self.shape)


class Path:
    """one feasible path of a function for one combination of entry states"""

    def __init__(self, roots, states):
        self.states = dict(zip(roots, states))
        self.cells = {}
        for r, st in self.states.items():
            h = ("null",) if st in ("empty", "on host", "empty reference") else ("buf", r)
            ref = None if st in ("empty", "owning", "on host") else ("entry", r)
            self.cells[r] = Cell(h, ref, st == "on host", field(r, None, "device"), field(r, None, "shape"))
        self.gone = set()
        self.released = []
        self.fresh = []
        self.eqs = []
        self.sizes = []

    def copy(self):
        p = Path.__new__(Path)
        p.states = self.states
        p.cells = {k: v.copy() for k, v in self.cells.items()}
        p.gone = set(self.gone)
        p.released, p.fresh, p.eqs, p.sizes = list(self.released), list(self.fresh), list(self.eqs), list(self.sizes)
        return p

    # entry-state evaluation of conditions
    def truth(self, c):
        if c.op == "bool":
            return bool(c.args[0])
        if c.op == "not":
            r = self.truth(c.args[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [self.truth(x) for x in c.args]
            if c.op == "and":
                return False if False in rs else True if all(rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if c.op == "eq":
            for a, b in (c.args, c.args[::-1]):
                if a is NULL:
                    try:
                        return self.value(b) == ("null",)
                    except Unclear:
                        return None
                if is_num(a) and b.op == "discr":
                    f = b.args[0]
                    if f.op == "field" and f.args[0] in self.states:
                        st = self.states[f.args[0]]
                        if f.args[1] == "host_values":
                            return (st == "on host") == (a.args[0] == 1)
                        if f.args[1] == "reference":
                            return (st in ("borrowing", "empty reference")) == (a.args[0] == 1)
            a, b = c.args
            if a is b:
                return True
        return None

    def value(self, t):
        """the buffer a term denotes"""
        if t.op == "agg" and t.args[0] == ("atomic",):
            return self.value(t.args[1])
        if t is NULL:
            return ("null",)
        if t.op == "ite":
            c = self.truth(t.args[0])
            if c is None:
                raise Unclear("which buffer " + show(t)[:80] + " denotes")
            return self.value(t.args[1] if c else t.args[2])
        if t.op == "ld":
            return self.value(t.args[0])
        if peel(t, "handle") and t.args[0] in self.states:
            st = self.states[t.args[0]]
            return ("buf", t.args[0]) if st in ("owning", "borrowing") else ("null",)
        if t.op == "call" and t.args[0] in SOURCES:
            return ("fresh", t)
        raise Unclear("which buffer " + show(t)[:80] + " denotes")

    def refers(self, t):
        """the tensor an Option<&Tensor> term designates, None when it is None"""
        if t.op == "agg" and t.args[0][0] == "adt":
            if len(t.args) == 1:
                return None
            return ("to", t.args[1])
        if peel(t, "reference") and t.args[0] in self.states:
            return self.cells_entry_ref(t.args[0])
        raise Unclear("reference " + show(t)[:80])

    def cells_entry_ref(self, r):
        return ("entry", r) if self.states[r] in ("borrowing", "empty reference") else None

    def host(self, t):
        if t.op == "agg" and t.args[0][0] == "adt":
            return len(t.args) > 1
        if peel(t, "host_values") and t.args[0] in self.states:
            return self.states[t.args[0]] == "on host"
        raise Unclear("host values " + show(t)[:80])

    def of_value(self, t):
        """cells of a tensor given by value: a literal, an updated tensor or a tensor of the entry state"""
        if t.op == "agg" and t.args[0][0] == "adt" and "handle" in t.args[0][4]:
            return None, Cell(self.value(field(t, None, "handle")), self.refers(field(t, None, "reference")), self.host(field(t, None, "host_values")),
                              field(t, None, "device"), field(t, None, "shape"))
        if t.op == "with":
            r, c = self.of_value(t.args[0])
            c = c.copy()
            for n, v in t.args[1]:
                if n == "handle":
                    c.h = self.value(v)
                elif n == "reference":
                    c.ref = self.refers(v)
                elif n == "host_values":
                    c.host = self.host(v)
                elif n == "device":
                    c.dev = v
                elif n == "shape":
                    c.shape = v
            return r, c
        if t in self.states:
            return t, self.cells[t].copy()
        raise Unclear("tensor " + show(t)[:80])


def equal_under(eqs, a, b):
    """a = b from the equalities asserted on the path"""
    if a is b:
        return True
    par = {}

    def find(x):
        while x in par:
            x = par[x]
        return x
    for x, y in eqs:
        x, y = find(x), find(y)
        if x is not y:
            par[x] = y
    if find(a) is find(b):
        return True
    for u, v in ((a, b), (b, a)):
        if u.op == "agg" and len(u.args) == 2 and find(u.args[1]) is find(mk("field", mk("as", v, "Some"), "0")):
            return True
    return False


def size_of(sh):
    return imul(field(sh, None, "batch"), field(sh, None, "volume"))


class Fn:
    def __init__(self, ctx, f, s, extra):
        self.ctx, self.f, self.s = ctx, f, s
        self.name = ctx.prog.fname(f)
        self.extra = extra
        self.problems = []
        self.produced = set()
        self.paths = 0
        self.is_drop = self.name.endswith(".Drop::drop") and self.name.startswith("Tensor.")

    def decide(self):
        rs = tensor_roots(self.ctx, self.f, self.s)
        if len(rs) > 4:
            raise Unclear("%d tensors involved" % len(rs))
        sts = STATES[:5 if self.extra else 4]
        for combo in itertools.product(sts, repeat=len(rs)):
            p = Path(rs, combo)
            for q in self.run(p, self.s.effects):
                self.paths += 1
                self.judge(q)

    def run(self, p, effs):
        ps = [p]
        for e in effs:
            nxt = []
            for q in ps:
                nxt += self.one(q, e)
            ps = nxt
            if len(ps) > 64:
                raise Unclear("too many paths")
        return ps

    def one(self, p, e):
        if e.kind == "assert":
            r = p.truth(e.cond)
            if r is False:
                return []
            self.learn(p, e.cond)
            return [p]
        if e.kind == "if":
            r = p.truth(e.cond)
            out = []
            if r is not False:
                q = p.copy()
                self.learn(q, e.cond)
                out += self.run(q, e.then)
            if r is not True:
                q = p.copy()
                self.learn(q, bnot(e.cond))
                out += self.run(q, e.els or [])
            return out
        if e.kind == "loop":
            if any(self.relevant(x) for x, _ in walk(e.body)):
                raise Unclear("buffers change hands in a loop")
            return [p]
        if e.kind == "set":
            last = e.path[-1] if e.path else None
            base = e.base
            for n in e.path[:-1]:
                base = field(base, None, n)
            self.write(p, base, last, e.val)
            return [p]
        if e.kind == "store":
            return [p]
        if e.kind == "drop":
            if e.ty == "Tensor":
                r, c = p.of_value(e.val)
                self.release_cell(p, c)
                if r is not None:
                    p.gone.add(r)
            return [p]
        if e.kind == "call":
            n = e.name
            if n == "Atomic::store":
                t = e.args[0]
                if peel(t, "handle"):
                    if t.args[0] in p.cells:
                        p.cells[t.args[0]].h = p.value(e.args[1])
                    # otherwise a tensor built here: its final value carries the handle
                elif t.op == "agg" or t.op == "with":
                    pass
                else:
                    raise Unclear("store to " + show(t)[:80])
            elif n.split("::")[-1] == "forget" and len(e.args) == 1:
                r, c = p.of_value(e.args[0])
                if r is not None:
                    p.gone.add(r)
            elif n in SOURCES:
                p.fresh.append(("fresh", e.res, e.args[0], e.args[1]))
            elif n in SINKS:
                p.released.append((p.value(e.args[1]), e.args[0]))
        return [p]

    def relevant(self, e):
        return e.kind == "call" and (e.name in SOURCES + SINKS or e.name == "Atomic::store") or e.kind == "set" and e.path and e.path[-1] in CELLS or \
            e.kind == "drop" and e.ty == "Tensor"

    def learn(self, p, c):
        for x in c.args if c.op == "and" else [c]:
            if x.op == "eq":
                p.eqs.append(tuple(x.args))

    def write(self, p, base, cell, val):
        if cell not in CELLS:
            return
        if base not in p.cells:
            if cell in ("shape", "device"):
                return
            raise Unclear("write to %s.%s" % (show(base)[:60], cell))
        c = p.cells[base]
        if cell == "handle":
            c.h = p.value(val)
        elif cell == "reference":
            c.ref = p.refers(val)
        elif cell == "host_values":
            c.host = p.host(val)
        elif cell == "shape":
            c.shape = val
        elif cell == "device":
            c.dev = val

    def release_cell(self, p, c):
        if c.h != ("null",) and c.ref is None:
            p.released.append((c.h, None))

    # ---------------------------------------------------------------- verdict
    def bad(self, p, what):
        st = ", ".join("%s %s" % (show(r)[:40], s) for r, s in p.states.items())
        self.problems.append("%s%s" % (what, " (entering with %s)" % st if st else ""))

    def judge(self, p):
        live = [(show(r), c, r) for r, c in p.cells.items() if r not in p.gone and not (self.is_drop and r.op == "arg")]
        for t in returned(self.s.ret):
            try:
                r, c = p.of_value(t)
            except Unclear:
                if contains(t, lambda u: u.op == "call" and u.args[0] in SOURCES or u.op == "field" and u.args[1] == "handle"):
                    raise
                continue
            if r is not None:
                live = [x for x in live if x[2] is not r]
            live.append(("the result", c, None))
        bufs = [("buf", r) for r, s in p.states.items() if s == "owning"] + [x[:2] for x in p.fresh]
        foreign = [("buf", r) for r, s in p.states.items() if s == "borrowing"]
        holders = {}
        for n, c, r in live:
            if c.ref is None and c.h != ("null",):
                holders.setdefault(c.h, []).append(n)
        rel = {}
        for b, d in p.released:
            rel[b] = rel.get(b, 0) + 1
        raw = [returned_raw(p, self.s.ret)] if self.s.ret is not None else []
        for b in bufs:
            k = len(holders.get(b, [])) + rel.get(b, 0) + (1 if b in raw else 0)
            if k == 0:
                self.bad(p, "%s is lost: no tensor owns it and it is not released" % bufname(b))
            elif k > 1:
                how = ["owned by " + n for n in holders.get(b, [])] + ["released"] * rel.get(b, 0)
                self.bad(p, "%s is %s" % (bufname(b), " and ".join(how)))
        for b in foreign:
            if holders.get(b):
                self.bad(p, "%s, which belongs to another tensor, becomes owned by %s" % (bufname(b), " and ".join(holders[b])))
            if rel.get(b):
                self.bad(p, "%s is released although it belongs to another tensor" % bufname(b))
        if rel.get(("null",)):
            self.bad(p, "releases a buffer the tensor does not have")
        for n, c, r in live:
            if c.h != ("null",) and c.host:
                self.bad(p, "%s has both a device buffer and pending host values" % n)
            if c.host and c.ref is not None:
                self.bad(p, "%s refers to another tensor and has host values" % n)
            if c.ref is not None:
                self.reference(p, n, c, r)
            if c.ref is not None and c.h == ("null",):
                self.produced.add("empty reference")
            self.fits(p, n, c, r)

    def reference(self, p, n, c, r):
        if c.h == ("null",):
            return
        if c.ref[0] == "entry":
            if c.h != ("buf", c.ref[1]) or p.states[c.ref[1]] != "borrowing":
                self.bad(p, "%s is marked as a reference to another tensor but holds %s" % (n, bufname(c.h)))
            return
        to = c.ref[1]
        src = p.cells.get(to)
        if src is None or src.h != c.h:
            self.bad(p, "%s refers to %s but holds %s" % (n, show(to)[:60], bufname(c.h)))
        elif not equal_under(p.eqs, c.dev, field(to, None, "device")):
            self.bad(p, "%s may refer to a tensor of another device" % n)

    def fits(self, p, n, c, r):
        """the buffer has exactly the elements the shape declares, on the tensor's own device"""
        if c.h == ("null",):
            return
        if c.h[0] == "fresh":
            src = [x for x in p.fresh if x[1] is c.h[1]][0]
            if not (src[3] is size_of(c.shape) or equal_under(p.eqs, src[3], size_of(c.shape))):
                self.bad(p, "%s gets a buffer of %s elements for a shape of %s" % (n, show(src[3])[:80], show(size_of(c.shape))[:80]))
            dev, d = src[2], c.dev
            if not (d.op == "agg" and len(d.args) == 2 and d.args[1] is dev or dev is mk("field", mk("as", d, "Some"), "0") or equal_under(p.eqs, d, dev)):
                self.bad(p, "%s gets a buffer of another device, %s" % (n, show(dev)[:80]))
            return
        src = c.h[1]
        sh, dv = field(src, None, "shape"), field(src, None, "device")
        if not (equal_under(p.eqs, sh, c.shape) or equal_under(p.eqs, size_of(sh), size_of(c.shape))):
            self.bad(p, "%s keeps a buffer of shape %s while its shape is %s" % (n, show(sh)[:80], show(c.shape)[:80]))
        if not equal_under(p.eqs, dv, c.dev):
            self.bad(p, "%s holds a buffer of another device" % n)


def bufname(b):
    if b == ("null",):
        return "no buffer"
    if b[0] == "fresh":
        return "the newly acquired buffer"
    return "the buffer of " + show(b[1])[:60]


def returned(t):
    """tensors inside a returned value"""
    if t is None:
        return []
    out = []

    def go(u):
        if u.op == "agg" and u.args[0][0] == "adt" and len(u.args[0]) > 4 and "handle" in u.args[0][4] and "reference" in u.args[0][4]:
            out.append(u)
            return
        if u.op == "with" and any(n in CELLS for n, _ in u.args[1]):
            out.append(u)
            return
        if u.op == "agg":
            for x in u.args[1:]:
                if isinstance(x, T):
                    go(x)
    go(t)
    return out


def returned_raw(p, t):
    try:
        return p.value(t)
    except Unclear:
        return None


def run_tensors(ctx):
    ctx.rule = ("Typestate of a tensor's buffer: every function that can change a handle, reference, pending host values or shape is followed on every path from every "
                "combination of entry states (empty, owning, borrowing, on host), counting for each buffer the tensors that own it at exit and its releases; both must sum "
                "to one for owned buffers and to zero for borrowed ones, and the buffer must keep fitting the declared shape.")
    fs = roots(ctx)
    extra = False
    while True:
        res = []
        again = False
        for f in fs:
            if pool_side(ctx, f):
                continue
            s = ctx.summary(f, policies.OwnLayer)
            if s is None:
                res.append((f, None, "not in reach"))
                continue
            x = Fn(ctx, f, s, extra)
            try:
                x.decide()
            except Unclear as e:
                res.append((f, x, str(e)))
                continue
            res.append((f, x, None))
            if x.produced and not extra:
                again = True
        if not again:
            break
        extra = True
    n = 0
    for f, x, why in res:
        name = ctx.prog.fname(f)
        if why:
            ctx.undecided(name, why)
            continue
        n += 1
        if x.problems:
            seen = []
            for q in x.problems:
                if q not in seen:
                    seen.append(q)
            ctx.violation(name, "; ".join(seen[:4]), ctx.where(f))
        else:
            ctx.ok("%s: %d path(s)" % (name, x.paths))
    ctx.floor("functions that handle buffers", len(res), 6)
    dangerous(ctx, {f.key for f, x, why in res if not why})
    exists_drop(ctx)


def pool_side(ctx, f):
    n = ctx.prog.fname(f)
    return n.startswith(("MemoryPool", "memory_pool::", "Device::new_handle", "Device::drop_handle")) or ".DeviceImpl::" in n


def exists_drop(ctx):
    f = ctx.fn("Tensor.Drop::drop")
    if f is None:
        ctx.violation("Tensor: release", "tensors have no destructor: no buffer is ever released")
    # whoever forwards to the pool must do so exactly
    for n, to in (("Device::new_handle", "MemoryPool::new_handle"), ("Device::drop_handle", "MemoryPool::drop_handle")):
        f = ctx.fn(n)
        if f is None:
            ctx.undecided(n, "not found")
            continue
        s = ctx.summary(f, policies.OwnLayer)
        cs = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and e.name == to]
        good = len(cs) == 1 and not cs[0][1] and cs[0][0].args[1] is s.args[1] and (to in SINKS or s.ret is cs[0][0].res)
        ctx.require(good, n + ": forwards", "%s does not hand its argument to the memory pool exactly once: %s" % (
            n, "; ".join(show(e.res)[:80] for e, p in cs) or "no call"), ctx.where(f))


def dangerous(ctx, decided):
    """escapes from ownership: forgetting, duplicating or reinterpreting a tensor"""
    n = 0
    for f in ctx.prog.fns.values():
        if "::tests::" in f.path or "test_utils" in f.path:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
                n += 1
                p = t[1]["fn"]["path"]
                if any(d in p for d in DANGER):
                    tys = [f.crate.types[x]["s"] for x in t[1]["fn"].get("targs", [])]
                    if any("Tensor" in y for y in tys) and not (f.key in decided and p.endswith("::forget")):
                        ctx.violation("%s: %s" % (ctx.prog.fname(f), p.split("::")[-1]), "%s applied to %s takes the tensor's buffer out of its owner's control" % (p, ", ".join(tys)), t[5])
    ctx.ok("no call forgets, duplicates or reinterprets a tensor: %d call sites" % n)


# ====================================================================== the memory pool
import bits

POPS = ("pop", "pop_back", "pop_front", "swap_remove", "remove")


def is_op(e, *names):
    return e.kind == "call" and e.name.split("::")[0] in ("Vec", "VecDeque", "HashMap", "BTreeMap") and e.name.split("::")[-1] in names


def cases():
    """the possible request sizes, split at the powers of two"""
    for p in range(32):
        yield 1 << p, 1 << p
        if p:
            yield (1 << p) + 1, (2 << p) - 1


class Alloc:
    """the outcomes of one request size class"""

    def __init__(self, s, lo, hi, env):
        self.s, self.lo, self.hi = s, lo, hi
        self.ev = bits.Eval(dict(env, **{}))
        self.ev.env[s.args[1]] = bits.B(lo, hi)
        self.rejected = False

    def loops(self, effs):
        for e in effs:
            if e.kind == "loop":
                iterate(self.ev, e)

    def truth(self, c, choice):
        if c in choice:
            return (choice[c],)
        if c.op == "not":
            return tuple(not x for x in self.truth(c.args[0], choice))
        try:
            return self.ev.truth(c)
        except bits.NoIdea:
            return (True, False)

    def run(self, effs, choice):
        """[(choices, effects executed)] for every outcome of the undetermined conditions; None when rejected"""
        if not effs:
            return [(choice, [])]
        e, rest = effs[0], effs[1:]
        if e.kind == "assert":
            t = self.truth(e.cond, choice)
            if t == (False,):
                return []
            return [(c, [e] + r) for c, r in self.run(rest, choice)]
        if e.kind == "if":
            out = []
            for v in self.truth(e.cond, choice):
                b = list(e.then if v else e.els or [])
                out += self.run(b + list(rest), dict(choice, **{}) if e.cond.op == "bool" else put(choice, e.cond, v))
            return out
        return [(c, [e] + r) for c, r in self.run(rest, choice)]

    def pick(self, t, choice):
        """a term with its choices made"""
        if t.op == "ite":
            v = self.truth(t.args[0], choice)
            if len(v) == 1:
                return self.pick(t.args[1] if v[0] else t.args[2], choice)
            return t
        na = tuple(self.pick(x, choice) if isinstance(x, T) else x for x in t.args) if any(
            isinstance(x, T) and contains(x, lambda u: u.op == "ite") for x in t.args) else t.args
        return t if na == t.args else rebuild(t, na)


def put(choice, c, v):
    d = dict(choice)
    d[c] = v
    if c.op == "not":
        d[c.args[0]] = not v
    return d


def iterate(ev, e):
    """values after a loop that computes numbers: the loop is followed on the abstract values"""
    phis = e.a.get("phis") or {}
    cur = {}
    try:
        for p, (init, nxt) in phis.items():
            cur[p] = ev(init)
        for i in range(70):
            x = bits.Eval(dict(ev.env, **{}))
            x.env.update(cur)
            x.env[e.k] = bits.const(i)
            c = x.truth(e.a["cont"]) if e.a.get("cont") is not None else x.truth(mk("lt", e.k, e.N))
            if c == bits.FALSE3:
                break
            if c != bits.TRUE3:
                return
            cur = {p: x(nxt) for p, (init, nxt) in phis.items()}
        else:
            return
    except bits.NoIdea:
        return
    for p, v in cur.items():
        ev.env[p] = v


def base_of(t):
    """the container an operation works on: (pool field, class index or None)"""
    if t.op == "index":
        return t.args[0], t.args[1]
    return t, None


def strip_out(t):
    while t.op == "out":
        t = t.args[0].args[1 + t.args[1]] if isinstance(t.args[1], int) and t.args[0].op == "call" else t.args[0]
    return t


def key_of(t):
    """the handle a map key or stored handle is made of"""
    while True:
        if t.op == "agg" and t.args[0] == ("atomic",):
            t = t.args[1]
        elif t.op in ("cast", "ptr2int", "p2i") and isinstance(t.args[-1], T):
            t = t.args[-1]
        else:
            break
    return t.args[0] if t.op == "ld" else t


def run_pool(ctx):
    ctx.rule = ("The pool's request path is evaluated for every request size, split at the powers of two, over known bits and intervals: each class must only hold buffers at least as "
                "large as any request it serves, buffers are removed from the pool before they are handed out, recorded once in the live table under their class, and returned to "
                "that class exactly once. Destruction frees every pooled buffer once, and locks are taken in one order.")
    acquire(ctx)
    giveback(ctx)
    destroy(ctx)
    locks(ctx)
    backend(ctx)


def acquire(ctx):
    f = ctx.fn("MemoryPool::new_handle")
    if f is None:
        ctx.violation("anchor:new_handle", "the pool has no allocation function")
        return
    w = ctx.where(f)
    s = ctx.summary(f, policies.PoolLayer)
    if s is None or s.ret is None:
        ctx.undecided("MemoryPool::new_handle", "not in reach")
        return
    me = s.args[0]
    env = {}
    c = ctx.summary("MemoryPool::new", policies.PoolLayer) if ctx.fn("MemoryPool::new") else None
    if c is not None and c.ret is not None and c.ret.op == "agg":
        for n, v in zip(c.ret.args[0][4], c.ret.args[1:]):
            if v.op == "seq" and is_num(v.args[0]):
                env[mk("len", field(me, None, n))] = bits.const(int(v.args[0].args[0]))
    table, fresh_of, problems = {}, {}, []
    undec = None
    for lo, hi in cases():
        a = Alloc(s, lo, hi, env)
        nm = "requests of %d" % lo if lo == hi else "requests of %d to %d" % (lo, hi)
        try:
            a.loops(s.effects)
            outs = a.run(list(s.effects), {})
            if not outs:
                if hi <= 1 << 31:
                    problems.append("%s elements are refused" % nm)
                continue
            for choice, effs in outs:
                r = outcome(ctx, a, s, me, choice, effs, nm, problems)
                if r is None:
                    continue
                kind, cls, n = r
                if kind == "fresh":
                    fresh_of.setdefault(cls, []).append((n, nm))
                table.setdefault(cls, []).append((hi, nm))
        except bits.NoIdea as e:
            undec = undec or "%s: %s" % (nm, e)
        except Unclear as e:
            undec = undec or "%s: %s" % (nm, e)
    for cls, ns in fresh_of.items():
        for n, nm in ns:
            for hi, nm2 in table.get(cls, []):
                if n < hi:
                    problems.append("%s get a buffer of only %d elements in class %d, which also serves %s" % (nm, n, cls, nm2) if nm != nm2 else
                                    "%s get a buffer of only %d elements" % (nm, n))
    if undec:
        ctx.undecided("MemoryPool::new_handle", undec)
    if problems:
        ps = []
        for p in problems:
            if p not in ps:
                ps.append(p)
        ctx.violation("MemoryPool::new_handle", "; ".join(ps[:4]), w)
    elif not undec:
        for lo, hi in cases():
            ctx.ok("request sizes %d..%d" % (lo, hi))
        ctx.floor("size classes", len(table), 2)


def outcome(ctx, a, s, me, choice, effs, nm, problems):
    ret = a.pick(s.ret, choice)
    src = key_of(ret)
    pops = [e for e in effs if is_op(e, *POPS) and contains(e.args[0], lambda u: u.op == "field" and u.args[0] is me) and not e.name.startswith("HashMap")]
    news = [e for e in effs if e.kind == "call" and e.name.endswith("DeviceImpl::new_handle")]
    ins = [e for e in effs if is_op(e, "insert") and e.name.startswith(("HashMap", "BTreeMap"))]
    kind = None
    for e in pops:
        if contains(src, lambda u: u is e.res):
            kind, ev = "pooled", e
            break
    for e in news:
        if src is e.res:
            kind, ev = "fresh", e
    if kind is None:
        if src.op == "null":
            problems.append("%s are given no buffer" % nm)
            return None
        if src.op in ("ite", "havoc", "phi", "fold"):
            raise Unclear("the buffer handed out is " + show(src)[:100])
        if contains(src, lambda u: u.op == "field" and u.args[0] is me):
            problems.append("%s are given a pooled buffer that stays in the pool: %s" % (nm, show(src)[:120]))
            return None
        raise Unclear("the buffer handed out is " + show(src)[:100])
    lost = [e for e in news if e is not ev]
    if lost:
        problems.append("%s acquire a buffer that is not handed out" % nm)
    for e in pops:
        if e is not ev and a.truth(mk("eq", ONE, mk("discr", e.res)), choice) != (False,) and not contains(src, lambda u: u is e.res):
            if a.truth(mk("not", mk("eq", ONE, mk("discr", e.res))), choice) == (True,):
                continue
            if a.truth(mk("eq", ZERO, mk("discr", e.res)), choice) == (True,):
                continue
            problems.append("%s drop a pooled buffer" % nm)
    if len(ins) != 1:
        problems.append("%s are recorded %d times in the table of live buffers" % (nm, len(ins)))
        return None
    k = key_of(a.pick(ins[0].args[1], choice))
    if k is not src:
        if k.op in ("ite", "havoc"):
            raise Unclear("recorded buffer " + show(k)[:80])
        problems.append("%s are recorded under %s, not under the buffer handed out" % (nm, show(k)[:80]))
        return None
    c = a.ev(a.pick(ins[0].args[2], choice))
    if c.const is None:
        raise Unclear("class of " + nm)
    cls = c.const
    if kind == "pooled":
        b, i = base_of(ev.args[0])
        if i is None:
            raise Unclear("pool " + show(b)[:80])
        j = a.ev(i)
        if j.const is None:
            raise Unclear("pooled class of " + nm)
        if j.const != cls:
            problems.append("%s take a buffer of class %d and record it as class %d" % (nm, j.const, cls))
            return None
        return kind, cls, None
    n = a.ev(ev.args[1])
    return kind, cls, n.lo


def giveback(ctx):
    f = ctx.fn("MemoryPool::drop_handle")
    if f is None:
        ctx.violation("anchor:drop_handle", "the pool has no function that takes a buffer back")
        return
    w = ctx.where(f)
    s = ctx.summary(f, policies.PoolLayer)
    if s is None:
        ctx.undecided("MemoryPool::drop_handle", "not in reach")
        return
    me, h = s.args[0], s.args[1]
    k = "MemoryPool::drop_handle"
    seq = [(e, p) for e, p in walk(s.effects)]
    rem = [(i, e, p) for i, (e, p) in enumerate(seq) if is_op(e, "remove", "remove_entry")]
    push = [(i, e, p) for i, (e, p) in enumerate(seq) if is_op(e, "push", "push_back", "push_front", "insert")]
    if any(e.kind == "loop" and any(is_op(x, "push", "remove", "insert") for x, _ in walk(e.body)) for e, p in seq):
        ctx.undecided(k, "loops over its containers")
        return
    if not rem:
        ctx.violation(k + ": live table", "a returned buffer is not taken out of the table of live buffers: returning it twice goes unnoticed and shares it", w)
        return
    if len(rem) > 1:
        ctx.undecided(k, "%d removals" % len(rem))
        return
    i, e, p = rem[0]
    if p:
        ctx.violation(k + ": live table", "the buffer is only taken out of the live table when %s" % show(p[-1][1])[:100], w) if p[-1][0] == "if" else ctx.undecided(k, "removal in a loop")
        return
    if key_of(e.args[1]) is not h:
        ctx.violation(k + ": live table", "removes %s instead of the returned buffer" % show(e.args[1])[:100], w)
        return
    ctx.ok(k + ": taken out of the live table")
    known = [x for x, q in seq if x.kind == "assert" and about_presence(x.cond, e.res)]
    must = bool(known) or e.a.get("must") is True
    if not must:
        ctx.violation(k + ": not live", "returning a buffer that is not live is not refused", w)
    else:
        ctx.ok(k + ": refuses buffers that are not live")
    if len(push) != 1:
        ctx.violation(k + ": pool", "the returned buffer is put back into the pool %d times" % len(push), w)
        return
    j, g, q = push[0]
    if [x for x in q if not (x[0] == "if" and about_presence(x[1], e.res))]:
        c = q[-1]
        if c[0] == "if":
            ctx.violation(k + ": pool", "the buffer is only put back when %s" % show(c[1])[:120], w)
        else:
            ctx.undecided(k, "put back in a loop")
        return
    b, ix = base_of(g.args[0])
    got = key_of(g.args[-1])
    if got is not h:
        ctx.violation(k + ": pool", "puts %s back instead of the returned buffer" % show(got)[:100], w)
        return
    if ix is None:
        ctx.undecided(k, "container " + show(b)[:80])
        return
    if ix is field(mk("as", e.res, "Some"), None, "0") or ix is mk("field", mk("as", e.res, "Some"), "0"):
        ctx.ok(k + ": returns to its own class")
    elif contains(ix, lambda u: u is e.res) and ix.op == "poly" or is_num(ix) or not contains(ix, lambda u: u is e.res):
        ctx.violation(k + ": class", "a returned buffer goes to class %s instead of the class it was recorded with" % show(ix)[:100].replace(show(e.res), "recorded"), w)
    else:
        ctx.undecided(k, "class " + show(ix)[:100])
    if j < i:
        ctx.violation(k + ": order", "the buffer is offered to others before it leaves the table of live buffers", w)


def about_presence(c, r):
    """the condition only says that the removal found an entry"""
    if c.op == "not":
        return about_presence(c.args[0], r)
    return c.op == "eq" and any(a.op == "discr" and a.args[0] is r for a in c.args)


def from_front(i, loop):
    """the index of a list entry, counted from the front when the loop visits the list from its end"""
    return loop.k if i is isub(isub(loop.N, num(1)), loop.k) else i


def destroy(ctx):
    f = ctx.fn("MemoryPool.Drop::drop")
    if f is None:
        ctx.violation("MemoryPool: destruction", "pooled buffers are never freed: the pool has no destructor")
        return
    w = ctx.where(f)
    s = ctx.summary(f, policies.PoolLayer)
    k = "MemoryPool.Drop::drop"
    if s is None:
        ctx.undecided(k, "not in reach")
        return
    me = s.args[0]
    cs = [(e, p) for e, p in walk(s.effects) if e.kind == "call" and e.name.endswith("DeviceImpl::drop_handle")]
    if len(cs) != 1:
        if any(e.kind == "loop" and e.lkind != "count" for e, p in walk(s.effects)) and cs:
            ctx.undecided(k, "loops of unknown extent")
        else:
            ctx.violation(k, "every pooled buffer is freed %d times" % len(cs), w)
        return
    e, p = cs[0]
    ls = [x[1] for x in p if x[0] == "loop"]
    conds = [x[1] for x in p if x[0] == "if"]
    h = key_of(e.args[1])
    if any(l.lkind != "count" for l in ls):
        # while let Some(h) = v.pop(): frees what it removes until nothing is left
        if contains(h, lambda u: u.op == "call" and u.args[0].split("::")[-1] in POPS):
            ctx.ok(k + ": frees what it removes")
        else:
            ctx.undecided(k, "loop of unknown extent over " + show(h)[:80])
        return
    pool = field(me, None, "pool")
    if conds:
        ctx.violation(k, "a pooled buffer is only freed when %s" % show(conds[0])[:120], w)
        return
    fields = [u for u in subterms(h) if u.op == "field" and u.args[0] is me]
    pool = fields[0] if fields else pool
    two = len(ls) == 2 and h.op == "index" and h.args[0].op == "index" and h.args[0].args[0] is pool
    if two:
        h = index(index(pool, from_front(h.args[0].args[1], ls[0])), from_front(rewrite(h.args[1], lambda u: index(pool, from_front(u.args[1], ls[0])) if u.op == "index" and u.args[0] is pool else None), ls[1]))
        n1 = rewrite(ls[1].N, lambda u: index(pool, from_front(u.args[1], ls[0])) if u.op == "index" and u.args[0] is pool else None)
    if two and h is index(index(pool, ls[0].k), ls[1].k):
        if ls[0].N is mk("len", pool) and n1 is mk("len", index(pool, ls[0].k)):
            ctx.ok(k + ": frees every pooled buffer once")
        else:
            ctx.violation(k, "frees the first %s buffers of the first %s classes only" % (show(ls[1].N)[:80], show(ls[0].N)[:80]), w)
    elif h.op == "index" and h.args[0].op == "index" and h.args[0].args[0] is pool:
        ctx.violation(k, "frees %s under loops over %s" % (show(h)[:100], ", ".join(show(l.N)[:60] for l in ls) or "nothing"), w)
    else:
        ctx.undecided(k, "frees " + show(h)[:100])


def locks(ctx):
    """no function takes a lock it holds, and locks are always taken in the same order"""
    edges, n = {}, 0
    names = [x for x in ctx.byname if x.startswith(("MemoryPool::", "MemoryPool."))]
    for nm in names:
        f = ctx.fn(nm)
        s = ctx.summary(f, policies.PoolLayer)
        if s is None:
            continue
        held = []

        def go(effs, held):
            nonlocal n
            for e in effs:
                if e.kind == "call" and e.name == "Mutex::lock":
                    n += 1
                    t = root_field(e.args[0])
                    if t in held:
                        ctx.violation("%s: lock" % nm, "takes the lock of %s while holding it" % t, ctx.where(f))
                    for x in held:
                        edges.setdefault((x, t), nm)
                    held.append(t)
                elif e.kind == "drop" and e.ty.startswith("MutexGuard"):
                    t = root_field(strip_out(e.val))
                    if t in held:
                        held.remove(t)
                elif e.kind == "call" and e.name.split("::")[-1] == "drop" and e.args:
                    t = root_field(strip_out(e.args[0]))
                    if t in held:
                        held.remove(t)
                elif e.kind == "if":
                    a, b = list(held), list(held)
                    go(e.then, a)
                    go(e.els or [], b)
                    held[:] = [x for x in held if x in a and x in b] + [x for x in a if x in b and x not in held]
                elif e.kind == "loop":
                    go(e.body, list(held))
        go(s.effects, held)
    for (a, b), nm in edges.items():
        if (b, a) in edges and a < b:
            ctx.violation("lock order", "%s takes %s then %s, %s takes them the other way round: two threads can wait for each other forever" % (nm, a, b, edges[(b, a)]),
                          ctx.where(nm))
    ctx.ok("lock order over %d acquisitions" % n)


def root_field(t):
    for u in subterms(t):
        if u.op == "field" and u.args[0].op == "arg":
            last = u
            return last.args[1]
    return show(t)


def backend(ctx):
    """the reference device's buffers hold what is asked for and are freed as what they were"""
    f = ctx.fn("Naive.DeviceImpl::new_handle")
    g = ctx.fn("Naive.DeviceImpl::drop_handle")
    if f is None or g is None:
        ctx.violation("anchor:Naive", "the reference device has no buffer management")
        return
    s = ctx.summary(f, policies.OwnLayer)
    if s is None or s.ret is None:
        ctx.undecided("Naive::new_handle", "not in reach")
    else:
        v = s.ret.args[1] if s.ret.op == "agg" and s.ret.args[0] == ("atomic",) else s.ret
        if v.op == "alloc":
            ctx.require(v.args[-1] is s.args[1] or ge_arg(v.args[-1], s.args[1]), "Naive::new_handle: size", "a buffer of %s elements is created for a request of %s" % (
                show(v.args[-1])[:80], show(s.args[1])), ctx.where(f))
        else:
            ctx.undecided("Naive::new_handle", "returns " + show(s.ret)[:100])
    raw = boxed(f, ("into_raw", "leak"))
    un = boxed(g, ("from_raw",))
    if raw and un:
        ctx.require(raw[0][0] == un[0][0], "Naive: buffer type", "buffers are created as %s and freed as %s" % (raw[0][0], un[0][0]), ctx.where(g))
        ctx.require(len(un) == 1 and dropped(g, un[0][1]), "Naive::drop_handle: frees", "the buffer taken back is not freed", ctx.where(g))
    elif raw and not un:
        ok = any("from_raw" in p or "dealloc" in p or "drop_in_place" in p for p, _ in fn_paths(g))
        if ok:
            ctx.undecided("Naive::drop_handle", "frees in another way")
        elif any(True for p, k in fn_paths(g) if k and k in ctx.prog.fns):
            ctx.undecided("Naive::drop_handle", "frees through a helper")
        else:
            ctx.violation("Naive::drop_handle: frees", "buffers are never freed", ctx.where(g))
    else:
        ctx.undecided("Naive", "buffers are not boxes")


def ge_arg(t, a):
    d = isub(t, a)
    return is_num(d) and d.args[0] >= 0


def boxed(f, names):
    out = []
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
            p = t[1]["fn"]["path"]
            if "boxed::Box" in p and p.split("::")[-1] in names:
                tys = [f.crate.types[x]["s"] for x in t[1]["fn"].get("targs", [])]
                out.append((tys[0] if tys else "?", t[3]["l"]))
    return out


def dropped(f, local):
    alias = {local}
    for _ in range(3):
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1].get("k") == "move" and s[2][1]["pl"]["l"] in alias and not s[2][1]["pl"]["p"]:
                    alias.add(s[1]["l"])
            t = b["t"]
            if t[0] == "call":
                args = t[2]
                if any(a.get("k") == "move" and a["pl"]["l"] in alias and not a["pl"]["p"] for a in args):
                    p = t[1]["fn"]["path"] if "fn" in t[1] else ""
                    if p.endswith("mem::drop"):
                        return True
    return any(b["t"][0] == "drop" and b["t"][1]["l"] in alias and not b.get("c") for b in f.blocks)
