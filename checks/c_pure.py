"""No hidden state (C28): what an operation does depends on what it is given and on nothing else."""
import re
import interp
from effects import *
from c_dispatch import kernel_registry

# std types whose content can change behind a shared reference
CELLS = ("Cell", "RefCell", "UnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "Once", "Barrier", "ReentrantLock", "Condvar", "Atomic",
         "AtomicBool", "AtomicUsize", "AtomicU32", "AtomicU64", "AtomicI32", "AtomicI64", "AtomicPtr", "AtomicIsize", "SyncUnsafeCell")
# objects a user hands to an operation: their content is an operand, not state of the operation
OPERANDS = ("tensor::Tensor", "parameter::Parameter", "device::Device", "graph::Graph", "graph::Node")
ROLES = {"FunctionFwImpl": "kernel", "FunctionFwU32Impl": "kernel", "FunctionFwF32Impl": "kernel", "FunctionBwImpl": "kernel",
         "Operator": "operator", "Initializer": "initializer", "Optimizer": "optimizer", "OptimizerBase": "optimizer"}
OUTSIDE = (("std::time::", "reads the clock"), ("std::env::", "reads the environment"), ("std::thread::current", "asks which thread it runs on"),
           ("std::thread::LocalKey", "keeps a value per thread"), ("std::hash::RandomState::new", "draws a random hash key"),
           ("std::fs::", "reads or writes files"), ("std::process::id", "asks for the process"), ("std::thread::park", "waits"), ("std::thread::sleep", "waits"))
COUNTS = ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min", "fetch_xor", "store")
HASHED = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if")
SINKS = ("Vec::<T, A>::push", "Vec::<T, A>::insert", "Vec::<T, A>::extend_from_slice", "String::push_str", "String::push", "VecDeque::<T, A>::push_back",
         "Extend::extend")
FOLDS = ("collect", "fold", "sum", "product", "next", "nth", "last", "take", "zip", "enumerate", "for_each", "find", "position", "reduce", "skip")


def called(f):
    for i, b in enumerate(f.blocks):
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
            yield i, t[1]["fn"], t


def places(x):
    """locals mentioned in an operand, place or statement"""
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            yield x["l"]
            for p in x["p"]:
                if p[0] == "i":
                    yield p[1]
        for k, v in x.items():
            if k not in ("l", "p"):
                yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def interior(types, i, seen, path=()):
    """a way from a type to a cell that changes behind a shared reference: ([names], cell type), or None"""
    if i in seen:
        return None
    seen.add(i)
    t = types[i]
    k = t["k"]
    if k == "adt":
        last = t["path"].split("::")[-1]
        if not t["local"]:
            if last in CELLS:
                c = types[t["args"][0]] if t["args"] else None
                if c is not None and c["k"] == "ref" and types[c["t"]].get("path") in OPERANDS:
                    return None               # a way to reach an object of the user's
                return path, t["s"]
            for a in t["args"]:
                r = interior(types, a, seen, path)
                if r:
                    return r
            return None
        if t["path"] in OPERANDS:
            return None
        for v in t.get("vars") or []:
            for fl in v["f"]:
                if len(fl) > 1:
                    r = interior(types, fl[1], seen, path + (fl[0],))
                    if r:
                        return r
        return None
    if k == "ptr" and t.get("mut"):
        return path, t["s"]
    if k in ("ref", "ptr", "slice", "array"):
        return interior(types, t["t"], seen, path)
    if k == "dyn" and "Randomizer" not in t["s"]:
        return path, t["s"]
    if k == "tuple":
        for a in t["args"]:
            r = interior(types, a, seen, path)
            if r:
                return r
    return None


def run_pure(ctx):
    ctx.rule = ("Effect scan of every function of the library: statics whose content changes, thread-locals, clock, environment and random sources may not be used "
                "(random sources only by the generator, the generator only by random kernels); kernels, operators, initializers and optimizers may have no field that "
                "changes behind a shared reference; iteration over a hash table may not feed anything that depends on its order.")
    prog = ctx.prog
    fs = [f for f in prog.main.fns.values() if "::tests::" not in f.path and "test_utils" not in f.path]
    callers = {}
    for f in fs:
        for i, c, t in called(f):
            for k in {c.get("key"), (c.get("r") or {}).get("key")}:
                if k:
                    callers.setdefault(k, set()).add(f.key)
        if f.closure:
            callers.setdefault(f.key, set()).add(re.sub(r"::\{closure#\d+\}(<.*)?$", "", f.key))
    roles(ctx)
    objects(ctx)
    uses = statics(ctx, fs)
    n = 0
    for f in fs:
        bad = None
        for i, c, t in called(f):
            p = c["path"]
            for pre, what in OUTSIDE:
                if p.startswith(pre):
                    bad = "%s (%s)" % (what, p)
        n += 1
        if bad:
            ctx.violation("outside: " + prog.fname(f), "%s %s" % (prog.fname(f), bad), ctx.where(f))
        else:
            ctx.ok("no outside source: " + f.key)
        ctx.analysed.add(prog.fname(f))
    ctx.floor("functions scanned", n, 500)
    random_sources(ctx, fs, callers)
    hashed(ctx, fs)
    for f in fs:
        addresses(ctx, f)


def roles(ctx):
    """types playing a role have no interior state"""
    m = ctx.prog.main
    n = {}
    for im in m.impls:
        role = ROLES.get(im["trait"].split("::")[-1].split("<")[0])
        if not role or im["self"] is None:
            continue
        t = m.types[im["self"]]
        if t["k"] != "adt" or not t["local"] or "::tests::" in t["path"]:
            continue
        n[role] = n.get(role, 0) + 1
        r = interior(m.types, im["self"], set())
        nm = t["path"].split("::")[-1]
        key = "%s %s" % (role, nm)
        if r and r[1].startswith("dyn "):
            own = built_with_cell(ctx, t["path"])
            if own is None:
                ctx.undecided(key, "holds a %s" % r[1])
                continue
            r = (r[0], own)
        if r and role == "kernel" and "Randomizer" in r[1]:
            r = None                      # the device's generator: its use is judged below and by C22
        if r:
            ctx.violation(key, "%s %s keeps a value between calls in %s: %s" % (role, nm, ".".join(r[0]), r[1]), im["span"])
        else:
            ctx.ok(key)
    ctx.floor("kernel types", n.get("kernel", 0), 60)
    ctx.floor("operator types", n.get("operator", 0), 40)
    ctx.floor("initializer types", n.get("initializer", 0), 3)
    ctx.floor("optimizer types", n.get("optimizer", 0), 5)


def built_with_cell(ctx, path):
    """a function that constructs the type and has a cell among its variables: the type of the cell, or None"""
    m = ctx.prog.main
    for f in m.fns.values():
        if any(st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == path for b in f.blocks for st in b["s"]):
            for i in f.locals:
                if m.types[i]["k"] == "adt" and not m.types[i]["local"]:
                    r = interior(m.types, i, set())
                    if r and not r[1].startswith(("dyn ", "*mut")):
                        return r[1]
    return None


def objects(ctx):
    """the objects operations are given have no hidden part: a buffer handle, statistics and the pool are all that changes behind a shared reference"""
    m = ctx.prog.main
    n = 0
    for i in m.adts:
        t = m.types[i] if isinstance(i, int) else i
        if t["path"] not in ("device::Device", "shape::Shape", "tensor::Tensor", "parameter::Parameter"):
            continue
        n += 1
        nm = t["path"].split("::")[-1]
        for v in t.get("vars") or []:
            for fl in v["f"]:
                if len(fl) < 2 or m.types[fl[1]].get("path") == "memory_pool::MemoryPool":
                    continue
                r = interior(m.types, fl[1], set(), (fl[0],))
                if r and r[1].startswith("dyn "):
                    r = None                  # the backend and its registered operations, judged by role
                if r and (nm == "Tensor" and "*mut" in r[1] or nm == "Parameter" and "Tensor" in r[1]):
                    r = None
                if r:
                    ctx.violation("object %s" % nm, "%s keeps a hidden value in %s: %s" % (nm, ".".join(r[0]), r[1]), t["s"])
                else:
                    ctx.ok("object %s.%s" % (nm, fl[0]))
    ctx.floor("objects", n, 4)


def changes(types, i):
    """does the type of a static operand allow its content to change?"""
    t = types[i]
    if t["k"] == "ptr" and t.get("mut"):
        return "static mut"
    r = interior(types, i, set())
    return r[1] if r and not r[1].startswith("dyn ") else None


def statics(ctx, fs):
    uses = {}
    for f in fs:
        for bi, b in enumerate(f.blocks):
            for s in b["s"]:
                for nm, ty in static_ops(s):
                    uses.setdefault(nm, []).append((f, ty, s, bi))
            for nm, ty in static_ops(b["t"]):
                uses.setdefault(nm, []).append((f, ty, b["t"], bi))
    ctx.ok("statics examined: %d" % len(uses))
    for nm, us in sorted(uses.items()):
        f, ty = us[0][0], us[0][1]
        ch = changes(f.crate.types, ty)
        if not ch:
            ctx.ok("constant static " + nm)
            continue
        if "LazyLock" in ch or "Lazy<" in ch:
            ctx.undecided("static " + nm, "a lazily computed static")
            continue
        if all(only_counts(f, s) for f, ty, s, bi in us):
            ctx.ok("a counter nothing reads: " + nm)
            continue
        ctx.violation("static " + nm, "%s depends on the static %s (%s), which keeps its content between calls" % (ctx.prog.fname(f), nm.split("::")[-1], ch), ctx.where(f))
    return uses


def static_ops(x):
    if isinstance(x, dict):
        v = x.get("val")
        if isinstance(v, list) and v and v[0] == "static":
            yield v[1], x["ty"]
            return
        for k, y in x.items():
            yield from static_ops(y)
    elif isinstance(x, list):
        for y in x:
            yield from static_ops(y)


def only_counts(f, s):
    """the static's address only reaches atomic updates whose result is never used"""
    if s[0] != "=" or s[1]["p"]:
        return False
    held = {s[1]["l"]}
    for _ in range(4):
        for b in f.blocks:
            for st in b["s"]:
                if st[0] == "=" and not st[1]["p"] and set(places(st[2])) & held and st[2][0] in ("ref", "use", "addr"):
                    held.add(st[1]["l"])
    for b in f.blocks:
        for st in b["s"]:
            if st[0] == "=" and set(places(st[2])) & held and st[1]["l"] not in held:
                return False
        t = b["t"]
        if t[0] == "call":
            used = set(places(t[1:])) & held
            if used:
                c = t[1].get("fn") if isinstance(t[1], dict) else None
                if not c or c["path"].split("::")[-1] not in COUNTS or "Atomic" not in c["path"]:
                    return False
                dest = [t[3]["l"]]
                for d in dest:
                    if any(st[0] == "=" and d in set(places(st[2])) for b2 in f.blocks for st in b2["s"]):
                        return False
                    if any(b2["t"] is not t and d in set(places(b2["t"][1:])) for b2 in f.blocks if b2["t"][0] in ("call", "switch", "assert")):
                        return False
    return True


def random_sources(ctx, fs, callers):
    """rand only in the generator; the generator only in random kernels"""
    prog = ctx.prog
    m = prog.main
    gens = {m.types[im["self"]]["path"] for im in m.impls if im["trait"].split("::")[-1] == "Randomizer" and m.types[im["self"]]["k"] == "adt"}
    ok, reg = kernel_registry(ctx)
    rk = {}
    for (t, n), tys in reg.items():
        for ty in tys:
            rk.setdefault(ty, []).append(n)

    def own(f, what):
        """is the function (or every function that uses it) allowed?"""
        seen, todo = set(), [f.key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            g = prog.fns.get(k)
            if g is None:
                return None
            r = what(g)
            if r is True:
                continue
            if r is False and (g.trait or not callers.get(k)):
                return False
            if not callers.get(k):
                return False
            todo += callers[k]
        return True

    def generator(g):
        return g.self_ty is not None and g.crate.types[g.self_ty].get("path") in gens

    def random_kernel(g):
        if g.self_ty is None:
            return False
        if generator(g):
            return True
        t = g.crate.types[g.self_ty]
        ns = rk.get((t.get("path") or "").split("::")[-1])
        return bool(ns) and all(n.startswith("random") for n in ns)

    n = 0
    for f in fs:
        for i, c, t in called(f):
            p = c["path"]
            if re.match(r"(rand|rand_distr|rand_core|getrandom)::", p):
                n += 1
                r = own(f, generator)
                if r is False:
                    ctx.violation("random: " + prog.fname(f), "%s draws random numbers itself (%s) instead of from the device's generator" % (prog.fname(f), p), ctx.where(f))
                else:
                    ctx.ok("random: %s %s" % (f.key, p))
            elif p.split("::")[-2:-1] == ["Randomizer"]:
                n += 1
                r = own(f, random_kernel)
                if r is False:
                    ctx.violation("random: " + prog.fname(f), "%s draws from the generator although it is no random operation" % prog.fname(f), ctx.where(f))
                else:
                    ctx.ok("random: %s %s" % (f.key, p))
    ctx.floor("uses of random sources", n, 6)


def hashed(ctx, fs):
    """iteration over a hash table"""
    prog = ctx.prog
    for f in fs:
        sites = []
        for i, c, t in called(f):
            p = c["path"]
            last = p.split("::")[-1]
            if last in HASHED and ("HashMap" in p or "HashSet" in p or "hash_map" in p or "hash_set" in p
                                   or last == "into_iter" and c.get("self") is not None
                                   and re.match(r"&?(mut )?(std::collections::)?(hash_map::)?Hash(Map|Set)<", f.crate.types[c["self"]]["s"])):
                sites.append((i, last))
        if not sites:
            continue
        key = "hash order: " + prog.fname(f)
        names = [c["path"] for i, c, t in called(f)]
        if any("sort" in x.split("::")[-1] for x in names):
            ctx.ok(key)
            continue
        # what runs inside loops around a `next`
        loops = in_loops(f)
        hot = []
        for i, c, t in called(f):
            if i in loops and any(c["path"].endswith(s) for s in SINKS):
                hot.append(c["path"])
        if hot:
            ctx.violation(key, "%s lists the entries of a hash table in their arbitrary order (%s)" % (prog.fname(f), hot[0].split("::")[-1]), ctx.where(f))
            continue
        odd = [x for x in names if "Iterator::" in x and x.split("::")[-1] in FOLDS and x.split("::")[-1] not in ("next", "for_each")]
        if odd:
            col = [c for i, c, t in called(f) if c["path"].endswith("Iterator::collect")]
            if col and any("Vec<" in f.crate.types[a]["s"].split("Hash")[0] for c in col for a in c.get("targs", [])[1:]):
                ctx.violation(key, "%s collects the entries of a hash table in their arbitrary order" % prog.fname(f), ctx.where(f))
            else:
                ctx.undecided(key, "uses %s" % odd[0])
            continue
        ctx.ok(key)


def in_loops(f):
    """blocks that lie in a loop"""
    out = set()
    for bs in interp.Cfg(f).loops.values():
        out |= set(bs)
    return out


def dead_end(f, i, depth=6):
    """does control that enters this block end in a panic?"""
    for _ in range(depth):
        t = f.blocks[i]["t"]
        if t[0] == "unreachable":
            return True
        if t[0] == "goto":
            i = t[1]
            continue
        if t[0] == "call":
            if t[4] is None:
                return True
            i = t[4]
            continue
        return False
    return False


def addresses(ctx, f):
    """the address of an object identifies it; its digits decide nothing"""
    addr, digits = set(), set()
    local = lambda o: o["pl"]["l"] if isinstance(o, dict) and "pl" in o and not o["pl"]["p"] else None
    for _ in range(6):
        for b in f.blocks:
            for st in b["s"]:
                if st[0] != "=":
                    continue
                d, r = st[1]["l"], st[2]
                ls = set(places(r))
                if r[0] == "cast" and r[1] == "PointerExposeProvenance":
                    addr.add(d)
                elif r[0] == "bin" and ls & addr:
                    if r[1].startswith("Sub") and local(r[2]) in addr and local(r[3]) in addr or r[1] in ("Eq", "Ne"):
                        continue
                    digits.add(d)
                elif r[0] in ("use", "cast") and ls & addr and not st[1]["p"]:
                    addr.add(d)
                elif ls & digits:
                    digits.add(d)
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
                p = t[1]["fn"]["path"]
                if re.search(r"_ptr::<impl \*(const|mut) T>::(addr|expose_provenance)$", p):
                    addr.add(t[3]["l"])
                elif re.search(r"_ptr::<impl \*(const|mut) T>::(align_offset|is_aligned)$", p):
                    digits.add(t[3]["l"])
                elif set(places(t[2])) & digits and not t[3]["p"]:
                    digits.add(t[3]["l"])
    if not digits:
        if addr:
            ctx.ok("addresses: " + f.key)
        return
    for b in f.blocks:
        t = b["t"]
        used = False
        if t[0] == "switch" and set(places(t[1])) & digits:
            used = not any(dead_end(f, x) for x in [y[1] for y in t[2]] + [t[3]])
        elif t[0] == "call" and set(places(t[2])) & digits:
            used = not dead_end(f, f.blocks.index(b))
        used = used or any(st[0] == "=" and st[1]["p"] and set(places(st[2])) & digits for st in b["s"]) or 0 in digits
        if used:
            ctx.violation("address: " + ctx.prog.fname(f), "%s depends on where an object lies in memory" % ctx.prog.fname(f), ctx.where(f))
            return
    ctx.ok("addresses: " + f.key)
