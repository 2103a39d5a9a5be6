"""Models: every parameter enumerated exactly once (C17)."""
import os
from terms import *
from effects import walk
import policies

LISTS = ("Model::parameters", "Model::parameters_mut", "Parameter::parameters", "Parameter::parameters_mut")


class Unclear(Exception):
    pass


class Partial(Exception):
    """understood, and not the whole of the place"""


def is_list_call(t):
    return t.op == "call" and t.args[0].split(".")[-1] in LISTS and len(t.args) >= 2


# ------------------------------------------------------------------ what a list contains
def segs(t, k0=None):
    """the contents of a list term, in order: ("item", p) | ("all", p) | ("each", N, k, segs) | ("if", c, segs, segs)"""
    if t.op == "agg" and t.args[0] in (("array",), "array") or t.op == "agg" and t.args[0][0] == "array":
        return [("item", x) for x in t.args[1:]]
    if is_list_call(t):
        return [("all", t.args[1])]
    if t.op == "out" and t.args[0].op == "call":
        c, i = t.args
        n = c.args[0]
        i = i if isinstance(i, int) else int(i.args[0])
        if n in ("Vec::append", "Vec::extend", "Vec::extend_from_slice") and i == 0:
            return segs(c.args[1]) + segs(c.args[2])
        if n == "Vec::push" and i == 0:
            return segs(c.args[1]) + [("item", c.args[2])]
        if n == "Vec::insert" and i == 0:
            raise Unclear("insertion in the middle")
        raise Unclear(n)
    if t.op == "push":
        return segs(t.args[0]) + [("item", t.args[1])]
    if t.op == "seq":
        k = fresh("k")
        return [("each", t.args[0], k, [("item", subst(t.args[2], {t.args[1]: k}))])]
    if t.op == "fold":
        n, init, l = t.args[:3]
        acc, k = fresh("acc"), fresh("k")
        body = segs(apply_lam(l, [acc, k]))
        if not body or body[0] != ("all", acc):
            if any(s == ("all", acc) for s in body):
                raise Unclear("prepended elements")
            raise Partial("the list built so far is discarded")
        return segs(init) + [("each", n, k, body[1:])]
    if t.op == "acc":
        return [("all", t)]
    if t.op == "ite":
        a, b = segs(t.args[1]), segs(t.args[2])
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        return a[:i] + ([("if", t.args[0], a[i:], b[i:])] if a[i:] or b[i:] else [])
    if t.op in ("arg", "field", "index"):
        return [("all", t)]
    if t.op == "call" and t.args[0] in ("Vec::into_iter", "Vec::clone"):
        return segs(t.args[1])
    if t.op == "call" and t.args[0].split("::")[-1] in ("filter", "filter_map", "skip_while", "take_while", "step_by", "map_while"):
        raise Partial("the elements are filtered: %s" % show(t)[:200])
    raise Unclear("list %s" % show(t)[:200])


def nonempty(c):
    """value of a condition when every container is non-empty, None when that does not decide it"""
    if c.op == "not":
        v = nonempty(c.args[0])
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [nonempty(x) for x in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "call" and c.args[0].endswith("::is_empty"):
        return False

    def size(t):
        return t.op == "len" or t.op == "call" and t.args[0].endswith("::len")
    if c.op == "lt" and c.args[0] is ZERO and size(c.args[1]) or c.op == "le" and c.args[0] is ONE and size(c.args[1]):
        return True
    if c.op == "eq" and any(x is ZERO and size(y) for x, y in (c.args, c.args[::-1])):
        return False
    return None


def whole(p):
    """the place a list term enumerates"""
    if p.op == "call" and p.args[0] in ("HashMap::values_mut", "HashMap::values") and len(p.args) >= 2:
        return p.args[1]
    return p.args[1] if is_list_call(p) else p


def cover(seg, k_ok=True):
    """(place, direction) a segment enumerates completely"""
    if seg[0] == "item":
        return seg[1], 0
    if seg[0] == "all":
        return seg[1], 0
    if seg[0] == "each":
        n, k, body = seg[1:]
        if any(s[0] == "if" for s in body):
            body = settle(body)
            if any(s[0] == "if" for s in body):
                raise Partial("an element is enumerated only when %s" % show(next(s[1] for s in body if s[0] == "if"))[:200])
        if not body:
            raise Partial("elements contribute nothing")
        got = [cover(s) for s in body]
        if len(got) > 1:
            raise Unclear("several contributions per element")
        p, d = got[0]
        if p.op != "index":
            raise Partial("every iteration enumerates %s" % show(p)[:200]) if not contains(p, lambda u: u is k) else Unclear(show(p)[:100])
        base, i = p.args
        if contains(base, lambda u: u is k):
            raise Unclear(show(p)[:100])
        full = length(base)
        if i is k:
            r = 0
        elif i is isub(isub(full, ONE), k):
            r = 1
        else:
            raise Partial("element %s for %s" % (show(i)[:100], show(k)))
        if n is not full:
            raise Partial("%s of the %s elements of %s" % (show(n)[:100], show(full)[:100], show(base)[:100]))
        return whole(base), d * 2 + r
    raise Unclear(str(seg[0]))


def settle(ss):
    """segments with conditions on emptiness resolved for non-empty containers"""
    out = []
    for s in ss:
        if s[0] == "if" and nonempty(s[1]) is not None:
            out += settle(s[2] if nonempty(s[1]) else s[3])
        else:
            out.append(s)
    return out


def resolve(ss):
    """[(place, direction)] for a list of segments, raising when conditional"""
    out = []
    for s in settle(ss):
        if s[0] == "if":
            raise Partial("a part is enumerated only when %s" % show(s[1])[:200])
        out.append(cover(s))
    return out


def top_field(p, self):
    """name of the field of self that a place is (boxes are transparent), None when it is self itself"""
    names = []
    while p is not self:
        if p.op in ("index", "as"):
            raise Unclear("part of a field: " + show(p)[:100])
        if p.op != "field":
            raise Unclear("place " + show(p)[:100])
        names.append(p.args[1])
        p = p.args[0]
    names.reverse()
    if any(n != "0" for n in names[1:]):
        raise Unclear("part of a field: " + ".".join(names))
    return names[0] if names else None


def self_of(ctx, f):
    return mk("arg", 0, f.argnames.get(1, "arg0"))


def fields_of(f):
    if f.self_ty is None:
        return None
    t = f.crate.types[f.self_ty]
    if t.get("k") != "adt" or not t.get("local"):
        return None
    vs = t.get("vars") or []
    return [x[0] for x in vs[0]["f"]] if len(vs) == 1 else None


def listing(ctx, f, L):
    """[(field or None, direction)] enumerated by a parameters function"""
    s = ctx.summary(f, L)
    if s is None or s.ret is None:
        raise Unclear("no summary")
    me = self_of(ctx, f)
    got = resolve(segs(s.ret))
    if len(got) == 1 and got[0][0].op == "index":
        raise Partial("only %s is enumerated" % show(got[0][0])[:200])
    return [(top_field(p, me), d) for p, d in got]


def lists(ctx, L):
    impls = {}
    for n, fs in ctx.byname.items():
        for f in fs:
            if f.trait and f.trait.split("::")[-1] == "Model" and f.self_ty is not None and f.name in ("parameters", "parameters_mut"):
                impls.setdefault((f.crate.name, n.rsplit("::", 1)[0]), {})[f.name] = f
    for nm in ("parameters", "parameters_mut"):
        f = ctx.fn("Parameter::" + nm)
        if f:
            impls.setdefault(("prima_undine", "Parameter"), {})[nm] = f
    nw = 0
    for (crate, name), d in sorted(impls.items()):
        if set(d) != {"parameters", "parameters_mut"}:
            continue
        f = d["parameters"]
        fields = fields_of(f) if name != "Parameter" else None
        if fields is not None and crate != "witness":
            want = None            # a hand-written model: both lists must agree, and repeat nothing
        elif fields is not None:
            want = [x for x in fields if not x.endswith("_x")]
            nw += 1
        else:
            want = [None]
        got = {}
        for nm in ("parameters", "parameters_mut"):
            g = d[nm]
            key = "%s %s" % (name, nm)
            try:
                got[nm] = listing(ctx, g, L)
            except Unclear as e:
                ctx.undecided(key, str(e))
                continue
            except Partial as e:
                ctx.violation(key, "%s::%s: %s" % (name, nm, e), ctx.where(g))
                continue
            names = [x[0] for x in got[nm]]
            bad = [x for x in names if names.count(x) > 1]
            if bad:
                ctx.violation(key, "%s::%s enumerates %s more than once" % (name, nm, bad[0] or "its elements"), ctx.where(g))
            elif want is not None and set(names) != set(want):
                miss = [x for x in want if x not in names]
                extra = [x for x in names if x not in want]
                ctx.violation(key, "%s::%s: %s" % (name, nm, "; ".join(
                    (["does not enumerate " + ", ".join(map(str, miss))] if miss else []) +
                    (["enumerates the skipped " + ", ".join(map(str, extra))] if extra else []))), ctx.where(g))
            else:
                ctx.ok(key)
        if len(got) == 2:
            ctx.require(got["parameters"] == got["parameters_mut"], "%s order" % name,
                        "%s enumerates %s for shared access and %s for mutable access" % (name, [x[0] for x in got["parameters"]], [x[0] for x in got["parameters_mut"]]),
                        ctx.where(f))
    return len(impls), nw


# ------------------------------------------------------------------ moving
def host_state(c, p):
    """value of a condition when the tensor at place p only has host values; None when unknown"""
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        v = host_state(c.args[0], p)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [host_state(x, p) for x in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "eq":
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            if y.op == "discr" and y.args[0].op == "field" and y.args[0].args[0] is p and is_num(x):
                n = y.args[0].args[1]
                if n in ("host_values",):
                    return x.args[0] == 1
                if n in ("device", "reference"):
                    return x.args[0] == 0
            if y.op == "field" and y.args[0] is p and y.args[1] == "handle" and x.op in ("null",):
                return True
    if c.op == "call" and c.args[0] == "Tensor::valid" and c.args[1] is p:
        return False
    return None


def moves(ctx, effs, device, prims, item=None):
    """segments of the places moved by effects, in order"""
    out = []
    for e in effs:
        if e.kind == "call" and e.name.split(".")[-1] in prims:
            if e.args[1] is not device:
                raise Partial("%s is moved to %s, not to the requested device" % (show(e.args[0])[:100], show(e.args[1])[:100]))
            out.append(("item", e.args[0]))
        elif e.kind == "loop":
            sub = moves(ctx, e.body, device, prims)
            if not sub:
                continue
            if e.lkind == "count":
                out.append(("each", e.N, e.k, sub))
            else:
                out.append(("hash", e, sub))
        elif e.kind == "if":
            a, b = moves(ctx, e.then, device, prims), moves(ctx, e.els or [], device, prims)
            if a == b:
                out += a
            elif a or b:
                out.append(("if", e.cond, a, b))
    return out


def nexts(t):
    return [u for u in subterms(t) if u.op == "call" and u.args[0].endswith("Iterator::next")]


def only_next(c):
    """a condition on nothing but whether the iterator yielded an element"""
    if c.op in ("and", "or", "not"):
        return all(only_next(x) for x in c.args)
    return c.op == "eq" and any(y.op == "discr" and y.args[0].op == "call" and y.args[0].args[0].endswith("Iterator::next") for y in c.args)


def moved(s, ctx, in_loop=False):
    """(place, direction) a move segment covers; conditions judged in the state of a loaded tensor"""
    if s[0] == "if":
        c, a, b = s[1:]
        if only_next(c):
            return [x for br in (a, b) for y in br for x in moved(y, ctx, in_loop)]
        v = nonempty(c)
        if v is not None:
            return [x for y in (a if v else b) for x in moved(y, ctx, in_loop)]
        places = [x[0] for br in (a, b) for y in br for x in moved(y, ctx, in_loop)]
        for p in places:
            v = host_state(c, p)
            if v is not None:
                return [x for y in (a if v else b) for x in moved(y, ctx, in_loop)]
        raise Partial("%s is moved only when %s" % (", ".join(show(p)[:80] for p in places), show(c)[:200]))
    if s[0] == "hash":
        got = [x for y in s[2] for x in moved(y, ctx, True)]
        out = []
        for p, d in got:
            ns = nexts(p)
            if len(ns) != 1 or len(ns[0].args) < 2:
                raise Unclear("loop over " + show(p)[:100])
            it = ns[0].args[1]
            if it.op != "call" or it.args[0] not in ("HashMap::iter_mut", "HashMap::iter", "HashMap::values_mut", "HashMap::values", "HashMap::into_iter"):
                raise Unclear("loop over " + show(it)[:100])
            out.append((it.args[1], d))
        return out
    if s[0] == "each":
        sub = [x for y in s[3] for x in moved(y, ctx, True)]
        out = []
        for p, d in sub:
            out.append(cover(("each", s[1], s[2], [("item", p)])))
        return out
    p, d = cover(s)
    if p.op != "index" and nexts(p) and not in_loop:
        raise Partial("only the first element is moved: %s" % show(p)[:200])
    return [(p, d)]


def run_moves(ctx, L, only=None):
    n = 0
    for name, fs in sorted(ctx.byname.items()):
        for f in fs:
            if f.name != "move_to_device" or name == "Tensor::move_to_device":
                continue
            is_param = name == "Parameter::move_to_device"
            if not is_param and "Model::move_to_device" not in name or only and name != only:
                continue
            n += 1
            s = ctx.summary(f, MoveLayer if is_param else L)
            if s is None:
                continue
            me, dev = self_of(ctx, f), mk("arg", 1, f.argnames.get(2, "arg1"))
            try:
                prims = ("Tensor::move_to_device",) if is_param else ("Parameter::move_to_device", "Model::move_to_device")
                got = [x for y in moves(ctx, s.effects, dev, prims) for x in moved(y, ctx)]
                if not got and any(e.kind in ("call", "loop") for e in s.effects):
                    raise Unclear("no recognisable move")
                names = [top_field(whole(p), me) for p, d in got]
            except Unclear as e:
                ctx.undecided(name, str(e))
                continue
            except Partial as e:
                ctx.violation(name, "%s: %s" % (name, e), ctx.where(f))
                continue
            want = tensor_fields(f) if is_param else [None]
            if not is_param and fields_of(f) is not None:
                want = [x for x in fields_of(f) if not x.endswith("_x")]
                if names == [None]:
                    want = [None]
            miss = [x or "itself" for x in want if x not in names]
            twice = [x or "itself" for x in set(names) if names.count(x) > 1]
            ctx.require(not miss and not twice, name, "%s: %s" % (name, "; ".join((["leaves %s behind" % ", ".join(miss)] if miss else []) +
                                                                                (["moves %s twice" % ", ".join(twice)] if twice else []))), ctx.where(f))
    return n


def tensor_fields(f):
    """fields of the parameter that hold tensors"""
    t = f.crate.types[f.self_ty]
    fs = (t.get("vars") or [{"f": []}])[0]["f"]
    return [x[0] for x in fs if "Tensor" in f.crate.types[x[1]]["s"]]


class MoveLayer(policies.ModelLayer):
    def opaque(self, it, ref):
        n = ref.name(it)
        return n != "Parameter::move_to_device" and policies.ModelLayer.opaque(self, it, ref)


def run_enumeration(ctx):
    ctx.rule = ("The derive macro of this tree expands a crate of witness models covering every kind of field, attribute, generic and nesting; the list term returned by "
                "every parameters/parameters_mut function (witnesses and hand-written impls) is decomposed into the fields and elements it covers, and every move_to_device into the places it moves; "
                "each non-skipped field exactly once, the same order for both accesses, and every tensor of every parameter moved once to the requested device.")
    ctx.assumptions = ["field types other than the witnesses' expand alike: the macro sees only field names and attributes"]
    L = policies.ModelLayer
    err = os.path.join(ctx.prog.dir, "witness_error.txt")
    if os.path.exists(err) or "witness" not in ctx.prog.crates:
        msg = open(err).read()[-1500:] if os.path.exists(err) else "no facts"
        ctx.violation("witness models compile", "the derive macro no longer produces valid models for the witness types:\n" + msg)
        return
    n, nw = lists(ctx, L)
    ctx.floor("model implementations", n, 15)
    ctx.floor("derived witness models", nw, 12)
    ctx.floor("move functions", run_moves(ctx, L), 4)
    nested_kept(ctx)


def nested_kept(ctx):
    """the derived implementations exist for every witness type"""
    types = {t["s"].split("<")[0] for t in ctx.prog.crates["witness"].types if t.get("k") == "adt" and t.get("local")}
    have = {n.split(".")[0].split("<")[0] for n in ctx.byname if n.endswith(".Model::parameters")}
    for t in sorted(types):
        ctx.require(t in have, "derived for " + t, "no Model implementation was generated for the witness %s" % t)
