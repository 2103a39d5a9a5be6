"""Saving and loading parameters (C18)."""
import re
from terms import *
from effects import *
import policies
import c_kernel
import c_model

OPAQUE = policies.BUFFER_PRIMS + ("Device::reset_tensor_by_slice", "Device::tensor_to_vector")


class PersistLayer(policies.TensorLayer):
    """persistence: (de)serializer calls, copying element values and acquiring a buffer are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        if n in OPAQUE:
            return True
        if n in ("Tensor::alloc", "Tensor::refer", "Tensor::replace", "Tensor::new"):
            return False
        return policies.TensorLayer.opaque(self, it, ref)


class Unclear(Exception):
    pass


class Wrong(Exception):
    pass


SER = re.compile(r"(^|\W)(Serialize(Struct|Map|Tuple|TupleStruct|Seq)|Serializer)::(\w+)$")


def is_ok_test(c):
    """a condition on nothing but the success of serializer calls"""
    if c.op in ("and", "or", "not"):
        return all(is_ok_test(x) for x in c.args)
    return c.op == "eq" and any(y.op == "discr" and y.args[0].op == "call" and SER.search(y.args[0].args[0]) for y in c.args)


def written(ctx, f):
    """[(name, value, conditions)] in the order written, and the announced count"""
    s = ctx.summary(f, PersistLayer)
    if s is None:
        raise Unclear("no summary")
    st = {"n": None, "ends": 0}
    out = collect(s.effects, st)
    if st["n"] is None or not st["ends"]:
        raise Unclear("not written as a struct")
    return out, st["n"], s


def last_case(c, els):
    """a match arm that follows the arm for another variant of the same two-variant value, with nothing after it"""
    if c.op != "and" or els:
        return False
    pos = [x for x in c.args if x.op == "eq"]
    neg = [x.args[0] for x in c.args if x.op == "not" and x.args[0].op == "eq"]
    if len(pos) != 1 or len(neg) + 1 != len(c.args) or not neg:
        return False
    ds = {d for x in pos + neg for d in x.args if d.op == "discr"}
    return len(ds) == 1 and {k.args[0] for x in pos + neg for k in x.args if is_num(k)} == {0, 1}


def collect(effs, st):
    out = []
    for e in effs:
        if e.kind == "loop":
            if any(x.kind == "call" and SER.search(x.name) for x, _ in walk(e.body)):
                raise Unclear("fields written in a loop")
        elif e.kind == "if":
            a, b = collect(e.then, st), collect(e.els or [], st)
            if is_ok_test(e.cond) or last_case(e.cond, b):
                out += a + b
            elif [x[0] for x in a] == [x[0] for x in b]:
                # the same fields either way, with values that depend on the condition
                out += [(x[0], ite(e.cond, x[1], y[1]), x[2] + y[2], x[3]) for x, y in zip(a, b)]
            else:
                out += [(x[0], x[1], x[2] + [e.cond], x[3]) for x in a] + [(x[0], x[1], x[2] + [bnot(e.cond)], x[3]) for x in b]
        elif e.kind == "call":
            m = SER.search(e.name)
            if not m:
                continue
            meth = m.group(4)
            if meth == "serialize_struct":
                st["n"] = e.args[2]
            elif meth == "serialize_field":
                nm = strval(e.args[1])
                if nm is None:
                    raise Unclear("field name " + show(e.args[1])[:60])
                out.append((nm, e.args[2], [], e))
            elif meth == "end":
                st["ends"] += 1
            elif meth != "skip_field":
                raise Unclear("serializer call " + meth)
    return out


def strip(t):
    """through Ok/Some wrappers"""
    while t.op == "field" and t.args[0].op == "as":
        t = t.args[0].args[0]
    return t


def values_of(t):
    """leaves of a conditional value"""
    if t.op == "ite":
        return values_of(t.args[1]) + values_of(t.args[2])
    return [t]


def adt_of(t):
    return t.args[0][1].split("::")[-1].split("<")[0] if t.op == "agg" and t.args[0][0] == "adt" else None


def visitor(ctx, sname, meth, kind="__Visitor"):
    for n, fs in ctx.byname.items():
        if re.match(r"^<impl Deserialize for %s(<.*>)?>::%s(<.*>)?\.Visitor::%s$" % (re.escape(sname), kind, meth), n):
            return fs[0]
    return None


def schema(ctx, sname):
    """how the derived reader of struct `sname` fills its fields: {field: name read}, [field in sequence order]"""
    fs, fm, fq = visitor(ctx, sname, "visit_str", "__FieldVisitor"), visitor(ctx, sname, "visit_map"), visitor(ctx, sname, "visit_seq")
    if not fs or not fm or not fq:
        raise Unclear("%s has no derived reader" % sname)
    s = ctx.summary(fs, PersistLayer)
    names = {}
    for u in subterms(s.ret):
        if u.op == "ite" and u.args[0].op in ("eq", "or"):
            for c in (u.args[0].args if u.args[0].op == "or" else (u.args[0],)):
                k = [strval(x) for x in c.args if strval(x) is not None] if c.op == "eq" else []
                if k and adt_of(u.args[1]) == "__Field":
                    names.setdefault(u.args[1].args[0][2], set()).add(k[0])
    m = ctx.summary(fm, PersistLayer)
    how, absent = {}, {}
    for a in subterms(m.ret):
        if adt_of(a) != sname:
            continue
        for fname, v in zip(a.args[0][4], a.args[1:]):
            for leaf in values_of(v):
                t = strip(leaf)
                if t.op == "call" and t.args[0].endswith("missing_field"):
                    absent.setdefault(fname, set()).add(strval(t.args[1]) or "?")
                elif t.op == "field" and t.args[0].op == "fold":
                    how.setdefault(fname, set()).add(component(t.args[0], t.args[1]))
                elif contains(t, lambda u: u.op == "fold" or u.op == "call" and u.args[0].endswith("next_value")):
                    how.setdefault(fname, set()).add(("other", show(t)[:80]))
                else:
                    how.setdefault(fname, set()).add(("fixed", show(t)[:80]))
    if not how:
        raise Unclear("%s: fields are not collected from a map of names" % sname)
    byname = {}
    for fname, hs in how.items():
        byname[fname] = set()
        for h in hs:
            if isinstance(h, int):
                byname[fname] |= names.get(h, set())
            elif h[0] == "other":
                byname[fname].add(h)
        # a default used when the name is absent does not matter; one used whatever was read does
    q = ctx.summary(fq, PersistLayer)
    order = {}
    for a in subterms(q.ret):
        if adt_of(a) != sname:
            continue
        for fname, v in zip(a.args[0][4], a.args[1:]):
            for leaf in values_of(v):
                t = strip(leaf)
                if t.op == "call" and t.args[0].endswith("next_element"):
                    d, u = 0, t.args[1]
                    while u.op == "out":
                        d, u = d + 1, u.args[0].args[1]
                    order.setdefault(fname, set()).add(d)
    return byname, order, absent


def component(fo, j):
    """the key index under which component j of the reading loop is assigned from the input"""
    try:
        body = fo.args[2].args[1].args[1 + int(j)]
    except (ValueError, IndexError, TypeError):
        return ("other", "component")
    found = set()

    def walk_ite(t, conds):
        if t.op == "ite":
            walk_ite(t.args[1], conds + [t.args[0]])
            walk_ite(t.args[2], conds)
            return
        if t.op == "agg" and t.args[0][0] == "adt" and t.args[0][3] == "Some":
            src = strip(t.args[1])
            if src.op == "call" and src.args[0].endswith("next_value"):
                ks = {k for c in conds for k in key_tests(c)}
                found.add(ks.pop() if len(ks) == 1 else None)
            else:
                found.add(None)
        elif t.op not in ("bv", "field"):
            found.add(None)
    walk_ite(body, [])
    if len(found) == 1 and None not in found:
        return found.pop()
    return ("other", "component %s" % j)


def key_tests(c):
    """indices i for which the condition requires the key read to be the i-th name"""
    if c.op == "and":
        return [k for x in c.args for k in key_tests(x)]
    if c.op == "eq":
        a, b = c.args
        if is_num(b):
            a, b = b, a
        if is_num(a) and b.op == "discr":
            t = b.args[0]
            if t.op == "field" and t.args[0].op == "as" and t.args[0].args[1:] and "Some" in [str(x) for x in t.args[0].args]:
                u = strip(t)
                if u.op == "call" and u.args[0].endswith("next_key"):
                    return [int(a.args[0])]
    return []


def success(ctx, f):
    """the value a hand-written or derived `deserialize` returns on success, and what it reads: (struct, term)"""
    s = ctx.summary(f, PersistLayer)
    if s is None:
        raise Unclear("no summary")
    read = None
    for e, p in walk(s.effects):
        if e.kind == "call" and ".Deserializer::deserialize" in e.name:
            if not e.name.endswith("deserialize_struct"):
                raise Unclear(e.name)
            if read is not None:
                raise Unclear("more than one read")
            read = e
    if read is None:
        raise Unclear("nothing is read")
    vs = [u for u in read.args if u.op == "agg" and u.args[0][0] == "adt" and "Visitor" in u.args[0][1]]
    m = re.search(r"Deserialize<'de> for ([\w:]+)", vs[0].args[0][1]) if vs else None
    sname = None
    if m:
        sname = m.group(1).split("::")[-1]
    oks = []
    for leaf in values_of(s.ret):
        if leaf is read.res:
            oks.append(leaf)
        elif leaf.op == "agg" and leaf.args[0][0] == "adt" and leaf.args[0][3] == "Ok":
            oks.append(leaf.args[1])
        elif leaf.op in ("residual", "errof") or leaf.op == "agg" and leaf.args[0][3] == "Err":
            pass
        elif leaf.op == "call" and leaf.args[0].endswith(("custom", "invalid_length", "invalid_value")):
            pass
        else:
            raise Unclear("returns " + show(leaf)[:100])
    return s, read, sname, oks


def agree(ctx, what, fields, w, byname, order, absent, where):
    """writer table against reader table for the fields that matter: {writer source field name: reader struct field}"""
    wn = [x[0] for x in w]
    for src, dst in fields.items():
        key = "%s.%s" % (what, src)
        mine = [x for x in w if x[3] == src]
        if not mine:
            ctx.violation(key, "%s is not written when a %s is saved (written: %s)" % (src, what, ", ".join(wn) or "nothing"), where)
            continue
        if len(mine) > 1:
            ctx.violation(key, "%s is written %d times" % (src, len(mine)), where)
            continue
        name, _, conds, _ = mine[0]
        rn = byname.get(dst)
        if rn is None:
            ctx.violation(key, "%s is written but the reader has no field for it" % src, where)
            continue
        if any(not isinstance(x, str) for x in rn):
            ctx.undecided(key, "the reader takes it from %s" % sorted(map(str, rn)))
            continue
        if name not in rn:
            ctx.violation(key, "%s is written under the name '%s' but read back from %s" % (src, name, sorted(rn) or "nowhere"), where)
            continue
        if conds:
            if absent.get(dst):
                ctx.violation(key, "%s is written only when %s, and the reader has no other source for it" % (src, show(conds[0])[:150]), where)
            else:
                ctx.undecided(key, "%s is written only when %s" % (src, show(conds[0])[:150]))
            continue
        pos = order.get(dst)
        if pos is None or len(pos) != 1:
            ctx.undecided(key + ":order", "sequence position unclear")
        else:
            ctx.require(pos == {wn.index(name)}, key + ":order", "%s is written at position %d but read at position %s in formats without names" %
                        (src, wn.index(name), sorted(pos)), where)
        ctx.ok(key)


def count(ctx, what, w, n, where):
    if is_num(n):
        ctx.require(n.args[0] == len(w), what + ":count", "%d fields are announced but %d are written" % (n.args[0], len(w)), where)


def full(t):
    """a whole slice of something is that thing"""
    while t.op == "subslice" and t.args[1] is ZERO and t.args[2] == length(t.args[0]):
        t = t.args[0]
    return t


def dims_of(t, me):
    """does the term list the extents of the shape: 'ok', a reason why not, or None"""
    d = field(me, None, "dims")
    depth = field(me, None, "depth")
    t = full(t)
    if t.op == "call" and t.args[0] == "Shape::dims":
        return "ok"
    if t.op == "subslice" and t.args[0] is d:
        if t.args[1] is ZERO and (t.args[2] is depth or t.args[2] == length(d)):
            return "ok"
        return "writes only extents %s..%s" % (show(t.args[1]), show(t.args[2]))
    if t is d:
        return "ok"
    if is_seq(t) and t.args[0] in (depth, length(d)):
        i = mk("probe")
        x = seq_elem(t, i)
        if x is mk("dim", me, i) or x is index(d, i):
            return "ok"
        return None
    if not contains(t, lambda u: u is d or u.op == "dim"):
        return "writes %s instead of the extents" % show(t)[:80]
    return None


def elements(t, me):
    """does the term list the elements of the tensor"""
    got = set()
    for v in values_of(full(t)):
        v = full(v)
        if v.op == "call" and v.args[0] == "Device::tensor_to_vector":
            got.add("ok" if v.args[2] is me else "writes the elements of %s" % show(v.args[2])[:80])
        elif v.op == "call" and v.args[0] == "Tensor.BasicFunctions::to_vec":
            got.add("ok" if v.args[1] is me else "writes the elements of %s" % show(v.args[1])[:80])
        elif v.op == "field" and strip(v) is field(me, None, "host_values"):
            got.add("ok")
        elif v.op == "subslice" and v.args[0].op == "call" and v.args[0].args[0] in ("Device::tensor_to_vector", "Tensor.BasicFunctions::to_vec"):
            got.add("writes only elements %s..%s" % (show(v.args[1]), show(v.args[2])[:80]))
        elif not contains(v, lambda u: u.op == "call" and u.args[0] in ("Device::tensor_to_vector", "Tensor.BasicFunctions::to_vec") or u is field(me, None, "host_values")):
            got.add("writes %s instead of the elements" % show(v)[:80])
        else:
            return None
    bad = got - {"ok"}
    return bad.pop() if bad else "ok"


def check_shape(ctx):
    me = mk("arg", 0, "self")
    fw, fr = ctx.fn("Shape.Serialize::serialize"), ctx.fn("Shape.Deserialize::deserialize")
    if not fw or not fr:
        ctx.violation("anchor:Shape", "Shape is no longer saved and loaded")
        return
    w, n, s = written(ctx, fw)
    me = s.args[0]
    where = ctx.where(fw)
    rows = []
    for name, v, conds, e in w:
        r = dims_of(v, me)
        src = None
        if r == "ok":
            src = "dims"
        elif full(v) is field(me, None, "batch"):
            src = "batch"
        rows.append((name, v, conds, src))
        if src is None and r is not None and "batch" not in show(v) and name == "dims":
            ctx.violation("Shape.dims", r, where)
    count(ctx, "Shape", w, n, where)
    s, read, sname, oks = success(ctx, fr)
    if sname is None:
        raise Unclear("Shape is read in an unknown way")
    byname, order, absent = schema(ctx, sname)
    res = field(downcast(read.res, 0, "Ok"), 0, "0")
    fields = {}
    for ok in oks:
        if ok is read.res:
            if sname == "Shape":
                raise Unclear("Shape is read field by field")
            raise Unclear("reader result")
        if ok.op != "call" or ok.args[0] != "Shape::new":
            raise Unclear("Shape is rebuilt as " + show(ok)[:100])
        for k, t in (("dims", ok.args[1]), ("batch", ok.args[2])):
            t = full(t)
            if t.op == "field" and t.args[0] is res:
                fields[k] = t.args[1] if isinstance(t.args[1], str) else t.args[-1]
            elif not contains(t, lambda u: u is read.res):
                ctx.violation("Shape." + k + ":read", "a loaded shape gets %s %s whatever was saved" % (k, show(t)[:80]), ctx.where(fr))
            elif t.op == "subslice":
                ctx.violation("Shape." + k + ":read", "a loaded shape keeps only part of the %s: %s" % (k, show(t)[:120]), ctx.where(fr))
            else:
                ctx.undecided("Shape." + k + ":read", show(t)[:120])
    agree(ctx, "shape", fields, rows, byname, order, absent, where)


def check_tensor(ctx):
    fw, fr = ctx.fn("Tensor.Serialize::serialize"), ctx.fn("Tensor.Deserialize::deserialize")
    if not fw or not fr:
        ctx.violation("anchor:Tensor", "Tensor is no longer saved and loaded")
        return
    w, n, s = written(ctx, fw)
    me = s.args[0]
    where = ctx.where(fw)
    rows = []
    for name, v, conds, e in w:
        src = None
        if full(v) is field(me, None, "shape"):
            src = "shape"
        else:
            r = elements(v, me)
            if r == "ok":
                src = "values"
            elif name != "shape" and r is not None:
                ctx.violation("Tensor.values", "saving a tensor " + r, where)
                src = "values"
            elif name == "shape" and not contains(v, lambda u: u is field(me, None, "shape")):
                ctx.violation("Tensor.shape", "saving a tensor writes %s as its shape" % show(v)[:80], where)
                src = "shape"
            elif name == "shape" and v.op == "call" and v.args[0] in ("Shape::resize_dim", "Shape::resize_batch", "Shape::new"):
                ctx.violation("Tensor.shape", "saving a tensor writes %s as its shape" % show(v)[:120], where)
                src = "shape"
            else:
                raise Unclear("field '%s' holds %s" % (name, show(v)[:100]))
        rows.append((name, v, conds, src))
    count(ctx, "Tensor", w, n, where)
    for e, p in walk(s.effects):
        if e.kind == "assert" and contains(e.cond, lambda u: u.op in ("dim", "lvol") or u.op == "field" and u.args[-1] in ("batch", "volume", "depth", "dims")):
            if not is_fit(e.cond):
                ctx.undecided("Tensor:saved", "saving requires " + show(e.cond)[:100])
    s, read, sname, oks = success(ctx, fr)
    if sname is None:
        raise Unclear("Tensor is read in an unknown way")
    byname, order, absent = schema(ctx, sname)
    res = field(downcast(read.res, 0, "Ok"), 0, "0")
    fields = {}
    rw = ctx.where(fr)
    for ok in oks:
        if adt_of(ok) != "Tensor":
            raise Unclear("Tensor is rebuilt as " + show(ok)[:100])
        parts = dict(zip(ok.args[0][4], ok.args[1:]))
        hv = parts.get("host_values")
        if hv is None or "shape" not in parts:
            raise Unclear("fields of a loaded tensor")
        if adt_of(hv) == "Option" and hv.args[0][3] == "None":
            ctx.violation("Tensor.values:read", "a loaded tensor keeps no element values", rw)
        elif adt_of(hv) == "Option":
            put(ctx, "Tensor", "values", hv.args[1], res, read, fields, rw)
        else:
            raise Unclear("host values " + show(hv)[:80])
        put(ctx, "Tensor", "shape", parts["shape"], res, read, fields, rw)
        h = parts.get("handle")
        if h is not None:
            ctx.require(not contains(h, lambda u: u.op == "call"), "Tensor:unplaced", "a loaded tensor already claims a device buffer: %s" % show(h)[:80], rw)
    agree(ctx, "tensor", fields, rows, byname, order, absent, where)
    for e, p in walk(s.effects):
        if e.kind == "assert" and not is_fit(e.cond) and not is_size_match(e.cond):
            ctx.undecided("Tensor:loaded", "loading requires " + show(e.cond)[:100])


def is_fit(c):
    return c.op in ("nooverflow",) or c.op == "and" and all(is_fit(x) for x in c.args)


def is_size_match(c):
    return c.op == "eq" and any(contains(x, lambda u: u.op == "len") for x in c.args) and any("volume" in show(x) for x in c.args)


def put(ctx, what, k, t, res, read, fields, where):
    t = full(t)
    if t.op == "field" and t.args[0] is res:
        fields[k] = t.args[-1] if isinstance(t.args[-1], str) else t.args[1]
    elif not contains(t, lambda u: u is read.res):
        ctx.violation("%s.%s:read" % (what, k), "a loaded %s gets the %s %s whatever was saved" % (what.lower(), k, show(t)[:80]), where)
    elif t.op == "out" and t.args[0].op == "call" and t.args[0].args[0] in ("Vec::resize", "Vec::truncate", "Vec::reverse", "Vec::dedup", "Vec::clear", "Vec::retain") and \
            not (t.args[0].args[0] in ("Vec::resize", "Vec::truncate") and "batch" in show(t.args[0].args[2])):
        ctx.violation("%s.%s:read" % (what, k), "the %s of a loaded %s go through %s" % (k, what.lower(), show(t)[:160]), where)
    elif t.op in ("subslice",) or t.op == "call" and t.args[0] in ("Shape::resize_dim", "Shape::resize_batch", "Shape::new"):
        ctx.violation("%s.%s:read" % (what, k), "a loaded %s gets %s as its %s" % (what.lower(), show(t)[:120], k), where)
    else:
        raise Unclear("%s of a loaded %s: %s" % (k, what.lower(), show(t)[:100]))


def check_parameter(ctx):
    fw, fr = ctx.fn("Parameter.Serialize::serialize"), ctx.fn("Parameter.Deserialize::deserialize")
    if not fw or not fr:
        ctx.violation("anchor:Parameter", "Parameter is no longer saved and loaded")
        return
    w, n, s = written(ctx, fw)
    me = s.args[0]
    where = ctx.where(fw)
    pf = ctx.fn("Parameter::move_to_device")
    want = c_model.tensor_fields(pf) if pf else ["value", "gradient", "stats"]
    ctx.floor("tensor fields of a parameter", len(want), 3)
    rows = []
    for name, v, conds, e in w:
        src = [x for x in want if full(v) is field(me, None, x)]
        if not src and contains(v, lambda u: u is me or u.op == "field" and u.args[0] is me and u.args[-1] in want):
            raise Unclear("field '%s' holds %s" % (name, show(v)[:100]))
        rows.append((name, v, conds, src[0] if src else None))
    count(ctx, "Parameter", w, n, where)
    s, read, sname, oks = success(ctx, fr)
    if sname is None:
        raise Unclear("Parameter is read in an unknown way")
    byname, order, absent = schema(ctx, sname)
    fields = {}
    rw = ctx.where(fr)
    res = field(downcast(read.res, 0, "Ok"), 0, "0")
    for ok in oks:
        if ok is read.res and sname == "Parameter":
            fields = {x: x for x in want}
        elif adt_of(ok) == "Parameter":
            parts = dict(zip(ok.args[0][4], ok.args[1:]))
            for x in want:
                put(ctx, "Parameter", x, parts[x], res, read, fields, rw)
        else:
            raise Unclear("Parameter is rebuilt as " + show(ok)[:100])
    agree(ctx, "parameter", fields, rows, byname, order, absent, where)


def resolve(effs, know):
    """effects on the path where the conditions named in `know` hold"""
    for e in effs:
        if e.kind == "if":
            v = know(e.cond)
            if v is None:
                raise Unclear("depends on " + show(e.cond)[:80])
            yield from resolve(e.then if v else e.els or [], know)
        else:
            yield e


def check_move(ctx):
    f = ctx.fn("Tensor::move_to_device")
    if f is None:
        ctx.violation("anchor:move", "Tensor::move_to_device is gone")
        return
    s = ctx.summary(f, PersistLayer)
    if s is None:
        return
    me, dev = s.args[0], s.args[1]
    where = ctx.where(f)
    host = field(me, None, "host_values")
    vals = field(downcast(host, 1, "Some"), 0, "0")
    size_ok = lambda t: "volume" in show(t) and "batch" in show(t)
    st = {"device": None, "handle": None, "host_values": None}
    copied = 0

    def know(c):
        if c.op == "not":
            v = know(c.args[0])
            return None if v is None else not v
        if c.op == "eq" and any(x.op == "discr" and x.args[0] is host for x in c.args):
            k = [x for x in c.args if is_num(x)]
            return bool(k and k[0].args[0] == 1)
        h = field(me, None, "handle")
        if c.op == "eq" and any(x.op == "null" for x in c.args) and any(contains(x, lambda u: u is h) for x in c.args):
            return True
        return None

    for e in resolve(s.effects, know):
        if e.kind == "set" and e.base is me:
            p = e.path if isinstance(e.path, tuple) else tuple(e.path)
            p = [x if isinstance(x, str) else x[-1] for x in p]
            if not p:
                raise Unclear("the whole tensor is replaced")
            st[p[0]] = e.val
        elif e.kind == "call" and e.name in ("Device::reset_tensor_by_slice",):
            copied += 1
            d, t, v = e.args[:3]
            ctx.require(full(v) is vals, "move:values", "the elements copied to the device are %s, not the loaded ones" % show(full(v))[:100], where)
            ctx.require(d is dev, "move:device", "the elements are copied through %s, not the device asked for" % show(d)[:80], where)
            h = st["handle"]
            if h is None:
                ctx.violation("move:handle", "the elements are copied before the tensor has a buffer", where)
            else:
                hs = [u for u in subterms(h) if u.op == "call" and u.args[0].endswith("new_handle")]
                if len(hs) == 1:
                    a = hs[0].args
                    ctx.require(contains(a[1], lambda u: u is dev), "move:handle", "the buffer is acquired from %s, not the device asked for" % show(a[1])[:80], where)
                    ctx.require(same_size(a[2], me), "move:size", "the buffer acquired holds %s elements, not the size of the tensor" % show(a[2])[:100], where)
                else:
                    raise Unclear("handle " + show(h)[:80])
        elif e.kind == "call" and (e.name in ("Device::reset_tensor", "Device::reset_tensor_by_tensor") or "Assign" in e.name):
            if copied:
                ctx.violation("move:values", "after the elements are copied the tensor is overwritten by %s" % e.name, where)
        elif e.kind == "assert":
            c = e.cond
            if know(c) is True or is_fit(c) or is_size_match(c):
                continue
            if know(c) is False:
                ctx.violation("move:accepts", "a loaded tensor cannot be moved: it requires %s" % show(c)[:100], where)
            elif c.op == "eq" and contains(c, lambda u: u.op == "discr") and contains(c, lambda u: u is field(me, None, "device")):
                k = [x for x in c.args if is_num(x)]
                if k and k[0].args[0] == 1 and st["device"] is None:
                    ctx.violation("move:accepts", "a loaded tensor cannot be moved: it requires a device", where)
            else:
                ctx.undecided("move:accepts", show(c)[:100])
    ctx.require(copied == 1, "move:copied", "moving a loaded tensor copies its elements %d times" % copied, where)
    d = st["device"]
    ctx.require(d is not None and adt_of(d) == "Option" and d.args[0][3] == "Some" and d.args[1] is dev, "move:placed",
                "a moved tensor does not end on the device asked for but on %s" % (show(d)[:80] if d is not None else "none"), where)
    hv = st["host_values"]
    ctx.require(hv is not None and adt_of(hv) == "Option" and hv.args[0][3] == "None", "move:released", "a moved tensor still keeps host values", where)
    for k in ("shape",):
        if st.get(k) is not None:
            ctx.require(st[k] is field(me, None, "shape"), "move:shape", "moving changes the shape to %s" % show(st[k])[:80], where)


def same_size(t, me):
    sh = field(me, None, "shape")
    return t is imul(field(sh, None, "batch"), field(sh, None, "volume")) or t.op == "call" and t.args[0] == "Shape::size" and t.args[1] is sh


class CopyLayer(policies.DeviceLayer):
    pass


def check_copies(ctx):
    """reading all elements out and putting all elements in"""
    f = ctx.fn("Device::tensor_to_vector")
    if f is None:
        ctx.violation("anchor:tensor_to_vector", "Device::tensor_to_vector is gone")
    else:
        s = ctx.summary(f, policies.DeviceLayer)
        x = s.args[1]
        ds = [(e, p) for e, p in calls(s.effects, lambda n: n in policies.DISPATCH)]
        if len(ds) == 1 and strval(ds[0][0].args[1]) == "tensor_to_vector_impl" and not ds[0][1]:
            e = ds[0][0]
            ys = e.args[5]
            ctx.require(elems(e.args[2]) == [x], "save:operand", "the elements saved are those of %s" % show(e.args[2])[:80], ctx.where(f))
            ctx.require(same_size(length(ys), x), "save:length", "%s elements are read, not all of the tensor" % show(length(ys))[:80], ctx.where(f))
            r = full(s.ret)
            if r.op == "alloc" and ys.op == "alloc":
                ctx.require(r is ys, "save:result", "the vector returned is not the one filled", ctx.where(f))
            elif r.op == "subslice":
                ctx.violation("save:result", "only elements %s..%s are returned" % (show(r.args[1]), show(r.args[2])[:80]), ctx.where(f))
            else:
                ctx.undecided("save:result", show(r)[:80])
        else:
            ctx.undecided("save", "not one call of the kernel")
    f = ctx.fn("Device::reset_tensor_by_slice")
    if f is None:
        ctx.violation("anchor:reset_tensor_by_slice", "Device::reset_tensor_by_slice is gone")
    else:
        s = ctx.summary(f, policies.DeviceLayer)
        x, v = s.args[1], s.args[2]
        ds = [(e, p) for e, p in calls(s.effects, lambda n: n in policies.DISPATCH)]
        if len(ds) == 1 and strval(ds[0][0].args[1]) == "reset_tensor_by_slice_impl" and not ds[0][1]:
            e = ds[0][0]
            ctx.require(elems(e.args[5]) == [x], "load:target", "the elements are put into %s" % show(e.args[5])[:80], ctx.where(f))
            ctx.require(full(e.args[4]) is v, "load:values", "the elements put in are %s" % show(e.args[4])[:80], ctx.where(f))
        else:
            ctx.undecided("load", "not one call of the kernel")
        for e, p in walk(s.effects):
            if e.kind == "assert":
                c = e.cond
                if c.op == "eq" and any(full(y) is length(v) for y in c.args):
                    o = [y for y in c.args if y is not length(v)]
                    ctx.require(bool(o) and same_size(o[0], x), "load:length", "it requires %s" % show(c)[:100], ctx.where(f))
    seen = set()
    for t, n, g in c_kernel.each_kernel(ctx, ("fw", "fw_f32")):
        if n == "reset_tensor_by_slice_impl":
            spec = c_kernel.FW[n]
        elif n == "tensor_to_vector_impl":
            spec = c_kernel.HOST[n]
        else:
            continue
        seen.add(n)
        if g is not None:
            c_kernel.decide(ctx, n, g, spec)
    for n in ("reset_tensor_by_slice_impl", "tensor_to_vector_impl"):
        ctx.require(n in seen, "anchor:" + n, "kernel %s is not registered" % n)


def run_persist(ctx):
    ctx.rule = ("For shapes, tensors and parameters the table of (name, position, source) written by serialize is extracted and compared with the table of (name, position, destination) "
                "read by the visitors of deserialize and the constructor they reach; the function that places a loaded tensor must acquire a buffer of the tensor's size from the device asked for "
                "and copy all loaded elements into it; every tensor of a parameter must be placed once; the copies in and out must cover all elements in order.")
    ctx.assumptions = ["serde's implementations for Vec, HashMap, String, RefCell and the numbers, and the data format used, return what they were given"]
    ctx.prog
    for k, g in (("shape", check_shape), ("tensor", check_tensor), ("parameter", check_parameter), ("move", check_move), ("copies", check_copies)):
        try:
            g(ctx)
        except Unclear as e:
            ctx.undecided(k, str(e))
    ctx.floor("parameter move", c_model.run_moves(ctx, policies.ModelLayer, only="Parameter::move_to_device"), 1)
