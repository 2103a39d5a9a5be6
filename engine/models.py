"""Meaning of the standard-library operations the code base is built from.

&T, Box<T>, Rc<T>, Arc<T>, Ref/RefMut/MutexGuard<T>, RefCell<T>, Mutex<T> are
transparent (identified with T); iterators are (kind, parts, position) tuples.
"""
import re
from terms import *
import terms as tm
from fractions import Fraction

EXACT = {}
PATTERN = []


def model(*names):
    def d(f):
        for n in names:
            if "*" in n:
                PATTERN.append((n, f))
            else:
                EXACT[n] = f
        return f
    return d


_cache = {}


def lookup(it, ref):
    n = ref.name(it)
    if n in _cache:
        return _cache[n]
    f = EXACT.get(n)
    if f is None:
        import fnmatch
        for p, g in PATTERN:
            q = p.replace("[", "[[]")
            if fnmatch.fnmatchcase(n, q):
                f = g
                break
    _cache[n] = f
    return f


def _E():
    import interp
    return interp.E


def interp_undecided():
    import interp
    return interp.Undecided


def deref(it, st, v):
    """value designated by v (one or more reference levels)"""
    for _ in range(8):
        if v.op == "ref":
            v = it.read_rp(st, v.args[0], v.args[1])
        else:
            break
    if v.op == "ite" and contains(v, lambda x: x.op == "ref"):
        return it.snap(st, v)
    return v


# ------------------------------------------------------------------ identity
@model("*.Deref::deref", "*.DerefMut::deref_mut", "*.Clone::clone", "*.Borrow::borrow",
       "*.BorrowMut::borrow_mut", "*.AsRef::as_ref", "*.AsMut::as_mut", "*.ToOwned::to_owned",
       "Box::new", "Rc::new", "Arc::new", "RefCell::new", "Cell::new", "Mutex::new",
       "RefCell::borrow", "RefCell::borrow_mut", "RefCell::into_inner", "Mutex::get_mut", "RefCell::get_mut", "Cell::get_mut",
       "AtomicPtr::get_mut", "Atomic::get_mut",
       "[T]::to_vec", "Box::into_raw", "Box::from_raw", "Vec::as_mut_slice", "Vec::as_slice",
       "hint::must_use", "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::cloned",
       "Option::copied", "Vec::into_boxed_slice", "String::as_str", "hint::black_box", "Box::leak",
       "[T]::into_vec", "Box::into_vec", "Box::pin", "Ref::clone", "boxed::box_new")
def identity(it, fr, st, ref, vals, eff, span, site, dty):
    v = vals[0]
    n = ref.name(it)
    if n.endswith("Clone::clone") or n in ("[T]::to_vec", "Option::cloned", "Option::copied"):
        # a copy must not alias mutable local storage
        return deref(it, st, v) if v.op == "ref" else v
    if n in ("Option::as_ref", "Option::as_mut", "Option::as_deref") and v.op == "ref":
        o = deref(it, st, v)
        if o.op == "agg" and o.args[0][0] == "adt" and o.args[0][3] == "Some":
            return some(mk("ref", v.args[0], v.args[1] + (("v", 1, "Some"), (".", 0, "0"))))
        if o.op == "agg":
            return o
        return o
    return v


@model("*.From<*>::from", "*.Into<*>::into")
def conv(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    if ".Into<" in n and dty is not None:
        src = ref.types(ref.c["self"])["s"] if "self" in ref.c else None
        for f in it.prog.fns.values():
            if f.trait and f.trait.endswith("convert::From") and f.self_ty is not None:
                if f.ty(f.self_ty)["s"] == dty["s"] and f.ty(f.j["trargs"][0])["s"] == src:
                    return it.inline(fr, st, f, vals, eff, span, (site, "into"))
    src = dst = None
    if ".From<" in n:
        dst, src = n.split(".From<")
        src = src.split(">::from")[0]
        ints = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "bool"}
        if src == dst or (src in ints and dst in ints):
            return vals[0]
        if dst in ("f32", "f64") and src in ("f32", "f64"):
            return vals[0]
        if src == "str" and dst == "String":
            return vals[0]
    return NotImplemented


# ------------------------------------------------------------------ scalars
@model("cmp::max", "*.Ord::max")
def imax(it, fr, st, ref, vals, eff, span, site, dty):
    return _minmax("imax", it, st, vals)


@model("cmp::min", "*.Ord::min")
def imin(it, fr, st, ref, vals, eff, span, site, dty):
    return _minmax("imin", it, st, vals)


def _minmax(op, it, st, vals):
    a, b = deref(it, st, vals[0]), deref(it, st, vals[1])
    if a is b:
        return a
    if is_num(a) and is_num(b):
        f = max if op == "imax" else min
        return num(f(a.args[0], b.args[0]))
    return mk(op, *sorted((a, b), key=lambda t: t.uid))


@model("f32::*", "f64::*")
def ffn(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it).split("::")[1]
    vs = [it.snap(st, v) for v in vals]
    if n == "mul_add":
        return fbin("fadd", fbin("fmul", vs[0], vs[1]), vs[2])
    if n == "recip":
        return mk("fdiv", num(1), vs[0])
    if n == "powi" and is_num(vs[1]) and 1 <= vs[1].args[0] <= 4:
        r = vs[0]
        for _ in range(int(vs[1].args[0]) - 1):
            r = fbin("fmul", r, vs[0])
        return r
    return mk("fn", n, *vs)


@model("*.Add<*>::add", "*.Sub<*>::sub", "*.Mul<*>::mul", "*.Div<*>::div", "*.Rem<*>::rem", "*.Neg::neg")
def arith(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    ty = n.split(".")[0]
    vs = [it.snap(st, v) for v in vals]
    if ty == "String":
        a, b = vs
        if a.op == "str" and b.op == "str":
            return mk("str", a.args[0] + b.args[0])
        return mk("concat", a, b)
    op = n.split("::")[-1]
    if ty in ("f32", "f64"):
        if op == "neg":
            return mk("fneg", vs[0])
        return fbin("f" + op, *vs)
    if ty in ("u32", "usize", "i32", "u64", "i64", "u8", "isize"):
        return {"add": iadd, "sub": isub, "mul": imul, "div": idiv, "rem": irem, "neg": ineg}[op](*vs)
    return NotImplemented


@model("*.AddAssign<*>::add_assign", "*.SubAssign<*>::sub_assign", "*.MulAssign<*>::mul_assign")
def arith_assign(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    ty = n.split(".")[0]
    op = n.split("::")[-1].split("_")[0]
    a, b = it.snap(st, vals[0]), it.snap(st, vals[1])
    if ty in ("f32", "f64"):
        r = fbin("f" + op, a, b)
    elif ty in ("u32", "usize", "i32", "u64", "i64", "u8", "isize"):
        r = {"add": iadd, "sub": isub, "mul": imul}[op](a, b)
    else:
        return NotImplemented
    store_through(it, fr, st, vals[0], r, eff, span)
    return tup()


def store_through(it, fr, st, p, x, eff, span):
    alts = it.deref_to(p)
    if len(alts) == 1:
        it.write_rp(st, alts[0][1], alts[0][2], x, eff, span)
        return
    import interp
    for c, r, pa in alts:
        s2 = st.copy()
        e2 = []
        it.write_rp(s2, r, pa, x, e2, span)
        if e2:
            eff.append(interp.E("if", span, cond=c, then=e2, els=[]))
        m = interp.merge_states(c, s2, st)
        st.cells, st.vers = m.cells, m.vers


@model("*.PartialEq::eq", "*.PartialEq<*>::eq")
def eq(it, fr, st, ref, vals, eff, span, site, dty):
    return it.ieq(it.snap(st, vals[0]), it.snap(st, vals[1])) if not _isfloat(ref, it) else \
        mk("feq", *sorted((it.snap(st, vals[0]), it.snap(st, vals[1])), key=lambda t: t.uid))


@model("*.PartialEq::ne", "*.PartialEq<*>::ne")
def ne(it, fr, st, ref, vals, eff, span, site, dty):
    return bnot(eq(it, fr, st, ref, vals, eff, span, site, dty))


def _isfloat(ref, it):
    return ref.name(it).split(".")[0] in ("f32", "f64")


@model("u32::pow", "usize::pow")
def ipow(it, fr, st, ref, vals, eff, span, site, dty):
    if is_num(vals[0]) and is_num(vals[1]):
        return num(vals[0].args[0] ** int(vals[1].args[0]))
    return mk("ipow", *vals)


@model("*::checked_mul", "*::checked_add", "*::checked_sub")
def checked(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    op = n.split("_")[-1]
    r = {"mul": imul, "add": iadd, "sub": isub}[op](vals[0], vals[1])
    ok = mk("nooverflow", op, n.split("::")[0], *vals)
    return ite(ok, some(r), NONE)


@model("*::wrapping_add", "*::wrapping_mul", "*::wrapping_sub")
def wrapping(it, fr, st, ref, vals, eff, span, site, dty):
    op = ref.name(it).split("_")[-1]
    if ref.name(it).split("::")[0] not in ("u32", "usize", "u64", "i32", "i64", "isize"):
        return NotImplemented
    return {"mul": imul, "add": iadd, "sub": isub}[op](vals[0], vals[1])


@model("u32::div_ceil", "usize::div_ceil")
def divceil(it, fr, st, ref, vals, eff, span, site, dty):
    return it.ceildiv(*vals)


@model("mem::swap")
def memswap(it, fr, st, ref, vals, eff, span, site, dty):
    if any(v.op not in ("ref", "pt") for v in vals):
        return NotImplemented
    a, b = pointee(it, st, vals[0]), pointee(it, st, vals[1])
    store_through(it, fr, st, vals[0], b, eff, span)
    store_through(it, fr, st, vals[1], a, eff, span)
    return tup()


@model("ptr::swap", "*mut T::swap")
def ptrswap(it, fr, st, ref, vals, eff, span, site, dty):
    return memswap(it, fr, st, ref, vals, eff, span, site, dty)


@model("[T]::swap")
def sliceswap(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = deref(it, st, vals[0])
    if v.op not in ("pt", "subslice", "ref") or local_place(vals[0]):
        return NotImplemented
    for i in vals[1:]:
        eff.append(interp.E("assert", span, cond=lt(i, length(v)), why="index"))
    ps = [mk("ref", v, (("i", i),)) for i in vals[1:]]
    a, b = (it.elem(st, v, i) for i in vals[1:])
    store_through(it, fr, st, ps[0], b, eff, span)
    store_through(it, fr, st, ps[1], a, eff, span)
    return tup()


@model("ptr::replace", "*mut T::replace")
def ptrreplace(it, fr, st, ref, vals, eff, span, site, dty):
    return memreplace(it, fr, st, ref, vals, eff, span, site, dty)


def pointee(it, st, p):
    """the value a reference or raw pointer leads to"""
    v = None
    for c, r, pa in reversed(it.deref_to(p)):
        x = it.read_rp(st, r, pa)
        v = x if v is None else ite(c, x, v)
    return v


@model("mem::replace")
def memreplace(it, fr, st, ref, vals, eff, span, site, dty):
    a = pointee(it, st, vals[0])
    store_through(it, fr, st, vals[0], vals[1], eff, span)
    return a


@model("mem::size_of")
def sizeof(it, fr, st, ref, vals, eff, span, site, dty):
    t = ref.targs()
    return mk("sizeof", t[0]["s"] if t else "?")


@model("mem::drop", "mem::forget")
def memdrop(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    n = ref.name(it)
    t = ref.targs()
    s = t[0]["s"] if t else "?"
    if n == "mem::drop" and ("Guard" in s or "Tensor" in s or "RefMut" in s):
        eff.append(interp.E("drop", span, val=it.snap(st, vals[0]), ty=interp.strip_ty(s)))
    if n == "mem::forget":
        eff.append(interp.E("call", span, name=n, args=[it.snap(st, vals[0])], res=tup(), ref=ref))
    return tup()


# ------------------------------------------------------------------ option / result
def _is_some(it, st, v):
    return ceq(discr(it_snap_top(it, st, v)), ONE)


def it_snap_top(it, st, v):
    return deref(it, st, v)


@model("Option::is_some")
def is_some(it, fr, st, ref, vals, eff, span, site, dty):
    return _is_some(it, st, vals[0])


@model("Option::is_none")
def is_none(it, fr, st, ref, vals, eff, span, site, dty):
    return bnot(_is_some(it, st, vals[0]))


@model("Option::unwrap", "Option::expect")
def opt_unwrap(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = deref(it, st, vals[0])
    c = ceq(discr(v), ONE)
    if c is not TRUE:
        eff.append(interp.E("assert", span, cond=it.snap(st, c), why="unwrap"))
    return field(downcast(v, 1, "Some"), 0, "0")


@model("Option::unwrap_unchecked")
def opt_unwrap_unchecked(it, fr, st, ref, vals, eff, span, site, dty):
    return field(downcast(deref(it, st, vals[0]), 1, "Some"), 0, "0")


@model("Option::unwrap_or")
def opt_unwrap_or(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    return ite(ceq(discr(v), ONE), field(downcast(v, 1, "Some"), 0, "0"), vals[1])


@model("Option::map_or", "Option::map_or_else")
def opt_map_or(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = deref(it, st, vals[0])
    c = ceq(discr(v), ONE)
    if c is FALSE:
        return vals[1] if ref.name(it).endswith("map_or") else it.call_value(fr, st, vals[1], [], eff, span, (site, "mo0"))
    e2 = []
    s2 = st if c is TRUE else st.copy()
    x = it.call_value(fr, s2, vals[2], [field(downcast(v, 1, "Some"), 0, "0")], e2, span, (site, "mo"))
    if c is TRUE:
        eff.extend(e2)
        return x
    if e2 or not ref.name(it).endswith("map_or"):
        return NotImplemented
    return ite(c, x, vals[1])


@model("*.Iterator::position", "*.Iterator::rposition", "*.Iterator::find")
def iposition(it, fr, st, ref, vals, eff, span, site, dty):
    if not it.pol.unroll:
        return NotImplemented
    d = deref(it, st, vals[0])
    v = d if is_it(d) else to_iter(it, st, vals[0])
    n = it_len(it, st, v)
    if not is_num(n) or n.args[0] > 16:
        return NotImplemented
    f = keep(st, vals[1], site)
    name = ref.name(it)
    r = NONE
    order = range(int(n.args[0]))
    for i in (order if "rposition" in name else reversed(order)):
        e2 = []
        x = it_item(it, fr, st, v, iadd(it_pos(v), num(i)), e2, span, (site, i))
        c = it.dec(it.snap(st, it.call_value(fr, st, f, [x], e2, span, (site, "q", i))))
        if e2:
            return NotImplemented
        r = ite(c, some(x if name.endswith("find") else num(i)), r)
    return r


SORTS = ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")


@model(*["[T]::" + n for n in SORTS])
def sort_by(it, fr, st, ref, vals, eff, span, site, dty):
    """records what the comparator (or the key function) returns for two / one arbitrary elements"""
    inner = []
    f = keep(st, vals[1], site)
    name = ref.name(it)
    args = []
    for k in range(1 if name.endswith("key") else 2):
        cell = ("c", ("sortel", site, k), 0)
        st.cells[cell] = mk("sym", "SORT%d" % k)
        args.append(mk("ref", cell, ()))
    try:
        r = it.snap(st, it.call_value(fr, st, f, args, inner, span, (site, "cmp")))
    except interp_undecided():
        return NotImplemented
    eff.extend(e for e in inner if e.kind != "assert" and not (e.kind == "call" and re.search(r"(^|::|\.)(Partial)?Ord(ering)?\b", e.name)))
    sv = [it.snap(st, v) for v in vals[:1]] + [mk("sortfn", r)]
    key = (name, tuple(sv))
    n = it.occ.get(key, 0)
    it.occ[key] = n + 1
    res = mk("call", name, *sv) if n == 0 else mk("call", name, *sv, mk("occ", n))
    eff.append(_E()("call", span, name=name, args=sv, res=res, ref=ref))
    it.havoc(st, vals[0], mk("out", res, 0), eff, span)
    return tup()


@model("Option::take")
def opt_take(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    store_through(it, fr, st, vals[0], NONE, eff, span)
    return v


@model("Result::unwrap", "Result::expect")
def res_unwrap(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = deref(it, st, vals[0])
    if v.op == "okval":
        return v.args[0]
    c = ceq(discr(v), ZERO)
    if c is not TRUE:
        eff.append(interp.E("assert", span, cond=it.snap(st, c), why="unwrap"))
    return field(downcast(v, 0, "Ok"), 0, "0")


@model("Mutex::lock")
def mlock(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = it.snap(st, vals[0])
    eff.append(interp.E("call", span, name="Mutex::lock", args=[v], res=v, ref=ref))
    return mk("okval", vals[0])


CF = "std::ops::ControlFlow"


@model("*.Try::branch")
def trybranch(it, fr, st, ref, vals, eff, span, site, dty):
    v = vals[0]
    if ref.name(it).startswith("Option"):
        ok = ceq(discr(v), ONE)
        val = field(downcast(v, 1, "Some"), 0, "0")
        br = NONE
    else:
        ok = ceq(discr(v), ZERO)
        val = field(downcast(v, 0, "Ok"), 0, "0")
        br = mk("errof", v)
    return ite(ok, mk("agg", ("adt", CF, 0, "Continue", ("0",)), val),
               mk("agg", ("adt", CF, 1, "Break", ("0",)), br))


@model("*.FromResidual*::from_residual")
def fromres(it, fr, st, ref, vals, eff, span, site, dty):
    return mk("residual", vals[0])


# ------------------------------------------------------------------ pointers
@model("*::add", "*::wrapping_add", "*::offset")
def padd_(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    if not (n.startswith("*const T") or n.startswith("*mut T")):
        return NotImplemented
    return it.ptr_add(vals[0], vals[1])


@model("*const T::sub", "*mut T::sub")
def psub_(it, fr, st, ref, vals, eff, span, site, dty):
    return it.ptr_add(vals[0], ineg(vals[1]))


@model("*::as_ref", "*::as_mut")
def pasref(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    if not (n.startswith("*const T") or n.startswith("*mut T")):
        return NotImplemented
    v = it.snap(st, vals[0])
    if v.op == "ld":
        # the buffer of a tensor which may have none
        return ite(ceq(v, NULL), NONE, some(vals[0]))
    return some(vals[0])


@model("*const T::cast", "*mut T::cast", "*const T::cast_mut", "*mut T::cast_const")
def pcast(it, fr, st, ref, vals, eff, span, site, dty):
    return vals[0]


@model("ptr::read", "*const T::read", "*mut T::read")
def pread(it, fr, st, ref, vals, eff, span, site, dty):
    return pointee(it, st, vals[0])


@model("ptr::write", "*mut T::write")
def pwrite(it, fr, st, ref, vals, eff, span, site, dty):
    store_through(it, fr, st, vals[0], vals[1], eff, span)
    return tup()


@model("*const T::is_null", "*mut T::is_null")
def isnull(it, fr, st, ref, vals, eff, span, site, dty):
    return ceq(it.snap(st, vals[0]), NULL)


NULL = mk("null")


@model("ptr::null_mut", "ptr::null")
def nullp(it, fr, st, ref, vals, eff, span, site, dty):
    return NULL


@model("Atomic::new", "AtomicPtr::new")
def atnew(it, fr, st, ref, vals, eff, span, site, dty):
    return mk("agg", ("atomic",), vals[0])


@model("Atomic::load", "AtomicPtr::load")
def atload(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    return atomic_value(v)


def atomic_value(v):
    if v.op == "agg" and v.args[0] == ("atomic",):
        return v.args[1]
    if v.op == "ite":
        return ite(v.args[0], atomic_value(v.args[1]), atomic_value(v.args[2]))
    return mk("ld", v)


@model("Atomic::store", "AtomicPtr::store")
def atstore(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    tgt = it.snap(st, vals[0])
    eff.append(interp.E("call", span, name="Atomic::store", args=[tgt, it.snap(st, vals[1])],
                        res=tup(), ref=ref))
    if vals[0].op == "ref":
        it.write_rp(st, vals[0].args[0], vals[0].args[1], mk("agg", ("atomic",), vals[1]), [], span)
    return tup()


@model("Atomic::swap", "AtomicPtr::swap")
def atswap(it, fr, st, ref, vals, eff, span, site, dty):
    old = atomic_value(deref(it, st, vals[0]))
    atstore(it, fr, st, ref, vals, eff, span, site, dty)
    return old


@model("Vec::as_ptr", "Vec::as_mut_ptr", "[T]::as_ptr", "[T]::as_mut_ptr")
def asptr(it, fr, st, ref, vals, eff, span, site, dty):
    v = vals[0]
    def go(v):
        if v.op == "ref":
            x = deref(it, st, v)
            if x.op in ("alloc",) or True:
                return go(x)
        if v.op == "ite":
            return ite(v.args[0], go(v.args[1]), go(v.args[2]))
        if v.op == "subslice":
            return it.ptr_add(go(v.args[0]), v.args[1])
        return mk("pt", v, ZERO)
    return go(v)


@model("slice::from_raw_parts", "slice::from_raw_parts_mut")
def fromraw(it, fr, st, ref, vals, eff, span, site, dty):
    p, n = vals
    if p.op == "pt":
        return mk("subslice", p.args[0], p.args[1], iadd(p.args[1], n))
    return mk("subslice", p, ZERO, n)


# ------------------------------------------------------------------ vec / slice
@model("Vec::new", "Vec::with_capacity", "String::new")
def vnew(it, fr, st, ref, vals, eff, span, site, dty):
    if ref.name(it) == "String::new":
        return mk("str", "")
    return mk("agg", ("array",))


@model("vec::from_elem")
def vfrom(it, fr, st, ref, vals, eff, span, site, dty):
    if is_num(vals[1]) and 0 <= vals[1].args[0] <= 16:
        return mk("agg", ("array",), *([vals[0]] * int(vals[1].args[0])))
    return mk("alloc", str(site), vals[0], vals[1])


@model("Box::new_uninit")
def bnewu(it, fr, st, ref, vals, eff, span, site, dty):
    cell = ("c", ("box", site), 0)
    st.cells[cell] = mk("uninit", str(cell))
    return mk("ref", cell, ())


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def bassume(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    return strip_mu(v)


def strip_mu(v):
    """MaybeUninit { value: ManuallyDrop { value } } written field-wise"""
    for _ in range(5):
        if v.op == "with" and len(v.args[1]) == 1:
            v = v.args[1][0][1]
        else:
            break
    return v


@model("Vec::len", "[T]::len", "VecDeque::len", "String::len", "str::len", "*.ExactSizeIterator::len")
def vlen(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    if is_it(v):
        return it_len(it, st, v)
    return length(v)


@model("Vec::is_empty", "[T]::is_empty")
def vempty(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    return it.ieq(length(v), ZERO)


@model("Vec::push", "VecDeque::push_back", "BinaryHeap::push")
def vpush(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    v = deref(it, st, vals[0])
    x = vals[1]
    n = ref.name(it)
    if n != "Vec::push":
        eff.append(interp.E("call", span, name=n, args=[it.snap(st, v), it.snap(st, x)], res=tup(), ref=ref))
        if vals[0].op == "ref":
            it.write_rp(st, vals[0].args[0], vals[0].args[1], mk("st", n, v, it.snap(st, x)), [], span)
        return tup()
    if vals[0].op != "ref" or isinstance(vals[0].args[0], T):
        eff.append(interp.E("call", span, name="Vec::push", args=[it.snap(st, v), it.snap(st, x)],
                            res=tup(), ref=ref))
        return tup()
    if v.op == "agg" and v.args[0] == ("array",):
        nv = mk("agg", v.args[0], *(v.args[1:] + (x,)))
    else:
        nv = mk("push", v, x)
    it.write_rp(st, vals[0].args[0], vals[0].args[1], nv, [], span)
    return tup()


@model("Vec::pop")
def vpop(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    n = length(v)
    if vals[0].op == "ref" and not isinstance(vals[0].args[0], T):
        c = lt(ZERO, n)
        last = it.elem(st, v, isub(n, ONE))
        if v.op == "agg" and v.args[0] == ("array",):
            rest = mk("agg", v.args[0], *v.args[1:-1])
        elif v.op == "seq":
            rest = mk("seq", isub(v.args[0], ONE), *v.args[1:])
        else:
            rest = mk("subslice", v, ZERO, isub(n, ONE))
        it.write_rp(st, vals[0].args[0], vals[0].args[1], rest, [], span)
        return ite(c, some(last), NONE)
    return NotImplemented


@model("*.Index<*>::index", "*.IndexMut<*>::index_mut", "[T]::get_unchecked", "[T]::get_unchecked_mut",
       "Vec::get_unchecked")
def vindex(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    n = ref.name(it)
    if n.startswith("HashMap"):
        return NotImplemented
    v, i = vals
    if i.op == "ref":
        i = deref(it, st, i)
    base = deref(it, st, v)
    checked = "unchecked" not in n
    if "Range" in n:
        ln = length(base)
        if "RangeFull" in n:
            return base
        if i.op != "agg":
            return NotImplemented
        if "RangeFrom" in n:
            lo, hi = field(i, 0, "start"), ln
        elif "RangeToInclusive" in n:
            lo, hi = ZERO, iadd(field(i, 0, "end"), ONE)
        elif "RangeTo" in n:
            lo, hi = ZERO, field(i, 0, "end")
        elif "RangeInclusive" in n:
            lo, hi = field(i, 0, "start"), iadd(field(i, 1, "end"), ONE)
        else:
            lo, hi = field(i, 0, "start"), field(i, 1, "end")
        if hi is not ln:
            eff.append(interp.E("assert", span, cond=le(hi, ln), why="range"))
        if lo is not ZERO:
            eff.append(interp.E("assert", span, cond=le(lo, hi), why="range"))
        if it.pol.unroll and "IndexMut" in n and v.op == "ref" and is_num(lo) and is_num(hi):
            return mk("ref", v.args[0], v.args[1] + (("sub", lo, hi, False),))
        return subslice(base, lo, hi)
    if checked:
        c = lt(i, length(base))
        if c is not TRUE:
            eff.append(interp.E("assert", span, cond=it.snap(st, c), why="index"))
    if v.op == "ref":
        return mk("ref", v.args[0], v.args[1] + (("i", i),))
    return mk("ref", v, (("i", i),))


def subslice(b, lo, hi):
    if b.op == "subslice":
        return mk("subslice", b.args[0], iadd(b.args[1], lo), iadd(b.args[1], hi))
    return mk("subslice", b, lo, hi)


@model("[T]::get", "Vec::get", "[T]::first", "[T]::last", "[T]::get_mut", "[T]::first_mut", "[T]::last_mut")
def sget(it, fr, st, ref, vals, eff, span, site, dty):
    v = deref(it, st, vals[0])
    n = ref.name(it)
    if "first" in n:
        i = ZERO
    elif "last" in n:
        i = isub(length(v), ONE)
    else:
        i = vals[1]
    if i.op == "agg":
        return NotImplemented
    return ite(lt(i, length(v)) if "last" not in n else lt(ZERO, length(v)),
               some(mk("ref", v, (("i", i),)) if "mut" in n else it.elem(st, v, i)), NONE)


@model("[T]::clone_from_slice", "[T]::copy_from_slice")
def clonefrom(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    d = vals[0]
    dv = deref(it, st, d)
    s = deref(it, st, vals[1])
    if it.pol.unroll and local_place(d) and is_num(length(dv)) and is_num(length(s)):
        if length(dv) is not length(s):
            eff.append(interp.E("assert", span, cond=FALSE, why="slice length"))
        xs = [it.elem(st, s, num(i)) for i in range(int(length(s).args[0]))]
        put_range(it, st, d, xs, eff, span)
        return tup()
    eff.append(interp.E("assert", span, cond=it.ieq(length(dv), length(s)), why="slice length"))
    copy_range(it, st, dv, ZERO, s, ZERO, length(s), eff, span, site, d)
    return tup()


@model("ptr::copy_nonoverlapping", "ptr::copy", "intrinsics::copy_nonoverlapping")
def pcopy(it, fr, st, ref, vals, eff, span, site, dty):
    s, d, n = vals
    if s.op != "pt" or d.op != "pt":
        return NotImplemented
    copy_range(it, st, d.args[0], d.args[1], s.args[0], s.args[1], n, eff, span, site)
    return tup()


@model("*mut T::copy_from_nonoverlapping", "*mut T::copy_from")
def pcopy2(it, fr, st, ref, vals, eff, span, site, dty):
    return pcopy(it, fr, st, ref, [vals[1], vals[0], vals[2]], eff, span, site, dty)


@model("[T]::fill")
def sfill(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    d = deref(it, st, vals[0])
    if it.pol.unroll and local_place(vals[0]) and is_num(length(d)):
        put_range(it, st, vals[0], [vals[1]] * int(length(d).args[0]), eff, span)
        return tup()
    lid = (site, "fill")
    k = mk("k", str(lid))
    base, off = (d.args[0], d.args[1]) if d.op == "subslice" else (d, ZERO)
    N = length(d)
    stv = interp.E("store", span, base=base, idx=iadd(off, k), val=vals[1])
    eff.append(interp.E("loop", span, body=[stv], k=k, N=N, cont=lt(k, N), lkind="count", phis={}))
    it.loopinfo[k] = dict(k=k, N=N, cont=lt(k, N), lkind="count", phis={})
    st.vers[base] = it.bump(st.vers.get(base, 0))
    return tup()


def local_place(d):
    return d.op == "ref" and not isinstance(d.args[0], T)


def put_range(it, st, d, xs, eff, span):
    """element by element assignment through a reference to (part of) a local array"""
    root, path = d.args
    lo = 0
    if path and path[-1][0] == "sub":
        lo = int(path[-1][1].args[0])
        path = path[:-1]
    for i, x in enumerate(xs):
        it.write_rp(st, root, path + (("i", num(lo + i)),), x, eff, span)


def copy_range(it, st, dbase, doff, sbase, soff, n, eff, span, site, dref=None):
    import interp
    while dbase.op == "subslice":
        doff = iadd(dbase.args[1], doff)
        dbase = dbase.args[0]
    if dref is not None and dref.op == "ref" and not isinstance(dref.args[0], T) and dbase.op != "alloc":
        # whole local array overwritten
        old = dbase
        if doff is ZERO and it.read_rp(st, dref.args[0], dref.args[1]) is old:
            fv = fresh()
            x = it.elem(st, sbase, iadd(soff, fv))
            it.write_rp(st, dref.args[0], dref.args[1], seq(n, fv, x), eff, span)
            return
    lid = (site, "copy")
    k = mk("k", str(lid))
    x = it.elem(st, sbase, iadd(soff, k))
    stv = interp.E("store", span, base=dbase, idx=iadd(doff, k), val=it.snap(st, x))
    info = dict(k=k, N=n, cont=lt(k, n), lkind="count", phis={})
    eff.append(interp.E("loop", span, body=[stv], **info))
    it.loopinfo[k] = info
    st.vers[dbase] = it.bump(st.vers.get(dbase, 0))


# ------------------------------------------------------------------ iterators
def is_it(v):
    return v.op == "agg" and v.args[0][0] == "it"


def mk_it(kind, *parts):
    return mk("agg", ("it", kind), *parts, ZERO)


def it_kind(v):
    return v.args[0][1]


def it_pos(v):
    return v.args[-1]


def it_parts(v):
    return v.args[1:-1]


def it_len0(it, st, v):
    """total number of items from position 0"""
    k = it_kind(v)
    p = it_parts(v)
    if k == "range":
        return isub(p[1], p[0])
    if k in ("slice", "slicemut"):
        return length(deref(it, st, p[0]) if p[0].op == "ref" else p[0])
    if k in ("map", "enumerate", "rev"):
        return it_len(it, st, p[0])
    if k == "step_by":
        return it.ceildiv(it_len(it, st, p[0]), p[1])
    if k == "zip":
        a, b = it_len(it, st, p[0]), it_len(it, st, p[1])
        if a is b:
            return a
        if a.op == "inf":
            return b
        if b.op == "inf":
            return a
        return mk("imin", *sorted((a, b), key=lambda t: t.uid))
    if k == "skip":
        return isub(it_len(it, st, p[0]), p[1])
    if k == "take":
        n = it_len(it, st, p[0])
        return p[1] if n.op == "inf" or n is p[1] else mk("imin", *sorted((n, p[1]), key=lambda t: t.uid))
    if k == "chunks":
        n = length(p[0])
        return it.ceildiv(n, p[1]) if not p[2].args[0] else idiv(n, p[1])
    if k in ("rangefrom", "repeat"):
        return mk("inf")
    import interp
    raise interp.Undecided("iterator " + k)


def it_len(it, st, v):
    n = it_len0(it, st, v)
    return isub(n, it_pos(v)) if n.op != "inf" else n


def it_item(it, fr, st, v, i, eff, span, site):
    """i-th item counted from the iterator's origin"""
    k = it_kind(v)
    p = it_parts(v)
    if k in ("range", "rangefrom"):
        return iadd(p[0], i)
    if k == "slice":
        b = p[0]
        if b.op == "ref":
            b = deref(it, st, b)
        return it.elem(st, b, i)
    if k == "slicemut":
        b = p[0]
        if b.op == "ref":
            return mk("ref", b.args[0], b.args[1] + (("i", i),))
        if b.op == "subslice":
            return mk("ref", b.args[0], (("i", iadd(b.args[1], i)),))
        return mk("ref", b, (("i", i),))
    if k == "map":
        x = it_item(it, fr, st, p[0], iadd(it_pos(p[0]), i), eff, span, site)
        return it.call_value(fr, st, p[1], [x], eff, span, (site, "map"))
    if k == "enumerate":
        x = it_item(it, fr, st, p[0], iadd(it_pos(p[0]), i), eff, span, site)
        return tup(i, x)
    if k == "rev":
        n = it_len(it, st, p[0])
        return it_item(it, fr, st, p[0], iadd(it_pos(p[0]), isub(isub(n, ONE), i)), eff, span, site)
    if k == "step_by":
        return it_item(it, fr, st, p[0], iadd(it_pos(p[0]), imul(i, p[1])), eff, span, site)
    if k == "zip":
        return tup(it_item(it, fr, st, p[0], iadd(it_pos(p[0]), i), eff, span, (site, 0)),
                   it_item(it, fr, st, p[1], iadd(it_pos(p[1]), i), eff, span, (site, 1)))
    if k == "skip":
        return it_item(it, fr, st, p[0], iadd(it_pos(p[0]), iadd(i, p[1])), eff, span, site)
    if k == "take":
        return it_item(it, fr, st, p[0], iadd(it_pos(p[0]), i), eff, span, site)
    if k == "repeat":
        return p[0]
    if k == "chunks":
        lo = imul(i, p[1])
        hi = iadd(lo, p[1])
        if not p[2].args[0]:
            hi = hi if mono_div(as_poly(length(p[0])), p[1]) is not None else \
                mk("imin", *sorted((hi, length(p[0])), key=lambda t: t.uid))
        return subslice(p[0], lo, hi)
    import interp
    raise interp.Undecided("iterator " + k)


def to_iter(it, st, v, mut=False):
    """any iterable value -> iterator value"""
    if v.op == "ref":
        d = deref(it, st, v)
        if is_it(d):
            return None
        if d.op == "agg" and d.args[0][0] == "adt" and d.args[0][1].endswith("Range"):
            return to_iter(it, st, d)
        return mk_it("slicemut" if mut else "slice", v if mut else d)
    if is_it(v):
        return v
    if v.op == "agg" and v.args[0][0] == "adt":
        p = v.args[0][1]
        if p.endswith("::Range"):
            return mk_it("range", field(v, 0, "start"), field(v, 1, "end"))
        if p.endswith("::RangeInclusive"):
            return mk_it("range", field(v, 0, "start"), iadd(field(v, 1, "end"), ONE))
        if p.endswith("::RangeFrom"):
            return mk_it("rangefrom", field(v, 0, "start"))
    return mk_it("slicemut" if mut else "slice", v)


@model("RangeInclusive::new")
def rinc(it, fr, st, ref, vals, eff, span, site, dty):
    return mk("agg", ("adt", "std::ops::RangeInclusive", 0, "RangeInclusive", ("start", "end")), *vals)


@model("iter::repeat")
def irep(it, fr, st, ref, vals, eff, span, site, dty):
    return mk_it("repeat", vals[0])


@model("*.IntoIterator::into_iter")
def into_iter(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    if "HashMap" in n or n.startswith("IterMut<String"):
        return vals[0]
    mut = False
    if "self" in ref.c:
        s = ref.types(ref.c["self"])["s"]
        mut = s.startswith("&") and " mut " in s.split("[")[0].split("<")[0][:12] or s.startswith("&mut") or "IterMut" in s
    r = to_iter(it, st, vals[0], mut)
    return r if r is not None else vals[0]


@model("[T]::iter", "VecDeque::iter")
def siter(it, fr, st, ref, vals, eff, span, site, dty):
    return to_iter(it, st, vals[0])


@model("[T]::iter_mut")
def sitermut(it, fr, st, ref, vals, eff, span, site, dty):
    return to_iter(it, st, vals[0], True)


@model("[T]::chunks", "[T]::chunks_exact", "[T]::chunks_mut", "[T]::chunks_exact_mut")
def schunks(it, fr, st, ref, vals, eff, span, site, dty):
    n = ref.name(it)
    return mk_it("chunks", deref(it, st, vals[0]), vals[1], boolc("exact" in n))


@model("*.Iterator::map")
def imap(it, fr, st, ref, vals, eff, span, site, dty):
    i = to_iter(it, st, vals[0])
    if i is None:
        return NotImplemented
    return mk_it("map", i, vals[1])


@model("*.Iterator::flat_map")
def iflatmap(it, fr, st, ref, vals, eff, span, site, dty):
    i = to_iter(it, st, vals[0])
    if i is None:
        return NotImplemented
    return mk_it("flat", mk_it("map", i, vals[1]))


@model("*.Iterator::flatten")
def iflatten(it, fr, st, ref, vals, eff, span, site, dty):
    i = to_iter(it, st, vals[0])
    if i is None:
        return NotImplemented
    return mk_it("flat", i)


@model("*.Iterator::chain")
def ichain(it, fr, st, ref, vals, eff, span, site, dty):
    a, b = to_iter(it, st, vals[0]), to_iter(it, st, vals[1])
    if a is None or b is None:
        return NotImplemented
    return mk_it("chain", a, b)


@model("*.Iterator::enumerate")
def ienum(it, fr, st, ref, vals, eff, span, site, dty):
    return mk_it("enumerate", to_iter(it, st, vals[0]))


@model("*.Iterator::rev")
def irev(it, fr, st, ref, vals, eff, span, site, dty):
    return mk_it("rev", to_iter(it, st, vals[0]))


@model("*.Iterator::step_by", "*.Iterator::skip", "*.Iterator::take")
def istep(it, fr, st, ref, vals, eff, span, site, dty):
    return mk_it(ref.name(it).split("::")[-1], to_iter(it, st, vals[0]), vals[1])


@model("*.Iterator::zip")
def izip(it, fr, st, ref, vals, eff, span, site, dty):
    t = ref.targs()
    mut = any("&mut" in x["s"] or "IterMut" in x["s"] or " mut " in x["s"] for x in t[-1:])
    return mk_it("zip", to_iter(it, st, vals[0]), to_iter(it, st, vals[1], mut))


@model("*.Iterator::cloned", "*.Iterator::copied", "*.Iterator::by_ref", "*.Iterator::into_iter")
def iident(it, fr, st, ref, vals, eff, span, site, dty):
    return vals[0]


@model("*.Iterator::next", "*.DoubleEndedIterator::next")
def inext(it, fr, st, ref, vals, eff, span, site, dty):
    import interp
    r = vals[0]
    v = deref(it, st, r)
    if not is_it(v):
        if v.op == "agg" and v.args[0][0] == "adt" and "Range" in v.args[0][1]:
            v = to_iter(it, st, v)
        else:
            return NotImplemented
    if r.op != "ref":
        return NotImplemented
    pos = it_pos(v)
    N = it_len0(it, st, v)
    c = lt(pos, N) if N.op != "inf" else TRUE
    if c is FALSE:
        return NONE
    it.write_rp(st, r.args[0], r.args[1], mk("agg", *v.args[:-1], iadd(pos, ONE)), [], span)
    e2 = []
    x = it_item(it, fr, st, v, pos, e2, span, (site, "item"))
    if e2:
        eff.append(interp.E("if", span, cond=c, then=e2, els=[]))
    return ite(c, some(x), NONE)


def iterate(it, fr, st, itv, step, eff, span, site):
    """run step(st, eff, item, k) for each item; mutates st"""
    import interp
    cell = ("c", ("itpos", site), 0)
    st.cells[cell] = ZERO
    N = it_len(it, st, itv)
    start = it_pos(itv)

    def body(s, e):
        pos = s.cells[cell]
        c = lt(pos, N) if N.op != "inf" else TRUE
        ex = s.copy()
        s2 = s.copy()
        e2 = []
        if c is FALSE:
            return {"EXIT": (TRUE, ex)}
        x = it_item(it, fr, s2, itv, iadd(start, pos), e2, span, (site, "item"))
        brk = step(s2, e2, x, pos)
        s2.cells[cell] = iadd(pos, ONE)
        if e2:
            e.append(interp.E("if", span, cond=c, then=e2, els=[]))
        return {"BACK": (c, s2), "EXIT": (bnot(c), ex)}
    out = it.solve_loop((fr.id, "it", site), "BACK", body, st, eff, span)
    s3 = out["EXIT"][1]
    st.cells, st.vers = s3.cells, s3.vers


def the_iter(it, st, v):
    if v.op == "ref":
        d = deref(it, st, v)
        if is_it(d):
            return d
    return to_iter(it, st, v)


def joined(a, b):
    """a list followed by another"""
    return mk("out", mk("call", "Vec::append", a, b), 0)


def gather(it, fr, st, v, acc, eff, span, site):
    """append the items of an iterator to the list in cell acc"""
    k = it_kind(v)
    if k in ("slice", "slicemut") and it_pos(v) is ZERO and it_parts(v)[0].op != "ref":
        st.cells[acc] = joined(st.cells[acc], it_parts(v)[0])
        return
    if k == "chain" and it_pos(v) is ZERO:
        for n, p in enumerate(it_parts(v)):
            gather(it, fr, st, p, acc, eff, span, (site, n))
        return
    if k == "flat" and it_pos(v) is ZERO:
        def inner(s, e, x, k):
            y = the_iter(it, s, x)
            if y is None:
                import interp
                raise interp.Undecided("nested iterator")
            gather(it, fr, s, y, acc, e, span, (site, "in"))
        iterate(it, fr, st, it_parts(v)[0], inner, eff, span, site)
        return

    def step(s, e, x, k):
        s.cells[acc] = mk("push", s.cells[acc], it.snap(s, x))
    iterate(it, fr, st, v, step, eff, span, site)


@model("*.Iterator::collect", "*.FromIterator<*>::from_iter", "*.FromIterator::from_iter")
def icollect(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    if it_kind(v) == "slice" and it_pos(v) is ZERO:
        return it_parts(v)[0]
    acc = ("c", ("itacc", site), 0)
    st.cells[acc] = mk("agg", ("array",))
    gather(it, fr, st, v, acc, eff, span, site)
    return st.cells.pop(acc)


@model("Vec<*.Extend::extend", "Vec<*.Extend<*>::extend", "Vec::extend_from_slice")
def vextend(it, fr, st, ref, vals, eff, span, site, dty):
    r = vals[0]
    if r.op != "ref":
        return NotImplemented
    v = the_iter(it, st, vals[1])
    if v is None:
        return NotImplemented
    acc = ("c", ("itacc", site), 0)
    st.cells[acc] = deref(it, st, r)
    gather(it, fr, st, v, acc, eff, span, site)
    it.write_rp(st, r.args[0], r.args[1], st.cells.pop(acc), eff, span)
    return tup()


def _arr(v):
    return v.op == "agg" and v.args[0] == ("array",)


@model("*.Iterator::for_each")
def iforeach(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    f = keep(st, vals[1], site)

    def step(s, e, x, k):
        it.call_value(fr, s, f, [x], e, span, (site, "fe"))
    iterate(it, fr, st, v, step, eff, span, site)
    return tup()


def keep(st, f, site):
    if f.op == "agg" and f.args[0][0] == "closure":
        cell = ("c", ("clo", site), 0)
        st.cells[cell] = f
        return mk("ref", cell, ())
    return f


@model("*.Iterator::fold")
def ifold(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    acc = ("c", ("itacc", site), 0)
    st.cells[acc] = vals[1]
    f = keep(st, vals[2], site)

    def step(s, e, x, k):
        s.cells[acc] = it.call_value(fr, s, f, [s.cells[acc], x], e, span, (site, "fo"))
    iterate(it, fr, st, v, step, eff, span, site)
    return st.cells.pop(acc)


@model("*.Iterator::sum", "*.Iterator::product")
def isum(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    acc = ("c", ("itacc", site), 0)
    fl = dty is not None and dty["k"] == "float"
    prod = ref.name(it).endswith("product")
    st.cells[acc] = num(1 if prod else 0)

    def step(s, e, x, k):
        a = s.cells[acc]
        x = it.snap(s, x)
        if fl:
            s.cells[acc] = fbin("fmul" if prod else "fadd", a, x)
        else:
            s.cells[acc] = imul(a, x) if prod else iadd(a, x)
    iterate(it, fr, st, v, step, eff, span, site)
    return st.cells.pop(acc)


@model("*.Iterator::all", "*.Iterator::any")
def iall(it, fr, st, ref, vals, eff, span, site, dty):
    d = deref(it, st, vals[0])
    v = d if is_it(d) else to_iter(it, st, vals[0])
    allq = ref.name(it).endswith("::all")
    f = keep(st, vals[1], site)
    n = it_len(it, st, v)
    if is_num(n) and n.args[0] <= 16:
        r = boolc(allq)
        for i in range(int(n.args[0])):
            x = it_item(it, fr, st, v, iadd(it_pos(v), num(i)), eff, span, (site, i))
            c = it.call_value(fr, st, f, [x], eff, span, (site, "q", i))
            r = band(r, c) if allq else bor(r, c)
        return r
    fv = fresh()
    e2 = []
    x = it_item(it, fr, st, v, iadd(it_pos(v), fv), e2, span, (site, "it"))
    c = it.call_value(fr, st, f, [x], e2, span, (site, "q"))
    c = it.snap(st, c)
    if not allq:
        c = bnot(c)
    q = mk("forall", n, lam([fv], c))
    return q if allq else bnot(q)


@model("*.Iterator::last")
def ilast(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    n = it_len(it, st, v)
    if n.op == "inf":
        return NotImplemented
    x = it_item(it, fr, st, v, iadd(it_pos(v), isub(n, ONE)), eff, span, (site, "item"))
    return ite(lt(ZERO, n), some(x), NONE)


@model("*.Iterator::max", "*.Iterator::min")
def imaxmin(it, fr, st, ref, vals, eff, span, site, dty):
    v = the_iter(it, st, vals[0])
    n = it_len(it, st, v)
    if n.op == "inf":
        return NotImplemented
    x0 = it_item(it, fr, st.copy(), v, it_pos(v), [], span, (site, "item0"))
    if x0.op == "ref" or not dty or not re.search(r"Option<(u|i)(8|16|32|64|128|size)>$", dty.get("s", "")):
        return NotImplemented
    op = "imax" if ref.name(it).endswith("max") else "imin"
    acc = ("c", ("itacc", site), 0)
    st.cells[acc] = it.snap(st, x0)

    def step(s, e, x, k):
        s.cells[acc] = _minmax(op, it, s, [s.cells[acc], it.snap(s, x)])
    iterate(it, fr, st, v, step, eff, span, site)
    return ite(lt(ZERO, n), some(st.cells.pop(acc)), NONE)


@model("*.Iterator::count")
def icount(it, fr, st, ref, vals, eff, span, site, dty):
    return it_len(it, st, the_iter(it, st, vals[0]))


# ------------------------------------------------------------------ closures
@model("*.Fn::call", "*.FnMut::call_mut", "*.FnOnce::call_once")
def fncall(it, fr, st, ref, vals, eff, span, site, dty):
    f, a = vals
    args = list(a.args[1:]) if a.op == "agg" else [a]
    return it.call_value(fr, st, f, args, eff, span, site)


# ------------------------------------------------------------------ strings
@model("*.ToString::to_string", "str::to_owned", "String::from")
def tostr(it, fr, st, ref, vals, eff, span, site, dty):
    v = it.snap(st, vals[0])
    if v.op == "str":
        return v
    return mk("tostr", v)


# ------------------------------------------------------------------ cells
@model("Cell::get")
def cget(it, fr, st, ref, vals, eff, span, site, dty):
    return NotImplemented


@model("Cell::set")
def cset(it, fr, st, ref, vals, eff, span, site, dty):
    return NotImplemented


@model("*.Default::default")
def dflt(it, fr, st, ref, vals, eff, span, site, dty):
    if dty is not None and dty["k"] in ("int", "uint", "float"):
        return ZERO
    if dty is not None and dty["k"] == "bool":
        return FALSE
    s = dty.get("s", "") if dty else ""
    if s == "()":
        return mk("agg", ("tuple",))
    if re.match(r"(std::option::)?Option<", s):
        return NONE
    if re.match(r"(std::vec::)?Vec<", s):
        return mk("agg", ("array",))
    if re.match(r"(std::string::)?String$", s):
        return mk("str", "")
    if re.match(r"(std::sync::atomic::)?Atomic(Ptr)?<", s) and ("*mut" in s or "AtomicPtr" in s):
        return mk("agg", ("atomic",), NULL)
    return NotImplemented
