"""Kernels of the reference device against the documented element maps."""
import itertools
import re
from fractions import Fraction
from terms import *
from effects import walk, strval, elems
import alg
import domain
import policies
import kern
import tens
from kern import World, TS, Entry, sym, dig
from c_dispatch import kernel_registry, TRAIT

L, N, M, B, V, Ny, S, P, K, Q, R = (sym(x) for x in ("L", "N", "M", "B", "V", "Ny", "S", "P", "K", "Q", "R"))
LO, SL, Bk, Nk, NX, PX, Bx = (sym(x) for x in ("lo", "slack", "Bk", "Nk", "NX", "PX", "Bx"))
MIN0 = {"lo": 0, "slack": 0, "PX": 0}
F0 = mk("f32", ZERO)
HALF = num(Fraction(1, 2))


def D(ext, i=0):
    """the i-th digit of that extent (zero when the extent is one)"""
    return ZERO if ext is ONE else dig("%s.%d" % (show(ext), i), ext)


def ds(*xs):
    return [x for x in xs if x is not ZERO]


def X(t, i, *rest):
    return mk("X", t, i, *rest)


def fn(f, *a):
    return mk("fn", f, *a)


def fadd(a, b):
    return fbin("fadd", a, b)


def fsub(a, b):
    return mk("fsub", a, b)


def fmul(a, b):
    return fbin("fmul", a, b)


def fdiv(a, b):
    return mk("fdiv", a, b)


def neg(a):
    return mk("fneg", a)


def pos(v, vol, batch):
    """element v of the batch element selected by the output batch digit"""
    return iadd(v, ZERO if batch is ONE else imul(vol, D(B)))


class Case:
    def __init__(self, world, entries, mode="set", fill=None, size=None):
        self.w, self.entries, self.mode, self.fill = world, entries, mode, fill
        self.size = size


# ---------------------------------------------------------------- forward specifications
BB = [("every operand has batch 1", ONE, ONE, ONE), ("all operands have batch B", B, B, B),
      ("only the second operand is batched", ONE, B, B), ("only the first operand is batched", B, ONE, B)]


def unary(f):
    def cases():
        for nm, b in (("one batch", ONE), ("B batches", B)):
            i = iadd(D(V), imul(V, D(b)))
            w = World(nm, {"x0": TS(vol=V, batch=b), "y0": TS(vol=V, batch=b)}, mins={"B": 2}, order=["V", "B"], f32len=ONE, u32len=ONE, nxs=ONE)
            yield Case(w, [Entry("y0", ds(D(V), D(b)), i, "set", f(X("x0", i)))])
    return cases


def binary(f):
    def cases():
        for nm, ba, bb, by in BB:
            i, j, o = pos(D(V), V, ba), pos(D(V), V, bb), pos(D(V), V, by)
            w = World(nm, {"x0": TS(vol=V, batch=ba), "x1": TS(vol=V, batch=bb), "y0": TS(vol=V, batch=by)},
                      mins={"B": 2}, order=["V", "B"], nxs=num(2), u32len=ZERO, f32len=ZERO)
            yield Case(w, [Entry("y0", ds(D(V), D(by)), o, "set", f(X("x0", i), X("x1", j)))])
    return cases


def scalar(f):
    """second operand holds one element per batch"""
    def cases():
        for nm, ba, bb, by in BB:
            i, j, o = pos(D(V), V, ba), pos(ZERO, ONE, bb), pos(D(V), V, by)
            w = World(nm, {"x0": TS(vol=V, batch=ba), "x1": TS(vol=ONE, batch=bb), "y0": TS(vol=V, batch=by)},
                      mins={"B": 2}, order=["V", "B"], nxs=num(2), u32len=ZERO, f32len=ZERO)
            yield Case(w, [Entry("y0", ds(D(V), D(by)), o, "set", f(X("x0", i), X("x1", j)))])
    return cases


def assign(f):
    """the output is the accumulated operand; a broadcast output receives the sum over the batch"""
    def cases():
        for nm, bx, by, b in BB:
            i, o = pos(D(V), V, bx), pos(D(V), V, by)
            w = World(nm, {"x0": TS(vol=V, batch=bx), "y0": TS(vol=V, batch=by)}, mins={"B": 2}, order=["V", "B"], nxs=ONE, u32len=ZERO, f32len=ZERO)
            yield Case(w, [Entry("y0", ds(D(V), D(b)), o, "acc", f(X("x0", i)))], mode="acc")
    return cases


def lnm(n, b, m=M):
    """position of (l, n, m, b) in a tensor whose distinguished extent is ext"""
    def at(i, ext):
        return iadd(D(L), imul(L, iadd(i, imul(ext, iadd(D(m), imul(m, D(b)))))))
    return at


def bcases():
    return (("one batch", ONE), ("B batches", B))


def dimworld(nm, b, n, ny, y0=True, **kw):
    ts = {"x0": TS(L, n, M, b), "y0": TS(L, ny, M, b)}
    return World(nm, ts, mins={"B": 2, **MIN0}, order=["L", "Nk", "Ny", "N", "S", "R", "M", "B"], nxs=ONE, f32len=ZERO, **kw)


def reduce_sum():
    for nm, b in bcases():
        at = lnm(N, b)
        w = dimworld(nm, b, N, ONE, u32={0: kern.D0}, u32len=ONE)
        yield Case(w, [Entry("y0", ds(D(L), D(M), D(b), D(N)), at(ZERO, ONE), "acc", X("x0", at(D(N), N)))], mode="zacc")


def reduce_fold(kind):
    def cases():
        for nm, b in bcases():
            at = lnm(N, b)
            w = dimworld(nm, b, N, ONE, u32={0: kern.D0}, u32len=ONE)
            k, acc = fresh("fv"), fresh("fv")
            e = X("x0", at(k, N))
            if kind == "lse":
                v = fn("ln", mk("fsum", N, ZERO, lam([k], fn("exp", e))))
            else:
                c = mk("flt", acc, e) if kind == "max" else mk("flt", e, acc)
                v = mk("fold", N, X("x0", at(ZERO, N)), lam([acc, k], ite(c, e, acc)))
            yield Case(w, [Entry("y0", ds(D(L), D(M), D(b)), at(ZERO, ONE), "set", v)])
    return cases


def batch_sum():
    w = World("B batches", {"x0": TS(vol=V, batch=B), "y0": TS(vol=V)}, mins={}, order=["V", "B"], nxs=ONE, u32len=ZERO, f32len=ZERO)
    yield Case(w, [Entry("y0", [D(V), D(B)], D(V), "acc", X("x0", iadd(D(V), imul(V, D(B)))))], mode="zacc")


def broadcast():
    for nm, b in bcases():
        at = lnm(S, b)
        w = dimworld(nm, b, ONE, S, u32={0: kern.D0, 1: S}, u32len=num(2))
        yield Case(w, [Entry("y0", ds(D(L), D(S), D(M), D(b)), at(D(S), S), "set", X("x0", at(ZERO, ONE)))])


def flip():
    for nm, b in bcases():
        at = lnm(N, b)
        w = dimworld(nm, b, N, N, u32={0: kern.D0}, u32len=ONE)
        yield Case(w, [Entry("y0", ds(D(L), D(N), D(M), D(b)), at(D(N), N), "set", X("x0", at(isub(isub(N, ONE), D(N)), N)))])


def slice_():
    for nm, b in bcases():
        at = lnm(N, b)
        w = dimworld(nm, b, N, Ny, u32={0: kern.D0, 1: LO}, u32len=num(2))
        w.expand[N] = iadd(iadd(LO, Ny), SL)
        yield Case(w, [Entry("y0", ds(D(L), D(Ny), D(M), D(b)), at(D(Ny), Ny), "set", X("x0", at(iadd(LO, D(Ny)), N)))])


def slice_bw():
    """both the sliced gradient and the accumulated one may be single-batch"""
    for nm, bx, by, b in BB:
        w = World(nm, {"x0": TS(L, N, M, bx), "y0": TS(L, Ny, M, by)}, mins={"B": 2, **MIN0}, order=["L", "Ny", "N", "M", "B"],
                  u32={0: kern.D0, 1: LO}, u32len=num(2), nxs=ONE, f32len=ZERO, expand={N: iadd(iadd(LO, Ny), SL)})
        at = lambda i, e, bb: iadd(D(L), imul(L, iadd(i, imul(e, iadd(D(M), imul(M, ZERO if bb is ONE else D(B)))))))
        yield Case(w, [Entry("y0", ds(D(L), D(Ny), D(M), D(b)), at(D(Ny), Ny, by), "set", X("x0", at(iadd(LO, D(Ny)), N, bx)))])


def pick():
    for nm, bx, bi, b in [("all single", ONE, ONE, ONE), ("operand batched, one index", B, ONE, B),
                          ("single operand, B indices", ONE, B, B), ("B operands, B indices", B, B, B)]:
        at = lambda i, e, bb: iadd(D(L), imul(L, iadd(i, imul(e, iadd(D(M), imul(M, ZERO if bb is ONE else D(B)))))))
        idx = mk("u32", iadd(ONE, ZERO if bi is ONE else D(B)))
        w = World(nm, {"x0": TS(L, N, M, bx), "y0": TS(L, ONE, M, b)}, mins={"B": 2}, order=["L", "N", "M", "B"],
                  u32={0: kern.D0}, u32len=iadd(ONE, bi), nxs=ONE, f32len=ZERO, bound=lambda a: N if a.op == "u32" else None)
        yield Case(w, [Entry("y0", ds(D(L), D(M), D(b)), at(ZERO, ONE, b), "set", X("x0", at(idx, N, bx)))])


def batch_slice():
    w = World("slice of the batch", {"x0": TS(vol=V, batch=Bx), "y0": TS(vol=V, batch=B)}, mins=dict(MIN0), order=["V", "B", "Bx"],
              u32={0: LO, 1: iadd(LO, B)}, u32len=num(2), nxs=ONE, f32len=ZERO, expand={Bx: iadd(iadd(LO, B), SL)})
    yield Case(w, [Entry("y0", [D(V), D(B)], iadd(D(V), imul(V, D(B))), "set", X("x0", iadd(D(V), imul(V, iadd(LO, D(B))))))])


def batch_pick():
    w = World("B indices into Bx batches", {"x0": TS(vol=V, batch=Bx), "y0": TS(vol=V, batch=B)}, order=["V", "B", "Bx"],
              u32len=B, nxs=ONE, f32len=ZERO, bound=lambda a: Bx if a.op == "u32" else None)
    yield Case(w, [Entry("y0", [D(V), D(B)], iadd(D(V), imul(V, D(B))), "set", X("x0", iadd(D(V), imul(V, mk("u32", D(B))))))])


def concat():
    for nm, bk, b in [("single-batch result", ONE, ONE), ("single-batch operand in a batched result", ONE, B), ("batched operand", B, B)]:
        w = World(nm, {"xk": TS(L, Nk, M, bk), "y0": TS(L, Ny, M, b)}, mins={"B": 2, **MIN0}, order=["L", "Nk", "Ny", "M", "B"],
                  u32={0: kern.D0}, u32len=ONE, nxs=NX, f32len=ZERO, expand={Ny: iadd(iadd(PX, Nk), SL)})
        w.prefix_map = {Nk: PX}
        at = lambda i, e, bb: iadd(D(L), imul(L, iadd(i, imul(e, iadd(D(M), imul(M, ZERO if bb is ONE else D(B)))))))
        yield Case(w, [Entry("y0", ds(D(NX), D(L), D(Nk), D(M), D(b)), at(iadd(PX, D(Nk)), Ny, b), "set", X("xk", at(D(Nk), Nk, bk), D(NX)))])


def batch_concat():
    w = World("operands of batch Bk", {"xk": TS(vol=V, batch=Bk), "y0": TS(vol=V, batch=B)}, mins=dict(MIN0), order=["V", "Bk", "B"],
              u32len=ZERO, nxs=NX, f32len=ZERO, expand={B: iadd(iadd(PX, Bk), SL)})
    w.prefix_map = {Bk: PX}
    yield Case(w, [Entry("y0", [D(NX), D(V), D(Bk)], iadd(D(V), imul(V, iadd(PX, D(Bk)))), "set", X("xk", iadd(D(V), imul(V, D(Bk))), D(NX)))])


def transpose():
    for nm, b in bcases():
        w = World(nm, {"x0": TS(matrix=(P, Q), batch=b), "y0": TS(matrix=(Q, P), batch=b)}, mins={"B": 2}, order=["P", "Q", "B"], nxs=ONE, u32len=ZERO, f32len=ZERO)
        PQ = imul(P, Q)
        yield Case(w, [Entry("y0", ds(D(P), D(Q), D(b)), iadd(iadd(D(Q), imul(Q, D(P))), imul(PQ, D(b))), "set",
                             X("x0", iadd(iadd(D(P), imul(P, D(Q))), imul(PQ, D(b)))))])


def matmul():
    for nm, ba, bb, by in BB:
        w = World(nm, {"x0": TS(matrix=(P, K), batch=ba), "x1": TS(matrix=(K, Q), batch=bb), "y0": TS(matrix=(P, Q), batch=by)},
                  mins={"B": 2}, order=["P", "Q", "K", "B"], nxs=num(2), u32len=ZERO, f32len=ZERO)
        i = pos(iadd(D(P), imul(P, D(K))), imul(P, K), ba)
        j = pos(iadd(D(K), imul(K, D(Q))), imul(K, Q), bb)
        o = pos(iadd(D(P), imul(P, D(Q))), imul(P, Q), by)
        yield Case(w, [Entry("y0", ds(D(P), D(Q), D(K), D(by)), o, "acc", fmul(X("x0", i), X("x1", j)))], mode="zacc")


def triangular(lower):
    def cases():
        for nm, b in bcases():
            w = World(nm, {"x0": TS(matrix=(R, R), batch=b), "y0": TS(matrix=(R, R), batch=b)}, mins={"B": 2}, order=["R", "B"],
                      u32={0: sym("k")}, nxs=ONE, u32len=ONE, f32len=ZERO)
            w.mins["k"] = 0
            r, c = D(R, 0), D(R, 1)       # row (fast) and column
            i = iadd(iadd(r, imul(R, c)), imul(imul(R, R), D(b)))
            keep = le(iadd(c, sym("k")), r) if lower else le(iadd(r, sym("k")), c)
            yield Case(w, [Entry("y0", ds(r, c, D(b)), i, "set", ite(keep, X("x0", i), ZERO))])
    return cases


def identity():
    w = World("square", {"y0": TS(matrix=(R, R))}, order=["R"], nxs=ZERO, u32len=ZERO, f32len=ZERO)
    yield Case(w, [Entry("y0", [D(R)], iadd(D(R), imul(R, D(R))), "set", ONE)], mode="fillset", fill=ZERO)


def reset():
    for nm, b in bcases():
        w = World(nm, {"y0": TS(vol=V, batch=b)}, mins={"B": 2}, order=["V", "B"], nxs=ZERO, u32len=ZERO, f32len=ONE)
        yield Case(w, [Entry("y0", ds(D(V), D(b)), iadd(D(V), imul(V, D(b))), "set", F0)])


def reset_slice():
    for nm, b in bcases():
        i = iadd(D(V), imul(V, D(b)))
        w = World(nm, {"y0": TS(vol=V, batch=b)}, mins={"B": 2}, order=["V", "B"], nxs=ZERO, u32len=ZERO, f32len=imul(V, b))
        yield Case(w, [Entry("y0", ds(D(V), D(b)), i, "set", mk("f32", i))])


def mul_assign():
    for nm, b in bcases():
        i = iadd(D(V), imul(V, D(b)))
        w = World(nm, {"y0": TS(vol=V, batch=b)}, mins={"B": 2}, order=["V", "B"], nxs=ZERO, u32len=ZERO, f32len=ONE)
        yield Case(w, [Entry("y0", ds(D(V), D(b)), i, "upd", fmul(F0, mk("OUT", "y0", i)))], mode="upd")


def tovec():
    for nm, b in bcases():
        i = iadd(D(V), imul(V, D(b)))
        w = World(nm, {"x0": TS(vol=V, batch=b), "host": TS(vol=imul(V, b))}, mins={"B": 2}, order=["V", "B"], nxs=ONE, u32len=ZERO, f32len=ZERO, kind="host")
        yield Case(w, [Entry("host", ds(D(V), D(b)), i, "set", X("x0", i))])


def permute():
    """every permutation of up to four dimensions, with symbolic extents"""
    for n in (2, 3, 4):
        es = [sym("E%d" % i) for i in range(n)]
        for pm in itertools.permutations(range(n)):
            for b in ((ONE, B) if n < 4 else (B,)):
                ts = {"x0": TS(dims=es, batch=b), "y0": TS(dims=[es[i] for i in pm], batch=b)}
                w = World("dimensions %s%s" % (list(pm), "" if b is ONE else ", B batches"), ts, mins={"B": 2}, order=["E0", "E1", "E2", "E3", "B"],
                          u32={i: num(q) for i, q in enumerate(pm)}, u32len=num(n), nxs=ONE, f32len=ZERO)
                i, o, si, so = ZERO, ZERO, ONE, ONE
                for k in range(n):
                    i = iadd(i, imul(si, D(es[k])))
                    si = imul(si, es[k])
                    o = iadd(o, imul(so, D(es[pm[k]])))
                    so = imul(so, es[pm[k]])
                i, o = iadd(i, imul(si, D(b))), iadd(o, imul(si, D(b)))
                yield Case(w, [Entry("y0", ds(*[D(e) for e in es], D(b)), o, "set", X("x0", i))])


POS = lambda x: mk("flt", ZERO, x)
sig = lambda x: fdiv(ONE, fadd(ONE, fn("exp", neg(x))))
U = {
    "neg": neg, "sqrt": lambda x: fn("sqrt", x), "abs": lambda x: fn("abs", x), "sin": lambda x: fn("sin", x),
    "cos": lambda x: fn("cos", x), "tan": lambda x: fn("tan", x), "exp": lambda x: fn("exp", x), "ln": lambda x: fn("ln", x),
    "tanh": lambda x: fn("tanh", x), "sigmoid": sig, "softplus": lambda x: fn("ln", fadd(ONE, fn("exp", x))),
    "add_const": lambda x: fadd(x, F0), "sub_const_l": lambda x: fsub(F0, x), "sub_const_r": lambda x: fsub(x, F0),
    "mul_const": lambda x: fmul(x, F0), "div_const_l": lambda x: fdiv(F0, x), "div_const_r": lambda x: fdiv(x, F0),
    "powf_const_l": lambda x: fn("powf", F0, x), "powf_const_r": lambda x: fn("powf", x, F0),
    "prelu": lambda x: ite(POS(x), x, fmul(F0, x)), "elu": lambda x: ite(POS(x), x, fmul(F0, fsub(fn("exp", x), ONE))),
    "powi": lambda x: fn("powi", x, mk("u32", ZERO)),
}
A = {"add": fadd, "sub": fsub, "mul": fmul, "div": fdiv, "powf": lambda a, b: fn("powf", a, b)}
SC = {"add_scalar": fadd, "sub_scalar_r": fsub, "sub_scalar_l": lambda a, b: fsub(b, a), "mul_scalar": fmul,
      "div_scalar_r": fdiv, "div_scalar_l": lambda a, b: fdiv(b, a), "powf_scalar_r": lambda a, b: fn("powf", a, b),
      "powf_scalar_l": lambda a, b: fn("powf", b, a)}

FW = {}
for _n, _f in U.items():
    FW[_n + "_fw_impl"] = unary(_f)
for _n, _f in A.items():
    FW[_n + "_fw_impl"] = binary(_f)
for _n, _f in SC.items():
    FW[_n + "_fw_impl"] = scalar(_f)
FW.update({
    "add_assign_impl": assign(lambda x: x), "sub_assign_impl": assign(neg), "mul_assign_const_impl": mul_assign,
    "sum_fw_impl": reduce_sum, "max_fw_impl": reduce_fold("max"), "min_fw_impl": reduce_fold("min"), "logsumexp_fw_impl": reduce_fold("lse"),
    "batch_sum_fw_impl": batch_sum, "broadcast_fw_impl": broadcast, "flip_fw_impl": flip, "slice_fw_impl": slice_, "pick_fw_impl": pick,
    "batch_slice_fw_impl": batch_slice, "batch_pick_fw_impl": batch_pick, "concat_fw_impl": concat, "batch_concat_fw_impl": batch_concat,
    "transpose_fw_impl": transpose, "permute_dims_fw_impl": permute, "matmul_fw_impl": matmul, "triangular_l_fw_impl": triangular(True), "triangular_u_fw_impl": triangular(False),
    "identity_impl": identity, "reset_tensor_impl": reset, "reset_tensor_by_slice_impl": reset_slice, "reset_tensor_by_tensor_impl": unary(lambda x: x),
})
HOST = {"tensor_to_vector_impl": tovec}


# ---------------------------------------------------------------- backward specifications
def transposed(cases, j, derivs=True):
    """gx_j[i] += gy[o] * d value / d x_j[i], for every pair (o, i) the forward map relates"""
    def gen():
        for c in cases():
            w = c.w
            xs = "x%d" % j
            ts = dict(w.ts)
            ts["gx"] = ts[xs]
            ts["gy0"] = ts["y0"]
            w2 = World(w.name, ts, u32=w.u32, u32len=w.u32len, f32len=w.f32len, nxs=w.nxs, mins=w.mins, expand=w.expand, d=w.d,
                       order=w.order, bound=w.idbound, kind="bw")
            w2.prefix_map = w.prefix_map
            es = []
            w2.fwd = {}
            for e in c.entries:
                gy = X("gy0", e.idx)
                if c.mode == "set":
                    w2.fwd[e.idx] = e.val
                for x in sorted({x for x in subterms(e.val) if x.op == "X" and x.args[0] == xs}):
                    dv = alg.deriv(e.val, x)
                    es.append(Entry("gx", e.digits, x.args[1], "acc", fmul(gy, dv)))
            yield Case(w2, es, mode="acc")
    return gen


BWD = {}
for _n, _f in U.items():
    if _n != "softplus":
        BWD[_n + "_bw_impl"] = transposed(unary(_f), 0)
for _n, _f in A.items():
    BWD[_n + "_bw_a_impl"] = transposed(binary(_f), 0)
    BWD[_n + "_bw_b_impl"] = transposed(binary(_f), 1)
for _n, _f in (("flip", flip), ("slice", slice_bw), ("pick", pick), ("batch_slice", batch_slice), ("batch_pick", batch_pick)):
    BWD[_n + "_bw_impl"] = transposed(_f, 0)
BWD["permute_dims_bw_impl"] = transposed(permute, 0)
BWD["matmul_bw_a_impl"] = transposed(matmul, 0)
BWD["matmul_bw_b_impl"] = transposed(matmul, 1)
BWD["transpose_bw_impl"] = transposed(transpose, 0)
BWD["triangular_l_bw_impl"] = transposed(triangular(True), 0)
BWD["triangular_u_bw_impl"] = transposed(triangular(False), 0)

# kernels written in terms of other tensor operations: the documented amount added to gx
GYT, X0T, X1T, K0 = mk("opv", "GY"), mk("opv", "X0"), mk("opv", "X1"), mk("u32", ZERO)
COMPOSED = {
    "matmul_bw_a_impl": lambda tn: tn.mk("matmul", [GYT, tn.mk("transpose", [X1T], [])], []),
    "matmul_bw_b_impl": lambda tn: tn.mk("matmul", [tn.mk("transpose", [X0T], []), GYT], []),
    "transpose_bw_impl": lambda tn: tn.mk("transpose", [GYT], []),
    "triangular_l_bw_impl": lambda tn: tn.mk("triangular_l", [GYT], [K0]),
    "triangular_u_bw_impl": lambda tn: tn.mk("triangular_u", [GYT], [K0]),
}
CW = World("composed", {}, kind="bw")


def operand_tensors(t):
    """kernel arguments -> canonical operands"""
    def g(x):
        if x.op == "index" and x.args[0].op == "arg":
            i, k = x.args[0].args[0], x.args[1]
            if i == 1 and k in (ZERO, ONE):
                return X0T if k is ZERO else X1T
            if i == 3 and k is ZERO:
                return GYT
            if i == 4:
                return mk("u32", k)
        return None
    return rewrite(t, g)


def composed_paths(effs):
    """[(guards, [(sign, tensor)])] of the whole-tensor accumulations into gx, or None when something else happens"""
    paths = [((), [])]
    gx = mk("arg", 6)
    for e in effs:
        if e.kind in ("assert", "drop"):
            continue
        if e.kind == "if":
            a, b = composed_paths(e.then), composed_paths(e.els or [])
            if a is None or b is None:
                return None
            paths = [(g + (c,) + g2, t + t2) for g, t in paths for c, ps in ((e.cond, a), (bnot(e.cond), b)) for g2, t2 in ps]
            continue
        if e.kind != "call":
            return None
        n = e.name
        sg = None
        if n in ("Tensor.AddAssign<Tensor>::add_assign", "Tensor.SubAssign<Tensor>::sub_assign") and len(e.args) == 2:
            dst, src, sg = e.args[0], e.args[1], -1 if "Sub" in n else 1
        elif n.startswith("Device.") and n.endswith(("::add_assign", "::sub_assign")) and len(e.args) == 3:
            src, dst, sg = e.args[1], e.args[2], -1 if n.endswith("sub_assign") else 1
        if sg is not None:
            if dst.op == "arg" and dst.args[0] == 6 or (dst.op == "ref" and dst.args[0] is gx):
                paths = [(g, t + [(sg, src)]) for g, t in paths]
                continue
            return None
        if any(contains(a, lambda x: x.op == "arg" and x.args[0] == 6) for a in e.args):
            return None
    return paths


def decide_composed(ctx, key, f, spec):
    """True when the kernel is a composition of tensor operations (decided here)"""
    s = ctx.summary(f, policies.KernelLayer)
    if s is None:
        return False
    paths = composed_paths(s.effects)
    if not paths or not any(t for g, t in paths):
        return False
    tn = tens.TN()
    want = tn.nf(spec(tn))
    for g, terms in paths:
        k = key + (":" + " & ".join(show(c)[:60] for c in g) if g else "")
        try:
            tot = num(0)
            for sg, t in terms:
                v = tn(operand_tensors(t))
                tot = mk("fadd" if sg > 0 else "fsub", tot, v)
            got = tn.nf(tot)
        except (tens.NotTensor, alg.Unknown, alg.NeedCond) as e:
            ctx.undecided(k, "gradient expression outside the tensor algebra: %s" % e)
            continue
        if alg.key(got) == alg.key(want):
            ctx.ok(k)
        elif not g or not terms:
            ctx.violation(k, "adds %s to gx, documented %s" % (alg.shown(got)[:200] if hasattr(alg, "shown") else show(tot)[:200], show(spec(tn))[:200]), ctx.where(f))
        else:
            ctx.undecided(k, "special case adds %s" % show(tot)[:150])
    return True


# ---------------------------------------------------------------- searches along one dimension
def extremum_bw():
    """the gradient of each reduced line goes to the first element equal to the reduced value"""
    for nm, b in bcases():
        at = lnm(N, b)
        t = TS(L, N, M, b)
        r = TS(L, ONE, M, b)
        w = World(nm, {"x0": t, "gx": t, "y0": r, "gy0": r}, mins={"B": 2}, order=["L", "N", "M", "B"], nxs=ONE, f32len=ZERO, u32={0: kern.D0}, u32len=ONE, kind="bw")
        i, o = at(D(N), N), at(ZERO, ONE)
        e = Entry("gx", ds(D(L), D(M), D(b), D(N)), i, "acc", X("gy0", o), [mk("feq", X("x0", i), X("y0", o))])
        yield Case(w, [e], mode="acc")


def feqs(t):
    """comparison operands in a fixed order"""
    def g(x):
        if x.op == "feq" and show(x.args[0]) > show(x.args[1]):
            return mk("feq", x.args[1], x.args[0])
        return None
    return rewrite(t, g)


def flat_and(gs):
    out = []
    for g in gs:
        out += flat_and(g.args) if g.op == "and" else [g]
    return out


def decide_extremum(ctx, key, f):
    for case in extremum_bw():
        w, k = case.w, key + ":" + case.w.name
        se = case.entries[0]
        r = read(ctx, f, w)
        if r is None:
            return
        if r.notes or r.calls:
            ctx.undecided(k, "; ".join(map(str, r.notes[:2])) or "calls " + r.calls[0][0].name)
            continue
        try:
            es = [r.classify(e) for e in r.entries]
        except kern.Opaque as x:
            ctx.undecided(k, str(x))
            continue
        if len(es) != 1 or es[0].buf != "gx":
            ctx.undecided(k, "%d stores" % len(es))
            continue
        e = es[0]
        if e.mode != "acc":
            if e.mode == "set" and kern.known_value(e.val):
                ctx.violation(k, "%s: gx is overwritten with %s instead of accumulated into" % (w.name, kern.showv(e.val)), ctx.where(f))
            else:
                ctx.undecided(k, "store mode")
            continue
        gs = flat_and(e.guards)
        its = sorted({x for t in [e.idx] + gs for x in subterms(t) if x.op == "N"}, key=show)
        first = False
        if len(its) == 1:
            # a search loop left at its first hit: its position ranges over the bound it is tested against
            lim = [g for g in gs if g.op == "lt" and g.args[0] is its[0]]
            if len(lim) != 1:
                ctx.undecided(k, "search without a bound")
                continue
            d = dig("hit", lim[0].args[1])
            m = {its[0]: d}
            gs = [g for g in gs if g is not lim[0]]
            e = Entry(e.buf, e.digits + [d], w.simp(subst(e.idx, m)), "acc", w.simp(subst(e.val, m)), [w.simp(subst(g, m)) for g in gs])
            first = True
        elif its:
            ctx.undecided(k, "several searches")
            continue
        else:
            e = Entry(e.buf, e.digits, e.idx, "acc", e.val, gs)
        if not all(kern.known_value(t) for t in (e.idx, e.val) + e.guards):
            ctx.undecided(k, "not in normal form")
            continue
        plain = lambda x: Entry(x.buf, x.digits, x.idx, x.mode, x.val)
        ok, why = kern.match(w, plain(e), plain(se))
        if ok is None:
            ctx.undecided(k, why)
        elif not ok:
            ctx.violation(k, "%s: %s" % (w.name, why), ctx.where(f))
        else:
            hit = None
            for g in groupings(e, se):
                i2, g2 = w.simp(subst(e.idx, g)), [feqs(w.simp(subst(x, g))) for x in e.guards]
                if i2 is se.idx:
                    hit = g2
                    if set(g2) == {feqs(x) for x in se.guards}:
                        break
            if hit is not None and set(hit) == {feqs(x) for x in se.guards}:
                if first:
                    ctx.ok(k)
                else:
                    ctx.violation(k, "%s: every element equal to the reduced value receives the whole gradient, not one of them" % w.name, ctx.where(f))
            elif hit is not None and not hit and not first:
                ctx.violation(k, "%s: every element of the reduced line receives the gradient" % w.name, ctx.where(f))
            elif hit is not None and len(hit) == 1 and hit[0].op == "feq":
                ctx.violation(k, "%s: the element is selected by %s, documented %s" % (w.name, show(hit[0])[:300], show(feqs(se.guards[0]))[:300]), ctx.where(f))
            else:
                ctx.undecided(k, "selection condition")


def groupings(ke, se):
    g, kg = {}, {}
    for d in se.digits:
        g.setdefault(d.args[1], []).append(d)
    for d in ke.digits:
        kg.setdefault(d.args[1], []).append(d)
    for perm in itertools.product(*[list(itertools.permutations(kg.get(x, []))) for x in g]):
        yield {k: s for a, p in zip(g.values(), perm) for s, k in zip(a, p)}


def weak_orders(n):
    """every ordering with ties of n elements, as rank tuples"""
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            yield r


def order_eval(t, rank):
    """value of an index expression when the reduced elements are ordered by `rank`; None when not decided by the order"""
    op, a = t.op, t.args
    if op == "num":
        return t.args[0]
    if op == "X":
        return rank(t)
    if op in ("f2f", "trunc"):
        return order_eval(a[1], rank)
    if op == "ite":
        c = order_eval(a[0], rank)
        return None if c is None else order_eval(a[1] if c else a[2], rank)
    if op in ("flt", "fle", "feq", "lt", "le", "eq"):
        x, y = order_eval(a[0], rank), order_eval(a[1], rank)
        if x is None or y is None:
            return None
        return {"flt": x < y, "fle": x <= y, "feq": x == y, "lt": x < y, "le": x <= y, "eq": x == y}[op]
    if op == "not":
        c = order_eval(a[0], rank)
        return None if c is None else not c
    if op in ("and", "or"):
        cs = [order_eval(x, rank) for x in a]
        return None if None in cs else all(cs) if op == "and" else any(cs)
    if op == "poly":
        s = 0
        for m, c in as_poly(t).items():
            x = c
            for at, e in m:
                v = order_eval(at, rank)
                if v is None or isinstance(v, bool):
                    return None
                x *= v ** e
            s += x
        return s
    if op == "fn" and a[0] in ("max", "min"):
        x, y = order_eval(a[1], rank), order_eval(a[2], rank)
        return None if None in (x, y) else max(x, y) if a[0] == "max" else min(x, y)
    return None


def decide_arg(ctx, key, f, best):
    """the position of the first extremal element, for every order type of one to four elements along the dimension"""
    for nm, b in bcases():
        at = lnm(N, b)
        w = World(nm, {"x0": TS(L, N, M, b), "host": TS(vol=imul(imul(L, M), b))}, mins={"B": 2}, order=["L", "N", "M", "B"], nxs=ONE, f32len=ZERO,
                  u32={0: kern.D0}, u32len=ONE, kind="host")
        k = key + ":" + nm
        r = read(ctx, f, w)
        if r is None:
            return
        es = r.entries
        if r.notes or r.calls or len(es) != 1 or es[0].buf != "host" or es[0].guards or not kern.known_value(es[0].idx):
            ctx.undecided(k, "; ".join(r.notes[:2]) or "%d stores" % len(es))
            continue
        e = es[0]
        o = at(ZERO, ONE)
        se = Entry("host", ds(D(L), D(M), D(b)), o, "set", ZERO)
        ok, why = kern.match(w, Entry(e.buf, e.digits, e.idx, "set", ZERO), se)
        if ok is None:
            ctx.undecided(k, why)
            continue
        if not ok:
            ctx.violation(k, "%s: %s" % (nm, why), ctx.where(f))
            continue
        g = [g for g in groupings(e, se) if w.simp(subst(e.idx, g)) is o][0]
        val = w.simp(subst(e.val, g))
        bad = und = None
        for n in (1, 2, 3, 4):
            v = r.concrete(w.simp(subst(val, {N: num(n)})))
            base = subst(at(ZERO, N), {N: num(n)})

            def rank(x, order):
                def pick_arm(u):
                    if u.op != "ite":
                        return None
                    c = order_eval(u.args[0], lambda y: rank(y, order))
                    return None if c is None else u.args[1] if c else u.args[2]
                i = x.args[1]
                if contains(i, lambda u: u.op == "ite"):
                    i = rewrite(i, pick_arm)
                p = isub(i, base)
                if p is ZERO:
                    return order[0]
                q = kern.mono_div(as_poly(p), L)
                q = from_poly(q) if q is not None else None
                if q is None or not is_num(q) or q.args[0].denominator != 1 or not 0 <= q.args[0] < n:
                    return None
                return order[int(q.args[0])]
            for order in weak_orders(n):
                got = order_eval(v, lambda x: rank(x, order))
                want = order.index(best(order))
                if got is None:
                    out = [x for x in subterms(v) if x.op == "X" and rank(x, order) is None and not contains(x.args[1], lambda u: u.op == "ite")]
                    if out and not contains(v, lambda x: x.op in ("fold", "load", "opq")):
                        bad = "for %d elements along the dimension it reads %s" % (n, show(out[0])[:200])
                    else:
                        und = "value not decided by the order of the elements: %s" % show(v)[:150]
                elif got != want:
                    bad = "for elements ordered %s along the dimension it returns %s, documented %s" % (list(order), got, want)
                if bad or und:
                    break
            if bad or und:
                break
        if bad:
            ctx.violation(k, "%s: %s" % (nm, bad), ctx.where(f))
        elif und:
            ctx.undecided(k, und)
        else:
            ctx.ok(k)


def sort_order(r, buf, call):
    """does the comparator (or key function) put the elements into ascending order of their values?  True / False + example / None"""
    fn = [x for x in call[0].args[1:] if x.op == "sortfn"]
    if not fn:
        return None, "no comparator"
    t = r.term(fn[0].args[0], {})
    keyed = call[0].name.endswith("key")
    A, B = mk("sym", "SORT0"), mk("sym", "SORT1")

    class Unknown(Exception):
        pass

    def ev(t, v, exact):
        op, a = t.op, t.args
        if op == "num":
            return a[0]
        if op == "X":
            if a[0] == buf and a[1] in (A, B):
                return v[0] if a[1] is A else v[1]
            raise Unknown(show(t)[:80])
        if t is A or t is B:
            return v[2 + (t is B)]
        if op == "fn" and a[0] == "total_cmp":
            x, y = ev(a[1], v, exact), ev(a[2], v, exact)
            return (x > y) - (x < y)
        if op in ("field", "downcast", "as"):
            return ev(a[0], v, exact)
        if op == "agg" and a[0][0] == "adt" and a[0][1].endswith("Ordering"):
            return {"Less": -1, "Equal": 0, "Greater": 1}[a[0][3]]
        if op == "agg" and a[0][0] == "adt" and a[0][1].endswith(("Option", "Reverse")) and len(a) == 2:
            x = ev(a[1], v, exact)
            return -x if a[0][1].endswith("Reverse") else x
        if op == "call" and re.search(r"::(partial_cmp|total_cmp|cmp)$", a[0]):
            x, y = ev(a[1], v, exact), ev(a[2], v, exact)
            return (x > y) - (x < y)
        if op == "call" and a[0].endswith("Ordering::reverse"):
            return -ev(a[1], v, exact)
        if op == "call" and re.search(r"Ordering::then$", a[0]):
            return ev(a[1], v, exact) or ev(a[2], v, exact)
        if op == "discr" and a[0].op == "call" and a[0].args[0].endswith("partial_cmp"):
            return 1
        if op == "ite":
            return ev(a[1] if ev(a[0], v, exact) else a[2], v, exact)
        if op in ("flt", "fle", "feq", "lt", "le", "eq"):
            x, y = ev(a[0], v, exact), ev(a[1], v, exact)
            return {"flt": x < y, "fle": x <= y, "feq": x == y, "lt": x < y, "le": x <= y, "eq": x == y}[op]
        if op == "not":
            return not ev(a[0], v, exact)
        if op in ("and", "or"):
            xs = [ev(x, v, exact) for x in a]
            return all(xs) if op == "and" else any(xs)
        if op == "f2f":
            return ev(a[-1], v, exact)
        if not exact:
            raise Unknown(op)
        if op in ("f2i", "ftoi", "fptosi", "trunc"):
            return int(ev(a[-1], v, exact))
        if op == "fn" and a[0] == "abs":
            return abs(ev(a[1], v, exact))
        if op == "fneg":
            return -ev(a[0], v, exact)
        if op in ("fadd", "fsub", "fmul"):
            x, y = ev(a[0], v, exact), ev(a[1], v, exact)
            return x + y if op == "fadd" else x - y if op == "fsub" else x * y
        if op == "poly":
            s = 0
            for m, c in as_poly(t).items():
                x = c
                for at, e in m:
                    x *= ev(at, v, exact) ** e
                s += x
            return s
        raise Unknown(op)

    def result(v, exact):
        if not keyed:
            return ev(t, v, exact)
        x, y = ev(t, (v[0], v[0], v[2], v[2]), exact), ev(t, (v[1], v[1], v[3], v[3]), exact)
        return (x > y) - (x < y)
    F = Fraction
    pairs = [(F(1, 4), F(3, 4)), (F(3, 4), F(1, 4)), (F(-3), F(2)), (F(2), F(-3)), (F(-1, 2), F(1, 2)), (F(1, 2), F(-1, 2)), (F(-5), F(-4)), (F(-4), F(-5)), (F(3), F(7)), (F(7), F(3))]
    pairs = [p + q for p in pairs for q in ((0, 1), (1, 0))]
    for v in pairs:
        try:
            got = result(v, True)
        except Unknown as e:
            return None, "comparator not evaluated: " + str(e)
        if got != (v[0] > v[1]) - (v[0] < v[1]):
            return False, "elements %s and %s are ordered %s" % (float(v[0]), float(v[1]), {-1: "Less", 0: "Equal", 1: "Greater"}.get(int(got), got))
    try:
        result(pairs[0], False)
    except Unknown as e:
        return None, "the comparator is not decided by the order of the elements: " + str(e)
    return True, ""


def decide_argsort(ctx, key, f):
    """a permuted table of positions, sorted in runs of the dimension's length, written back through the same permutation"""
    for nm, b in bcases():
        at = lnm(N, b)
        tot = imul(imul(imul(L, N), M), b)
        w = World(nm, {"x0": TS(L, N, M, b), "host": TS(vol=tot)}, mins={"B": 2}, order=["L", "N", "M", "B"], nxs=ONE, f32len=ZERO,
                  u32={0: kern.D0}, u32len=ONE, kind="host")
        k = key + ":" + nm
        r = read(ctx, f, w)
        if r is None:
            return
        tab = [e for e in r.entries if e.buf is None and e.base.op == "alloc"]
        out = [e for e in r.entries if e.buf == "host"]
        if r.notes or len(tab) != 1 or len(out) != 1 or len(r.entries) != 2 or tab[0].guards or out[0].guards:
            ctx.undecided(k, "; ".join(r.notes[:2]) or "%d stores" % len(r.entries))
            continue
        t, h = tab[0], out[0]
        lds = [x for x in subterms(h.val) if x.op == "load" and x.args[0].op == "alloc"]
        sorts = [c for c in r.calls if c[0].name.startswith("[T]::sort")]
        if not sorts and len(lds) == 1 and h.val is lds[0] and not any(contains(x, lambda u: u is tab[0].base) for c in r.calls for x in c[1]):
            ctx.violation(k, nm + ": the table of positions is never sorted", ctx.where(f))
            continue
        if len(lds) != 1 or h.val is not lds[0] or len(sorts) != 1 or not all(kern.known_value(x) for x in (t.idx, t.val, h.idx, lds[0].args[1])):
            ctx.undecided(k, "table not in the known form")
            continue
        flat = at(D(N), N)
        dd = ds(D(L), D(N), D(M), D(b))
        a = [g for g in groupings(t, Entry("t", dd, flat, "set", ZERO)) if w.simp(subst(t.val, g)) is flat]
        c = [g for g in groupings(h, Entry("t", dd, flat, "set", ZERO)) if w.simp(subst(h.idx, g)) is flat]
        if not a or not c or len(t.digits) != len(dd):
            same = sorted(show(d.args[1]) for d in t.digits) == sorted(show(d.args[1]) for d in dd)
            if not same:
                ctx.undecided(k, "table filled over " + kern.dl(t))
            else:
                ctx.violation(k, "%s: positions %s / results %s do not enumerate the elements of the operand" % (nm, show(t.val)[:150], show(h.idx)[:150]), ctx.where(f))
            continue
        ti, hi = w.simp(subst(t.idx, a[0])), w.simp(subst(lds[0].args[1], c[0]))
        step = from_poly({tuple(x for x in m if x[0] is not D(N)): q for m, q in as_poly(ti).items() if any(x[0] is D(N) for x in m)})
        start = isub(ti, imul(step, D(N)))
        if ti is not hi:
            ctx.violation(k, "%s: result %s is read from table slot %s, which holds element %s" % (nm, show(flat)[:100], show(hi)[:150], show(ti)[:150]), ctx.where(f))
        elif step is not ONE or any(kern.mono_div({m: q}, N) is None for m, q in as_poly(start).items()):
            ctx.violation(k, "%s: the elements along the dimension are not contiguous in the sorted table: %s" % (nm, show(ti)[:200]), ctx.where(f))
        else:
            up, why = sort_order(r, "x0", sorts[0])
            if up is False:
                ctx.violation(k, "%s: the positions are not sorted by ascending value: %s" % (nm, why), ctx.where(f))
                continue
            sl = sorts[0][1][0]
            if up is None:
                ctx.undecided(k, why)
            elif sl.op == "subslice" and len(sl.args) == 3 and all(kern.known_value(x) for x in sl.args[1:]):
                dg = sorts[0][2]
                lo, ln = sl.args[1], sl.args[2]
                ok = ln is N and full_run(w, lo, dg, N, tot) or isub(ln, lo) is N and full_run(w, lo, dg, N, tot)
                if ok:
                    ctx.ok(k)
                else:
                    ctx.undecided(k, "sorted runs %s + %s" % (show(lo)[:100], show(ln)[:100]))
            else:
                ctx.undecided(k, "sorted range " + show(sl)[:100])


def full_run(w, lo, digits, n, tot):
    """lo enumerates the multiples of n below tot"""
    x = dig("run", n)
    return covers(w, iadd(lo, x), [x] + list(digits), tot)


ARGS = {"argmax_impl": lambda f: (lambda ctx, key: decide_arg(ctx, key, f, max)),
        "argmin_impl": lambda f: (lambda ctx, key: decide_arg(ctx, key, f, min)),
        "argsort_impl": lambda f: (lambda ctx, key: decide_argsort(ctx, key, f))}


# ---------------------------------------------------------------- driver
def kernel_fn(ctx, table, ty):
    return ctx.fn("%s.%s::call" % (ty, TRAIT[table]))


def read(ctx, f, w):
    s = ctx.summary(f, policies.KernelLayer)
    if s is None:
        return None
    r = kern.Reader(w, s.effects)
    for bits, v in r.narrowed()[:1]:
        ctx.violation("narrow:" + f.name, "%s: %s is cut to %d bits" % (w.name, show(v)[:120], bits), ctx.where(f))
    return r


def with_forward(w, t):
    """ys[0] at an element is the forward formula at that element"""
    def g(x):
        if x.op == "X" and x.args[0] == "y0":
            v = None
            for idx, val in w.fwd.items():
                if idx is x.args[1]:
                    v = val
            return v
        return None
    return rewrite(t, g)


def prepare(w, r):
    """classified, tile-merged entries"""
    out = []
    for e in r.entries:
        e = r.classify(e)
        for x in r.lift_sums(e):
            out.append(kern.merge_tiles(w, resplit(w, r, kern.merge_tiles(w, x))))
    return [resplit(w, r, e) for e in out]


def resplit(w, r, e):
    """split merged counters whose range became a product"""
    m, ds_ = {}, []
    for d in e.digits:
        v, dd = w.split(None, d.args[1], r.uniq)
        if len(dd) == 1 and dd[0].args[1] is d.args[1]:
            ds_.append(d)
        else:
            m[d] = v
            ds_ += dd
    if not m:
        return e
    return Entry(e.buf, ds_, w.simp(subst(e.idx, m)), e.mode, w.simp(subst(e.val, m)), [w.simp(subst(g, m)) for g in e.guards], e.base)


def full_fill(w, e, size):
    """does the entry assign every element below size exactly once, linearly?"""
    if e.guards or e.mode != "set":
        return False
    return covers(w, e.idx, e.digits, size)


def covers(w, idx, digits, size):
    """idx is a bijection of the digit box onto [0, size)"""
    p = as_poly(idx)
    if any(a.op not in ("dig", "sym") for m in p for a, _ in m):
        return False
    left = list(digits)
    s = ONE
    while left:
        for d in left:
            c = from_poly({tuple(x for x in m if x[0] is not d): k for m, k in p.items() if any(a is d for a, _ in m)})
            if c is s:
                s = imul(s, d.args[1])
                left.remove(d)
                break
        else:
            return False
    rest = {m: c for m, c in p.items() if not any(a.op == "dig" for a, _ in m)}
    return not rest and s is size


def literal(c):
    """polynomial p with c <=> p >= 0 for an integer comparison, else None"""
    if c.op == "not":
        p = literal(c.args[0])
        return None if p is None else isub(num(-1), p)
    if c.op == "le":
        return isub(c.args[1], c.args[0])
    if c.op == "lt":
        return isub(isub(c.args[1], c.args[0]), ONE)
    return None


def split_cmp(c):
    """an integer comparison with every term on the side where it is positive"""
    if c.op not in ("lt", "le"):
        return c
    d = as_poly(isub(c.args[1], c.args[0]))
    a, b = ZERO, ZERO
    for m, k in d.items():
        t = imul(num(abs(k)), from_poly({m: Fraction(1)}))
        if k > 0:
            b = iadd(b, t)
        else:
            a = iadd(a, t)
    return (lt if c.op == "lt" else le)(a, b)


def slim(w, c):
    """a condition without the comparisons that the others imply"""
    if c.op == "not":
        return bnot(slim(w, c.args[0]))
    if c.op == "or":
        return bnot(slim(w, band(*[bnot(x) for x in c.args])))
    if c.op == "and":
        xs = list(c.args)
        ps = [literal(x) for x in xs]
        i = 0
        while i < len(xs):
            if ps[i] is not None and (w.nonneg(ps[i]) or any(
                    j != i and ps[j] is not None and ps[j] is not ps[i] and w.nonneg(isub(ps[i], ps[j])) for j in range(len(xs)))):
                del xs[i], ps[i]
                continue
            i += 1
        return band(*[split_cmp(x) for x in xs])
    return split_cmp(c)


def tidy(w, t):
    def go(u):
        if u.op == "ite" and u.args[0].op in ("and", "or", "not", "lt", "le"):
            c = slim(w, u.args[0])
            if c is not u.args[0]:
                return ite(c, rewrite(u.args[1], go), rewrite(u.args[2], go))
        return None
    return rewrite(t, go)


def tidied(w, es):
    out = []
    for e in es:
        e.val = tidy(w, e.val)
        out.append(e)
    return out


def compare(ctx, key, f, case, entries, notes):
    w = case.w
    entries = tidied(w, entries)
    case.entries = tidied(w, case.entries)
    ctx_where = ctx.where(f)
    out = case.entries[0].buf if case.entries else None
    mine = [e for e in entries if e.buf == out]
    other = [e for e in entries if e.buf != out]
    for e in other:
        if e.buf is None and e.base is not None and contains(e.base, lambda x: x.op == "alloc"):
            return ctx.undecided(key, "uses a local table")
        if e.buf is None:
            return ctx.undecided(key, "store to an unknown buffer %s" % show(e.base)[:100])
    for e in mine:
        for t in (e.idx, e.val) + e.guards:
            if not kern.known_value(t):
                return ctx.undecided(key, "value not in normal form: %s" % show(t)[:200])
    y = w.ts.get(out)
    size = imul(y.vol, y.batch) if y else None
    mode = case.mode
    if mode in ("zacc", "fillset"):
        fills = [e for e in mine if full_fill(w, e, size) and e.val.op == "num"]
        if not fills and mode == "zacc" and len(mine) > 1 and full_fill(w, mine[0], size) and all(e.mode == "acc" for e in mine[1:]):
            # the first term is assigned, the others are accumulated
            e = mine[0]
            mine = [Entry(e.buf, e.digits, e.idx, "acc", e.val, e.guards, e.base)] + mine[1:]
            notes["lifted"] = True
        if fills:
            want = ZERO
            ff = fills[0]
            if mode == "zacc" and any(e.mode == "acc" for e in mine[:mine.index(ff)]):
                return ctx.violation(key, "%s: the output is cleared after it was accumulated into" % w.name, ctx_where)
            if fills[0].val is not want:
                return ctx.violation(key, "%s: the output starts from %s instead of zero" % (w.name, show(fills[0].val)), ctx_where)
            mine = [e for e in mine if e is not fills[0]]
        elif mode == "zacc" and any(e.mode == "acc" for e in mine if not getattr(e, "summed", False)):
            if not notes.get("lifted"):
                return ctx.violation(key, "%s: the output is accumulated into without being cleared first over its %s elements" % (w.name, show(size)), ctx_where)
        elif mode == "fillset":
            return ctx.undecided(key, "the fill is not recognised")
    need = {"set": "set", "zacc": "acc", "fillset": "set", "acc": "acc", "upd": "upd"}[mode]
    bad = [e for e in mine if e.mode != need]
    if bad:
        if mode == "acc" and bad[0].mode == "set":
            return ctx.violation(key, "%s: %s is overwritten with %s instead of accumulated into" % (w.name, out, kern.showv(bad[0].val)), ctx_where)
        if mode == "set" and bad[0].mode == "acc":
            return ctx.violation(key, "%s: the result reads the previous content of the output buffer: += %s" % (w.name, kern.showv(bad[0].val)), ctx_where)
        if mode == "zacc" and bad[0].mode == "set":
            return ctx.violation(key, "%s: element %s is overwritten by %s instead of summed" % (w.name, show(bad[0].idx), kern.showv(bad[0].val)), ctx_where)
        return ctx.undecided(key, "mixed store modes")
    mine = merge_peeled(w, merge_guards(mine))
    if mode in ("acc", "zacc"):
        mine = [e for e in mine if e.val is not ZERO]
    specs = list(case.entries)
    if w.kind == "bw":
        for e in mine:
            pass
    if not mine and specs:
        return ctx.violation(key, "%s: nothing is stored to the output" % w.name, ctx_where)
    if len(mine) != len(specs):
        a, b = ZERO, ZERO
        for e in mine:
            a = iadd(a, kern.count(e))
        for e in specs:
            b = iadd(b, kern.count(e))
        if a is not b and not any(e.guards for e in mine) and mode in ("set", "zacc", "acc") and (
                w.negative_somewhere(isub(a, b)) or mode != "set" and w.negative_somewhere(isub(b, a))):
            return ctx.violation(key, "%s: %s elements are computed, documented %s" % (w.name, show(a), show(b)), ctx_where)
        miss = w.gap(mine, specs, False)
        if miss:
            return ctx.violation(key, "%s: %s" % (w.name, miss), ctx_where)
        return ctx.undecided(key, "%d store sites for %d documented maps" % (len(mine), len(specs)))
    res, und = None, None
    for perm in itertools.permutations(mine):
        fails = []
        for ke, se in zip(perm, specs):
            if w.kind == "bw":
                ok, why = match_bw(w, ke, se)
            else:
                ok, why = kern.match(w, ke, se)
            if ok is not True:
                fails.append((ok, why))
        if not fails:
            for ke, se in zip(perm, specs):
                undefined(ctx, key, w, ke, se, ctx_where)
            ctx.ok(key)
            return
        if res is None:
            res = fails
    ok, why = res[0]
    if any(e.guards for e in mine) and not any(e.guards for e in specs):
        # a condition the documented map does not have: look for extents at which it leaves an element out
        same = all(x is None and y == "guards differ" for x, y in res)
        miss = w.gap(mine, specs, same and len(mine) == 1 and mode in ("acc", "zacc"))
        if miss:
            return ctx.violation(key, "%s: %s" % (w.name, miss), ctx_where)
    if ok is None:
        return ctx.undecided(key, why)
    # a different but equal iteration space cannot be excluded when extents are not products of symbols
    for e in mine:
        if any(d.args[1].op not in ("sym",) for d in e.digits):
            t, s = ZERO, ZERO
            for e2 in mine:
                t = iadd(t, kern.count(e2))
            for e2 in specs:
                s = iadd(s, kern.count(e2))
            if all(kern.as_poly(d.args[1]) and all(a.op == "sym" for m in as_poly(d.args[1]) for a, _ in m) for e2 in mine for d in e2.digits) \
                    and w.negative_somewhere(isub(t, s)):
                return ctx.violation(key, "%s: %s elements are computed, documented %s" % (w.name, show(t), show(s)), ctx_where)
            return ctx.undecided(key, "range not a product of extents: " + why)
        if e.guards:
            return ctx.undecided(key, "guarded store: " + why)
    ctx.violation(key, "%s: %s" % (w.name, why), ctx_where)


def undefined(ctx, key, w, ke, se, where):
    """formulas equal as functions: the kernel's must be defined wherever the documented one is"""
    conv = kern.KConv({}, kern.leaf)
    old = alg.Conv
    alg.Conv = kern.KConv
    try:
        forms = {domain.erase(kern.int_canon(v)) for v in w.fwd.values()} if w.kind == "bw" else set()

        def results(u):
            return next(iter(forms)) if u.op == "X" and u.args[0] == "y0" and len(forms) == 1 else None
        ke_val, se_val = [rewrite(domain.erase(kern.int_canon(v)), results) for v in (ke.val, se.val)]
        if ke.guards and any(contains(g, lambda u: u.op in ("flt", "fle", "feq")) for g in ke.guards):
            return
        more = domain.exceeds(domain.hazards(ke_val, conv), domain.hazards(se_val, conv))
    except (alg.Unknown, alg.NeedCond, domain.Unclear):
        return
    finally:
        alg.Conv = old
    if more:
        kind, f = more[0]
        ctx.violation(key + ":defined", "%s: %s is undefined where %s %s, the documented value is not" % (
            w.name, kern.showv(ke.val), show(f)[:100], "is zero" if kind == "nz" else "is not positive"), where)
    else:
        ctx.ok(key + ":defined")


def match_bw(w, ke, se):
    """rename, then replace reads of the forward result by the forward formula"""
    ok, why = kern.match(w, ke, se)
    if ok is True or not any(x.op == "X" and x.args[0] == "y0" for x in subterms(ke.val)):
        return ok, why
    # try each renaming with y0 substituted
    old = kern.values_equal

    def ve(a, b, inf=True):
        return old(with_forward(w, a), b)
    kern.values_equal = ve
    try:
        return kern.match(w, ke, se)
    finally:
        kern.values_equal = old


def merge_peeled(w, es):
    """S(0); for k in 0..E-1 { S(k+1) }  ==  for k in 0..E { S(k) }, and the same for a last iteration split off"""
    es = list(es)
    ch = len(es) > 1
    while ch:
        ch = False
        for a, b in itertools.permutations(es, 2):
            if a.mode != b.mode or a.buf != b.buf or a.guards or b.guards or len(b.digits) != len(a.digits) + 1:
                continue
            for d in b.digits:
                rest = [x for x in b.digits if x is not d]
                if any(kern.has(x.args[1], d) for x in rest):
                    continue
                E = iadd(d.args[1], ONE)
                for at, new in ((num(-1), isub(dig("m" + d.args[0], E), ONE)), (d.args[1], dig("m" + d.args[0], E))):
                    one = Entry(b.buf, rest, w.simp(subst(b.idx, {d: at})), b.mode, w.simp(subst(b.val, {d: at})), (), b.base)
                    if kern.match(w, a, one)[0] is True:
                        d2 = dig("m" + d.args[0], E)
                        m = Entry(b.buf, rest + [d2], w.simp(subst(b.idx, {d: new})), b.mode, w.simp(subst(b.val, {d: new})), (), b.base)
                        es = [e for e in es if e is not a and e is not b] + [m]
                        ch = True
                        break
                if ch:
                    break
            if ch:
                break
    return es


def merge_guards(es):
    """if c { o[i] = a } else { o[i] = b }  ==  o[i] = c ? a : b ; guarded accumulation adds zero otherwise"""
    es = list(es)
    ch = True
    while ch:
        ch = False
        for a in es:
            for b in es:
                if a is b or not a.guards or len(a.guards) != len(b.guards):
                    continue
                if a.idx is b.idx and a.digits == b.digits and a.mode == b.mode == "set" and a.guards[:-1] == b.guards[:-1] and a.guards[-1] is bnot(b.guards[-1]):
                    es = [e for e in es if e is not a and e is not b] + [
                        Entry(a.buf, a.digits, a.idx, "set", ite(a.guards[-1], a.val, b.val), a.guards[:-1], a.base)]
                    ch = True
                    break
            if ch:
                break
    out = []
    for e in es:
        if e.guards and e.mode == "acc":
            e = Entry(e.buf, e.digits, e.idx, "acc", ite(band(*e.guards), e.val, ZERO), (), e.base)
        out.append(e)
    return out


def last_write(w, e):
    """an assigning store repeated over counters that do not move the element"""
    if e.mode != "set" or e.guards or not kern.known_value(e.idx):
        return e, None
    out = []
    if any(p in set(kern.atoms_of(e.idx)) for p in w.prefix_map.values()):
        return e, None
    for d in e.digits:
        if kern.has(e.idx, d) or any(kern.has(x.args[1], d) for x in e.digits):
            out.append(d)
        elif kern.has(e.val, d):
            if not kern.known_value(e.val):
                return e, None
            return e, "element %s is overwritten for every %s < %s; only the last value %s remains" % (show(e.idx), show(d), show(d.args[1]), kern.showv(e.val))
    if len(out) != len(e.digits):
        e = Entry(e.buf, out, e.idx, e.mode, e.val, e.guards, e.base)
    return e, None


def decide(ctx, key, f, cases):
    for case in cases():
        k = key + ":" + case.w.name
        r = read(ctx, f, case.w)
        if r is None:
            continue
        if r.notes:
            ctx.undecided(k, "; ".join(r.notes[:3]))
            continue
        try:
            notes = {}
            ents = []
            for c, args, digits, guards in r.calls:
                if c.name == "Tensor::reset" and args[0] is not None:
                    nm = case.w.tensor(c.args[0])
                    y = case.w.ts.get(nm)
                    if y is not None and args[1].op == "num":
                        d = dig("fill", imul(y.vol, y.batch))
                        ents.append(Entry(nm, [d], d, "set", args[1], guards))
                        continue
                if c.name == "Tensor.BasicFunctions::to_vec":
                    continue
                raise kern.Opaque("call " + c.name)
            lifted = False
            for e in r.entries:
                e = r.classify(e)
                e = kern.merge_tiles(case.w, e)
                e = resplit(case.w, r, e)
                why = kern.tile_fault(case.w, e)
                if why:
                    return ctx.violation(k, "%s: %s" % (case.w.name, why), ctx.where(f))
                e, why = last_write(case.w, e)
                if why:
                    return ctx.violation(k, "%s: %s" % (case.w.name, why), ctx.where(f))
                if case.mode in ("zacc", "acc"):
                    for x in r.lift_sums(e):
                        if e.mode == "set" and x.mode == "acc":
                            lifted = True
                        x = resplit(case.w, r, kern.merge_tiles(case.w, x))
                        why = kern.tile_fault(case.w, x)
                        if why:
                            return ctx.violation(k, "%s: %s" % (case.w.name, why), ctx.where(f))
                        ents.append(x)
                else:
                    ents.append(e)
            notes["lifted"] = lifted
            compare(ctx, k, f, case, ents, notes)
        except kern.Opaque as e:
            ctx.undecided(k, str(e))
        except alg.Unknown as e:
            ctx.undecided(k, "value outside the algebra: %s" % e)


def each_kernel(ctx, table):
    ok, reg = kernel_registry(ctx)
    for (t, n), tys in sorted(reg.items()):
        if t in table and tys and tys[0]:
            f = kernel_fn(ctx, t, tys[0])
            yield t, n, f


def unbounded_arguments(ctx):
    """{kernel name: positions in its integer table whose value the device-level operation does not bound}"""
    import c_device
    out = {}
    for n, f, s, sp in c_device.each(ctx):
        d = next((e for e in s.effects if c_device.is_dispatch(e)), None)
        if d is None or strval(d.args[1]) is None:
            continue
        tab = elems(d.args[5 if d.name.endswith("bw_impl") else 3])
        bounded = set()
        for e, p in walk(s.effects):
            if e is d:
                break
            if e.kind == "assert":
                bounded |= {u for u in subterms(e.cond) if u.op == "arg"}
            elif e.kind in ("call", "set"):
                bounded |= {u for x in (e.args if e.kind == "call" else [e.val]) for c in subterms(x) if c.op == "call" for u in subterms(c) if u.op == "arg"}
        for i, x in enumerate(tab or []):
            if x.op == "arg" and x not in bounded:
                out.setdefault(strval(d.args[1]), set()).add(i)
    return out


def wraps(ctx, key, f, free, fw):
    """32-bit sums and products with an argument of unrestricted size"""
    s = ctx.summary(f, policies.KernelLayer)
    if s is None:
        return
    raw = [mk("index", s.args[2 if fw else 4], num(i)) for i in sorted(free)]
    for r in raw:
        for (op, a, b), (ty, span) in s.arith.items():
            if not (contains(a, lambda u: u is r) or contains(b, lambda u: u is r)):
                continue
            o = b if contains(a, lambda u: u is r) else a
            if o is ZERO or op == "Mul" and o is ONE:
                continue
            tot = iadd(a, b) if op == "Add" else imul(a, b)
            guard = any(u.op in ("lt", "le") and any(is_num(isub(x, r)) for x in u.args)
                        for e, _ in walk(s.effects) for k in ("cond", "val", "idx") if isinstance(e.a.get(k), T) for u in subterms(e.a[k]))
            if guard:
                ctx.undecided(key + ":wrap", "%s of %s is bounded by a test" % (op, show(tot)[:100]))
            else:
                ctx.violation(key + ":wrap", "the %s `%s` of an unrestricted argument wraps around for large values" % (
                    "sum" if op == "Add" else "product", show(tot)[:200]), str(span))
                return
    ctx.ok(key + ":wrap")


def run_forward(ctx):
    ctx.rule = ("Each registered forward kernel is read as (iteration domain, output index, value) over symbolic extents and compared, for every "
                "combination of single and multiple batches, with the documented element map of its operation. Sums with integer arguments that the device-level operation leaves unrestricted must not be computed in 32 bits.")
    seen = set()
    free = unbounded_arguments(ctx)
    for t, n, f in each_kernel(ctx, ("fw", "fw_f32", "fw_u32")):
        spec = FW.get(n) if t == "fw" else HOST.get(n)
        seen.add(n)
        if f is None:
            ctx.violation("anchor:" + n, "no implementation found for kernel " + n)
            continue
        if n in ARGS and t == "fw_u32":
            ARGS[n](f)(ctx, n)
            continue
        if spec is None:
            continue
        decide(ctx, n, f, spec)
        if n in free:
            wraps(ctx, n, f, free[n], True)
    for n in list(ARGS) + list(FW) + list(HOST):
        if n not in seen:
            ctx.violation("anchor:" + n, "kernel %s is not registered" % n)


def run_backward(ctx):
    ctx.rule = ("Each registered backward kernel is read as accumulations over symbolic extents and compared with the symbolic transpose-derivative "
                "of the documented forward map, for every combination of single and multiple batches.")
    seen = set()
    free = unbounded_arguments(ctx)
    for t, n, f in each_kernel(ctx, ("bw",)):
        spec = BWD.get(n)
        seen.add(n)
        if f is None:
            ctx.violation("anchor:" + n, "no implementation found for kernel " + n)
            continue
        if n in ("max_bw_impl", "min_bw_impl"):
            decide_extremum(ctx, n, f)
            continue
        if spec is None:
            continue
        if n in COMPOSED and decide_composed(ctx, n, f, COMPOSED[n]):
            continue
        decide(ctx, n, f, spec)
        if n in free:
            wraps(ctx, n, f, free[n], False)
    for n in list(BWD) + ["max_bw_impl", "min_bw_impl"]:
        if n not in seen:
            ctx.violation("anchor:" + n, "kernel %s is not registered" % n)
