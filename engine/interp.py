"""Structured abstract interpretation of MIR into gated value terms + an effect tree.

For every function the result is a *summary*: the symbolic return value, the
ordered tree of effects (calls, stores, loops, assertions) and the final value
of every place reachable from the arguments.  Branches are joined at their
post-dominator with if-then-else terms; loops are summarised by solving the
recurrences of their induction variables (or kept as folds).  No path is
enumerated, no solver is involved and nothing is executed.
"""
import re, sys
from terms import *
import terms as tm
from facts import strip_ty

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class E:
    """effect"""
    __slots__ = ("kind", "a", "span")

    def __init__(self, kind, span, **a):
        self.kind, self.span, self.a = kind, span, a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "E(%s %s)" % (self.kind, self.a)


class State:
    __slots__ = ("cells", "vers")

    def __init__(self, cells=None, vers=None):
        self.cells = cells if cells is not None else {}
        self.vers = vers if vers is not None else {}

    def copy(self):
        return State(dict(self.cells), dict(self.vers))


def join(c, x, y):
    if x.op == "pt" and y.op == "pt" and x.args[0] is y.args[0]:
        return mk("pt", x.args[0], ite(c, x.args[1], y.args[1]))
    return ite(c, x, y)


def merge_states(c, a, b):
    if a is b:
        return a
    cells = {}
    for r in a.cells:
        if r in b.cells:
            x, y = a.cells[r], b.cells[r]
            cells[r] = x if x is y else join(c, x, y)
        elif isinstance(r, T):
            cells[r] = ite(c, a.cells[r], r)
        else:
            cells[r] = a.cells[r]
    for r in b.cells:
        if r not in a.cells:
            cells[r] = ite(c, r, b.cells[r]) if isinstance(r, T) else b.cells[r]
    vers = {}
    for k in set(a.vers) | set(b.vers):
        x, y = a.vers.get(k, 0), b.vers.get(k, 0)
        vers[k] = x if x == y else ("m", x, y)
    return State(cells, vers)


def merge_out(o1, o2):
    """merge outcome dicts {stop: (cond, state)} of disjoint path conditions"""
    r = dict(o1)
    for s, (c2, s2) in o2.items():
        if s in r:
            c1, s1 = r[s]
            if c1 is FALSE:
                r[s] = (c2, s2)
            elif c2 is FALSE:
                pass
            else:
                r[s] = (bor(c1, c2), merge_states(c1, s1, s2))
        else:
            r[s] = (c2, s2)
    return r


# ------------------------------------------------------------------ CFG facts
class Cfg:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[3]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            out = []
            for x in s:
                if x not in out:
                    out.append(x)
            self.succ[i] = out
        self.pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                self.pred[s].append(i)
        # reachable from entry
        reach, st = set(), [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(self.succ[x])
        self.reach = reach
        # live: can reach a return
        live = set()
        st = [i for i in reach if fn.blocks[i]["t"][0] == "return"]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(p for p in self.pred[x] if p in reach)
        # an infinite loop is live too (nothing in this code base has one)
        self.live = live
        self._dom()
        self._loops()
        self._ipdom = {}

    def _dom(self):
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen and y in self.live:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()

        if 0 not in self.live:
            self.idom = {}
            self.rpo = []
            return
        dfs(0)
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == 0:
                    continue
                new = None
                for p in self.pred[b]:
                    if p in idom and p in pos:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.live and self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in self.live)

    def ipdom(self, region, b):
        """immediate post-dominator of b in a region; region None = whole fn,
        or a loop header (region = its body, back edge and exits lead to END)"""
        tab = self._ipdom.get(region)
        if tab is None:
            tab = self._calc_ipdom(region)
            self._ipdom[region] = tab
        return tab.get(b)

    def _calc_ipdom(self, region):
        END = -1
        if region is None:
            nodes = set(self.live)
            succ = {n: [s for s in self.succ[n] if s in nodes] or [END] for n in nodes}
        else:
            nodes = set(self.loops[region])
            succ = {}
            for n in nodes:
                ss = []
                for s in self.succ[n]:
                    if s not in self.live:
                        continue
                    ss.append(END if (s == region or s not in nodes) else s)
                succ[n] = list(dict.fromkeys(ss)) or [END]
        pred = {n: [] for n in nodes}
        pred[END] = []
        for n, ss in succ.items():
            for s in ss:
                pred[s].append(n)
        order, seen = [], {END}
        st = [(END, iter(pred[END]))]
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(pred[y])))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        ip = {END: END}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == END:
                    continue
                new = None
                for s in succ[b]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = ip[x]
                                while pos[y] > pos[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    ch = True
        return ip


RET = "RET"


class Frame:
    __slots__ = ("fn", "id", "cfg", "depth", "parent")

    def __init__(self, fn, fid, depth):
        self.fn, self.id, self.depth = fn, fid, depth
        if fn.cfg is None:
            fn.cfg = Cfg(fn)
        self.cfg = fn.cfg

    def cell(self, l):
        return ("c", self.id, l)

    def ty(self, i):
        return self.fn.crate.types[i]


class Summary:
    def __init__(self):
        self.ret = None
        self.effects = []
        self.state = None
        self.args = []
        self.notes = []


class Policy:
    """which callees stay opaque primitives, and which of those are pure"""
    max_depth = 14
    max_steps = None    # basic blocks followed before giving up
    unroll = False      # loops with a decidable trip count are followed item by item

    def decide(self, c):
        """a condition under the policy's assumptions on symbols (TRUE, FALSE, or itself)"""
        return c

    def opaque(self, it, callee):
        return False

    def pure(self, it, callee):
        return False

    def model(self, it, callee):
        return None


FLOAT_FNS = {"abs", "sin", "cos", "tan", "exp", "ln", "tanh", "sqrt", "powf", "powi", "mul_add",
             "exp_m1", "ln_1p", "cosh", "sinh", "max", "min", "signum", "recip", "floor", "ceil",
             "exp2", "log", "log2", "log10", "cbrt", "hypot", "powi", "is_nan", "is_finite",
             "clamp", "copysign", "round", "trunc", "fract", "sin_cos", "atan", "asin", "acos", "to_bits"}


class Interp:
    def __init__(self, prog, policy):
        self.prog = prog
        self.pol = policy
        self.notes = []
        self.steps = 0
        self.occ = {}
        self.loopinfo = {}
        self.fcount = 0
        self.lcount = 0
        self._frame_ids = {}
        self.undecided = []
        self.arith = {}     # (op, a, b) -> (type, span) of unchecked 32-bit arithmetic

    # -------------------------------------------------------------- naming
    def callee_name(self, fr, c):
        """canonical name of a callee: Self.Trait<Args>::method or Type::fn"""
        types = fr.fn.crate.types
        if "trait" in c:
            tr = c["trait"].split("::")[-1]
            st = "?"
            if "self" in c:
                st = strip_ty(types[c["self"]]["s"]).replace("<>", "")
            ta = [strip_ty(types[x]["s"]).replace("<>", "") for x in c.get("targs", [])[1:]]
            # only trait parameters matter, keep those of operator-like traits
            if tr in ("Add", "Sub", "Mul", "Div", "AddAssign", "SubAssign", "MulAssign", "DivAssign",
                      "From", "Into", "Index", "IndexMut", "PartialEq") and ta:
                return "%s.%s<%s>::%s" % (st, tr, ta[0], c["method"])
            return "%s.%s::%s" % (st, tr, c["method"])
        p = c["path"]
        p = re.sub(r"::<[^<>]*(?:<[^<>]*>[^<>]*)*>", "", p)
        if p.startswith("<"):
            m = re.match(r"<(.*?)(?: as (.*))?>::(\w+)$", p)
            if m:
                return "%s::%s" % (strip_ty(m.group(1)).replace("<>", ""), m.group(3))
        m = re.match(r".*<impl (.*)>::(\w+)$", c["path"])
        if m:
            return "%s::%s" % (strip_ty(m.group(1)).replace("<>", ""), m.group(2))
        segs = p.split("::")
        if len(segs) >= 2:
            return "::".join(segs[-2:])
        return p

    # -------------------------------------------------------------- places
    def norm_ref(self, root, path):
        if not path and isinstance(root, T):
            return root
        return mk("ref", root, path)

    def deref_to(self, v):
        """alternatives [(cond, root, path)] a pointer-like value designates"""
        if v.op == "ref":
            return [(TRUE, v.args[0], v.args[1])]
        if v.op == "pt":
            return [(TRUE, v.args[0], (("i", v.args[1]),))]
        if v.op == "ite":
            a, b = self.deref_to(v.args[1]), self.deref_to(v.args[2])
            c = v.args[0]
            return [(band(c, x), r, p) for x, r, p in a] + [(band(bnot(c), x), r, p) for x, r, p in b]
        return [(TRUE, v, ())]

    def resolve(self, fr, st, pl):
        """place -> list of (cond, root, path)"""
        cur = [(TRUE, fr.cell(pl["l"]), ())]
        for e in pl["p"]:
            k = e[0]
            if k == "*":
                nxt = []
                for c, r, p in cur:
                    v = self.read_rp(st, r, p)
                    if v.op in ("agg", "with", "alloc", "seq", "lamval", "repeat", "upd", "push"):
                        nxt.append((c, r, p))  # transparent owner (Box, Rc, guard)
                        continue
                    for c2, r2, p2 in self.deref_to(v):
                        nxt.append((band(c, c2), r2, p2))
                cur = [x for x in nxt if x[0] is not FALSE]
            else:
                if k == ".":
                    el = (".", e[1], e[2])
                elif k == "i":
                    el = ("i", self.read_rp(st, fr.cell(e[1]), ()))
                elif k == "ci":
                    el = ("i", num(e[1])) if not e[2] else ("ie", num(e[1]))
                elif k == "sub":
                    el = ("sub", num(e[1]), num(e[2]), e[3])
                elif k == "v":
                    el = ("v", e[1], e[2])
                else:
                    raise Undecided("place projection")
                cur = [(c, r, p + (el,)) for c, r, p in cur]
        return cur

    def read_root(self, st, root):
        v = st.cells.get(root)
        if v is None:
            if isinstance(root, T):
                return root
            return mk("uninit", root)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == ".":
            # deref-through for owner values that hold a pointer
            if v.op == "ref":
                v = self.read_rp(st, v.args[0], v.args[1])
            return field(v, e[1], e[2])
        if k == "i":
            return self.elem(st, v, e[1])
        if k == "ie":
            return self.elem(st, v, isub(length(v), e[1]))
        if k == "v":
            return downcast(v, e[1], e[2])
        if k == "sub":
            n = length(v)
            hi = isub(n, e[2]) if e[3] else e[2]
            return mk("subslice", v, e[1], hi)
        raise Undecided("proj")

    def elem(self, st, v, i):
        if v.op == "ref":
            v = self.read_rp(st, v.args[0], v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.elem(st, v.args[1], i), self.elem(st, v.args[2], i))
        if v.op == "subslice":
            return self.elem(st, v.args[0], iadd(v.args[1], i))
        if v.op == "upd":  # functional update of one element
            b, j, x = v.args
            c = ceq(i, j)
            if c is TRUE:
                return x
            d = as_poly(isub(i, j))
            if d and set(d) == {()}:
                return self.elem(st, b, i)
        ver = st.vers.get(v)
        if ver is not None and ver != 0:
            return mk("load", v, i, ver)
        if v.op == "alloc" and v.args[1] is not None:
            return v.args[1]
        return index(v, i)

    def read_rp(self, st, root, path):
        v = self.read_root(st, root)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def read_place(self, fr, st, pl):
        alts = self.resolve(fr, st, pl)
        v = self.read_rp(st, alts[-1][1], alts[-1][2])
        for c, r, p in reversed(alts[:-1]):
            v = ite(c, self.read_rp(st, r, p), v)
        return v

    def upd_path(self, st, v, path, x, effects, span, root):
        """new value of v with path set to x; None when it became a store effect"""
        if not path:
            return x
        e = path[0]
        if e[0] == ".":
            if v.op == "ref":
                self.write_rp(st, v.args[0], v.args[1] + path, x, effects, span)
                return v
            sub = self.upd_path(st, field(v, e[1], e[2]), path[1:], x, effects, span, root)
            return with_field(v, e[1], e[2], sub)
        if e[0] == "v":
            sub = self.upd_path(st, downcast(v, e[1], e[2]), path[1:], x, effects, span, root)
            return sub
        if e[0] in ("i", "ie"):
            i = e[1] if e[0] == "i" else isub(length(v), e[1])
            if v.op == "ref":
                self.write_rp(st, v.args[0], v.args[1] + path, x, effects, span)
                return v
            if v.op == "agg" and v.args[0][0] == "array" and is_num(i):
                j = int(i.args[0])
                if 0 <= j < len(v.args) - 1:
                    fs = list(v.args[1:])
                    fs[j] = self.upd_path(st, fs[j], path[1:], x, effects, span, root)
                    return mk("agg", v.args[0], *fs)
            if v.op == "ite":
                a = self.upd_path(st, v.args[1], path, x, effects, span, root)
                b = self.upd_path(st, v.args[2], path, x, effects, span, root)
                return ite(v.args[0], a, b)
            if v.op == "subslice":
                self.upd_path(st, v.args[0], (("i", iadd(v.args[1], i)),) + path[1:], x, effects, span, root)
                return v
            if path[1:]:
                # store into a field of an element: record as a store of the element with update
                old = self.elem(st, v, i)
                if isinstance(old, T) and old.op in ("field", "index", "arg", "call", "as"):
                    # element is itself a symbolic pointer: redirect to its own root
                    self.write_rp(st, old, path[1:], x, effects, span)
                    return v
                x = self.upd_path(st, old, path[1:], x, effects, span, root)
            if not isinstance(root, T) and v.op not in ("alloc", "data"):
                return mk("upd", v, i, x)
            effects.append(E("store", span, base=self.snap(st, v), idx=self.snap(st, i),
                             val=self.snap(st, x)))
            st.vers[v] = self.bump(st.vers.get(v, 0))
            return v
        raise Undecided("write path")

    def bump(self, v):
        if isinstance(v, int):
            return v + 1
        return ("+", v)

    def write_rp(self, st, root, path, x, effects, span):
        if isinstance(root, T) and not any(e[0] in ("i", "ie", "sub") for e in path):
            effects.append(E("set", span, base=root, path=tuple(e[-1] for e in path),
                             val=self.snap(st, x)))
        if not path:
            st.cells[root] = x
            return
        v = self.read_root(st, root)
        st.cells[root] = self.upd_path(st, v, path, x, effects, span, root)
        if isinstance(root, T) and st.cells[root] is root:
            del st.cells[root]

    def write_place(self, fr, st, pl, x, effects, span):
        alts = self.resolve(fr, st, pl)
        if len(alts) == 1:
            c, r, p = alts[0]
            if isinstance(r, T) and r.op in ("pt",):
                raise Undecided("write through pt root")
            self.write_rp(st, r, p, x, effects, span)
            return
        for c, r, p in alts:
            s2 = st.copy()
            eff = []
            self.write_rp(s2, r, p, x, eff, span)
            if eff:
                effects.append(E("if", span, cond=c, then=eff, els=[]))
            m = merge_states(c, s2, st)
            st.cells, st.vers = m.cells, m.vers

    # -------------------------------------------------------------- snapshot
    def snap(self, st, t, memo=None, depth=0):
        """replace references by the value they point to"""
        if depth > 40:
            return t
        if t.op == "ref":
            try:
                v = self.read_rp(st, t.args[0], t.args[1])
            except Undecided:
                return t
            return self.snap(st, v, memo, depth + 1)
        if not tm.contains(t, lambda x: x.op == "ref"):
            return t

        def go(x):
            if isinstance(x, T):
                return self.snap(st, x, None, depth + 1)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.args)
        return t if na == t.args else tm.rebuild(t, na)

    # -------------------------------------------------------------- operands
    def const(self, fr, o, st):
        t = fr.ty(o["ty"])
        if "fn" in o:
            return mk("fn", FnRef.of(fr, o["fn"]))
        if "promoted" in o:
            b = self.prog.promoted.get(o["promoted"])
            if b is None:
                return mk("const", o["promoted"])
            f2 = Frame(b, ("prom", o["promoted"]), fr.depth + 1)
            f2.parent = fr
            eff = []
            out = self.run(f2, 0, None, st, {RET}, eff)
            if RET not in out:
                return mk("const", o["promoted"])
            s2 = out[RET][1]
            st.cells.update({k: v for k, v in s2.cells.items() if k not in st.cells})
            return self.snap(s2, self.read_root(s2, f2.cell(0)))
        v = o.get("val")
        if v is None:
            if "named" in o:
                return mk("const", o["named"])
            if "ct" in o:
                return mk("const", o["ct"])
            return mk("const", t["s"])
        k = v[0]
        if k == "i":
            return num(int(v[1]))
        if k == "b":
            return boolc(v[1])
        if k == "f":
            x = float(v[1])
            if x != x or x in (float("inf"), float("-inf")):
                return mk("fconst", str(x))
            return num(x)
        if k == "s":
            return mk("str", v[1])
        if k == "zst":
            if t["k"] == "tuple":
                return tup()
            if t["k"] == "closure":
                return mk("agg", ("closure", t["key"]))
            if t["k"] == "adt":
                vs = t.get("vars") or []
                if t["adt"] == "struct":
                    return mk("agg", ("adt", t["path"], 0, vs[0]["n"] if vs else "", ()))
                return mk("const", t["s"])
            if t["k"] == "array":
                return mk("agg", ("array",))
            return mk("const", t["s"])
        if k == "c":
            return mk("char", v[1])
        if "named" in o:
            return mk("const", o["named"])
        if k == "bits" and t["k"] == "adt" and t["adt"] == "enum" and v[1].isdigit():
            return mk("const", t["s"], v[1])
        return mk("const", t["s"], repr(v))

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read_place(fr, st, o["pl"])
        if k == "const":
            return self.const(fr, o, st)
        return mk("const", k)

    # -------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, effects, span):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref" or k == "rawptr":
            alts = self.resolve(fr, st, r[1])
            v = None
            for c, root, path in reversed(alts):
                if len(path) == 1 and path[0][0] == "i" and k == "rawptr":
                    x = mk("pt", self.root_val(st, root), path[0][1])
                elif len(path) == 1 and path[0][0] == "i" and isinstance(root, T) and self.is_raw(root):
                    x = mk("pt", root, path[0][1])
                else:
                    x = self.norm_ref(root, path)
                v = x if v is None else ite(c, x, v)
            return v
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            if r[1] in ("Add", "Mul") and fr.ty(r[4])["s"] in ("u32", "i32"):
                self.arith.setdefault((r[1], self.snap(st, a), self.snap(st, b)), (fr.ty(r[4])["s"], span))
            return self.binop(r[1], a, b, fr.ty(r[4]), st)
        if k == "un":
            a = self.operand(fr, st, r[2])
            t = fr.ty(r[3])
            if r[1] == "Not":
                return bnot(a) if t["k"] == "bool" else mk("bitnot", a)
            if r[1] == "Neg":
                if t["k"] == "float":
                    return mk("num", -a.args[0]) if is_num(a) else mk("fneg", a)
                return ineg(a)
            if r[1] == "PtrMetadata":
                return length(self.snap(st, a))
            return mk("un", r[1], a)
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2]["k"] in ("copy", "move") and r[2]["pl"]["p"]:
                pl = r[2]["pl"]
                n = len(pl["p"])
                while n and pl["p"][n - 1][0] == ".":
                    n -= 1
                    b = self.read_place(fr, st, {"l": pl["l"], "p": pl["p"][:n]})
                    if b.op == "ref":
                        return b
            a = self.operand(fr, st, r[2])
            return self.cast(r[1], a, fr.ty(r[3]), fr.ty(r[4]))
        if k == "agg":
            ops = [self.operand(fr, st, x) for x in r[2]]
            h = r[1]
            if h[0] == "tuple":
                return tup(*ops)
            if h[0] == "array":
                return mk("agg", ("array",), *ops)
            if h[0] == "closure":
                return mk("agg", ("closure", h[1]), *ops)
            if h[0] == "adt":
                p, names = h[1], tuple(h[5])
                return mk("agg", ("adt", p, h[2], h[3], names), *ops)
            if h[0] == "rawptr":
                return ops[0]
            return mk("aggx", *ops)
        if k == "discr":
            v = self.read_place(fr, st, r[1])
            if v.op == "ref":
                v = self.snap(st, v)
            return discr(v)
        if k == "repeat":
            x = self.operand(fr, st, r[1])
            n = r[2]
            if n is not None and n <= 16:
                return mk("agg", ("array",), *([x] * n))
            return mk("repeat", x, num(n) if n is not None else mk("const", "N"))
        raise Undecided("rvalue " + k)

    def root_val(self, st, root):
        if isinstance(root, T):
            return root
        return self.read_root(st, root)

    def is_raw(self, root):
        return root.op in ("data", "alloc", "vecdata")

    def binop(self, op, a, b, ty, st):
        r = self.binop_(op, a, b, ty, st)
        return self.dec(r) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else r

    def binop_(self, op, a, b, ty, st):
        fl = ty["k"] == "float"
        if fl:
            m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
            if op in m:
                return fbin(m[op], a, b)
            if op == "Eq":
                return mk("feq", *sorted((a, b), key=lambda t: t.uid))
            if op == "Ne":
                return bnot(mk("feq", *sorted((a, b), key=lambda t: t.uid)))
            if op == "Lt":
                return mk("flt", a, b)
            if op == "Gt":
                return mk("flt", b, a)
            if op == "Le":
                return mk("fle", a, b)
            if op == "Ge":
                return mk("fle", b, a)
        if ty["k"] in ("ref", "ptr", "adt"):
            a, b = self.snap(st, a), self.snap(st, b)
        if op == "Add":
            return iadd(a, b)
        if op == "Sub":
            return isub(a, b)
        if op == "Mul":
            return imul(a, b)
        if op == "Div":
            return idiv(a, b)
        if op == "Rem":
            return irem(a, b)
        if op == "Eq":
            return self.ieq(a, b)
        if op == "Ne":
            return bnot(self.ieq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return le(a, b)
        if op == "Ge":
            return le(b, a)
        if op == "BitAnd":
            return band(a, b) if ty["k"] == "bool" else mk("bitand", *sorted((a, b), key=lambda t: t.uid))
        if op == "BitOr":
            return bor(a, b) if ty["k"] == "bool" else mk("bitor", *sorted((a, b), key=lambda t: t.uid))
        if op == "BitXor":
            return bnot(ceq(a, b)) if ty["k"] == "bool" else mk("bitxor", *sorted((a, b), key=lambda t: t.uid))
        if op == "Offset":
            return self.ptr_add(a, b)
        return mk("bin", op, a, b)

    POSITIVE = ("Shape::batch", "Shape::volume", "Shape::size", "Shape::lower_volume", "dim")

    def ieq(self, a, b):
        # counts that are at least one: x == 1  <=>  !(1 < x)
        for x, y in ((a, b), (b, a)):
            if is_num(y) and y.args[0] == 1 and x.op == "call" and x.args[0] in self.POSITIVE:
                return bnot(lt(ONE, x))
            if is_num(y) and y.args[0] == 0 and x.op in ("discr", "len"):
                pass
        return self.dec(ceq(a, b))

    def ptr_add(self, p, n):
        if p.op == "pt":
            return mk("pt", p.args[0], iadd(p.args[1], n))
        if p.op == "ite":
            return ite(p.args[0], self.ptr_add(p.args[1], n), self.ptr_add(p.args[2], n))
        return mk("pt", p, n)

    def cast(self, kind, a, f, t):
        if kind.startswith("Transmute") or "Pointer" in kind or kind.startswith("PtrToPtr") or kind.startswith("FnPtrToPtr"):
            return a
        fk, tk = f["k"], t["k"]
        if fk in ("int", "uint") and tk in ("int", "uint"):
            if is_num(a):
                w = t["bits"]
                v = int(a.args[0]) & ((1 << w) - 1)
                if tk == "int" and v >> (w - 1):
                    v -= 1 << w
                return num(v)
            if t["bits"] >= f["bits"]:
                return a
            if t["bits"] < 32 and t["bits"] < f["bits"]:
                # narrower than any extent or position: kept visible
                while a.op == "trunc":
                    a = a.args[1]
                if a.op == "cut":
                    return a if a.args[0] <= t["bits"] else mk("cut", t["bits"], a.args[1])
                return mk("cut", t["bits"], a)
            if a.op == "trunc":
                return a
            # truncations collapse: value assumed in range (range is its own property)
            return mk("trunc", t["bits"], a) if f["bits"] > t["bits"] else a
        if fk == "bool":
            return ite(a, ONE, ZERO)
        if fk in ("int", "uint") and tk == "float":
            if is_num(a):
                return a
            if a.op == "ite":
                return ite(a.args[0], self.cast(kind, a.args[1], f, t), self.cast(kind, a.args[2], f, t))
            return mk("i2f", a)
        if fk == "float" and tk == "float":
            if is_num(a):
                return a
            # widening/narrowing kept visible
            return mk("f2f", t["bits"], a)
        if fk == "float":
            return mk("f2i", tk, a)
        return a

    # -------------------------------------------------------------- running
    def run(self, fr, b, region, st, stops, effects, first=False):
        """execute from block b until one of `stops`; returns {stop:(cond,state)}"""
        fn, cfg = fr.fn, fr.cfg
        while True:
            if b in stops and not first:
                return {b: (TRUE, st)}
            if b in cfg.loops and not first:
                out = self.run_loop(fr, b, st, effects, stops)
                out = {s: x for s, x in out.items()}
                if len(out) == 1:
                    (b, (c, st)), = out.items()
                    if b in stops:
                        return {b: (TRUE, st)}
                    continue
                res = {}
                rest = []
                for s, (c, s2) in out.items():
                    if s in stops:
                        res = merge_out(res, {s: (c, s2)})
                    else:
                        rest.append((s, c, s2))
                for s, c, s2 in rest:
                    eff = []
                    o = self.run(fr, s, region, s2, stops, eff)
                    if eff:
                        effects.append(E("if", fn.span, cond=c, then=eff, els=[]))
                    res = merge_out(res, {x: (band(c, cc), ss) for x, (cc, ss) in o.items()})
                return res
            first = False
            self.steps += 1
            if self.pol.max_steps and self.steps > self.pol.max_steps:
                raise Undecided("too many paths")
            blk = fn.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(fr, st, s[2], effects, s[3])
                    self.write_place(fr, st, s[1], v, effects, s[3])
                elif s[0] == "sd":
                    pass
            t = blk["t"]
            k = t[0]
            if k == "goto":
                b = t[1]
                continue
            if k == "return":
                return {RET: (TRUE, st)}
            if k in ("unreachable", "resume", "abort"):
                return {}
            if k == "drop":
                self.on_drop(fr, st, t, effects)
                b = t[3]
                continue
            if k == "assert":
                c = self.operand(fr, st, t[1])
                c = self.dec(c if t[2] else bnot(c))
                if c is not TRUE:
                    effects.append(E("assert", t[5], cond=self.snap(st, c), why=t[3]))
                b = t[4]
                continue
            if k == "call":
                r = self.call(fr, st, t, effects, b)
                if r is None or t[4] is None:
                    return {}
                b = t[4]
                continue
            if k == "switch":
                res = self.switch(fr, b, t, region, st, stops, effects)
                if isinstance(res, tuple):
                    b, st = res
                    continue
                return res
            raise Undecided("terminator " + k)

    def dec(self, c):
        return self.pol.decide(c) if self.pol.unroll and c.op != "bool" else c

    def follow_loop(self, BACK, body, st0, effects, span):
        """iterations one by one; every continue condition must be decided by the policy"""
        st = st0
        exits = {}
        pc = TRUE
        for n in range(70):
            eff = []
            out = body(st.copy(), eff)
            if pc is TRUE:
                effects.extend(eff)
            elif eff:
                effects.append(E("if", span, cond=pc, then=eff, els=[]))
            for s, (c, ss) in out.items():
                c = band(pc, self.dec(c))
                if s != BACK and c is not FALSE:
                    exits = merge_out(exits, {s: (c, ss)})
            if BACK not in out:
                return exits
            c, st = out[BACK]
            pc = band(pc, self.dec(c))
            if pc is FALSE:
                return exits
        raise Undecided("loop not followed to its end")

    def switch(self, fr, b, t, region, st, stops, effects):
        cfg = fr.cfg
        d = self.operand(fr, st, t[1])
        if d.op == "ref":
            d = self.snap(st, d)
        ty = fr.ty(t[4])
        arms = []
        rest = TRUE
        for v, tgt in t[2]:
            v = int(v)
            if ty["k"] == "bool":
                c = bnot(d) if v == 0 else d
            else:
                c = self.ieq(d, num(v))
            c = self.dec(c)
            arms.append((band(rest, c), tgt))
            rest = band(rest, bnot(c))
        arms.append((rest, t[3]))
        # enum switches: an impossible discriminant is unreachable
        m = {}
        for c, tgt in arms:
            if c is FALSE:
                continue
            m[tgt] = bor(m[tgt], c) if tgt in m else c
        arms = [(c, tgt) for tgt, c in m.items()]
        live = [(c, x) for c, x in arms if x in cfg.live]
        dead = [(c, x) for c, x in arms if x not in cfg.live]
        for c, x in dead:
            if fr.fn.blocks[x]["t"][0] == "unreachable" and not fr.fn.blocks[x]["s"]:
                continue
            sp, why = self.panic_info(fr, x)
            effects.append(E("assert", t[5], cond=self.snap(st, bnot(c)), why=why))
        if not live:
            return {}
        if len(live) == 1:
            return (live[0][1], st)
        join = cfg.ipdom(region, b)
        if join == -1 or join is None:
            join = None
        sub = set(stops)
        if join is not None:
            sub.add(join)
        outs = []
        for c, x in live:
            eff = []
            o = self.run(fr, x, region, st.copy(), sub, eff)
            outs.append((c, o, eff))
        # effects: nested if chain
        tree = []
        for c, o, eff in reversed(outs):
            if tree is None:
                tree = eff
            if eff or tree:
                if len(outs) == 2 and outs[0][0] is bnot(outs[1][0]):
                    pass
            tree = self.if_chain(c, eff, tree, t[5])
        effects.extend(tree)
        # merge states
        merged = {}
        n = len(outs)
        for i in range(n - 1, -1, -1):
            c, o, eff = outs[i]
            cur = {}
            for s, (cc, ss) in o.items():
                cur[s] = (band(c, cc), ss)
            new = dict(merged)
            for s, (cc, ss) in cur.items():
                if s in new:
                    c2, s2 = new[s]
                    # ordered: prefer this arm under its condition
                    new[s] = (bor(cc, c2), merge_states(cc, ss, s2))
                else:
                    new[s] = (cc, ss)
            merged = new
        if join is not None and join in merged and join not in stops:
            cj, sj = merged.pop(join)
            if not merged:
                return (join, sj)
            eff = []
            o = self.run(fr, join, region, sj, stops, eff)
            if eff:
                effects.append(E("if", t[5], cond=self.snap(st, cj), then=eff, els=[]))
            for s, (cc, ss) in o.items():
                merged = merge_out(merged, {s: (band(cj, cc), ss)})
            return merged
        return merged

    def if_chain(self, c, then, els, span):
        if not then and not els:
            return []
        # flatten the common "else-if" encoding when the conditions are complementary
        if len(els) == 1 and els[0].kind == "if" and els[0].cond is bnot(c) and not els[0].els:
            els = els[0].then
        return [E("if", span, cond=c, then=then, els=els)]

    def panic_info(self, fr, x):
        seen = set()
        while x not in seen:
            seen.add(x)
            t = fr.fn.blocks[x]["t"]
            if t[0] == "call" and t[4] is None:
                return t[5], "panic"
            if t[0] in ("goto",):
                x = t[1]
                continue
            if t[0] == "call":
                x = t[4]
                continue
            if t[0] == "drop":
                x = t[3]
                continue
            break
        return fr.fn.span, "panic"

    # -------------------------------------------------------------- loops
    def leaves(self, v, path=()):
        if v.op == "agg" and len(v.args) > 1:
            for i, x in enumerate(v.args[1:]):
                yield from self.leaves(x, path + (i,))
        elif v.op == "pt":
            yield path + ("off",), v.args[1]
        elif v.op == "with":
            for n, x in v.args[1]:
                yield from self.leaves(x, path + (n,))
        else:
            yield path, v

    def set_leaf(self, v, path, x):
        if not path:
            return x
        h = path[0]
        if h == "off":
            return mk("pt", v.args[0], x)
        if isinstance(h, str):
            return with_field(v, None, h, self.set_leaf(field(v, None, h), path[1:], x))
        fs = list(v.args[1:])
        fs[h] = self.set_leaf(fs[h], path[1:], x)
        return mk("agg", v.args[0], *fs)

    def get_leaf(self, v, path):
        for h in path:
            if h == "off":
                if v.op != "pt":
                    return None
                v = v.args[1]
            elif isinstance(h, str):
                v = field(v, None, h)
            else:
                if v.op != "agg" or h + 1 >= len(v.args):
                    return None
                v = v.args[1 + h]
        return v

    def same_shape(self, a, b):
        if a.op == "agg" and b.op == "agg":
            return a.args[0] == b.args[0] and len(a.args) == len(b.args)
        return False

    def diff_leaves(self, a, b, path=()):
        """leaf paths (of a's structure) where b differs"""
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args) \
                and len(a.args) > 1:
            for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
                yield from self.diff_leaves(x, y, path + (i,))
            return
        if a.op == "pt" and b.op == "pt" and a.args[0] is b.args[0]:
            yield path + ("off",)
            return
        if b.op == "with" and (b.args[0] is a or (a.op == "with" and a.args[0] is b.args[0])):
            for n, y in b.args[1]:
                yield from self.diff_leaves(field(a, None, n), y, path + (n,))
            return
        yield path

    def run_loop(self, fr, h, st, effects, outer_stops):
        lid = (fr.id, h)

        def body(s, eff):
            # stops inside the loop: header (back) and any block outside
            exits = set()
            for x in fr.cfg.loops[h]:
                for y in fr.cfg.succ[x]:
                    if y in fr.cfg.live and y not in fr.cfg.loops[h]:
                        exits.add(y)
            return self.run(fr, h, h, s, {h, RET} | exits, eff, first=True)

        return self.solve_loop(lid, h, body, st, effects, fr.fn.blocks[h]["t"][-1]
                               if isinstance(fr.fn.blocks[h]["t"][-1], str) else self.loop_span(fr, h))

    def loop_span(self, fr, h):
        t = fr.fn.blocks[h]["t"]
        if t[0] == "call":
            return t[5]
        return fr.fn.span

    def solve_loop(self, lid, BACK, body, st0, effects, span):
        if self.pol.unroll:
            return self.follow_loop(BACK, body, st0, effects, span)
        self.lcount += 1
        k = mk("k", str(lid))
        phis = {}     # phi -> (root, path)
        lbases = set()
        occ0 = dict(self.occ)
        for rounds in range(14):
            S = st0.copy()
            for phi, (root, path) in phis.items():
                S.cells[root] = self.set_leaf(self.read_root(S, root), path, phi)
            for bse in lbases:
                S.vers[bse] = ("L", str(lid))
            start = S.copy()
            effs = []
            self.occ = dict(occ0)
            out = body(S, effs)
            if BACK not in out:
                effects.extend(effs)
                return out
            cb, sb = out[BACK]
            new = {}
            for root in list(start.cells) + [r for r in sb.cells if isinstance(r, T) and r not in start.cells]:
                a = self.read_root(start, root)
                b = sb.cells.get(root)
                if b is None:
                    if isinstance(root, T):
                        b = root
                    else:
                        continue
                if a is b:
                    continue
                for path in self.diff_leaves(a, b):
                    cur = self.get_leaf(a, path)
                    if cur is None:
                        path = ()
                        cur = a
                    if cur.op == "phi" and cur in phis:
                        continue
                    # collapse: an ancestor path supersedes
                    new[(root, path)] = cur
            nb = set()
            for bse, v in sb.vers.items():
                if bse in lbases:
                    continue
                if start.vers.get(bse, 0) != v:
                    nb.add(bse)
            if not new and not nb:
                break
            for (root, path), cur in new.items():
                for p in [p for p, (r, pp) in phis.items() if r == root and pp[:len(path)] == path]:
                    del phis[p]
                phi = mk("phi", str(lid), str(root) if not isinstance(root, T) else root.uid, str(path))
                phis[phi] = (root, path)
            lbases |= nb
        else:
            raise Undecided("loop did not stabilise")
        # ---- recurrences
        init, nxt = {}, {}
        for phi, (root, path) in phis.items():
            init[phi] = self.get_leaf(self.read_root(st0, root), path)
            n = self.get_leaf(self.read_root(sb, root), path)
            if n is None:
                n = mk("lost", phi)
            nxt[phi] = n
        solved = {}
        final = {}
        allphi = set(phis)

        def free(t):
            return atoms(t) & allphi - set(solved)

        prog = True
        while prog:
            prog = False
            for phi in list(phis):
                if phi in solved:
                    continue
                n = subst(nxt[phi], solved)
                i0 = init[phi]
                if n is phi:
                    solved[phi] = i0
                    prog = True
                    continue
                if n.op == "push" and n.args[0] is phi and not (free(n.args[1])):
                    x = n.args[1]
                    if i0.op == "agg" and i0.args[0][0] == "array" and len(i0.args) == 1:
                        fv = fresh()
                        solved[phi] = tm.seq(k, fv, subst(x, {k: fv}))
                        final[phi] = None
                        prog = True
                    continue
                ff = free(n)
                if self.intlike(n, phi, i0):
                    d = self.step_of(n, phi)
                    if not (atoms(d) & allphi - set(solved)):
                        c = self.sum_closed(d, k)
                        if c is not None:
                            solved[phi] = iadd(i0, c)
                            prog = True
                            continue
                if not ff:
                    # value of the previous iteration: only usable after the loop
                    pass
        # substitute until stable (solved closed forms may mention other solved phis)
        for _ in range(6):
            s2 = {p: subst(v, solved) for p, v in solved.items()}
            if s2 == solved:
                break
            solved = s2
        unsolved = [p for p in phis if p not in solved]
        exits = {s: x for s, x in out.items() if s != BACK}
        cont = subst(cb, solved)
        N, kind = self.trip(cont, k, lid)
        if len(exits) != 1:
            kind = "multi"
        # does the single exit leave only at the header test?
        tot = bor(cont, *[subst(c, solved) for c, _ in exits.values()])
        effs2 = map_effects(effs, lambda t: subst(t, solved))
        # reductions
        fin = {}
        if unsolved:
            groups = self.groups(unsolved, {p: subst(nxt[p], solved) for p in unsolved})
            for g in groups:
                self.fold_group(g, init, {p: subst(nxt[p], solved) for p in g}, N, k, fin)
        info = dict(k=k, N=N, cont=cont, lkind=kind,
                    phis={p: (init[p], subst(nxt[p], solved)) for p in unsolved})
        # drop the loop's own exit test noise: effects guarded by the continue condition
        effs2 = self.strip_cont(effs2, cont)
        if effs2:
            if kind == "count" and all(init[p].op == "index" and atoms(init[p].args[1]) & allphi for p in unsolved):
                effs2 = from_front(effs2, k, N)
            effects.append(E("loop", span, body=effs2, **info))
        self.loopinfo[k] = info
        res = {}
        for s, (c, ss) in exits.items():
            m = dict(solved)
            m.update(fin)
            cells = {}
            for r, v in ss.cells.items():
                if r in start.cells and v is start.cells[r] and not (atoms(v) & allphi):
                    cells[r] = v
                    continue
                v1 = subst(v, m)
                cells[r] = subst(v1, {k: N})
            vers = dict(ss.vers)
            for bse in lbases:
                vers[bse] = ("A", str(lid))
            res[s] = (TRUE if len(exits) == 1 else subst(subst(c, m), {k: N}), State(cells, vers))
        if len(res) == 2 and kind == "multi":
            # exactly one of the two exits is taken
            (a, (ca, sa)), (b, (cb_, sb_)) = res.items()
            if ca is not TRUE and ca is not FALSE:
                res[b] = (bnot(ca), sb_)
        return res

    def strip_cont(self, effs, cont):
        out = []
        for e in effs:
            if e.kind == "if" and e.cond is cont:
                out.extend(self.strip_cont(e.then, cont))
            elif e.kind == "if" and e.cond is bnot(cont):
                out.extend(self.strip_cont(e.els, cont))
            else:
                out.append(e)
        return out

    def step_of(self, n, phi):
        """n - phi when n is phi plus something on every branch, or None"""
        if n is phi:
            return ZERO
        if n.op == "poly":
            return isub(n, phi) if any(m == ((phi, 1),) for m, c in n.args[0]) else None
        if n.op == "ite":
            a, b = self.step_of(n.args[1], phi), self.step_of(n.args[2], phi)
            return None if a is None or b is None else ite(n.args[0], a, b)
        return None

    def intlike(self, n, phi, i0):
        if n.op == "ite":
            return self.step_of(n, phi) is not None
        if n.op == "poly":
            return any(m == ((phi, 1),) for m, c in n.args[0])
        return False

    def sum_closed(self, d, k):
        """sum_{j<k} d(j) for d polynomial in k of degree <= 1"""
        if k not in atoms(d):
            return imul(k, d)
        if d.op == "ite":
            # a step that differs at one iteration, or from some iteration on
            c, x, y = d.args
            if c.op == "not":
                c, x, y = c.args[0], y, x
            sx, sy = self.sum_closed(x, k), self.sum_closed(y, k)
            if sx is None or sy is None:
                return None
            if c.op == "eq" and k in c.args:
                at = c.args[1] if c.args[0] is k else c.args[0]
                if is_num(at):
                    one = ite(lt(at, k), subst(isub(x, y), {k: at}), ZERO)
                    return iadd(sy, one)
            if c.op in ("lt", "le") and k in c.args:
                lo = c.args[0] is k
                at = c.args[1] if lo else c.args[0]
                if k not in atoms(at):
                    if lo == (c.op == "le"):
                        at = iadd(at, ONE)          # k <= at is k < at + 1; at < k starts at at + 1
                    m = mk("imin", k, at) if is_num(at) else None
                    if m is not None:
                        first, rest = (sx, sy) if lo else (sy, sx)
                        return iadd(subst(first, {k: m}), isub(rest, subst(rest, {k: m})))
            return None
        p = as_poly(d)
        r = ZERO
        for m, c in p.items():
            e = 0
            rest = []
            for a, x in m:
                if a is k:
                    e = x
                elif k in atoms(a):
                    return None
                else:
                    rest.append((a, x))
            t = from_poly({tuple(rest): c})
            if e == 0:
                r = iadd(r, imul(t, k))
            elif e == 1:
                # k(k-1)/2 : rational coefficients stay exact
                kk = from_poly({((k, 2),): Fraction(1, 2), ((k, 1),): Fraction(-1, 2)})
                r = iadd(r, imul(t, kk))
            else:
                return None
        return r

    def trip(self, c, k, lid):
        if c.op == "and":
            sol = [self.trip(x, k, lid) for x in c.args]
            good = [s for s in sol if s[1] == "count"]
            if len(good) == len(sol) and len(set(g[0] for g in good)) == 1:
                return good[0]
            return mk("N", str(lid)), "while"
        if c.op in ("lt", "le"):
            d = isub(c.args[1], c.args[0])
            if c.op == "le":
                d = iadd(d, ONE)
        elif c.op == "not" and c.args[0].op == "eq":
            d = isub(c.args[0].args[0], c.args[0].args[1])
            p = as_poly(d)
            if p.get(((k, 1),), 0) > 0:
                d = ineg(d)
        else:
            return mk("N", str(lid)), "while"
        p = as_poly(d)
        ck = p.get(((k, 1),), None)
        if ck is None or ck >= 0:
            # coefficient may be symbolic (step): d = A - k*s
            for m in p:
                if any(a is k for a, e in m):
                    s = from_poly({tuple((a, e) for a, e in mm if a is not k): -cc
                                   for mm, cc in p.items() if any(a is k for a, _ in mm)})
                    A = from_poly({mm: cc for mm, cc in p.items() if not any(a is k for a, _ in mm)})
                    if k not in atoms(s) and k not in atoms(A):
                        return self.ceildiv(A, s), "count"
                    break
            return mk("N", str(lid)), "while"
        rest = from_poly({m: x for m, x in p.items() if m != ((k, 1),)})
        if k in atoms(rest):
            return mk("N", str(lid)), "while"
        if ck == -1:
            return rest, "count"
        return self.ceildiv(rest, num(-ck)), "count"

    def ceildiv(self, a, s):
        if is_num(a) and is_num(s):
            return num(-(-int(a.args[0]) // int(s.args[0])))
        q = mono_div(as_poly(a), s)
        if q is not None:
            return from_poly(q)
        return mk("ceildiv", a, s)

    def groups(self, ps, nx):
        ps = list(ps)
        comp = {p: {p} for p in ps}
        ch = True
        dep = {p: (atoms(nx[p]) & set(ps)) | {p} for p in ps}
        while ch:
            ch = False
            for p in ps:
                for q in list(dep[p]):
                    if not dep[q] <= dep[p]:
                        dep[p] |= dep[q]
                        ch = True
        out, seen = [], set()
        for p in sorted(ps, key=lambda p: len(dep[p])):
            if p in seen:
                continue
            g = [q for q in ps if q in dep[p] and p in dep[q]]
            seen.update(g)
            out.append((g, dep[p]))
        return [sorted(d, key=lambda t: t.uid) if len(d) > 1 else list(g) for g, d in out]

    def fold_group(self, g, init, nx, N, k, fin):
        if len(g) == 1:
            p = g[0]
            n = nx[p]
            if p not in atoms(n):
                # last-iteration value
                last = subst(n, {k: isub(N, ONE)})
                fin[p] = ite(lt(ZERO, N), last, init[p]) if not is_num(N) else (
                    last if N.args[0] > 0 else init[p])
                return
            if n.op == "fadd":
                a, b = n.args
                if a is p and p not in atoms(b) or b is p and p not in atoms(a):
                    x = b if a is p else a
                    fin[p] = mk("fsum", N, init[p], lam([k], x))
                    return
            fin[p] = mk("fold", N, init[p], lam([p, k], n))
            return
        accs = list(g)
        body = tup(*[nx[p] for p in accs])
        f = mk("fold", N, tup(*[init[p] for p in accs]), lam(accs + [k], body))
        for i, p in enumerate(accs):
            if p not in fin:
                fin[p] = mk("field", f, str(i))

    # -------------------------------------------------------------- drops
    def on_drop(self, fr, st, t, effects):
        ty = fr.ty(t[2])
        s = ty["s"]
        if "MutexGuard" in s or "Tensor" in s or "RefMut" in s:
            try:
                v = self.snap(st, self.read_place(fr, st, t[1]))
            except Undecided:
                return
            effects.append(E("drop", t[4], val=v, ty=strip_ty(s)))

    # -------------------------------------------------------------- calls
    def call(self, fr, st, t, effects, blk):
        f, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        if f["k"] == "const" and "fn" in f:
            ref = FnRef.of(fr, f["fn"])
        else:
            v = self.operand(fr, st, f)
            if v.op == "fn":
                ref = v.args[0]
            elif v.op == "agg" and v.args[0][0] == "closure":
                vals = [self.operand(fr, st, a) for a in args]
                r = self.call_value(fr, st, v, vals, effects, span, ("ind", blk))
                self.write_place(fr, st, dest, r, effects, span)
                return TRUE
            else:
                vals = [self.snap(st, self.operand(fr, st, a)) for a in args]
                r = mk("call", "indirect", self.snap(st, v), *vals)
                effects.append(E("call", span, name="indirect", args=vals, res=r, ref=None))
                self.write_place(fr, st, dest, r, effects, span)
                return TRUE
        vals = [self.operand(fr, st, a) for a in args]
        self.cur_arg_tys = [self.op_ty(fr, a) for a in args]
        # pointer-ness of destination guides transparent models
        r = self.apply(fr, st, ref, vals, effects, span, (fr.id, blk), target is None,
                       fr.ty(t[7]) if len(t) > 7 else None)
        if r is None or target is None:
            return None
        self.write_place(fr, st, dest, r, effects, span)
        return TRUE

    def apply(self, fr, st, ref, vals, effects, span, site, diverges=False, dty=None):
        import models
        c = ref.c
        name = ref.name(self)
        m = self.pol.model(self, ref)
        if m is not None:
            r = m(self, fr, st, ref, vals, effects, span, site, dty)
            if r is not NotImplemented:
                return r
        body = self.body_of(ref)
        if body is not None and body.closure and "trait" in c:
            a = vals[1] if len(vals) > 1 else tup()
            cargs = list(a.args[1:]) if a.op == "agg" else [a]
            return self.call_value(fr, st, vals[0], cargs, effects, span, site)
        if not (body is not None and not self.pol.opaque(self, ref)):
            m = models.lookup(self, ref)
            if m is not None:
                r = m(self, fr, st, ref, vals, effects, span, site, dty)
                if r is not NotImplemented:
                    return r
        if diverges:
            effects.append(E("panic", span, name=name))
            return None
        if body is not None and not self.pol.opaque(self, ref) and fr.depth < self.pol.max_depth:
            if not self.recursing(fr, body):
                return self.inline(fr, st, body, vals, effects, span, site)
        return self.opaque_call(fr, st, ref, name, vals, effects, span)

    def op_ty(self, fr, a):
        if a["k"] == "const":
            return fr.ty(a["ty"])
        pl = a["pl"]
        return fr.ty(fr.fn.locals[pl["l"]]) if not pl["p"] else None

    def opaque_arg_tys(self, ref):
        return self.cur_arg_tys

    def recursing(self, fr, body):
        i = fr
        while i is not None:
            if i.fn is body:
                return True
            i = getattr(i, "parent", None)
        return False

    def body_of(self, ref):
        c = ref.c
        r = c.get("r")
        if r is None:
            return self.default_body(c)
        if r["kind"] != "item":
            return None
        return self.prog.fns.get(r["key"])

    def default_body(self, c):
        """body of a trait's default method called on an unknown implementor, when no implementation overrides it"""
        f = self.prog.fns.get(c.get("key"))
        if f is None or "trait" not in c:
            return None
        d = getattr(self.prog, "overridden", None)
        if d is None:
            d = self.prog.overridden = {(g.j.get("trait") or g.trait, g.name) for g in self.prog.fns.values() if g.trait}
        return None if (c["trait"], c["method"]) in d or any(t and str(t).startswith(c["trait"]) and n == c["method"] for t, n in d) else f

    def inline(self, fr, st, body, vals, effects, span, site):
        f2 = Frame(body, (site, body.key), fr.depth + 1)
        f2.parent = fr
        for i, v in enumerate(vals):
            st.cells[f2.cell(i + 1)] = v
        eff = effects
        out = self.run(f2, 0, None, st, {RET}, eff)
        if RET not in out:
            return None
        s2 = out[RET][1]
        st.cells, st.vers = s2.cells, s2.vers
        r = self.read_root(st, f2.cell(0))
        if r.op == "uninit":
            r = tup()
        return r

    def call_value(self, fr, st, f, args, effects, span, site):
        """call a closure / fn item value with already-evaluated args"""
        if f.op == "ref":
            inner = self.read_rp(st, f.args[0], f.args[1])
            if inner.op in ("agg", "fn", "ref"):
                if inner.op == "agg" and inner.args[0][0] == "closure":
                    return self.call_closure(fr, st, inner, f, args, effects, span, site)
                return self.call_value(fr, st, inner, args, effects, span, site)
            f = inner
        if f.op == "agg" and f.args[0][0] == "closure":
            cell = ("c", ("clo", site, f.args[0][1]), 0)
            st.cells[cell] = f
            return self.call_closure(fr, st, f, mk("ref", cell, ()), args, effects, span, site)
        if f.op == "fn":
            return self.apply(fr, st, f.args[0], list(args), effects, span, site)
        vals = [self.snap(st, a) for a in args]
        r = mk("call", "indirect", self.snap(st, f), *vals)
        effects.append(E("call", span, name="indirect", args=vals, res=r, ref=None))
        return r

    def call_closure(self, fr, st, f, fref, args, effects, span, site):
        body = self.prog.fns.get(f.args[0][1])
        if body is None:
            raise Undecided("closure body missing " + str(f.args[0][1]))
        envty = body.crate.types[body.locals[1]]
        env = fref if envty["k"] == "ref" else f
        if fr.depth >= self.pol.max_depth:
            raise Undecided("depth")
        return self.inline(fr, st, body, [env] + list(args), effects, span, (site, "clo"))

    def opaque_call(self, fr, st, ref, name, vals, effects, span):
        pure = self.pol.pure(self, ref)
        sv = [self.snap(st, v) for v in vals]
        if pure:
            return mk("call", name, *sv)
        key = (name, tuple(sv))
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        r = mk("call", name, *sv) if n == 0 else mk("call", name, *sv, mk("occ", n))
        ptys = ref.arg_tys(self)
        muts = tuple(i for i in range(len(vals)) if i < len(ptys) and ptys[i] is not None and ptys[i]["k"] in ("ref", "ptr") and ptys[i].get("mut"))
        effects.append(E("call", span, name=name, args=sv, res=r, ref=ref, muts=muts))
        # havoc places passed by &mut
        for i, v in enumerate(vals):
            if i < len(ptys) and ptys[i] is not None and ptys[i]["k"] == "ref" and ptys[i]["mut"]:
                self.havoc(st, v, mk("out", r, i), effects, span)
        return r

    def havoc(self, st, v, new, effects, span):
        for c, root, path in self.deref_to(v):
            if isinstance(root, T):
                if root.op == "alloc":
                    st.vers[root] = self.bump(st.vers.get(root, 0))
                continue  # the pointee keeps its identity: effects are recorded by the call
            old = self.read_rp(st, root, path)
            if old.op in ("agg",) and old.args[0][0] == "adt" and old.args[0][1].endswith("Tensor"):
                continue
            if old.op == "alloc":
                st.vers[old] = self.bump(st.vers.get(old, 0))      # same storage, contents written by the callee
                continue
            if old.op == "call":
                continue  # identity of an object
            try:
                self.write_rp(st, root, path, new, effects, span)
            except Undecided:
                pass

    # -------------------------------------------------------------- top level
    def summarize(self, fn, argvals=None, argnames=None, cells=None):
        s = Summary()
        fr = Frame(fn, ("top", fn.key), 0)
        fr.parent = None
        st = State()
        st.cells.update(cells or {})
        for i in range(fn.nargs):
            if argvals and i < len(argvals) and argvals[i] is not None:
                v = argvals[i]
            else:
                v = mk("arg", i, fn.argnames.get(i + 1, "arg%d" % i))
            st.cells[fr.cell(i + 1)] = v
            s.args.append(v)
        out = self.run(fr, 0, None, st, {RET}, s.effects)
        if RET in out:
            s.state = out[RET][1]
            s.ret_raw = self.read_root(s.state, fr.cell(0))
            s.ret = self.snap(s.state, s.ret_raw)
            if s.ret.op == "uninit":
                s.ret = tup()
        s.frame = fr
        s.loopinfo = self.loopinfo
        s.arith = self.arith
        return s


ORDERED = re.compile(r"push|insert|extend|append|write|serialize|next|pop|lock|remove")


def from_front(effs, k, N):
    """the body of a loop that visits a list from its end, with the steps counted from the front: the steps of a loop
    that carries nothing over and appends to nothing work on different entries, their order is no part of its meaning"""
    last = isub(isub(N, num(1)), k)
    for e, _ in walk(effs):
        if e.kind == "call" and ORDERED.search(e.name.split("::")[-1]):
            return effs
    back, fwd = [], []

    def look(t):
        for u in tm.subterms(t):
            if u.op == "index" and u.args[1] is not k and k in atoms(u.args[1]):
                (back if u.args[1] is last else fwd).append(u)
            elif u.op == "index" and u.args[1] is k:
                fwd.append(u)
        return t
    map_effects(effs, look)
    if not back or fwd or k in atoms(N):
        return effs
    return map_effects(effs, lambda t: subst(t, {k: last}))


def map_effects(effs, f):
    out = []
    for e in effs:
        a = {}
        for k, v in e.a.items():
            if isinstance(v, T):
                a[k] = f(v)
            elif k in ("then", "els", "body"):
                a[k] = map_effects(v, f)
            elif k == "args":
                a[k] = [f(x) for x in v]
            elif k == "phis":
                a[k] = {p: (f(x), f(y)) for p, (x, y) in v.items()}
            else:
                a[k] = v
        out.append(E(e.kind, e.span, **a))
    return out


def walk(effs, ctx=()):
    """yield (effect, enclosing effects) in program order"""
    for e in effs:
        yield e, ctx
        if e.kind == "if":
            yield from walk(e.then, ctx + ((e, True),))
            yield from walk(e.els, ctx + ((e, False),))
        elif e.kind == "loop":
            yield from walk(e.body, ctx + ((e, None),))


class FnRef:
    """a resolved callee (hashable, interned by canonical content)"""
    _tab = {}

    def __init__(self, fr, c):
        self.c = c
        self.crate = fr.fn.crate
        self._name = None

    @staticmethod
    def of(fr, c):
        k = (fr.fn.crate.name, c["key"], (c.get("r") or {}).get("key"))
        r = FnRef._tab.get(k)
        if r is None:
            r = FnRef(fr, c)
            FnRef._tab[k] = r
        return r

    def __repr__(self):
        return self.c["path"].split("::")[-1]

    @property
    def path(self):
        return self.c["path"]

    @property
    def rpath(self):
        r = self.c.get("r")
        return r["path"] if r else self.c["path"]

    def types(self, i):
        return self.crate.types[i]

    def targs(self):
        return [self.crate.types[x] for x in self.c.get("targs", [])]

    def name(self, it):
        if self._name is None:
            class F:
                pass
            f = F()
            f.fn = F()
            f.fn.crate = self.crate
            self._name = it.callee_name(f, self.c)
        return self._name

    def arg_tys(self, it):
        b = None
        r = self.c.get("r")
        if r:
            b = it.prog.fns.get(r["key"])
        if b is not None:
            return [b.crate.types[b.locals[i + 1]] for i in range(b.nargs)]
        return it.opaque_arg_tys(self) if hasattr(it, "opaque_arg_tys") else []
