"""Walking effect trees."""
from terms import *


def walk(effs, path=()):
    """every effect with the tuple of enclosing ('loop',e) / ('if',cond,polarity) contexts"""
    for e in effs:
        yield e, path
        if e.kind == "loop":
            yield from walk(e.body, path + (("loop", e),))
        elif e.kind == "if":
            yield from walk(e.then, path + (("if", e.cond),))
            if e.els:
                yield from walk(e.els, path + (("if", bnot(e.cond)),))


def unroll(effs, limit=8):
    """effects with loops of a small constant extent written out"""
    from interp import map_effects
    out = []
    for e in effs:
        if e.kind == "loop":
            body = unroll(e.body, limit)
            if e.lkind == "count" and is_num(e.N) and 0 <= e.N.args[0] <= limit and not e.a.get("phis"):
                for i in range(int(e.N.args[0])):
                    m = {e.k: num(i)}
                    out += map_effects(body, lambda t: subst(t, m))
                continue
            e = e.__class__(e.kind, e.span, **dict(e.a, body=body)) if body is not e.body else e
        elif e.kind == "if":
            e = e.__class__(e.kind, e.span, **dict(e.a, then=unroll(e.then, limit), els=unroll(e.els, limit) if e.els else e.els))
        out.append(e)
    return out


def calls(effs, pred=None):
    for e, p in walk(effs):
        if e.kind == "call" and (pred is None or pred(e.name)):
            yield e, p


def strval(t):
    """the constant string a term denotes, else None"""
    if t.op == "str":
        return t.args[0]
    return None


def elems(t):
    """elements of an array/slice literal term, else None"""
    if t.op == "agg" and t.args[0] in (("array",), "array"):
        return list(t.args[1:])
    return None
