import sys
from terms import *
import interp

def pe(effs, d=0, out=sys.stdout):
    p = "  " * d
    for e in effs:
        if e.kind == "loop":
            print(p + "for %s < %s [%s]%s" % (show(e.k)[-12:], show(e.N), e.lkind, "".join("\n" + p + "   phi %s: %s -> %s" % (show(a)[-40:], show(b[0]), show(b[1])) for a, b in e.phis.items())), file=out)
            pe(e.body, d + 1, out)
        elif e.kind == "if":
            print(p + "if " + show(e.cond), file=out); pe(e.then, d + 1, out)
            if e.els:
                print(p + "else", file=out); pe(e.els, d + 1, out)
        elif e.kind == "call":
            print(p + "call %s(%s)" % (e.name, ", ".join(show(x)[:160] for x in e.args)), file=out)
        elif e.kind == "store":
            print(p + "%s[%s] := %s" % (show(e.base), show(e.idx), show(e.val)), file=out)
        elif e.kind == "set":
            print(p + "set %s.%s := %s" % (show(e.base), ".".join(map(str,e.path)), show(e.val)[:300]), file=out)
        elif e.kind == "assert":
            print(p + "assert %s (%s)" % (show(e.cond), e.why), file=out)
        else:
            print(p + e.kind, {k: show(v) if isinstance(v, T) else v for k, v in e.a.items()}, file=out)

if __name__ == "__main__":
    import facts, re
    import policies
    P = facts.Program()
    lay = interp.Policy
    for pat in sys.argv[1:]:
        if pat.startswith("--"):
            lay = getattr(policies, pat[2:])
            continue
        for f in P.fns.values():
            if re.search(pat, P.fname(f)) and not f.closure and "tests::" not in f.path:
                print("=====", P.fname(f), f.path)
                it = interp.Interp(P, lay())
                s = it.summarize(f)
                pe(s.effects)
                print("ret", show(s.ret)[:1500] if s.ret is not None else None)
