"""Dispatch: which kernels exist, which are asked for, and that both sides agree."""
from terms import *
from effects import *
import policies

REG = {"register_fw_impl": "fw", "register_fw_u32_impl": "fw_u32",
       "register_fw_f32_impl": "fw_f32", "register_bw_impl": "bw"}
CALL = {"call_fw_impl": "fw", "call_fw_u32_impl": "fw_u32",
        "call_fw_f32_impl": "fw_f32", "call_bw_impl": "bw"}
TRAIT = {"fw": "FunctionFwImpl", "fw_u32": "FunctionFwU32Impl", "fw_f32": "FunctionFwF32Impl", "bw": "FunctionBwImpl"}


def kernel_registry(ctx):
    """(complete, {(table,name): [kernel type short name,...]}) as built by the native device's constructor"""
    s = ctx.summary("Naive::new", policies.RegistryLayer)
    if s is None:
        return False, {}
    reg, complete = {}, True
    for e, path in calls(s.effects):
        n = e.name.split("::")[-1]
        if e.name.startswith("Device::register_") and n in REG:
            nm = strval(e.args[1])
            v = e.args[2]
            ty = v.args[0][1].split("::")[-1] if v.op == "agg" and v.args[0][0] == "adt" else None
            if nm is None or any(p[0] == "loop" for p in path):
                complete = False
                continue
            if any(p[0] == "if" for p in path):
                complete = False
            reg.setdefault((REG[n], nm), []).append(ty)
        elif e.name.startswith("HashMap::insert"):
            complete = False
    if s.effects and any(e.kind == "call" and e.name.startswith("?") for e, _ in walk(s.effects)):
        complete = False
    return complete, reg


def device_functions(ctx):
    """every method whose receiver is the device and that reaches kernel dispatch"""
    ctx.prog
    out = []
    for n, fs in sorted(ctx.byname.items()):
        for f in fs:
            if f.crate.name == "prima_undine" and n.startswith("Device.") or n.startswith("Device::"):
                if n.split("::")[-1] in CALL or n.split("::")[-1] in REG:
                    continue
                out.append((n, f))
    return out


def dispatches(ctx, f):
    s = ctx.summary(f, policies.DeviceLayer)
    if s is None:
        return
    for e, path in calls(s.effects):
        n = e.name.split("::")[-1]
        if e.name.startswith("Device::call_") and n in CALL:
            yield CALL[n], strval(e.args[1]), e, path


def run_registry(ctx):
    ctx.rule = ("Every kernel name a device function passes to dispatch is enumerated from the MIR "
                "of the device functions and looked up in the table the native device's constructor fills; "
                "one obligation per (device function, dispatch site) and per table lookup/insert routine.")
    complete, reg = kernel_registry(ctx)
    if not reg:
        ctx.violation("registry:none", "no kernel registration found in the native device constructor")
        return
    nd = 0
    used = set()
    ctx.prog
    for n, fs in sorted(ctx.byname.items()):
        for f in fs:
            if f.crate.name != "prima_undine" and not n.startswith("Device"):
                continue
            if n.startswith("Device::call_") or n.startswith("Device::register_"):
                continue
            if not (n.startswith("Device.") or n.startswith("Device::")):
                continue
            for table, nm, e, path in dispatches(ctx, f):
                if nm is None:
                    ctx.undecided("dispatch:" + n, "kernel name is not a compile-time constant")
                    continue
                nd += 1
                used.add((table, nm))
                if (table, nm) in reg:
                    ctx.ok("dispatch:%s:%s" % (n, nm))
                elif complete:
                    other = [t for (t, x) in reg if x == nm]
                    ctx.violation("dispatch:%s:%s" % (n, nm),
                                  "%s dispatches kernel %r in table %s, which the native device never registers%s" % (
                                      n, nm, table, " (registered in %s)" % other if other else ""), ctx.where(f))
                else:
                    ctx.undecided("dispatch:%s:%s" % (n, nm), "registry not fully enumerable")
    names = {nm for _, nm in reg}
    for (tb, nm), v in sorted(reg.items()):
        for ty in v:
            if ty is None:
                continue
            for other in names:
                if ty == camel(other) and other != nm:
                    ctx.violation("kernel:%s" % nm, "the kernel registered as %s is %s, which implements %s" % (nm, ty, other), ctx.where("Naive::new"))
                    break
            else:
                ctx.ok("kernel:%s=%s" % (nm, ty))
    import c_device
    for n, f, s, sp in c_device.each(ctx):
        want = sp.kernel
        for e, p in calls(s.effects):
            if e.name.startswith("Device::call_") and e.name.split("::")[-1] in CALL:
                nm = strval(e.args[1])
                if nm is not None and nm != want:
                    ctx.violation("request:%s" % n, "operation %s asks for kernel %s" % (n, nm), ctx.where(f))
                elif nm is not None:
                    ctx.ok("request:%s=%s" % (n, nm))
    for k, v in sorted(reg.items()):
        if len(v) > 1:
            ctx.violation("duplicate:%s:%s" % k, "kernel %s registered %d times in table %s; the earlier one is unreachable" % (k[1], len(v), k[0]),
                          ctx.where("Naive::new"))
        else:
            ctx.ok("registered-once:%s:%s" % k)
    if nd < 60:
        ctx.violation("anchor:dispatch", "only %d dispatch sites found; the analysis lost its anchors" % nd)
    run_tables(ctx)


def run_tables(ctx):
    """each register routine fills, and each call routine reads, one table; pairs agree; arguments pass through in order"""
    ins, get = {}, {}
    for r, t in REG.items():
        s = ctx.summary("Device::" + r, policies.TableLayer)
        if s is None:
            ctx.violation("anchor:" + r, "registration routine missing")
            continue
        for e, _ in calls(s.effects, lambda n: n == "HashMap::insert"):
            ins[t] = e.args[0]
            ctx.require(e.args[1].op == "tostr" and contains(e.args[1], lambda x: x is s.args[1]) or e.args[1] is s.args[1],
                        "insert-key:" + t, "%s does not insert under the given name: %s" % (r, show(e.args[1])), ctx.where("Device::" + r))
            ctx.require(contains(e.args[2], lambda x: x is s.args[2]), "insert-value:" + t,
                        "%s does not insert the given kernel" % r, ctx.where("Device::" + r))
    for r, t in CALL.items():
        s = ctx.summary("Device::" + r, policies.TableLayer)
        if s is None:
            ctx.violation("anchor:" + r, "dispatch routine missing")
            continue
        g = [e for e, _ in calls(s.effects, lambda n: n == "HashMap::get")]
        c = [e for e, _ in calls(s.effects, lambda n: n.endswith(TRAIT[t] + "::call"))]
        if len(g) != 1 or len(c) != 1:
            ctx.undecided("call:" + r, "dispatch body has %d lookups, %d calls" % (len(g), len(c)))
            continue
        get[t] = g[0].args[0]
        ctx.require(g[0].args[1] is s.args[1], "lookup-key:" + t, "%s looks up %s" % (r, show(g[0].args[1])), ctx.where("Device::" + r))
        ctx.require(list(c[0].args[1:]) == list(s.args[2:]), "forward-args:" + t,
                    "%s forwards (%s)" % (r, ", ".join(show(x) for x in c[0].args[1:])), ctx.where("Device::" + r))
        ctx.require(contains(c[0].args[0], lambda x: x is g[0].res), "forward-callee:" + t,
                    "%s does not call the kernel it looked up" % r, ctx.where("Device::" + r))
    tabs = {}
    for t in ins:
        a, b = ins[t], get.get(t)
        if b is None:
            continue
        fa, fb = fieldname(a), fieldname(b)
        ctx.require(fa == fb, "same-table:" + t, "kernels of kind %s are registered in %s but looked up in %s" % (t, fa, fb), ctx.where("Device::call_%s_impl" % t))
        if fa in tabs:
            ctx.violation("distinct-table:" + t, "kinds %s and %s share one table" % (t, tabs[fa]))
        tabs[fa] = t


def camel(n):
    return "".join(w[:1].upper() + w[1:] for w in n.split("_"))


def fieldname(t):
    return show(t).split(".")[-1]
