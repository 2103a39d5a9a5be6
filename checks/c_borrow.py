"""Programs that would use a freed, shared or foreign buffer must not compile (C27): compile-fail witnesses with compile-pass controls,
judged by rustc's type and borrow checker against /repo's current source."""
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import facts

# what the type and borrow checker says about ownership, lifetimes, mutability and thread-safety
BORROW = {"E0277", "E0310", "E0309", "E0311", "E0373", "E0381", "E0382", "E0495", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515",
          "E0521", "E0594", "E0596", "E0597", "E0621", "E0700", "E0713", "E0716", "lifetime"}
DIR = os.path.join(facts.VERIF, "borrow")


def library():
    """type-checks prima_undine and returns (rmeta, dependency directories)"""
    tmp = os.path.join(facts.BUILD, "borrow")
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(facts.BUILD, "target_b")
    for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER"):
        env.pop(k, None)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "src"))
    with open(os.path.join(tmp, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "borrow"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                'prima_undine = { path = "%s/prima_undine" }\n[workspace]\n' % facts.REPO)
    open(os.path.join(tmp, "src", "lib.rs"), "w").close()
    if os.path.exists(os.path.join(facts.REPO, "Cargo.lock")):
        shutil.copy(os.path.join(facts.REPO, "Cargo.lock"), os.path.join(tmp, "Cargo.lock"))
    base = ["cargo", "+nightly"]
    for p in ("prima_undine", "borrow"):
        facts.sh(base + ["clean", "--offline", "-p", p], cwd=tmp, env=env)
    for i in (0, 1):
        r = facts.sh(base + ["check", "--offline", "--message-format=json"], cwd=tmp, env=env)
        if r.returncode == 0:
            break
    if r.returncode != 0:
        return None, r.stdout[-600:]
    rmeta, dirs = None, set()
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                f = [x for x in m["filenames"] if x.endswith((".rmeta", ".so"))]
                dirs |= {os.path.dirname(x) for x in f}
                if m["target"]["name"] == "prima_undine" and f:
                    rmeta = f[0]
    return (rmeta, sorted(dirs)) if rmeta else (None, "no metadata")


def variant(text, kind):
    drop = "//~ good" if kind == "bad" else "//~ bad"
    return "\n".join(l for l in text.split("\n") if not l.rstrip().endswith(drop)) + "\n"


def judge(args):
    """error codes of one program; [] when it compiles"""
    name, kind, text, rmeta, deps, tmp = args
    p = os.path.join(tmp, "%s_%s.rs" % (name, kind))
    with open(p, "w") as f:
        f.write(variant(text, kind))
    r = facts.sh(["rustc", "+nightly", "--edition", "2021", "--crate-type", "bin", "--crate-name", "w_%s_%s" % (name, kind), "--emit=metadata",
                  "--error-format=json", "--extern", "prima_undine=" + rmeta] + [x for d in deps for x in ("-L", "dependency=" + d)] + ["-o", p + ".rmeta", p])
    codes, msgs = [], []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error" or m["message"].startswith("aborting"):
            continue
        c = (m.get("code") or {}).get("code")
        if c is None:
            c = "lifetime" if "lifetime" in m["message"] or "does not live long enough" in m["message"] else "?"
        codes.append(c)
        sp = m["spans"][0] if m.get("spans") else None
        msgs.append("%s%s" % (m["message"], " (line %d: %s)" % (sp["line_start"], sp["text"][0]["text"].strip()) if sp and sp.get("text") else ""))
    if r.returncode != 0 and not codes:
        codes, msgs = ["?"], [r.stdout[-300:]]
    return name, kind, codes, msgs


def run_borrow(ctx):
    ctx.rule = ("Every witness program does one thing the documentation of ownership forbids; rustc's type and borrow checker must refuse it for a lifetime, "
                "borrow, move, mutability or thread-safety reason, while the same program without that step must be accepted. Nothing is executed.")
    ctx.prog
    os.makedirs(facts.BUILD, exist_ok=True)
    names = sorted(f[:-3] for f in os.listdir(DIR) if f.endswith(".rs"))
    with open(os.path.join(facts.BUILD, "lock_b"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rmeta, deps = library()
        if rmeta is None:
            return ctx.undecided("library", "prima_undine does not type-check: " + deps)
        tmp = os.path.join(facts.BUILD, "borrow", "w")
        os.makedirs(tmp, exist_ok=True)
        jobs = []
        what = {}
        for n in names:
            t = open(os.path.join(DIR, n + ".rs")).read()
            what[n] = t.split("\n")[0].lstrip("/ ")
            for k in ("good", "bad"):
                jobs.append((n, k, t, rmeta, deps, tmp))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = {(n, k): (c, m) for n, k, c, m in ex.map(judge, jobs)}
    done = 0
    for n in names:
        gc, gm = res[(n, "good")]
        bc, bm = res[(n, "bad")]
        w = "borrow/%s.rs" % n
        ctx.analysed.add(n)
        if gc:
            if set(gc) <= BORROW:
                ctx.violation(n + ":accepted", "a program which respects the rule that %s is refused: %s" % (what[n], "; ".join(gm)[:400]), w)
                done += 1
            else:
                ctx.undecided(n, "the control program is not understood any more: %s" % "; ".join(gm)[:300])
            continue
        ctx.ok(n + ":accepted")
        if not bc:
            ctx.violation(n, "the rule that %s is not enforced: a program which breaks it compiles" % what[n], w)
        elif set(bc) <= BORROW:
            ctx.ok(n)
        else:
            ctx.undecided(n, "refused for another reason: %s" % "; ".join(bm)[:300])
            continue
        done += 1
    ctx.floor("witness programs decided", done, 30)
    unsafe_impls(ctx)


def unsafe_impls(ctx):
    """a hand-written thread-safety claim for a type of the library overrides what the compiler derives"""
    rx = re.compile(r"unsafe\s+impl\s*(<[^{]*?>)?\s*(Send|Sync)\s+for\s+([\w:]+)")
    n = 0
    for p in facts.repo_sources():
        if not p.endswith(".rs"):
            continue
        n += 1
        for m in rx.finditer(open(p).read()):
            if m.group(3).split("::")[-1] in ("Node", "DataRef", "OperatorInfo", "NodeData", "Parameter"):
                ctx.violation("unsafe impl %s" % m.group(3), "%s is declared %s by hand although it holds unsynchronised cells or counters" % (m.group(3), m.group(2)),
                              os.path.relpath(p, facts.REPO))
            else:
                ctx.undecided("unsafe impl " + m.group(3), "hand-written %s" % m.group(2))
    ctx.ok("source files scanned: %d" % n)
