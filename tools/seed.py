#!/usr/bin/env python3
"""seed.py ID...: verify planted bugs in a scratch copy (/tmp/seedrepo) and show which checks catch them.
   seed.py --catch ID...: only run the checks.   Without ids: all."""
import os, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedrepo"
sys.path.insert(0, os.path.join(V, "checks"))
import registry


def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    if not os.path.isdir(R):
        sh("cp -a /repo " + R)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git fetch -q /repo HEAD && git checkout -q -f %s && git checkout -q -- . && git clean -fdq" % head, cwd=R)


def passed():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    r = sh("cargo test --workspace --all-features --offline -- --test-threads 8", R, env)
    n = r.stdout.count("... ok")
    f = r.stdout.count("... FAILED")
    return n, f, r.returncode, r.stdout[-1500:]


def main():
    a = sys.argv[1:]
    only = "--catch" in a
    own = "--own" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    env = dict(os.environ, VP_REPO=R, VP_BUILD="/tmp/seedbuild")
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        fresh()
        msg = []
        if not only:
            r = sh("bash %s/demo.sh" % d, R)
            if r.returncode:
                msg.append("DEMO FAILS ON CLEAN: " + r.stdout[-600:])
        r = sh("git apply %s/patch.diff" % d, R)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            continue
        if not only:
            n, f, rc, t = passed()
            if rc or n < 210:
                msg.append("TESTS %d ok %d failed\n%s" % (n, f, t))
            r = sh("bash %s/demo.sh" % d, R)
            if r.returncode == 0:
                msg.append("DEMO PASSES WITH BUG")
            elif r.returncode == 3:
                msg.append("DEMO BUILD ERROR " + r.stdout[-800:])
        caught = []
        detail = ""
        cs = [meta["property"]] if own else sorted(registry.CHECKS)
        ps = [(c, subprocess.Popen("python3 %s/check.py %s" % (V, c), shell=True, env=env, cwd=V,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cs[:1]]
        outs = [(c, p.communicate()[0], p.returncode) for c, p in ps]
        ps = [(c, subprocess.Popen("python3 %s/check.py %s" % (V, c), shell=True, env=env, cwd=V,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cs[1:]]
        outs += [(c, p.communicate()[0], p.returncode) for c, p in ps]
        for c, o, rc in outs:
            if rc == 1 and "VIOLATION property=" + c in o:
                caught.append(c)
                if c == meta["property"]:
                    detail = o[:400]
            elif rc != 0:
                caught.append(c + "(ERR%d)" % rc)
        own_ok = meta["property"] in caught
        print("%-18s %-4s %s caught by %s %s" % (i, meta["property"], "OK  " if own_ok else "MISS", ",".join(caught), " ; ".join(msg)), flush=True)
        if "-v" in a:
            print(detail)
    fresh()


main()
