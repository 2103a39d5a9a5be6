"""Extraction of facts from /repo's current source (MIR dumps) and their index."""
import hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE,
                       text=True, check=True)
    return r.stdout.strip()


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(d, f))
    return out


def ensure_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "mirdump")
    stamp = exe + ".hash"
    h = file_hash([src])
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", exe])
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit("error: cannot build the MIR extractor")
    with open(stamp, "w") as f:
        f.write(h)
    return exe


PKGS = ["prima_undine", "prima_undine_contrib", "prima_undine_derive"]


def dump_dir():
    """(Re)extract the MIR of /repo's current working tree and of the witness crate."""
    import fcntl
    exe = ensure_driver()
    os.makedirs(os.path.join(BUILD, "dumps"), exist_ok=True)
    wit = os.path.join(VERIF, "witness")
    wsrc = [os.path.join(d, f) for d, _, fs in os.walk(wit) for f in fs
            if f.endswith((".rs", ".toml")) and "target" not in d] if os.path.isdir(wit) else []
    h = file_hash(repo_sources() + wsrc + [os.path.join(VERIF, "driver", "main.rs"), os.path.abspath(__file__)])[:24]
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "dumps", h)
        if os.path.exists(os.path.join(d, "done")):
            return d
        # keep only a few cached dumps
        olds = sorted((os.path.join(BUILD, "dumps", x) for x in os.listdir(os.path.join(BUILD, "dumps"))),
                      key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["VP_DUMP_DIR"] = d
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env.pop("RUSTFLAGS", None)
        # what an optimised build keeps: a debug_assert! guards nothing there (overflow checks stay visible as such)
        env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
        env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
        base = ["cargo", "+nightly"]
        for p in PKGS:
            sh(base + ["clean", "--offline", "--locked", "-p", p], cwd=REPO, env=env)
        r = sh(base + ["check", "--offline", "--locked", "--workspace", "--all-features"],
               cwd=REPO, env=env)
        if r.returncode != 0:
            r = sh(base + ["check", "--offline", "--locked", "--workspace", "--all-features"],
                   cwd=REPO, env=env)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            raise SystemExit("error: /repo does not type-check; nothing can be decided")
        if wsrc:
            tmp = os.path.join(BUILD, "witness")
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(wit, tmp, ignore=shutil.ignore_patterns("target"))
            for f in ("Cargo.toml",):
                p = os.path.join(tmp, f)
                s = open(p).read().replace("@REPO@", REPO)
                open(p, "w").write(s)
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(tmp, "Cargo.lock"))
            env2 = dict(env)
            env2["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target_w")
            for p in ("prima_undine", "prima_undine_derive", "witness"):
                sh(base + ["clean", "--offline", "-p", p], cwd=tmp, env=env2)
            r = sh(base + ["check", "--offline"], cwd=tmp, env=env2)
            if r.returncode != 0:
                open(os.path.join(d, "witness_error.txt"), "w").write(r.stdout)
        for p in PKGS:
            if not os.path.exists(os.path.join(d, p + ".json")):
                raise SystemExit("error: extraction produced no facts for " + p)
        open(os.path.join(d, "done"), "w").write("ok")
        return d


class Fn:
    def __init__(self, crate, j):
        self.crate = crate
        self.j = j
        self.key = j["key"]
        self.path = j.get("path", j["key"])
        self.name = j.get("name")
        self.nargs = j["args"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.trait = j.get("trait")
        self.self_ty = j.get("self")
        self.closure = j.get("closure", False)
        self.cfg = None
        self.argnames = {n: x for n, x in j.get("names", [])}

    def ty(self, i):
        return self.crate.types[i]

    def __repr__(self):
        return "<fn %s>" % self.path


class Crate:
    def __init__(self, j):
        self.name = j["crate"]
        self.types = j["types"]
        self.impls = j["impls"]
        self.adts = j["adts"]
        self.fns = {}
        self.promoted = {}
        for f in j["fns"]:
            self.fns[f["key"]] = Fn(self, f)
        for f in j["promoted"]:
            self.promoted[f["key"]] = Fn(self, f)


def strip_ty(t):
    """short, lifetime- and reference-free rendering of a type string"""
    t = re.sub(r"'\w+ ?", "", t)
    t = t.replace("{erased}", "")
    t = re.sub(r"&(mut )?", "", t)
    t = re.sub(r"\b(?:\w+::)+", "", t)
    t = t.replace("<>", "").replace("dyn ", "")
    t = re.sub(r"<(, )+", "<", t)
    return t.strip()


class Program:
    def __init__(self, d=None):
        self.dir = d or dump_dir()
        self.crates = {}
        self.fns = {}
        self.promoted = {}
        for n in sorted(os.listdir(self.dir)):
            if n.endswith(".json"):
                with open(os.path.join(self.dir, n)) as f:
                    c = Crate(json.load(f))
                self.crates[c.name] = c
                self.fns.update(c.fns)
                self.promoted.update(c.promoted)
        self.main = self.crates["prima_undine"]

    def find(self, pred, crate=None):
        return [f for f in self.fns.values()
                if (crate is None or f.crate.name == crate) and pred(f)]

    # canonical short name of a function body
    def fname(self, f):
        if f.closure:
            return strip_path(f.j.get("parent", f.path)) + "::{closure}"
        if f.self_ty is not None:
            st = strip_ty(f.crate.types[f.self_ty]["s"])
            if f.trait:
                ta = [strip_ty(f.crate.types[x]["s"]) for x in f.j.get("trargs", [])]
                tr = f.trait.split("::")[-1]
                return "%s.%s%s::%s" % (st, tr, "<%s>" % ",".join(ta) if ta else "", f.name)
            return "%s::%s" % (st, f.name)
        return strip_path(f.path)


def strip_path(p):
    return p


def load():
    return Program()
