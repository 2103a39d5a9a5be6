#!/usr/bin/env python3
"""mkseed.py FILE: FILE is a python literal {id, property, needs, what, edits:[(path, old, new)], main} -> seeded/<id>/"""
import sys, os, json, subprocess, ast, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkseedwork"
PRE = """#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use prima_undine::*;
use prima_undine::devices as dev;
"""
HELP = """
fn close(got: &[f32], want: &[f32]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() <= 1e-4 * (1. + b.abs()))
}
fn check(name: &str, got: &[f32], want: &[f32]) {
    if !close(got, want) {
        eprintln!("{}: got {:?}, want {:?}", name, got, want);
        std::process::exit(1);
    }
}
fn panics<F: FnOnce() -> R + std::panic::UnwindSafe, R>(f: F) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f).is_err();
    let _ = std::panic::take_hook();
    r
}
"""
def one(s):
    d = os.path.join(V, "seeded", s["id"])
    if os.path.isdir(W):
        shutil.rmtree(W)
    subprocess.check_call("git clone -q /repo " + W, shell=True)
    for p, o, n in s["edits"]:
        q = os.path.join(W, p)
        t = open(q).read()
        if t.count(o) != 1:
            print(s["id"], "EDIT OCCURS", t.count(o), "TIMES", p, o[:60]); return
        open(q, "w").write(t.replace(o, n))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output("git diff", shell=True, cwd=W, text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(PRE + s["main"] + HELP)
    shutil.copy(os.path.join(V, "tools", "demo.sh"), d + "/demo.sh")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
for f in sys.argv[1:]:
    for s in ast.literal_eval(open(f).read()):
        one(s)
