#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the definitions in seed_defs.py, confirms each one in a
scratch copy of /repo (builds, passes the stable tests, demo 0 before and nonzero after), and shows which
checks catch it.   seeds.py [make|catch] [id...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed_defs import SEEDS

DEMO_SH = '''#!/usr/bin/env bash
# Compiles the sources of the repository in the current directory with demo.rs and runs the result.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
sed "s#@SRC@#$PWD/src#" "$here/demo.rs" > "$work/main.rs"
rustc --edition 2021 -A warnings --cfg symbolic_rust_verif @FLAGS@ -o "$work/demo" "$work/main.rs"
timeout 120 "$work/demo"
'''
DEMO_RS = '''#![allow(warnings)]
#[path = "@SRC@/ast/mod.rs"]
mod ast;
#[path = "@SRC@/compute/mod.rs"]
mod compute;
#[path = "@SRC@/math_op/mod.rs"]
mod math_op;
#[path = "@SRC@/smart_num/mod.rs"]
mod smart_num;
use ast::op::operand::*;
use ast::tree::*;
use compute::derivative::*;
use compute::limit::verif_hook::*;
use compute::num_aggregate::*;
use compute::substitute::*;
use compute::taylor_expansion::partial_expansion::*;
use math_op::{cos::*, exp::*, ln::*, pow::*, sin::*};
use smart_num::rational::*;
use smart_num::val_holder::IsClose;
use smart_num::*;

fn v(n: &str) -> Expression {
    Expression::new_variable(n)
}
fn k(n: i64) -> Expression {
    Expression::from(n)
}
/// a fraction
fn q(s: i64, n: u64, d: u64) -> SmartNum {
    SmartNum::new_rational(s, n, d).unwrap()
}
/// value of an expression without variables
fn val(e: &Expression) -> f64 {
    use ast::op::operator::OperatorType::*;
    match &e.root {
        AstNode::Operand(o) => o.to_smart_num().expect("variable left").to_f64(),
        AstNode::Operator(o) => {
            let c: Vec<f64> = e.child.iter().map(val).collect();
            match o.descriptor {
                Neg => -c[0],
                Add => c[0] + c[1],
                Sub => c[0] - c[1],
                Mul => c[0] * c[1],
                Div => c[0] / c[1],
                Sin => c[0].sin(),
                Cos => c[0].cos(),
                Exp => c[0].exp(),
                Ln => c[0].ln(),
                Pow => c[0].powf(c[1]),
            }
        }
    }
}
/// value at points of variables
fn at(e: &Expression, vs: &[(&str, f64)]) -> f64 {
    let mut e = e.clone();
    fn put(e: &mut Expression, n: &str, f: f64) {
        let hit = matches!(&e.root, AstNode::Operand(AstOperand::Variable(w)) if w.name == n);
        if hit {
            *e = Expression::from(f);
        }
        for c in e.child.iter_mut() {
            put(c, n, f);
        }
    }
    for (n, f) in vs {
        put(&mut e, n, *f);
    }
    val(&e)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn need(ok: bool, what: &str) {
    if !ok {
        println!("FAILS: {what}");
        std::process::exit(1);
    }
}

fn main() {
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy_repo(dst):
    os.makedirs(dst)
    subprocess.check_call(f"git -C /repo archive HEAD | tar -x -C {dst}", shell=True)
    subprocess.check_call("git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm base", shell=True, cwd=dst)

def make(s, keep):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(w, "repo")
    try:
        copy_repo(c)
        for f, a, b in s["edits"]:
            p = os.path.join(c, "src", f)
            t = open(p).read()
            assert t.count(a) == 1, (s["id"], f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        patch = sh("git diff", cwd=c).stdout
        # changed lines must be lines of the original repository
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        base = s.get("base", "4643add")
        removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = ""
        for f, _, _ in s["edits"]:
            orig += sh(f"git -C /repo show {base}:src/{f}").stdout
        mine = [l for l in removed if l.strip() and l not in orig]
        ok_lines = any(l.strip() and l in orig for l in removed) or not removed
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@FLAGS@", s.get("flags", "-C debug-assertions=on -C overflow-checks=on")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(s.get("pre", "") + DEMO_RS + s["demo"].strip("\n") + "\n}\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # confirm
        b = sh("cargo build --offline 2>&1 | tail -5; cargo test --offline 2>&1 | grep -E '^test |test result|error'", cwd=c, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join("/tmp/seed-target")))
        passed = {l.split()[1] for l in b.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        npass = len(passed)
        d0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        d1 = sh(f"bash {d}/demo.sh", cwd=c)
        good = npass == len(stable) and d0.returncode == 0 and d1.returncode != 0 and ok_lines
        print(f"{'ok ' if good else 'BAD'} {s['id']:32} tests {npass}/{len(stable)} demo {d0.returncode}->{d1.returncode} lines {'ok' if ok_lines else 'NOT ORIGINAL'} {('(also mine: %d)' % len(mine)) if mine else ''}")
        if not good:
            print(b.stdout[-1500:] if npass != len(stable) else "", d0.stdout[-800:] if d0.returncode else "", d1.stdout[-300:])
        else:
            print("    ", d1.stdout.strip().splitlines()[-1][:150] if d1.stdout.strip() else "")
        return good
    finally:
        shutil.rmtree(w)

def catch(s, props):
    w = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(w, "repo")
    try:
        copy_repo(c)
        r = sh(f"git apply {V}/seeded/{s}/patch.diff", cwd=c)
        if r.returncode:
            print("does not apply", s, r.stdout); return
        own = json.load(open(f"{V}/seeded/{s}/meta.json"))["property"]
        hits, other = [], []
        ids = props or [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
        for i in ids:
            r = sh(f"bash {V}/check.sh {i} quick", env=dict(os.environ, SYMCHECK_REPO=c, SYMCHECK_TARGET="/tmp/seed-check-target"))
            if r.returncode == 1 and f"VIOLATION property={i}" in r.stdout:
                hits.append(i)
            elif r.returncode:
                other.append(f"{i}:{r.returncode}")
        print(f"{'caught' if own in hits else 'MISSED'} {s:32} own {own} by {' '.join(hits)} {'no answer: ' + ' '.join(other) if other else ''}", flush=True)
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    what = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("C") or len(a) != 3]
    props = [a for a in sys.argv[2:] if a.startswith("C") and len(a) == 3]
    if what == "make":
        for s in SEEDS:
            if not ids or s["id"] in ids:
                make(s, True)
    else:
        for s in sorted(os.listdir(os.path.join(V, "seeded"))):
            if not ids or s in ids:
                catch(s, props)
