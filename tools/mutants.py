#!/usr/bin/env python3
"""Systematic small changes: applies every one of a fixed set of token-level changes to every place of the
non-test code of the repository (in scratch copies), drops those that do not compile or fail the existing tests,
and runs the quick checks on the rest until one objects. Lists the changes nothing objects to.
  mutants.py list | run OUT.jsonl [workers] [file-substring] | one N"""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
SRC = "/repo/src"
SWAPS = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["/"], "<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"],
         ">=": [">", "<="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}
NAMES = {"true": ["false"], "false": ["true"], "sin": ["cos"], "cos": ["sin"], "exp": ["ln"], "ln": ["exp"], "is_zero": ["is_one"], "is_one": ["is_zero"],
         "is_pi": ["is_e"], "is_e": ["is_pi"], "zero": ["one"], "one": ["zero"], "PI": ["E"], "E": ["PI"], "pi": ["e"],
         "checked_add": ["wrapping_add", "checked_sub"], "checked_sub": ["wrapping_sub", "checked_add"], "checked_mul": ["wrapping_mul", "checked_add"],
         "Infinitesimal": ["Infinity", "BoundedFluctuation"], "Infinity": ["Infinitesimal", "BoundedFluctuation"], "BoundedFluctuation": ["Infinity", "Infinitesimal"],
         "Add": ["Sub"], "Sub": ["Add"], "Mul": ["Div"], "Div": ["Mul"], "Sin": ["Cos"], "Cos": ["Sin"], "Exp": ["Ln"], "Ln": ["Exp"], "Neg": ["Sin"], "Pow": ["Mul"],
         "i64": ["i32"], "u64": ["u32"], "f64": ["f32"], "i128": ["i64"], "u128": ["u64"], "all": ["any"], "any": ["all"], "rev": ["into_iter"],
         "is_some": ["is_none"], "is_none": ["is_some"], "is_ok": ["is_err"], "nominator": ["denominator"], "denominator": ["nominator"],
         "l": ["r"], "r": ["l"], "a": ["b"], "b": ["a"], "self": ["rhs", "other"], "rhs": ["self"], "l_": ["r_"], "r_": ["l_"], "abs": ["signum"], "unsigned_abs": [], "max": ["min"], "min": ["max"],
         "left": ["right"], "right": ["left"], "sign": ["-sign"]}
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|\'[a-z_]+|[A-Za-z_][A-Za-z_0-9]*!?|\d[\d_]*(?:\.\d+)?(?:_?[a-z]\w*)?|&&|\|\||<=|>=|==|!=|->|=>|::|\.\.=|\.\.|[-+*/%]=|<<|>>|.|\n', re.S)

def mutants():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith(".rs") or f == "tests.rs" or f == "main.rs": continue
            p = os.path.join(d, f); t = open(p).read()
            cut = re.search(r'#\[cfg\((test|symbolic_rust_verif)\)\]', t)
            end = cut.start() if cut else len(t)
            toks = [(m.start(), m.group()) for m in TOK.finditer(t)]
            def add(s, e, new, what):
                if s < end: out.append((os.path.relpath(p, SRC), s, e, new, what))
            inuse = False
            for k, (s, w) in enumerate(toks):
                prev = next((x[1] for x in reversed(toks[:k]) if not x[1].isspace()), "")
                nxt = next((x[1] for x in toks[k+1:] if not x[1].isspace()), "")
                if w in ("use", "mod"): inuse = True
                if w == ";": inuse = False
                if inuse: continue
                spaced = s > 0 and t[s-1] == " " and t[s+len(w):s+len(w)+1] in (" ", "\n")
                if w in SWAPS and (spaced or w in ("&&", "||", "==", "!=", "<=", ">=")) and not (w == "||" and prev in ("(", ",")):
                    for n in SWAPS[w]: add(s, s+len(w), n, f"{w} -> {n}")
                elif w == "!" and nxt not in ("(", "[", "=") and not prev.isidentifier(): add(s, s+1, "", "drop !")
                elif w == "-" and not spaced and nxt not in (">",): add(s, s+1, "", "drop unary -")
                elif re.fullmatch(r"\d[\d_]*(_?[a-z]\w*)?", w) and prev != ".":
                    m = re.match(r"[\d_]+", w).group(); v = int(m.replace("_", "")); suf = w[len(m):]
                    for n in {v+1, max(v-1, 0), 0} - {v}: add(s, s+len(w), f"{n}{suf}", f"{w} -> {n}{suf}")
                elif w in NAMES:
                    for n in NAMES[w]: add(s, s+len(w), n, f"{w} -> {n}")
                elif w == "if" and nxt != "let":
                    # condition up to the block
                    d2 = 0
                    for (s2, w2) in toks[k+1:]:
                        if w2 in "([": d2 += 1
                        if w2 in ")]": d2 -= 1
                        if w2 in ("{", "=>") and d2 == 0:
                            for n in (" true ", " false "): add(s+2, s2, n, "if" + n)
                            break
                elif w.isidentifier() and prev == "." and nxt == "(" and w in ("num_aggregate", "reduce", "clone", "abs", "neg", "trim"):
                    m = re.match(r"\s*\(\)", t[s+len(w):])
                    if m and w != "clone": add(t.rindex(".", 0, s), s+len(w)+m.end(), "", f"drop .{w}()")
                elif w == "?" : pass
            # whole statements
            for m in re.finditer(r"^[ \t]+[a-z_][\w.]*\s*(=|\+=|-=|\*=|/=)[^=;{}]*;[ \t]*\n", t, re.M): add(m.start(), m.end(), "", "drop " + m.group().strip()[:40])
            for m in re.finditer(r"^[ \t]+[a-z_][\w.]*\([^;{}]*\);[ \t]*\n", t, re.M): add(m.start(), m.end(), "", "drop " + m.group().strip()[:40])
            for m in re.finditer(r"^[ \t]+return [^;{}]*;[ \t]*\n", t, re.M): add(m.start(), m.end(), "", "drop " + m.group().strip()[:40])
            # single lines of a match or chain
            for m in re.finditer(r"^([ \t]+)\S[^\n]*=> ([^\n{]*),[ \t]*(//[^\n]*)?\n", t, re.M): add(m.start(), m.end(), "", "drop arm " + m.group().strip()[:60])
    seen, res = set(), []
    for m in out:
        key = m[:4]
        if key not in seen: seen.add(key); res.append(m)
    return res

def apply(repo, m):
    p = os.path.join(repo, "src", m[0]); t = open(p).read()
    open(p, "w").write(t[:m[1]] + m[3] + t[m[2]:])

def line(m):
    t = open(os.path.join(SRC, m[0])).read(); n = t.count("\n", 0, m[1]) + 1
    return n, t.split("\n")[n-1].strip()

ORDER = {"smart_num": "C03 C05 C04 C20 C01 C02", "num_aggregate": "C08 C07", "derivative": "C10 C09 C18", "substitute": "C11 C18", "limit": "C16 C15 C17 C18 C20", "taylor": "C13 C12 C18 C20", "ast": "C06 C14 C18 C20 C04 C03", "math_op": "C06 C20"}
def order(f):
    first = []
    for k, v in ORDER.items():
        if k in f: first += [c for c in v.split() if c not in first]
    rest = "C04 C16 C18 C17 C15 C14 C06 C05 C10 C11 C13 C09 C20 C08 C03 C07 C02 C12 C24 C23 C26 C22 C25 C01".split()
    return first + [c for c in rest if c not in first]

def run_one(n, m, w):
    repo, tgt = f"/tmp/mut/w{w}/repo", f"/tmp/mut/w{w}/target"
    cpus = f"{2*w},{2*w+1}"
    env = dict(os.environ, CARGO_TARGET_DIR=f"/tmp/mut/w{w}/rt", CARGO_NET_OFFLINE="true")
    sh = lambda c, t, e=None: subprocess.run(["taskset", "-c", cpus, "bash", "-c", c], cwd=repo, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    subprocess.run(f"git checkout -q -- . ", shell=True, cwd=repo)
    apply(repo, m)
    ln, tx = line(m)
    r = {"n": n, "file": m[0], "line": ln, "text": tx[:160], "what": m[4]}
    try:
        b = sh("timeout 100 cargo check --offline --quiet 2>&1; echo rc=$?", 150)
        if not b.stdout.strip().endswith("rc=0"): return dict(r, res="nocompile")
        b = sh("timeout 100 cargo test --offline --quiet 2>&1; echo rc=$?", 150)
        if "error" in b.stdout and "could not compile" in b.stdout: return dict(r, res="nocompile")
        if not b.stdout.strip().endswith("rc=0"): return dict(r, res="tests")
    except subprocess.TimeoutExpired: return dict(r, res="tests-timeout")
    noans = []
    for c in order(m[0]):
        try:
            k = sh(f"timeout 500 bash /tmp/mut/verif/check.sh {c} quick 2>&1; echo rc=$?", 600, dict(os.environ, SYMCHECK_REPO=repo, SYMCHECK_TARGET=tgt))
        except subprocess.TimeoutExpired: noans.append(c); continue
        if f"VIOLATION property={c}" in k.stdout: return dict(r, res="caught", by=c, noans=noans)
        if "rc=0" not in k.stdout: noans.append(c + k.stdout[-100:])
    return dict(r, res="SURVIVES", noans=noans)

def main():
    ms = mutants()
    what = sys.argv[1]
    if what == "list":
        for n, m in enumerate(ms): ln, tx = line(m); print(n, m[0], ln, m[4], "|", tx[:100])
        return
    if what == "one":
        m = ms[int(sys.argv[2])]; print(m); return
    outp = sys.argv[2]; nw = int(sys.argv[3]) if len(sys.argv) > 3 else 4; sub = sys.argv[4] if len(sys.argv) > 4 else ""
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add(d["n"])
    subprocess.run("rm -rf /tmp/mut/verif; mkdir -p /tmp/mut/verif && cd /verif && git archive HEAD harness check.sh env.sh known_findings.txt | tar x -C /tmp/mut/verif; mkdir -p /tmp/mut/verif/evidence", shell=True, check=True)
    q = Queue()
    for w in range(nw):
        os.makedirs(f"/tmp/mut/w{w}", exist_ok=True)
        subprocess.run(f"rm -rf /tmp/mut/w{w}/repo; git clone -q /repo /tmp/mut/w{w}/repo", shell=True, check=True)
        q.put(w)
    import threading; lock = threading.Lock()
    def job(x):
        n, m = x; w = q.get()
        try: r = run_one(n, m, w)
        except Exception as e: r = {"n": n, "res": "error", "e": repr(e)[:300]}
        finally: q.put(w)
        with lock:
            open(outp, "a").write(json.dumps(r) + "\n")
    import random
    todo = [(n, m) for n, m in enumerate(ms) if n not in done and sub in m[0]]
    random.Random(1).shuffle(todo)
    with ThreadPoolExecutor(nw) as ex: list(ex.map(job, todo))

main()
