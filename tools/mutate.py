#!/usr/bin/env python3
"""development aid: plant small changes in the sources and see which ones no check reports.
mutate.py [--slots N] [--per N] [--seed S] [--out FILE] FILE...   (FILEs relative to /repo)
Works on scratch copies under /tmp/mut; prints the changes that compile and leave every check of the file's crate quiet."""
import sys, os, re, subprocess, random, json, argparse, shutil, threading, queue, importlib
ap = argparse.ArgumentParser()
ap.add_argument("--slots", type=int, default=4)
ap.add_argument("--per", type=int, default=25)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--out", default="/tmp/mut/out.jsonl")
ap.add_argument("--only", default="")
ap.add_argument("files", nargs="*")
o = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "/tmp/mut/verif"
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.run(f"mkdir -p {V} && cd {HERE} && git ls-files -z -co --exclude-standard | xargs -0 cp -u --parents -t {V}", shell=True, check=True)
sys.path.insert(0, HERE)
from tools.props import P as _P  # noqa
props = {p["id"]: p for p in _P}

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w!])!(?=[a-z(])", ""), (r"\.rev\(\)", ""), (r"\.skip\((\w+)\)", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"checked_mul", "checked_add"), (r"wrapping_add", "wrapping_sub"), (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "wrapping_add"), (r"checked_(add|sub|mul)\(([^()]*)\)\?", r"wrapping_\1(\2)"),
    (r"\b0\b(?![.x\w])", "1"), (r"\b1\b(?![.x\w])", "0"), (r"\b1\b(?![.x\w])", "2"), (r"\b([2-9]|[1-9]\d+)\b(?![.x\w])", lambda m: str(int(m[1]) + 1)), (r"\b([2-9]|[1-9]\d+)\b(?![.x\w])", lambda m: str(int(m[1]) - 1)),
    (r"\.\.=", ".."), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"is_empty\(\)", "is_empty() == false"), (r"\bSome\((\w+)\)(?! =>| =)", "None"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"to_be_bytes", "to_le_bytes"), (r"to_le_bytes", "to_be_bytes"), (r"from_be_bytes", "from_le_bytes"), (r"from_le_bytes", "from_be_bytes"),
    (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\bself\.(\w+) = [^;]+;", ""), (r"^\s*[\w.:]+\([^;{}]*\);\s*$", ""), (r"^\s*[\w.:]+\([^;{}]*\)\?;\s*$", ""),
    (r"unwrap_or\(", "min("), (r"\bif ([^{}=]+) \{", r"if true {"), (r"\bif ([^{}=]+) \{", r"if false {"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"return Ok\(([^;]*)\);", ""), (r"return Err\(([^;]*)\);", ""), (r"return None;", ""),
    (r"ensure!\([^;]*\);", ""), (r"\.filter\([^()]*\([^()]*\)[^()]*\)", ""), (r"len\(\)", "len() + 1"), (r"len\(\) - 1", "len()"), (r"push_front", "push_back"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"pop_back", "pop_front"),
    (r"\.lower_bound", ".upper_bound"), (r"split_once", "rsplit_once"), (r"starts_with", "ends_with"), (r"Ordering::SeqCst", "Ordering::Relaxed"), (r"<< ", ">> "), (r">> ", "<< "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " & "),
    (r"(\w+), (\w+)\)", r"\2, \1)"), (r"u128::from", "u64::from"), (r"as u64\b", "as u32 as u64"), (r"as u128\b", "as u64 as u128"), (r"as usize\b", "as u16 as usize"),
    (r"^\s*(?!let |return|break|continue|use )[^{}]*;\s*$", ""), (r"\.skip\(", ".take("), (r"\.take\(", ".skip("), (r"\.chain\([^()]*(\([^()]*\))*[^()]*\)", ""), (r"\.map_err\([^()]*\)\?", ".ok();"), (r"\?;$", ".ok();"),
    (r"\bOk\(\(\)\)", "Ok(Default::default())"), (r"\bself\.(\w+)\b(?!\()", "other.\\1"), (r"\bother\.(\w+)\b", "self.\\1"), (r"\.or_else\(", ".and_then(|_| None).or_else("), (r"\.zip\(", ".skip(1).zip("), (r"\.enumerate\(\)", ".skip(1).enumerate()"), (r"\.unwrap_or_default\(\)", ".unwrap()"),
    (r"\bmax_by_key", "min_by_key"), (r"copy_from_slice\(&?(\w+)\)", "fill(0)"), (r"\.get\((\w+)\)", ".get(\\1 + 1)"), (r"\.entry\(", ".clone().entry("), (r"\.retain\(\|([^|]*)\| ", ".retain(|\\1| !"), (r"\.insert\(", ".remove(&"), (r"lock\(\)", "try_lock()"),
]


def body(src):
    """lines that may be changed"""
    lines = src.split("\n")
    ok = []
    skip = 0
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r"#\[cfg\((test|any\(test)", s) or s.startswith("#[cfg(feature = \"test"):
            skip = 1
        if skip:
            depth += l.count("{") - l.count("}")
            if "{" in l:
                skip = 2
            if skip == 2 and depth <= 0 or skip == 1 and s.endswith(";"):
                skip, depth = 0, 0
            continue
        if not s or s.startswith(("//", "#[", "#![", "use ", "pub use ", "mod ", "pub mod ", "log::", "}", "impl", "where")) or "fn " in s and s.endswith("{"):
            continue
        ok.append(i)
    return lines, ok


def mutants(f):
    src = open("/repo/" + f, encoding="utf-8").read()
    lines, ok = body(src)
    out = {}
    for i in ok:
        l = lines[i]
        code = l.split(" //")[0]
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2 and rx[0] != "^":
                    continue
                n = code[:m.start()] + m.expand(to) + code[m.end():] if isinstance(to, str) else code[:m.start()] + to(m) + code[m.end():]
                if n != code:
                    out[(i, n)] = (f, i, l, n)
    r = list(out.values())
    random.Random(f"{o.seed}{f}").shuffle(r)
    return r[:o.per]


def crate_of(f):
    d = os.path.dirname("/repo/" + f)
    while not os.path.exists(d + "/Cargo.toml"):
        d = os.path.dirname(d)
    return re.search(r'(?m)^name = "([^"]+)"', open(d + "/Cargo.toml").read())[1]


rules = {}
for x in os.listdir(HERE + "/sa/rules"):
    m = re.match(r"(C\d+)\.py$", x)
    if m:
        t = open(HERE + "/sa/rules/" + x).read()
        rules[m[1]] = t
WORK = '''
import sys, os, importlib
sys.path.insert(0, %r)
import check
ids = sys.argv[1].split(",")
sys.argv = ["x"]
mods = {i: importlib.import_module("sa.rules." + i) for i in ids}
cr = set()
for m in mods.values():
    c = getattr(m, "CRATES", "all")
    cr |= set(c) if c != "all" else set()
from sa.facts import Facts
d, n = check.facts(sorted(cr))
F = Facts(d, n)
for i in ids:
    if check.decide(i, "quick", F, d):
        print("CAUGHTBY", i)
        sys.exit(1)
sys.exit(0)
''' % V
open("/tmp/mut/work.py", "w").write(WORK)


def files_of(p):
    f = p.get("files")
    return f.split() if isinstance(f, str) else list(f or ())


def relevant(f):
    cr = crate_of(f)
    a = [i for i in rules if i in props and any(f == x or f.startswith(x.rstrip("/") + "/") for x in files_of(props[i]))]
    b = [i for i in rules if i not in a and re.search(r'CRATES = \[[^\]]*"%s"' % re.escape(cr), rules[i])]
    return sorted(a), sorted(b)


q = queue.Queue()
lock = threading.Lock()
stats = {}
res = open(o.out, "a")


def run(slot, ids):
    R, B = f"/tmp/mut/s{slot}/repo", f"/tmp/mut/s{slot}/build"
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_TIER="quick", CARGO_BUILD_JOBS="3")
    try:
        p = subprocess.run([sys.executable, "/tmp/mut/work.py", ",".join(ids)], env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if p.returncode == 1 and "CAUGHTBY" in p.stdout:
        return "caught", p.stdout.split("CAUGHTBY")[1].split()[0]
    return ("quiet" if p.returncode == 0 else "nocompile" if "error" in p.stdout + p.stderr else "fail"), (p.stdout + p.stderr)[-300:]


def worker(slot):
    R, B = f"/tmp/mut/s{slot}/repo", f"/tmp/mut/s{slot}/build"
    os.makedirs(R, exist_ok=True)
    os.makedirs(B, exist_ok=True)
    subprocess.run(f"cd /repo && git ls-files -z | xargs -0 cp -u --parents -t {R}; cp -rn /repo/.git {R}/ 2>/dev/null; cd {R} && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True)
    while True:
        try:
            f, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        path = f"{R}/{f}"
        src = open("/repo/" + f, encoding="utf-8").read().split("\n")
        src[i] = new
        open(path, "w", encoding="utf-8").write("\n".join(src))
        a, b = relevant(f)
        st, by = "quiet", ""
        for ids in (a, b):
            if ids:
                st, by = run(slot, ids)
                if st != "quiet":
                    break
        shutil.copyfile("/repo/" + f, path)
        with lock:
            stats[st] = stats.get(st, 0) + 1
            res.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "st": st, "by": by}) + "\n")
            res.flush()
            if st not in ("caught", "nocompile"):
                print(f"{st} {f}:{i + 1}\n   - {old.strip()[:170]}\n   + {new.strip()[:170]}", flush=True)


for f in o.files:
    for m in mutants(f):
        q.put(m)
print("mutants", q.qsize(), flush=True)
ts = [threading.Thread(target=worker, args=(s,)) for s in range(o.slots)]
[t.start() for t in ts]
[t.join() for t in ts]
print(stats)
