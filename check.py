#!/usr/bin/env python3
"""check.py <property> | --setup | --all

Rebuilds the fact base from /repo's working tree with the MIR driver and decides one property with the rules in
sa/rules/<property>.py.  Exit 0: every obligation discharged.  Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the tree could not be analysed (it does not type-check)."""
import fcntl, hashlib, importlib, json, os, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOCFLAGS")) or k == "CARGO_HOME"}
    e.setdefault("CARGO_NET_OFFLINE", "true")
    return e


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        print(f"ERROR: {what} failed ({p.returncode}); the current tree cannot be analysed")
        sys.exit(2)
    return p.stdout


def driver():
    h = hashlib.sha256()
    d = os.path.join(HERE, "driver")
    for f in ("Cargo.toml", "Cargo.lock", "src/main.rs"):
        p = os.path.join(d, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    tag = h.hexdigest()[:12]
    exe = os.path.join(BUILD, "driver-" + tag, "debug", "mldriver")
    if not os.path.exists(exe):
        run(["cargo", "+nightly", "build", "--offline", "-q", "--target-dir", os.path.join(BUILD, "driver-" + tag)], d, clean_env(), "building the MIR driver")
    return exe, tag


def facts(crates):
    """type-check the needed crates of the mirror workspace under the driver -> (directory, crate names)"""
    exe, tag = driver()
    ws = os.path.join(BUILD, "ws")
    run([sys.executable, os.path.join(HERE, "tools", "mirror.py"), ws], HERE, clean_env(), "laying out the workspace")
    env = clean_env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    out, target = os.path.join(BUILD, "facts-" + tag), os.path.join(BUILD, "target-" + tag)
    env["MLDRIVER_OUT"] = out
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    os.makedirs(out, exist_ok=True)
    sel = ["--workspace"] if crates == "all" else sum((["-p", c] for c in crates), [])
    for attempt in (0, 1):
        o = run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--target-dir", target] + sel, ws, env, "type-checking /repo")
        names = set()
        for line in o.splitlines():
            if line.startswith("{") and '"compiler-artifact"' in line:
                m = json.loads(line)
                if m["manifest_path"].startswith(ws) and not any(k in ("custom-build", "bin") for k in m["target"]["kind"]):
                    names.add(m["target"]["name"].replace("-", "_"))
        missing = [n for n in names if not os.path.exists(os.path.join(out, n + ".facts"))]
        if not missing:
            return out, sorted(names)
        subprocess.run(["rm", "-rf", target])
    print("ERROR: no facts for", missing)
    sys.exit(2)


def known():
    """[(property, key, text)] from known-findings.txt"""
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\w+) key=(\S.*?) :: (.*)$", line.strip())
            if m:
                r.append((m[1], m[2], m[3]))
    return r


def decide(pid, tier, F=None, fdir=None):
    from sa.facts import Facts, MissingAnchor
    from sa.rule import Check
    from sa.vf import Limit
    mod = importlib.import_module(f"sa.rules.{pid}")
    t0 = time.time()
    if F is None:
        crates = getattr(mod, "CRATES", "all")
        fdir, names = facts(crates if tier == "quick" else getattr(mod, "CRATES_THOROUGH", crates))
        F = Facts(fdir, names)
    t1 = time.time()
    c = Check(F, pid)
    c.tier = tier
    for part in (mod.PARTS if hasattr(mod, "PARTS") else [mod.check]):
        try:
            part(c)
        except MissingAnchor as e:
            c.ob(f"anchor:{part.__name__}:{e}", False, f"anchor missing: {e}", "")
        except Limit as e:
            c.ob(f"limit:{part.__name__}", False, f"analysis bound exceeded: {e}", "")
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            c.ob(f"undecided:{part.__name__}", False, f"the obligations of '{part.__name__}' could not be discharged: {type(e).__name__}: {e}", "", traceback.format_exc()[-600:])
    # one report per key
    seen, viol = set(), []
    for v in c.viol:
        if v["key"] not in seen:
            seen.add(v["key"])
            viol.append(v)
    kn = {k: t for p, k, t in known() if p == pid}
    new = [v for v in viol if v["key"] not in kn]
    old = [v for v in viol if v["key"] in kn]
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {kn[v['key']]}")
    rp = os.path.join(BUILD, "violations", pid + ".json")
    if new:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(new, open(rp, "w"), indent=1)
        for v in new[:10]:
            print(f"{pid}: {v['msg']}\n    at {v['where']}\n    {v['detail'][:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
    keys = {}
    for k, g in c.obl:
        keys[k] = keys.get(k, True) and g
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "").strip()),
            "crates": len(F.crates), "functions_in_fact_base": len(F.fnline), "functions_analysed": len(c.fns), "paths_analysed": c.npaths,
            "rule_instances": len(keys), "obligations": len(c.obl), "discharged": sum(1 for _, g in c.obl if g), "call_sites": c.sites,
            "analysed": sorted(c.fns)[:60], "rules": sorted(keys)[:400],
            "checker_cmd": f"python3 check.py {pid}",
            "trusted_base": ["rustc's MIR construction", "/verif/driver (MIR dump)", "/verif/sa (path summaries, std models)"],
        },
        "assumptions": ["crates missing from the offline cache are type-only stand-ins (/verif/stubs); calls into them are uninterpreted"] + c.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if c.notes:
        ev["coverage"]["notes"] = c.notes
    if ev["level"] == "proof":
        pass
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {len(keys)} rule instances, {len(c.obl)} obligations over {len(c.fns)} functions / {c.npaths} paths; "
          f"{len(new)} violations, {len(old)} known; facts {t1 - t0:.1f}s rules {time.time() - t1:.1f}s")
    return 1 if new else 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    a = sys.argv[1:]
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    a = [x for x in a if not x.startswith("--th")]
    if a[0] == "--setup":
        facts(["utils"])
        return 0
    if a[0] == "--all":
        from sa.facts import Facts
        d, names = facts("all")
        F = Facts(d, names)
        rc = 0
        for p in a[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(HERE, "sa/rules")) if re.match(r"C\d+\.py$", x)):
            rc |= decide(p, tier, F, d)
        return rc
    return decide(a[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: internal failure of the checker")
        sys.exit(2)
