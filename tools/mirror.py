#!/usr/bin/env python3
"""Lays out <build>/ws: a cargo workspace with (almost) every library crate of /repo, type-checkable offline.

* Every source file is a byte-for-byte copy of /repo's current working tree (written only when its content
  differs, so cargo's mtime freshness can never skip a change), except the few files in BLANK, where items that
  need an unavailable *external* crate are blanked (never added to, line numbers stay).
* Manifests are derived from /repo's: dev-dependencies and unavailable optional features dropped, external
  crates that are not in the offline cache redirected to type-only stand-ins in /verif/stubs.
"""
import os, re, sys, tomllib, hashlib, json

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, "stubs")

MEMBERS = """
accounting blockprod chainstate chainstate/constraints-value-accumulator chainstate/db-dumper
chainstate/launcher chainstate/storage chainstate/tx-verifier chainstate/types
common consensus crypto logging mempool mempool/types mintscript networking node-lib
orders-accounting p2p p2p/types pos-accounting randomness rpc rpc/description rpc/description-macro rpc/types
script serialization serialization/core serialization/tagged serialization/tagged/derive
storage storage/core storage/inmemory storage/lmdb storage/sqlite subsystem test-rpc-functions test-utils
tokens-accounting utils utils/build_utils utils/log_error utils/networking utils/typename utils/typename-derive
utxo wallet wallet/storage wallet/types wallet/wallet-controller wallet/wallet-node-client
wallet/wallet-rpc-client wallet/wallet-rpc-daemon wallet/wallet-rpc-lib wasm-wrappers/wasm-doc-gen
""".split()

# external crates that are not in the offline cache -> stand-in directory under /verif/stubs
STUBBED = {n: n for n in os.listdir(STUBS)} if os.path.isdir(STUBS) else {}

# dependencies dropped (only reached by blanked items)
DROP_DEPS = {"ml_primitives", "trezor-client", "ledger-lib", "ledger-proto", "mintlayer-ledger-messages", "console-subscriber"}
# dependency features dropped, keyed (crate dir, dep)
DROP_DEP_FEATURES = {("chainstate", "chainstate-storage"): {"mock"}}
DROP_FEATURES = {"trezor", "ledger", "trezor-emulator", "tokio-console"}

# file -> regexes; the item starting with a match is blanked together with its attributes
BLANK = {
    "common/src/primitives_converters.rs": [r"impl(<.*>)? TryConvertFrom<", r"use unwrap_infallible", r"fn "],
    "wallet/wallet-node-client/src/lib.rs": [r"pub mod mock;"],
}


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def toml_val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml_val(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)


def blank_items(text, regexes):
    lines = text.split("\n")
    start = re.compile("|".join(f"(?:{r})" for r in regexes))
    i = 0
    while i < len(lines):
        ind = lines[i][: len(lines[i]) - len(lines[i].lstrip())]
        if not start.match(lines[i].lstrip()):
            i += 1
            continue
        first = last = i
        while first and re.match(r"\s*(#\[.*|///.*)$", lines[first - 1]):
            first -= 1
        if not re.search(r"(;|\},?)\s*(//.*)?$", lines[i]):
            last += 1
            while last < len(lines) and not re.match(re.escape(ind) + r"\}[;)]*\s*$", lines[last]):
                last += 1
        for j in range(first, min(last + 1, len(lines))):
            lines[j] = ""
        i = last + 1
    return "\n".join(lines)


def main(ws):
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    wsdeps = root["workspace"]["dependencies"]
    changed = 0
    keep = set()

    out = ["[workspace]", 'resolver = "2"', "members = " + toml_val(MEMBERS + ["witness"]), "", "[workspace.package]"]
    for k, v in root["workspace"]["package"].items():
        out.append(f"{k} = {toml_val(v)}")
    out.append("\n[workspace.dependencies]")
    used = set()
    for m in MEMBERS:
        t = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        for tbl in [t] + [x for c, x in t.get("target", {}).items()]:
            for key in ("dependencies", "build-dependencies"):
                used |= set(tbl.get(key, {}))
    for k, v in wsdeps.items():
        if k not in used:
            continue
        spec = v if isinstance(v, dict) else {"version": v}
        name = spec.get("package", k)
        if k in DROP_DEPS or name in DROP_DEPS:
            continue
        if name in STUBBED:
            spec = {x: y for x, y in spec.items() if x not in ("git", "rev", "version", "branch", "tag")}
            spec["path"] = os.path.join(STUBS, STUBBED[name])
        elif "git" in spec:
            continue
        out.append(f"{json.dumps(k)} = {toml_val(spec)}")
    # the program that is analysed is the one the release profile builds
    rel = root.get("profile", {}).get("release", {})
    out.append(f"\n[profile.dev]\npanic = {toml_val(rel.get('panic', 'unwind'))}\ndebug = false\nincremental = false\n"
               f"debug-assertions = {toml_val(rel.get('debug-assertions', False))}\noverflow-checks = {toml_val(rel.get('overflow-checks', False))}\n")
    changed += write(f"{ws}/Cargo.toml", "\n".join(out) + "\n")
    keep.add(f"{ws}/Cargo.toml")

    for m in MEMBERS:
        t = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        o = ["[package]"]
        for k, v in t["package"].items():
            if k in ("default-run", "readme", "autobins"):
                continue
            o.append(f"{k} = {toml_val(v)}")
        o.append("autobins = false\nautoexamples = false\nautotests = false\nautobenches = false")
        if "build" not in t["package"] and os.path.exists(f"{REPO}/{m}/build.rs"):
            o.append('build = "build.rs"')
        o.append("")
        dropped = set()

        def deptable(tbl, title):
            nonlocal o
            if not tbl:
                return
            o.append(f"[{title}]")
            for d, s in tbl.items():
                sp = dict(s) if isinstance(s, dict) else {"version": s}
                wsp = wsdeps.get(d, {}) if sp.get("workspace") else {}
                wsp = wsp if isinstance(wsp, dict) else {}
                name = sp.get("package", wsp.get("package", d))
                if d in DROP_DEPS or name in DROP_DEPS:
                    dropped.add(d)
                    continue
                if name in STUBBED and not sp.get("workspace"):
                    for k in ("git", "rev", "version"):
                        sp.pop(k, None)
                    sp["path"] = os.path.join(STUBS, STUBBED[name])
                if (m, d) in DROP_DEP_FEATURES:
                    sp["features"] = [f for f in sp.get("features", []) if f not in DROP_DEP_FEATURES[(m, d)]]
                if "features" in sp:
                    sp["features"] = [f for f in sp["features"] if f not in DROP_FEATURES]
                if "path" in sp and not sp["path"].startswith("/"):
                    p = os.path.normpath(os.path.join(m, sp["path"]))
                    if p not in MEMBERS:
                        dropped.add(d)
                        continue
                o.append(f"{json.dumps(d)} = {toml_val(sp)}")
            o.append("")

        deptable(t.get("dependencies"), "dependencies")
        deptable(t.get("build-dependencies"), "build-dependencies")
        for cfg, tt in t.get("target", {}).items():
            if "loom" in cfg or "windows" in cfg:
                continue
            deptable(tt.get("dependencies"), f"target.{json.dumps(cfg)}.dependencies")
        feats = {}
        for f, l in t.get("features", {}).items():
            l = [x for x in l if x.split("/")[0].removeprefix("dep:").rstrip("?") not in dropped
                 and x not in DROP_FEATURES and not (("/" in x) and x.split("/")[1] in DROP_FEATURES)]
            if f in DROP_FEATURES:
                l = []
            feats[f] = l
        if feats:
            o.append("[features]")
            for f, l in feats.items():
                o.append(f"{json.dumps(f)} = {toml_val(l)}")
            o.append("")
        if "lib" in t:
            o.append("[lib]")
            for k, v in t["lib"].items():
                if k in ("bench", "test", "doctest"):
                    continue
                o.append(f"{k} = {toml_val(v)}")
            o.append("")
        # binaries are only type-checked where a rule needs them
        if os.path.exists(f"{REPO}/{m}/src/main.rs") and not os.path.exists(f"{REPO}/{m}/src/lib.rs"):
            o.append("[[bin]]\nname = " + toml_val(t["package"]["name"]) + '\npath = "src/main.rs"\n')
        if "lints" in t:
            pass
        changed += write(f"{ws}/{m}/Cargo.toml", "\n".join(o) + "\n")
        keep.add(f"{ws}/{m}/Cargo.toml")
        nested = [x for x in MEMBERS if x.startswith(m + "/")]
        for dp, dn, fn in os.walk(f"{REPO}/{m}"):
            rel = os.path.relpath(dp, REPO)
            dn[:] = sorted(x for x in dn if x not in ("target", ".git", "tests", "benches", "fuzz", "node_modules")
                     or (x == "tests" and "/src" in dp))
            dn[:] = [x for x in dn if not os.path.exists(f"{dp}/{x}/Cargo.toml")]
            for f in fn:
                if f == "Cargo.toml":
                    continue
                src = f"{dp}/{f}"
                if os.path.getsize(src) > 8_000_000:
                    continue
                data = open(src, "rb").read()
                p = f"{rel}/{f}"
                if p in BLANK:
                    data = blank_items(data.decode(), BLANK[p]).encode()
                dst = f"{ws}/{p}"
                keep.add(dst)
                changed += write(dst, data)
    # instances of /repo's macros whose expansion the rules read
    for f in ("Cargo.toml", "src/lib.rs"):
        changed += write(f"{ws}/witness/{f}", open(f"{HERE}/witness/{f}", "rb").read())
        keep.add(f"{ws}/witness/{f}")
    if not os.path.exists(f"{ws}/Cargo.lock"):
        seed = os.path.join(HERE, "tools", "Cargo.lock.seed")
        write(f"{ws}/Cargo.lock", open(seed if os.path.exists(seed) else f"{REPO}/Cargo.lock", "rb").read())
    cfg = f"{REPO}/.cargo/config.toml"
    if os.path.exists(cfg):
        changed += write(f"{ws}/.cargo/config.toml", open(cfg, "rb").read())
        keep.add(f"{ws}/.cargo/config.toml")
    # remove what is gone from /repo
    for dp, dn, fn in os.walk(ws):
        if dp == ws:
            dn[:] = [x for x in dn if x != "target"]
        for f in fn:
            p = f"{dp}/{f}"
            if p not in keep and p != f"{ws}/Cargo.lock":
                os.remove(p)
                changed += 1
    return changed


if __name__ == "__main__":
    ws = sys.argv[1]
    print("mirror: files rewritten:", main(ws))
