"""Randomness of secrets: the secure generator is seeded by the operating system, everything in the cryptography crate that draws
randomness demands a cryptographic generator, new keys are drawn in full from the generator they were given, and no seeded or
non-cryptographic source is reachable from there."""
from ..rule import *
CRATES = ["crypto", "randomness", "rpc"]
SRC = r"(randomness::make_true_rng\(\)@\d+|\${n})"
BAD = r"make_pseudo_rng$|::seed_from_u64$|::SeedableRng::from_seed$|SmallRng|mock::|StepRng|insecure|XorShift|Xoshiro"


def source(c):
    f = "randomness::make_true_rng"
    ok = 0
    for p in c.paths(f):
        if p.kind == "panic":
            c.ob("true#panic", "is Err" in repr(p), "creating the generator may fail only when the system's randomness does", c.loc(f), repr(p)[:300])
            continue
        ok += 1
        c.ob("true#source", re.fullmatch(r"SeedableRng::try_from_rng\((StdRng|ChaCha\w*Rng|ChaChaRng), SysRng\)(@\d+)?\.Ok\.0|SeedableRng::from_rng\((StdRng|ChaCha\w*Rng), (SysRng|UnwrapErr\(SysRng\))\)(@\d+)?|SysRng|UnwrapErr\(SysRng\)|default\(ThreadRng\)", sret(p)),
             "the secure generator must be a cryptographic generator seeded by the operating system", c.loc(f), sret(p))
    c.ob("true#ok", ok, "the secure generator cannot be created", c.loc(f))
    c.ob("true#type", "CryptoRng" in c.F.fn(f)["sig"].split("->")[-1], "make_true_rng must promise a cryptographic generator", c.loc(f), c.F.fn(f)["sig"])
    g = "randomness::make_pseudo_rng"
    c.ob("pseudo#type", "CryptoRng" not in c.F.fn(g)["sig"].split("->")[-1], "make_pseudo_rng must not be usable where a cryptographic generator is demanded", c.loc(g), c.F.fn(g)["sig"])


def wrappers(c):
    n = 0
    for r in c.F.parsed_impls():
        if r["crate"] == "randomness" and r.get("tr") and r["tr"].rsplit("::", 1)[-1] in ("CryptoRng", "TryCryptoRng"):
            n += 1
            par = re.findall(r"<(?:'\w+, )?(\w)>", r["id"])
            c.ob(f"marker[{r['id']}]", par and any(re.match(re.escape(x) + r": .*CryptoRng", q) for x in par for q in r["preds"]), "a wrapper may pose as a cryptographic generator only when what it wraps is one", r["file"], r["id"] + str(r["preds"])[:300])
    c.count("markers", n, 1)
    for i in c.F.ids():
        m = re.fullmatch(r"<randomness::.* as rand_core::(\w+)>::((try_)?(next_u32|next_u64|fill_bytes))", i)
        if not m:
            continue
        for p in c.paths(i):
            if p.kind != "ret":
                c.ob("forward#panic", "Mutex::lock(" in repr(p), "drawing randomness must not panic", c.loc(i), repr(p)[:300])
                continue
            es = evs(p, r"::(try_)?(next_u32|next_u64|fill_bytes)$")
            good = len(es) == 1 and es[0].name.endswith(m[4]) and re.fullmatch(r"\$0\.0|Mutex::lock\(\$0\.0\)@\d+\.Ok\.0", show(es[0].args[0]))
            if good and m[4] == "fill_bytes":
                good = sout(1)(p) == f"out1[{show(es[0].res)}]" and show(es[0].args[1]) == "$1"
            elif good:
                good = sret(p) in (show(es[0].res), f"Ok({show(es[0].res)})")
            c.ob(f"forward[{i}]", good, "a wrapper must hand on exactly what the wrapped generator yields", c.loc(i), repr(p)[:300])


def demands(c):
    n = 0
    for i in c.F.ids():
        f = c.F.fn(i)
        if f["crate"] not in ("crypto",) or "{closure" in i:
            continue
        for q in f.get("preds") or []:
            m = re.match(r"^(.+): (.*::)?(\w*Rng\w*)\b(<.*>)?$", q)
            if m and not m[3].endswith("DataProvider"):
                n += 1
                who = m[1]
                c.ob(f"bound[{i}]", any(x.startswith(who + ": ") and "CryptoRng" in x for x in f["preds"]), "a cryptographic function accepts a generator that is not cryptographic", c.loc(i), str(f["preds"])[:300])
        if "dyn " in f.get("sig", ""):
            for x in re.findall(r"dyn ([\w:]*Rng\w*)", f["sig"]):
                c.ob(f"dyn[{i}]", "CryptoRng" in x, "a cryptographic function accepts a generator that is not cryptographic", c.loc(i), f["sig"][:200])
    c.count("bounds", n, 5)
    for i, u in c.F.callers(BAD, crates={"crypto", "rpc"}):
        c.ob(f"weak[{i}]", False, f"a seeded or non-cryptographic generator ({u}) is used where secrets are made", c.loc(i))
    aux = [r for r in c.F.parsed_impls() if r.get("tr", "").endswith("::Secp256k1SchnorrAuxDataProvider") and re.match(r"<\w>? as|<\w as", r["id"])]
    for r in aux:
        c.ob("aux", any("CryptoRng" in q for q in r["preds"]), "only a cryptographic generator may provide auxiliary signing data", r["file"], str(r["preds"]))


def keys(c):
    K, V = "crypto::key::", "crypto::vrf::"

    def gen(f, n, rx, pick=None):
        src = r"(randomness::make_true_rng\(\)@\d+|\$%d)" % n if n is not None else r"randomness::make_true_rng\(\)@\d+"
        if n is not None and f.endswith("new_from_rng") or f.endswith("::new"):
            src = r"\$%d" % n
        ps = [p for p in c.paths(f) if p.kind == "ret"]
        for p in ps:
            c.ob(f"key[{f}]", re.search(rx.replace("SRC", src), sret(p)), "a new secret must be drawn in full from the generator of this call", c.loc(f), sret(p)[:600])
        c.ob(f"key[{f}]#ok", ps, "no key can be made", c.loc(f))
    ad = r"(Rng08Adapter\()?SRC\)?"
    pair = r"Secp256k1PrivateKey\{data: (Secp256k1::generate_keypair\([\w:]+\(\), " + ad + r"\)(@\d+)?\.0|SecretKey::new\(" + ad + r"\)(@\d+)?)\}"
    gen(K + "PrivateKey::new_from_rng", 0, pair)
    gen(K + "PrivateKey::new_from_entropy", None, pair)
    buf = r"(out1\[Rng::fill_bytes\(SRC, \[(0, ){31}0\]\)(@\d+)?\]|RngExt::random\(SRC\)(@\d+)?)"
    ext = r"chain_code: ChainCode\((from\([^()]*, )?" + buf + r"\)?\), private_key: Secp256k1PrivateKey\{data: SecretKey::new\((Rng08Adapter\()?(SRC|out0\[Rng::fill_bytes\(SRC, \[(0, ){31}0\]\)(@\d+)?\]|out0\[RngExt::random\(SRC\)(@\d+)?\])\)?\)"
    gen(K + "extended::ExtendedPrivateKey::new_from_rng", 0, ext)
    gen(K + "extended::ExtendedPrivateKey::new_from_entropy", None, ext)
    vrf = r"SchnorrkelPrivateKey\{key: SecretKey::generate_with\(" + ad + r"\)(@\d+)?\}"
    gen(V + "VRFPrivateKey::new_from_rng", 0, vrf)
    gen(V + "VRFPrivateKey::new_from_entropy", None, vrf)
    sym = r"key_data: from\([^()]*, (RngExt::random\(SRC\)(@\d+)?|out1\[Rng(Ext)?::fill(_bytes)?\(SRC, \[(0, ){31}0\]\)(@\d+)?\])\)\}"
    gen("crypto::symkey::SymmetricKey::new", 1, sym)
    gen("crypto::symkey::chacha20poly1305::Chacha20poly1305Key::new_from_rng", 0, sym.replace(r"\)\}", r"\)\}$"))
    gen("crypto::ephemeral_e2e::EndToEndPrivateKey::new_from_rng", 0, r"EndToEndPrivateKey\{key: ReusableSecret::random_from_rng\(" + ad + r"\)(@\d+)?\}")


PARTS = [source, wrappers, demands, keys]
