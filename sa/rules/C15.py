"""Hierarchical key derivation: what goes into the keyed hash of each derivation step, how its halves are used, what is refused,
and how paths and child numbers are put together, read off the path summaries of the public derivation functions."""
from ..rule import *
CRATES = ["crypto"]
K = "crypto::key::"
DV = K + "hdkd::derivable::Derivable"
CN = K + "hdkd::child_number::ChildNumber::"
DP = K + "hdkd::derivation_path::DerivationPath"
HM = "CoreWrapper<HmacCore<CoreWrapper<CtVariableCoreWrapper<Sha512VarCore;UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm;B1>;B0>;B0>;B0>;B0>;B0>;B0>;OidSha512>>>>"
SEED = list(b"Bitcoin seed")
VSEED = list(b"Bitcoin VRF seed")


def mac(key, *parts):
    """states of a keyed hash after absorbing the parts in order"""
    t = f"T::new_from_slice({HM}, {key}).Ok.0"
    for x in parts:
        t = f"out0[T::update({t}, {x})]"
    return f"GenericArray::split(CtOutput::into_bytes(T::finalize({t})))"


def newpath(old):
    return f"out0[Vec::push({old}, $1)]"


def bip32(c):
    pre = "$0.key.Secp256k1Schnorr.0."
    sk = pre + "private_key.data"
    idx = "num(to_be_bytes, u32, $1.0)"
    ph, path = {}, f"DerivationPath({newpath(pre + 'derivation_path.0')})"

    def priv(m):
        t = f"SecretKey::add_tweak(SecretKey::from_slice(GenericArray::as_slice({m}.0)).Ok.0, from(Scalar, {sk}))"
        return t, f"Ok(ExtendedPrivateKey{{key: ExtendedPrivateKeyHolder::Secp256k1Schnorr(Secp256k1ExtendedPrivateKey{{derivation_path: {path}, chain_code: ChainCode(from([u8;32], {m}.1)), private_key: Secp256k1PrivateKey{{data: {t}.Ok.0}}}})}})"
    mh = mac(pre + "chain_code.0", "[0]", f"slice({sk}, RangeFull)", idx)
    mh2 = mac(pre + "chain_code.0", "[0]", sk, idx)
    mn = mac(pre + "chain_code.0", "PublicKey::serialize(PublicKey::from_secret_key(_, " + sk + "))", idx)
    f = f"<{K}extended::ExtendedPrivateKey as {DV}>::derive_child"
    long = f"lt(255, len({newpath(pre + 'derivation_path.0')}))"
    long2 = f"lt(254, len({pre}derivation_path.0))"
    ps = c.paths(f)
    for p in ps:
        if p.kind != "ret":
            c.ob("bip32#panic", re.search(r"T::new_from_slice\(.*\) is Err", repr(p)), "derivation must not panic", c.loc(f), repr(p)[:500])
            continue
        h = PRED["bit31"](p, "$1.0")
        r = sret(p)
        if r.startswith("Err("):
            bad = [show(t) for t, v in p.var.items() if v == "Err"]
            why = holds(p, long) or holds(p, long2) or any(re.match(r"SecretKey::(from_slice|add_tweak)\(|tryfrom", s) for s in bad)
            c.ob("bip32#private-refusal", why, "deriving a private child may fail only for too long a path or an invalid resulting key", c.loc(f), repr(p)[:700])
            continue
        want = [priv(mh)[1], priv(mh2)[1]] if h else [priv(mn)[1]] if h is False else []
        c.ob("bip32#private", any(match(w, r) for w in want), "a hardened private child must hash 0 || private key || index, a normal one public key || index, under the parent chain code; left half is added to the parent key, right half is the new chain code",
             c.loc(f), repr(p)[:1500])
        c.ob("bip32#length", holds(p, "!" + long) or holds(p, "!" + long2), "a path longer than 255 must be refused", c.loc(f), repr(p)[:300])
    c.ob("bip32#private-both", {PRED["bit31"](p, "$1.0") for p in oks(ps)} == {True, False}, "hardened and normal children must both be derivable", c.loc(f))
    pre = "$0.pub_key.Secp256k1Schnorr.0."
    pk = pre + "public_key.pubkey_data"
    m = mac(pre + "chain_code.0", f"PublicKey::serialize({pk})", idx)
    left = f"SecretKey::from_slice(GenericArray::as_slice({m}.0))"
    t = f"PublicKey::add_exp_tweak({pk}, _, from(Scalar, {left}.Ok.0))"
    path = newpath(pre + "derivation_path.0")
    good = f"Ok(ExtendedPublicKey{{pub_key: ExtendedPublicKeyHolder::Secp256k1Schnorr(Secp256k1ExtendedPublicKey{{derivation_path: DerivationPath({path}), chain_code: ChainCode(from([u8;32], {m}.1)), public_key: Secp256k1PublicKey{{pubkey_data: {t}.Ok.0}}}})}})"
    f = f"<{K}extended::ExtendedPublicKey as {DV}>::derive_child"
    public(c, "bip32", f, good, pre + "derivation_path.0", r"SecretKey::(from_slice|add_tweak)\(|PublicKey::add_exp_tweak\(")


def public(c, key, f, good, path, errs):
    n = 0
    ps = c.paths(f)
    for p in ps:
        if p.kind != "ret":
            c.ob(key + "#panic", re.search(r"T::new_from_slice\(.*\) is Err", repr(p)), "derivation must not panic", c.loc(f), repr(p)[:500])
            continue
        h = PRED["bit31"](p, "$1.0")
        long = anyof(p, f"lt(255, len({newpath(path)}))", f"lt(254, len({path}))")
        r = sret(p)
        if r.startswith("Err("):
            why = h or long or any(re.match(errs, show(t)) for t, v in p.var.items() if v == "Err")
            c.ob(key + "#public-refusal", why, "deriving a public child may fail only for a hardened index, too long a path or an invalid resulting key", c.loc(f), repr(p)[:700])
            continue
        n += 1
        c.ob(key + "#public-hardened", h is False, "a hardened child must not be derivable from a public key", c.loc(f), repr(p)[:400])
        c.ob(key + "#public-length", long is False, "a path longer than 255 must be refused", c.loc(f), repr(p)[:400])
        c.ob(key + "#public", match(good, r), "a public child must be computed from public key, chain code and index exactly like the public key of the private child", c.loc(f), repr(p)[:1500])
    c.ob(key + "#public-ok", n, "no public child is derivable", c.loc(f))


def masters(c):
    m = mac(str(SEED), "$0")
    pat = f"Ok(ExtendedPrivateKey{{key: ExtendedPrivateKeyHolder::Secp256k1Schnorr(Secp256k1ExtendedPrivateKey{{derivation_path: DerivationPath(_), chain_code: ChainCode(from([u8;32], {m}.1)), private_key: Secp256k1PrivateKey{{data: SecretKey::from_slice(GenericArray::as_slice({m}.0)).Ok.0}}}})}})"
    root(c, K + "extended::ExtendedPrivateKey::new_master", pat)
    m = mac(str(VSEED), "$0")
    mk_ = f"MiniSecretKey::from_bytes(GenericArray::as_slice({m}.0)).Ok.0"
    V = "VRFPrivateKey{{key: VRFPrivateKeyHolder::Schnorrkel(SchnorrkelPrivateKey{{key: {0}}})}}"
    pat = f"Ok(ExtendedVRFPrivateKey{{derivation_path: DerivationPath(_), chain_code: ChainCode(from([u8;32], {m}.1)), private_key: {V.format('MiniSecretKey::expand_to_keypair(' + mk_ + ', ExpansionMode::Uniform).secret')}}})"
    pat2 = pat.replace(f"MiniSecretKey::expand_to_keypair({mk_}, ExpansionMode::Uniform).secret", f"MiniSecretKey::expand({mk_}, ExpansionMode::Uniform)")
    root(c, "crypto::vrf::ExtendedVRFPrivateKey::new_master", pat + " || " + pat2)
    P = "PublicKey::from_secret_key(_, $0.key.Secp256k1Schnorr.0.private_key.data)"
    g = f"ExtendedPublicKey{{pub_key: ExtendedPublicKeyHolder::Secp256k1Schnorr(Secp256k1ExtendedPublicKey{{derivation_path: $0.key.Secp256k1Schnorr.0.derivation_path, chain_code: $0.key.Secp256k1Schnorr.0.chain_code, public_key: Secp256k1PublicKey{{pubkey_data: {P}}}}})}}"
    for f in ("ExtendedPrivateKey::to_public_key", "ExtendedPublicKey::from_private_key"):
        c.table(f, c.paths(K + "extended::" + f), [("", g)])
    g = "ExtendedVRFPublicKey{derivation_path: $0.derivation_path, chain_code: $0.chain_code, public_key: VRFPublicKey{pub_key: VRFPublicKeyHolder::Schnorrkel(SchnorrkelPublicKey{key: SecretKey::to_public($0.private_key.key.Schnorrkel.0.key)})}}"
    for f in ("ExtendedVRFPrivateKey::to_public_key", "ExtendedVRFPublicKey::from_private_key"):
        c.table(f, c.paths("crypto::vrf::" + f), [("", g)])
    E = K + "extended::"
    c.table("private_key", c.paths(E + "ExtendedPrivateKey::private_key"), [("", "PrivateKey{key: PrivateKeyHolder::Secp256k1Schnorr($0.key.Secp256k1Schnorr.0.private_key)}")])
    c.table("into_public_key", c.paths(E + "ExtendedPublicKey::into_public_key"), [("", "PublicKey{pub_key: PublicKeyHolder::Secp256k1Schnorr($0.pub_key.Secp256k1Schnorr.0.public_key)}")])


def root(c, f, pat):
    ok = 0
    for p in c.paths(f):
        if p.kind != "ret":
            c.ob(f + "#panic", re.search(r"T::new_from_slice\(.*\) is Err", repr(p)), "creating a master key must not panic", c.loc(f), repr(p)[:300])
        elif sret(p).startswith("Ok("):
            ok += 1
            m = re.search(r"derivation_path: DerivationPath\(([^{}]*?)\), chain_code", sret(p))
            c.ob(f, match(pat, sret(p)) and m and re.fullmatch(r"default\(Vec<.*>\)|Vec::new\(\)|\[\]|vec::Vec::new\(\)", m[1]), "the master key and chain code are the halves of the keyed hash of the whole seed, at the empty path", c.loc(f), repr(p)[:900])
        else:
            c.ob(f + "#err", any(v == "Err" for v in p.var.values()), "creating a master key may fail only for an invalid key", c.loc(f), repr(p)[:300])
    c.ob(f + "#ok", ok, "no master key can be created", c.loc(f))


def vrf(c):
    k, cc, idx = "$0.private_key.key.Schnorrkel.0.key", "ChainCode($0.chain_code.0)", "num(to_be_bytes, u32, $1.0)"
    path = f"DerivationPath({newpath('$0.derivation_path.0')})"
    s = f"Derivation::derived_key_simple({k}, {cc}, {idx})"
    h = f"derive::hard_derive_mini_secret_key({k}, Some({cc}), {idx})"
    V = "private_key: VRFPrivateKey{{key: VRFPrivateKeyHolder::Schnorrkel(SchnorrkelPrivateKey{{key: {0}}})}}"
    rows = {False: f"Ok(ExtendedVRFPrivateKey{{derivation_path: {path}, chain_code: ChainCode({s}.1.0), {V.format(s + '.0')}}})",
            True: f"Ok(ExtendedVRFPrivateKey{{derivation_path: {path}, chain_code: ChainCode({h}.1.0), {V.format('MiniSecretKey::expand(' + h + '.0, ExpansionMode::Uniform)')}}})"}
    f = f"<crypto::vrf::ExtendedVRFPrivateKey as {DV}>::derive_child"
    seen = set()
    for p in c.paths(f):
        hd, r = PRED["bit31"](p, "$1.0"), sret(p)
        long = anyof(p, f"lt(255, len({newpath('$0.derivation_path.0')}))", "lt(254, len($0.derivation_path.0))")
        if p.kind != "ret" or r.startswith("Err("):
            c.ob("vrf#refusal", p.kind == "ret" and long, "deriving a VRF child may fail only for too long a path", c.loc(f), repr(p)[:400])
            continue
        seen.add(hd)
        c.ob("vrf#private", long is False and hd in rows and match(rows[hd], r), "a VRF child key must be derived from the parent key, its chain code and the index, in the hardened or simple way according to the index", c.loc(f), repr(p)[:900])
    c.ob("vrf#both", seen == {True, False}, "hardened and normal VRF children must both be derivable", c.loc(f))
    s = f"Derivation::derived_key_simple($0.public_key.pub_key.Schnorrkel.0.key, {cc}, {idx})"
    good = f"Ok(ExtendedVRFPublicKey{{derivation_path: {path}, chain_code: ChainCode({s}.1.0), public_key: VRFPublicKey{{pub_key: VRFPublicKeyHolder::Schnorrkel(SchnorrkelPublicKey{{key: {s}.0}})}}}})"
    public(c, "vrf", f"<crypto::vrf::ExtendedVRFPublicKey as {DV}>::derive_child", good, "$0.derivation_path.0", "$^")


def paths_(c):
    own = "Derivable::get_derivation_path($0).0"
    f = DV + "::derive_absolute_path"
    sp = f"slice::strip_prefix($1.0, {own})"
    for p in c.paths(f):
        if p.kind == "panic":
            c.ob("absolute#panic", False, "deriving along a path must not panic", c.loc(f), repr(p)[:300])
            continue
        pre = view(p).variant(sp)
        empty = view(p).lit(("t", canon(f"eq(0, len({sp}.Some.0))"), True))
        r = sret(p)
        if p.kind == "back":
            es = evs(p, r"Derivable::derive_child$")
            s = sret(p) if p.ret is not None else ""
            c.ob("absolute#step", len(es) == 1 and show(es[0].args[1]) == f"elem({sp}.Some.0)" and pre == "Some", "each step must derive the child named by the next element of the path", c.loc(f), repr(p)[:500])
            c.ob("absolute#chain", len(es) == 1 and (s == show(es[0].res) + ".Ok.0" or any(show(x) == show(es[0].res) + ".Ok.0" for x in (p.next or {}).values())), "each step must continue from the key derived last", c.loc(f), repr(p)[:500])
        elif r.startswith("Ok("):
            c.ob("absolute#ok", pre == "Some" and empty is False and any(x[0] == "exh" and show(x[1]) in (f"iter({sp}.Some.0)",) for x in p.facts), "success requires the own path to be a proper prefix of the target and every remaining element to have been derived", c.loc(f), repr(p)[:500])
            c.ob("absolute#value", re.match(r"Ok\((fold\(iter\(" + re.escape(sp) + r"\.Some\.0\), \$0, |acc\(|phi<)", r) or show(started(p, p.ret)) == "Ok($0)", "the result must be the key derived last, starting from this key", c.loc(f), r[:400])
        else:
            c.ob("absolute#err", pre == "None" or empty is True or any(v == "Err" and "derive_child(" in show(t) for t, v in p.var.items()), "deriving along a path may be refused only when it does not extend the own path or a step fails", c.loc(f), repr(p)[:500])
    sp = "slice::strip_prefix($0.0, $1.0)"
    c.table("path_diff", c.paths(DP + "::get_super_path_diff"), [(f"{sp} is None", "None"), (f"{sp} is Some & eq(0, len({sp}.Some.0))", "None"), (f"{sp} is Some & !eq(0, len({sp}.Some.0))", f"Some({sp}.Some.0)")])
    f = f"<{DP} as core::convert::TryFrom<alloc::vec::Vec<{CN[:-2]}>>>::try_from"
    c.table("path_limit", c.paths(f), [("lt(255, len($0))", "Err(_)"), ("!lt(255, len($0))", "Ok(DerivationPath($0))")])
    f = f"<{DP} as core::str::traits::FromStr>::from_str"
    first = "Split::next(str::split($0, '/'))"
    n = 0
    for p in c.paths(f, stop=r"child_number::ChildNumber as .*FromStr>::from_str$|str>::parse$"):
        if p.kind == "panic":
            c.ob("parse#panic", False, "parsing a path must not panic", c.loc(f), repr(p)[:300])
        elif p.kind == "ret" and sret(p).startswith("Ok("):
            n += 1
            rest = f"out0[{first}]"
            c.ob("parse#root", anyof(p, f"eq('m', {first}.Some.0)") is True, "a path must start with the root marker", c.loc(f), repr(p)[:500])
            m = re.fullmatch(r"Ok\(DerivationPath\((.*)\)\)", sret(p))
            c.ob("parse#rest", m and rest in m[1] and any(x[0] == "exh" and rest in show(x[1]) for x in p.facts), "every further element must have been parsed into the path, in order", c.loc(f), sret(p)[:400])
            c.ob("parse#limit", m and holds(p, f"!lt(255, len({m[1]}))"), "a path longer than 255 must be refused", c.loc(f), repr(p)[:500])
    c.ob("parse#ok", n, "no path can be parsed", c.loc(f))


def numbers(c):
    c.table("from_hardened", c.paths(CN + "from_hardened"), [("", "ChildNumber(bitor($0.0, 2147483648)) || ChildNumber(add($0.0, 2147483648))")])
    c.table("from_normal", c.paths(CN + "from_normal"), [("", "ChildNumber($0.0)")])
    c.table("get_index", c.paths(CN + "get_index"), [("", lambda p: re.fullmatch(r"U31\((bitand\(\$0\.0, 2147483647\)|bitand\(2147483647, \$0\.0\))\)", sret(p)))])
    for f, v in (("is_hardened", True), ("is_normal", False)):
        for p in c.paths(CN + f):
            r = sret(p)
            if r in ("true", "false"):
                h = PRED["bit31"](p, "$0.0")
                good = h is not None and (h == v) == (r == "true")
            else:
                hs = ["ne(bitand($0.0, 2147483648), 0)", "eq(bitand($0.0, 2147483648), 2147483648)", "lt(2147483647, $0.0)", "le(2147483648, $0.0)"]
                ns = ["eq(bitand($0.0, 2147483648), 0)", "lt($0.0, 2147483648)", "not(ne(bitand($0.0, 2147483648), 0))", "ne(bitand($0.0, 2147483648), 2147483648)"]
                good = match(" || ".join(hs if v else ns), r)
            c.ob(f, good, f"{f} must read the top bit", c.loc(CN + f), r)
    c.table("be", c.paths(CN + "into_encoded_be_bytes"), [("", "num(to_be_bytes, u32, $0.0)")])
    c.table("from_be", c.paths(CN + "from_encoded_be_bytes"), [("", "ChildNumber(num(from_be_bytes, u32, $0))")])
    inc = "add(1, bitand($0.0, 2147483647))"
    for p in c.paths(CN + "increment"):
        r = sret(p)
        full = anyof(p, f"!eq(0, bitand({inc}, 2147483648))", f"lt(2147483647, {inc})", "eq(2147483647, bitand($0.0, 2147483647))")
        if p.kind == "panic":
            c.ob("increment#panic", "b2i(" in repr(p), "incrementing must not panic", c.loc(CN + "increment"), repr(p)[:300])
        elif r.startswith("Err("):
            c.ob("increment#err", full, "incrementing may fail only at the last index", c.loc(CN + "increment"), repr(p)[:300])
        else:
            h = PRED["bit31"](p, "$0.0")
            opts = [f"Ok(ChildNumber(bitor({inc}, mul(2147483648, b2i(ne(bitand($0.0, 2147483648), 0))))))"]
            opts += {True: [f"Ok(ChildNumber(bitor({inc}, 2147483648)))"], False: [f"Ok(ChildNumber({inc}))"], None: [f"Ok(ChildNumber(bitor({inc}, bitand($0.0, 2147483648))))", "Ok(ChildNumber(add($0.0, 1)))"]}[h]
            c.ob("increment#ok", full is False and match(" || ".join(opts), r), "incrementing must keep the kind and add one to the index", c.loc(CN + "increment"), repr(p)[:400])
    f = f"<{CN[:-2]} as core::str::traits::FromStr>::from_str"
    n = set()
    for p in c.paths(f):
        r = sret(p)
        if p.kind != "ret" or not r.startswith("Ok("):
            c.ob("number#panic", p.kind != "panic", "parsing a child number must not panic", c.loc(f), repr(p)[:300])
            if p.kind == "ret":
                sfx = next((t for t in p.var if show(t).startswith("str::strip_suffix($0, ")), None)
                s = "$0" if sfx is None or p.var[sfx] != "Some" else show(sfx) + ".Some.0"
                zero = holds(p, f"lt(1, len({s}))") and (any(v2 is True and re.match(r"(\w+::)?starts_with\(" + re.escape(s) + r", (48|'0')\)", show(t)) for t, v2 in p.truth.items()) or any(holds(p, f"str::strip_prefix({s}, {z}) is Some") for z in ("48", "'0'", '"0"')))
                digit = any(v2 is False and "is_ascii_digit" in show(t) for t, v2 in p.truth.items())
                big = holds(p, f"parse_u32({s}) is Err") or PRED["bit31"](p, f"parse_u32({s}).Ok.0")
                c.ob("number#refusal", sfx is not None and (zero or digit or big), "a child number may be refused only for a character that is not a digit, a leading zero or a value that does not fit", c.loc(f), repr(p)[:500])
            continue
        sfx = next((show(t) for t in p.var if re.match(r"str::strip_suffix\(\$0, (\[39, 104\]|\[104, 39\])", show(t))), None)
        c.ob("number#suffix", sfx, "the hardened marker must be recognised by its suffix", c.loc(f), repr(p)[:400])
        if not sfx:
            continue
        h = view(p).variant(sfx) == "Some"
        n.add(h)
        s = sfx + ".Some.0" if h else "$0"
        v = f"parse_u32({s}).Ok.0"
        c.ob("number#value", match(f"Ok(ChildNumber(bitor(2147483648, {v})))" if h else f"Ok(ChildNumber({v}))", r) and PRED["bit31"](p, v) is False, "the number is the parsed index below 2^31, marked hardened iff the suffix was there", c.loc(f), repr(p)[:500])
        c.ob("number#digits", any(x[0] == "exh" and s in show(x[1]) for x in p.facts) and (holds(p, f"!lt(1, len({s}))") or any(v2 is False and re.match(r"(\w+::)?starts_with\(" + re.escape(s) + r", (48|'0')\)", show(t)) for t, v2 in p.truth.items()) or any(holds(p, f"str::strip_prefix({s}, {z}) is None") for z in ("48", "'0'", '"0"'))),
             "only plain decimal digits without a leading zero are a child number", c.loc(f), repr(p)[:500])
    for p in c.paths(f):
        for t, v in p.truth.items():
            if "is_ascii_digit" in show(t) and v is False and p.kind == "ret":
                c.ob("number#nondigit", sret(p).startswith("Err("), "a character that is not a digit must be refused", c.loc(f), repr(p)[:300])
    c.ob("number#both", n == {True, False}, "both kinds of numbers must be parseable", c.loc(f))


def texts(c):
    """paths and indices as text and bytes, as they read back"""
    ix = "bitand($0.0, 2147483647)"
    for p in c.paths(CN + "from_index_with_hardened_bit"):
        c.ob("from_index", sret(p) == "ChildNumber($0)", "the encoded index is the number", c.loc(CN), sret(p)[:100])
    c.table("into_index", c.paths(CN + "into_encoded_index"), [("", "$0.0")])
    f = f"<{CN[:-2]} as core::fmt::Display>::fmt"
    seen = set()
    for p in c.paths(f):
        txt, bad, last = written(p)
        h = PRED["bit31"](p, "$0.0")
        want = "{" + ix + "}" + ("" if not h else "(mark)")
        got = re.sub(r"['h]$", "(mark)", txt)
        got = re.sub(r"\{U31\((.*)\)\}", r"{\1}", got.replace("bitand(2147483647, $0.0)", ix))
        if bad:
            c.ob("number-text#err", sret(p).startswith("Err(") and want.startswith(got), "a failure to write must be reported", c.loc(f), repr(p)[:300])
            continue
        seen.add(h)
        c.ob("number-text", p.kind == "ret" and h is not None and got == want and not sret(p).startswith("Err("), "a child number is written as its index and, if hardened, the mark", c.loc(f), txt[:200] + " " + repr(p)[:200])
    c.ob("number-text#both", seen == {True, False}, "both kinds of numbers must be written", c.loc(f), str(seen))
    f = f"<{DP} as core::fmt::Display>::fmt"
    seen = set()
    for p in c.paths(f, stop=r"child_number::ChildNumber as .*Display>::fmt$"):
        txt, bad, last = written(p)
        if bad or p.kind != "ret" and p.kind != "back":
            c.ob("path-text#err", p.kind == "ret" and sret(p).startswith("Err(") and "m/{elem($0.0)}".startswith(txt), "a failure to write must be reported", c.loc(f), repr(p)[:300])
            continue
        seen.add(p.kind)
        c.ob("path-text", txt == "m" if p.kind == "ret" else txt == "m/{elem($0.0)}", "a path is written as the root marker and each number after a separator", c.loc(f), txt[:200] + " " + repr(p)[:200])
        if p.kind == "ret":
            c.ob("path-text#whole", any(x[0] == "exh" and show(x[1]) == "iter($0.0)" for x in p.facts) and not sret(p).startswith("Err("), "every number must be written", c.loc(f), repr(p)[:300])
    c.ob("path-text#both", seen == {"ret", "back"}, "paths must be written", c.loc(f), str(seen))
    f = f"<{DP} as parity_scale_codec::Encode>::encode_to"
    seen = set()
    for p in c.paths(f):
        if p.kind == "panic":
            c.ob("path-bytes#panic", holds(p, "lt(255, len($0.0))"), "writing a path must not panic", c.loc(f), repr(p)[:300])
            continue
        out = [(e, show(initially(p, e.args[1]))) for e in evs(p, r"Output::(push_byte|write)$|Encode::encode_to$")]
        got = [a for e, a in out]
        seen.add(p.kind)
        c.ob("path-bytes", got[:1] in (["cast(u8, len($0.0))"], ["[cast(u8, len($0.0))]"]) and got[1:] == (["num(to_be_bytes, u32, elem($0.0).0)"] if p.kind == "back" else []), "a path is the number of its elements and each element's bytes", c.loc(f), str(got)[:300])
        if p.kind == "ret":
            c.ob("path-bytes#whole", any(x[0] == "exh" and show(x[1]) == "iter($0.0)" for x in p.facts), "every number must be written", c.loc(f), repr(p)[:300])
    c.ob("path-bytes#both", seen == {"ret", "back"}, "paths must be written", c.loc(f), str(seen))
    f = f"<{DP} as parity_scale_codec::Decode>::decode"
    n = ok = 0
    for p in c.paths(f):
        reads = [e for e in p.events if re.search(r"Input::read_byte$|Input::read$|decode$", e.name)]
        failed = [e for e in reads if p.var.get(e.res) == "Err"]
        size = show(reads[0].res) + ".Ok.0" if reads else ""
        if p.kind == "ret" and sret(p).startswith("Ok("):
            ok += 1
            m = re.fullmatch(r"Ok\(DerivationPath\((phi<.*>|fold\(.*\)|Vec::with_capacity\(.*\)|collect\(map\(range\(0, .*\)\))\)\)", show(p.ret))
            whole = any(x[0] == "exh" and re.fullmatch(rf"(map\()?range\(0, {re.escape(size)}\)(, .*)?", show(x[1])) for x in p.facts)
            whole = whole or m and m[1].startswith("phi<") and any(v is False and show(t) == f"lt(len({m[1]}), {size})" for t, v in p.truth.items())
            c.ob("path-read#whole", len(reads) == 1 and whole and m,
                 "a path is read as many elements as its length says", c.loc(f), repr(p)[:300])
        elif p.kind == "back":
            n += 1
            pushed = [show(e.args[1]) for e in evs(p, r"Vec.*::push$")]
            el = show(reads[1].res) + ".Ok.0" if len(reads) == 2 else "?"
            if not pushed and p.ret is not None and show(p.ret) != "()":
                pushed = [show(p.ret)]
            c.ob("path-read#element", pushed == [f"ChildNumber(num(from_be_bytes, u32, {el}))"] and reads[0].name.endswith("read_byte"), "each element is read from its bytes and appended", c.loc(f), repr(p)[:400] + str(pushed))
        else:
            c.ob("path-read#err", p.kind == "ret" and failed, "reading may fail only for missing bytes", c.loc(f), repr(p)[:300])
    c.ob("path-read#ok", n and ok, "no path can be read", c.loc(f))
    U = K + "hdkd::u31::U31"
    f = f"<{U} as parity_scale_codec::Decode>::decode"
    for p in c.paths(f):
        ds = evs(p, r"decode$")
        v = show(ds[0].res) + ".Ok.0" if ds else ""
        h = PRED["bit31"](p, v)
        if sret(p).startswith("Ok("):
            c.ob("u31-read", p.kind == "ret" and len(ds) == 1 and h is False and sret(p) == f"Ok(U31({v}))", "an index is read if it is below 2^31", c.loc(f), repr(p)[:300])
        else:
            c.ob("u31-read#err", p.kind == "ret" and (h is True or any(p.var.get(e.res) == "Err" for e in ds)), "an index below 2^31 must be readable", c.loc(f), repr(p)[:300])
    f = f"{U}::from_u32"
    for p in c.paths(f):
        h = PRED["bit31"](p, "$0")
        c.ob("u31-from", p.kind == "ret" and h is not None and sret(p) == ("None" if h else "Some(U31($0))"), "an index is any number below 2^31", c.loc(f), repr(p)[:300])
    c.table("u31-into", c.paths(f"{U}::into_u32"), [("", "$0.0")])
    c.table("path-len", c.paths(DP + "::len"), [("", "len($0.0)")])
    c.table("path-vec", c.paths(DP + "::into_vec"), [("", "$0.0")])
    c.table("path-slice", c.paths(DP + "::as_slice"), [("", "$0.0")])
    for g in ("is_empty", "is_root"):
        for p in c.paths(f"{DP}::{g}"):
            e = anyof(p, "eq(0, len($0.0))")
            c.ob("path-" + g, p.kind == "ret" and (canon(sret(p)) == canon("eq(0, len($0.0))") or e is not None and sret(p) == str(e).lower()), "a root path has no elements", c.loc(f"{DP}::{g}"), repr(p)[:200])
    for name, want in ((CN + "ZERO", "ChildNumber(0)"), (CN + "ONE", "ChildNumber(1)"), (U + "::ZERO", "U31(0)"), (U + "::ONE", "U31(1)"), (U + "::TWO", "U31(2)")):
        t = c.F.consts.get(name)
        if t is not None:
            c.ob("const#" + name, f"{t['v'].get('V')}({t['v']['f'][0]})" == want, f"{name} must be {want}", c.loc(name), str(t["v"])[:200])


PARTS = [bip32, masters, vrf, paths_, numbers, texts]
