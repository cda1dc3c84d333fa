"""Encodings: for every type with an encoder and a decoder, what the decoder builds from the items it reads, with each item replaced by what the
encoder wrote at that place, is the value that was encoded; kinds are told apart by their tags, and tags and the order of items stay the ones in use."""
import json
import os
from ..rule import *
CRATES = ["crypto", "common", "accounting", "chainstate-types", "consensus", "tokens-accounting", "orders-accounting", "pos-accounting", "p2p", "p2p-types", "utxo", "wallet-types", "script", "utils"]
STOP = r"parity_scale_codec::(Encode|Decode).*::(encode_to|encode|using_encoded|decode|size_hint|encoded_size)$"
WIRE = os.path.join(os.path.dirname(__file__), "..", "wire.json")
# what undoes what: (reader of bytes, writer of bytes)
UNDO = [(r"SecretKey::from_slice\(({X})\)\.Ok\.0", r"{X}"), (r"PublicKey::from_slice\(PublicKey::serialize\(({X})\)\)\.Ok\.0", 0), (r"Signature::from_slice\(({X})\)\.Ok\.0", 0),
        (r"(?:VRFPreOut|VRFProof|PublicKey|SecretKey)::from_bytes\((?:VRFPreOut|VRFProof|PublicKey|SecretKey)::to_bytes\(({X})\)\)\.Ok\.0", 0), (r"from\((?:\w+::)*PublicKey, PublicKey::to_bytes\(({X})\)\)", 0),
        (r"GenericArray::(?:clone_)?from_slice\(GenericArray::as_slice\(({X})\)\)", 0), (r"GenericArray::(?:clone_)?from_slice\(({X})\)", 0), (r"SigHashType\(\[?({X})\.0\]?\)", 0), (r"from\(\w+, from\(CompactRef<\w+>, ({X})\)\)", 0)]
X = r"\$0(?:\.\w+)+"


def items(p):
    """what a path of an encoder writes: the terms in order, an integer standing for a tag byte; and the events that write, in a chain"""
    out = []
    for e in p.events:
        n = e.name.rsplit("::", 1)[-1]
        if re.search(r"Output::(push_byte|write)$", e.name):
            t = e.args[1]
            if t.tag == "int":
                out.append(t.args[0])
            elif re.fullmatch(r"\[\d+\]", show(t)):
                out.append(int(show(t)[1:-1]))
            else:
                out.append(show(t))
        elif n == "encode_to":
            out.append(show(e.args[0]))
        elif n == "using_encoded" and show(e.args[1]) == "$1" and sret(p) == show(e.res):
            out.append(show(e.args[0]))
    m = re.fullmatch(r"apply\(\$1, \w*(?:::)?(?:encode|Encode::encode)\((.*)\)\)", sret(p)) if p.kind == "ret" and p.ret is not None else None
    if m:
        out.append(m[1])
    return out


def reads(p):
    """what a path of a decoder reads, in order: the text of each item as the later path refers to it"""
    out = []
    for e in p.events:
        n = e.name.rsplit("::", 1)[-1]
        if re.search(r"Input::read_byte$", e.name):
            out.append(("byte", show(e.res) + ".Ok.0", e))
        elif n == "decode":
            out.append(("item", show(e.res) + ".Ok.0", e))
        elif re.search(r"Input::read$", e.name):
            out.append(("bytes", f"out1[{show(e.res)}]", e))
    return out


def tagged(p, ty):
    """the tag a path of a decoder has established its first byte to be"""
    r = reads(p)
    if not r or r[0][0] != "byte":
        return None
    b = r[0][1]
    for t, v in p.truth.items():
        m = re.fullmatch(r"eq\((\d+), (.*)\)|eq\((.*), (\d+)\)", show(t))
        if m and v and (m[2] or m[3]) == b:
            return int(m[1] or m[4])
    lo, hi = p.rng.get(r[0][2], (0, 0)) if False else (None, None)
    return None


def undone(s):
    old = None
    while old != s:
        old = s
        for rd, _ in UNDO:
            s = re.sub(rd.replace("{X}", X), r"\1", s)
    return s


def value(adt, k, ty):
    """the value of the variant, in terms of the value encoded, ways of writing it"""
    v = adt["v"][k]
    fs = [x[0] for x in v["f"]]
    one = len(adt["v"]) == 1 and adt["kind"] == "struct"
    base = "$0" if one else "$0." + v["n"]
    name = v["n"] if one else adt["id"].rsplit("::", 1)[-1] + "::" + v["n"]
    if not fs:
        return name, base, fs
    if fs[0].isdigit():
        return f"{name}({', '.join(base + '.' + f for f in fs)})", base, fs
    return name + "{" + ", ".join(f"{f}: {base}.{f}" for f in fs) + "}", base, fs


def pairs(F):
    out = {}
    for i in F.ids():
        m = re.search(r"(?:::<impl |^<)(?:parity_scale_codec::(Encode|Decode) for (.*)|(.*) as parity_scale_codec::(Encode|Decode))>::(\w+)$", i)
        if m:
            out.setdefault(m[2] or m[3], {})[m[5]] = i
    return out


def plain(t):
    """a type without its parameters"""
    return re.sub(r"<.*$", "", t)


def everything(c):
    wire = json.load(open(WIRE))
    n = 0
    for ty, fs in sorted(pairs(c.F).items()):
        if plain(ty).split("::")[0] in ("mlwitness", "serialization", "serialization_tagged", "storage"):
            continue
        adt = c.F.adts.get(plain(ty))
        if adt is not None and not adt["v"]:
            continue
        enc = fs.get("encode_to") or fs.get("using_encoded")
        if adt is None or enc is None:
            continue
        n += 1
        got = encoded(c, ty, adt, enc)
        kept(c, ty, adt, enc, got, wire.get(plain(ty)))
        if "decode" in fs and plain(ty) not in OWN:
            decoded(c, ty, adt, fs["decode"], got)
        if "encode" in fs:
            whole(c, ty, fs["encode"], got)
    c.ob("types", n > 20, "no encodings found")
    c.note(f"{n} types")


# decoders decided elsewhere (C20: tags; C15: paths)
OWN = {"common::chain::block::Block", "common::chain::transaction::Transaction", "crypto::key::hdkd::derivation_path::DerivationPath"}
SKIP = {"crypto::key::hdkd::derivation_path::DerivationPath"}
# decoders that refuse more than missing bytes: the conditions under which they may
REFUSE = {
    "common::chain::transaction::signed_transaction::SignedTransaction": lambda p: any(v is False and re.match(r"eq\(len\(.*inputs\), len\(.*\)\)$|eq\(len\(.*\), len\(.*inputs\)\)$", show(t)) for t, v in p.truth.items()),
    "common::chain::transaction::signature::inputsig::standard_signature::StandardInputSignature": lambda p: all(any(v is False and re.match(rf"eq\({k}, bitand\(127, ", show(t)) for t, v in p.truth.items()) for k in (1, 2, 3)),
    "common::primitives::per_thousand::PerThousand": lambda p: True, "common::primitives::user_agent::UserAgent": lambda p: True, "crypto::key::hdkd::u31::U31": lambda p: True,   # C03, C15
}


def encoded(c, ty, adt, enc):
    """tag and items of each variant"""
    out = {}
    if plain(ty) in SKIP:
        return out
    loc = c.loc(enc)
    enum = adt["kind"] == "enum"
    ps = c.paths(enc, stop=STOP, inline={"crypto"})
    for p in ps:
        if p.kind != "ret":
            c.ob(ty + "#panic", False, "encoding must not panic", loc, repr(p)[:300])
            continue
        its = items(p)
        names = [p.var.get(t) for t in p.var if show(t) == "$0"]
        k = 0 if len(adt["v"]) == 1 else next((j for j, v in enumerate(adt["v"]) if names and v["n"] == names[0]), None)
        if k is None:
            if not its and len(adt["v"]) > 1:
                continue
            c.ob(ty + "#variant", False, "each kind is encoded in its own way", loc, repr(p)[:300])
            continue
        out.setdefault(k, its)
        want, base, fs = value(adt, k, ty)
        flat = [x for x in its if isinstance(x, str)]
        used = [f for f in fs if any(re.search(re.escape(base + "." + f) + r"(?![\w.])", x) or re.search(re.escape(base + "." + f) + r"\.", x) for x in flat)]
        ghost = [f[0] for f in adt["v"][k]["f"] if c.F.ty(adt["crate"], f[1])[:2] == ("adt", "core::marker::PhantomData")]
        c.ob(f"{ty}#fields", set(fs) - set(used) <= set(ghost), "every field must be encoded", loc, f"{adt['v'][k]['n']}: {its}"[:400])
        if enum and len(adt["v"]) > 1:
            c.ob(f"{ty}#tagged", its and isinstance(its[0], int), "each kind is told by its first byte", loc, f"{adt['v'][k]['n']}: {its}"[:300])
    if enum and len(adt["v"]) > 1:
        tags = [its[0] for its in out.values() if its and isinstance(its[0], int)]
        c.ob(ty + "#tags", len(tags) == len(set(tags)), "two kinds must not share a tag", loc, str(sorted(tags)))
        c.ob(ty + "#kinds", len(out) == len(adt["v"]), "every kind must be encodable", loc, str(sorted(out)))
    return out


def decoded(c, ty, adt, dec, enc):
    """what is read back is what was written"""
    loc = c.loc(dec)
    if plain(ty) in SKIP:
        return
    good = set()
    for p in c.paths(dec, stop=STOP, inline={"crypto"}):
        rs = reads(p)
        r = sret(p)
        if p.kind == "back" and plain(ty) in REFUSE:
            continue
        if p.kind != "ret":
            c.ob(ty + "#read-panic", False, "decoding must not panic", loc, repr(p)[:300])
            continue
        if not r.startswith("Ok("):
            failed = any(p.var.get(e.res) == "Err" for _, _, e in rs) or any(v == "Err" and re.search(r"from_slice|from_bytes", show(t)) for t, v in p.var.items())
            tag = tagged(p, ty)
            known = [its[0] for its in enc.values() if its and isinstance(its[0], int)]
            none = bool(known) and rs and rs[0][0] == "byte" and (any(v == "None" and show(t) == f"FromPrimitive::from_u8({rs[0][1]})" for t, v in p.var.items()) or all(refuted(p, f"eq({k}, {rs[0][1]})") for k in known))
            c.ob(ty + "#refused", failed or none or plain(ty) in REFUSE and REFUSE[plain(ty)](p), "decoding may fail only where the input ends, holds no such kind or no such key", loc, repr(p)[:500])
            continue
        if plain(ty).endswith("::SignedTransaction"):
            c.ob(ty + "#witnesses", any(v and re.match(r"eq\(len\(.*inputs\), len\(.*\)\)$|eq\(len\(.*\), len\(.*inputs\)\)$", show(t)) for t, v in p.truth.items()), "a transaction with a wrong number of witnesses must be refused", loc, repr(p)[:300])
        if plain(ty).endswith("::StandardInputSignature"):
            c.ob(ty + "#mode", any(v and re.match(r"eq\([123], bitand\(127, ", show(t)) for t, v in p.truth.items()), "a signature hash mode that is not known must be refused", loc, repr(p)[:300])
        prim = rs and [t for t, v in p.var.items() if v == "Some" and show(t) == f"FromPrimitive::from_u8({rs[0][1]})"] and [v["d"] for v in c.F.adts["crypto::key::signature::SignatureKind"]["v"]] == [0] and ty == "crypto::key::signature::Signature"
        tag = tagged(p, ty)
        for k, its in enc.items():
            want, base, fs = value(adt, k, ty)
            name = want.split("(")[0].split("{")[0]
            if not re.match(r"Ok\(" + re.escape(name) + r"(?!\w)", r):
                continue
            good.add(k)
            xs = list(its)
            if xs and isinstance(xs[0], int):
                c.ob(ty + "#tag", tag == xs[0] or prim, "a kind must be read at its own tag", loc, f"{name}: written {xs[0]}, read at {tag}")
                c.ob(ty + "#items", len(rs) == len(xs) and rs[0][0] == "byte", "as many items must be read as are written", loc, f"{name}: {len(xs)} {len(rs)}")
            else:
                c.ob(ty + "#items", len(rs) == len(xs), "as many items must be read as are written", loc, f"{name}: {len(xs)} {len(rs)}")
            s = show(p.ret)
            for (_, t, e), x in sorted(zip(rs, xs), key=lambda y: -len(y[0][1])):
                s = s.replace(t, str(x))
            s = undone(s)
            for f in adt["v"][k]["f"]:
                if c.F.ty(adt["crate"], f[1])[:2] == ("adt", "core::marker::PhantomData"):
                    s = re.sub(rf"(?<!\w){f[0]}: (PhantomData(<[^{{}}]*>)?|default\(PhantomData<.*?>\))(?=[,}}])", f"{f[0]}: {base}.{f[0]}", s)
                    s = re.sub(r"PhantomData(<.*?>)?(?=[,)])", f"{base}.{f[0]}", s) if f[0].isdigit() else s
            c.ob(ty + "#same", s == f"Ok({want})", "decoding an encoded value must give that value", loc, f"{s} for {want}"[:600])
            break
        else:
            c.ob(ty + "#foreign", False, "decoding must give a value that is encoded in this way", loc, r[:300])
    c.ob(ty + "#all", good == set(enc), "every kind must be decodable", loc, f"{sorted(good)} of {sorted(enc)}")


def form(adt, k, its):
    """the format of a variant: tag, fields in order, compact ones marked"""
    out = []
    for x in its:
        if isinstance(x, int):
            out.append(x)
        else:
            f = re.search(r"\$0((?:\.\w+)+)", x)
            out.append(("~" if "CompactRef" in x else "") + (f[1].rsplit(".", 1)[-1] if f else "?"))
    return out


def kept(c, ty, adt, enc, got, was):
    """formats in use do not change"""
    if not was:
        return
    for k, its in got.items():
        v = adt["v"][k]["n"]
        old = was.get(v)
        if old is None:
            continue
        new = form(adt, k, its)
        tag = lambda l: l[0] if l and isinstance(l[0], int) else None
        c.ob(f"{ty}#kept-tag", tag(new) == tag(old), "a kind must keep the tag data in use has", c.loc(enc), f"{v}: {old} now {new}")
        o, n = [str(x).lstrip("~") for x in old], [str(x).lstrip("~") for x in new]
        if sorted(o) == sorted(n):
            c.ob(f"{ty}#kept-order", old == new, "items must keep the order and form data in use has", c.loc(enc), f"{v}: {old} now {new}")


def whole(c, ty, fid, got):
    for p in c.paths(fid, stop=STOP):
        if p.kind == "ret":
            c.ob(ty + "#whole", items(p) in list(got.values()) + [["$0"]] and re.search(r"into_inner\(|\[|with_capacity|Vec::new", sret(p)), "the bytes of a value are those it is encoded to", c.loc(fid), str(items(p))[:300])


SIZES = {"crypto::symkey::chacha20poly1305::Chacha20poly1305Key": 32, "crypto::vrf::schnorrkel::data::SchnorrkelVRFReturn": 96, "crypto::vrf::schnorrkel::SchnorrkelPublicKey": 32, "crypto::vrf::schnorrkel::SchnorrkelPrivateKey": 64}


def sizes(c):
    """announced sizes are those of the bytes written"""
    ps = pairs(c.F)
    for ty, n in SIZES.items():
        for f, want in (("size_hint", None), ("encoded_size", f"{n}"), ("encoded_fixed_size", f"Some({n})")):
            fid = ps.get(ty, {}).get(f)
            if not fid:
                continue
            for p in c.paths(fid):
                if p.kind == "ret":
                    r = sret(p)
                    good = r == want or want is None and r.isdigit() and int(r) <= n or f == "encoded_fixed_size" and r == "None"
                    good = good or any(e.name.endswith("encoded_size") for e in p.events)
                    c.ob(f"{ty}#{f}", good, f"the size announced must be {n}", c.loc(fid), r[:200])
    ty = "common::chain::transaction::signature::inputsig::standard_signature::StandardInputSignature"
    fid = ps[ty].get("encoded_size")
    if fid:
        for p in c.paths(fid, stop=STOP):
            if p.kind == "ret":
                c.ob(ty + "#encoded_size", re.fullmatch(r"add\(1, \w+::encoded_size\(\$0\.raw_signature\)\)", sret(p)), "the size is that of the signature and one byte", c.loc(fid), sret(p))


def raw(c):
    """the raw forms of keys and signatures"""
    S = "crypto::key::secp256k1::"
    for ty, f, n in (("Secp256k1PrivateKey", "data", "SecretKey"), ("Secp256k1PublicKey", "pubkey_data", "PublicKey")):
        t = f"{n}::from_slice($0)"
        c.table(ty + "#from_bytes", c.paths(f"{S}{ty}::from_bytes"), [(f"{t} is Ok", f"Ok({ty}{{{f}: {t}.Ok.0}})"), (f"{t} is Err", "Err(_)")])
        c.table(ty + "#from_native", c.paths(f"{S}{ty}::from_native"), [("", f"{ty}{{{f}: $0}}")])
        c.table(ty + "#as_native", c.paths(f"{S}{ty}::as_native"), [("", f"$0.{f}")])
        g = next(i for i in c.F.ids("crypto") if re.fullmatch(rf"<{S}{ty} as core::convert::From<secp256k1::.*>>::from", i))
        c.table(ty + "#from", c.paths(g), [("", f"{ty}{{{f}: $0}}")])
    c.table("private#as_bytes", c.paths(S + "Secp256k1PrivateKey::as_bytes"), [("", "$0.data || SecretKey::secret_bytes($0.data)")])
    c.table("public#as_bytes", c.paths(S + "Secp256k1PublicKey::as_bytes"), [("", "PublicKey::serialize($0.pubkey_data)")])
    G = "crypto::key::signature::Signature::"
    d = "T::decode_all($0)"
    for p in c.paths(G + "from_data"):
        ds = evs(p, r"decode_all$")
        ok = len(ds) == 1 and show(ds[0].args[0]) == "$0" and p.kind == "ret"
        c.ob("signature#from_data", ok and (sret(p) == show(ds[0].res) + ".Ok.0" or sret(p) == f"Ok({show(ds[0].res)}.Ok.0)" and p.var.get(ds[0].res) == "Ok" or sret(p) == show(ds[0].res) or sret(p).startswith("Err(") and p.var.get(ds[0].res) == "Err"),
             "a signature is read from all of its bytes or refused", c.loc(G + "from_data"), repr(p)[:300])
    t = "Signature::from_slice($0)"
    c.table("signature#from_raw", c.paths(G + "from_raw_data"), [(f"{t} is Ok", f"Ok(Signature::Secp256k1Schnorr({t}.Ok.0))"), (f"{t} is Err", "Err(_)")])
    K = "crypto::key::"
    V = "crypto::vrf::"
    for f, want in ((G + "is_aggregable", "false"), (K + "PublicKey::is_aggregable", "false"), (G + "kind", "SignatureKind::Secp256k1Schnorr"), (K + "PrivateKey::kind", "KeyKind::Secp256k1Schnorr"), (K + "PublicKey::kind", "KeyKind::Secp256k1Schnorr"),
                    (V + "VRFPrivateKey::kind", "VRFKeyKind::Schnorrkel"), (V + "VRFPublicKey::kind", "VRFKeyKind::Schnorrkel"), (f"<{K}PrivateKey as core::convert::From<{S}Secp256k1PrivateKey>>::from", "PrivateKey{key: PrivateKeyHolder::Secp256k1Schnorr($0)}"),
                    (f"<{K}PublicKey as core::convert::From<{S}Secp256k1PublicKey>>::from", "PublicKey{pub_key: PublicKeyHolder::Secp256k1Schnorr($0)}"), (f"{K}<impl core::convert::TryFrom<{K}PublicKey> for {S}Secp256k1PublicKey>::try_from", "Ok($0.pub_key.Secp256k1Schnorr.0)"),
                    (f"{V}<impl core::convert::TryFrom<{V}VRFPublicKey> for {V}schnorrkel::SchnorrkelPublicKey>::try_from", "Ok($0.pub_key.Schnorrkel.0)"), (V + "schnorrkel::data::SchnorrkelVRFReturn::vrf_preout", "VRFPreOut::to_bytes($0.preout)"),
                    (V + "schnorrkel::data::SchnorrkelVRFReturn::vrf_proof", "VRFProof::to_bytes($0.proof)"), (V + "schnorrkel::SchnorrkelPublicKey::as_bytes", "PublicKey::to_bytes($0.key)"), ("crypto::ephemeral_e2e::EndToEndPublicKey::as_bytes", "PublicKey::to_bytes($0.key)")):
        c.table(f, c.paths(f), [("", want)])
    for ty in ("key::signature::Signature", "key::PublicKey", "vrf::VRFPublicKey", "vrf::schnorrkel::data::SchnorrkelVRFReturn"):
        for i in c.F.ids("crypto"):
            if re.fullmatch(rf"<crypto::{ty} as serde(_core)?::ser::Serialize>::serialize", i):
                c.table(ty + "#serialize", c.paths(i), [("", "HexEncoded::serialize(HexEncoded::new($0), $1)")])
            elif re.fullmatch(rf"<crypto::{ty} as serde(_core)?::de::Deserialize<'\w+>>::deserialize", i):
                z = "HexEncoded::deserialize($0)"
                c.table(ty + "#deserialize", c.paths(i), [(f"{z} is Ok", f"Ok(HexEncoded::take({z}.Ok.0))"), (f"{z} is Err", "Err(_)")])


PARTS = [everything, sizes, raw]
