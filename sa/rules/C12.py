"""Authenticated encryption: the nonce of every encryption is drawn in full from the generator passed in, sealed data is
nonce followed by ciphertext under the holder's key, and plaintext only comes out of a successful authenticated decryption
of the whole input under that key, nonce and associated data."""
from ..rule import *
CRATES = ["crypto"]
RND = r"(RngExt::random\(\$(\d)\)@\d+|out\d\[\w+::(try_)?fill(_bytes)?\(\$(\d)(, ([^\[\]]*|\[0(, 0){23}\]))?\)(@\d+)?\])"
KEYS = {"symkey::SymmetricKey": r"ChaChaPoly1305::new\(\$0\.key\.XChacha20Poly1305\.0\.key_data\)", "ephemeral_e2e::SharedSecret": r"ChaChaPoly1305::new\(.*tryfrom\(\[u8;32\], \$0\.secret\)\.Ok\.0\)\)",
        "chacha20poly1305::Chacha20poly1305Key": r"ChaChaPoly1305::new\(\$0\.key_data\)"}


def sites(c, what):
    """public functions from which an AEAD call is reached"""
    todo, seen, out = {i for i, u in c.F.callers(r"^aead::.*::(%s)$" % what)}, set(), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = c.F.fn(i)
        if "{closure" in i:
            todo.add(re.sub(r"::\{closure.*$", "", i))
        elif is_root(f):
            out.add(i)
        if "{closure" not in i:
            todo |= {x for x, u in c.F.callers("^" + re.escape(i) + "$")}
    return sorted(x for x in out if x.startswith(("crypto::", "<crypto::")))


def parts(t):
    """the pieces a buffer was put together from, in order"""
    if t.tag in ("collect", "iter", "ref", "deref", "copied", "cloned"):
        return parts(t.args[0])
    if t.tag == "chain":
        return parts(t.args[0]) + parts(t.args[1])
    if t.tag == "out" or show(t).startswith("out0["):
        e = next((x for x in t.args if x.__class__ is T and x.tag == "call"), None)
        if e is not None and re.search(r"::(extend|extend_from_slice|append|extend_from_within)$", e.args[0]) and len(e.args[1]) > 1:
            return parts(e.args[1][0]) + parts(e.args[1][1])
    if t.tag in ("call", "emptymap") and re.match(r"(Vec::)?(with_capacity|new)\(|\{\}$|\[\]$", show(t)):
        return []
    if t.tag == "call" and re.search(r"::(concat|into_vec|to_vec|into_boxed_slice)$", t.args[0]):
        return parts(t.args[1][0])
    if t.tag == "arr":
        return [y for x in t.args for z in (x if isinstance(x, tuple) else (x,)) for y in (parts(z) if z.__class__ is T and z.tag != "int" else [z])]
    return [t]


def payload(t):
    return t.args[3][0] if t.tag == "adt" else t


def seal(c):
    n = 0
    fs = sites(c, "encrypt(_in_place)?(_detached)?")
    for f in fs:
        for p in c.paths(f):
            es = evs(p, r"^aead::.*::encrypt")
            if p.kind == "ret" and sret(p).startswith("Ok("):
                c.ob("seal#called", es, "encryption succeeds without the cipher having been run", c.loc(f), repr(p)[:500])
            if p.kind == "panic":
                c.ob("seal#panic", False, "encrypting must not panic", c.loc(f), repr(p)[:400])
            for e in es:
                n += 1
                key, nonce, ad, msg = [show(x) for x in e.args[:4]]
                m = re.fullmatch(r"(GenericArray::from_slice|from)\((&?GenericArray<[^()]*>, )?" + RND + r"\)|" + RND, nonce)
                c.ob("seal#nonce", m, "the nonce must be taken in full from the random generator of this call", c.loc(f), nonce[:300])
                k = next((v for t, v in KEYS.items() if t + "::" in f), None)
                c.ob("seal#key", k and re.fullmatch(k, key), "the cipher must be keyed with the holder's key", c.loc(f), key[:300])
                adg = "$3" if holds(p, "$3 is Some") or "$3" == ad else None
                want = {"$3.Some.0"} if holds(p, "$3 is Some") else {"[]", "$3"}
                c.ob("seal#ad", ad in want, "the associated data given must be authenticated", c.loc(f), ad[:300])
                c.ob("seal#msg", msg == ("Encode::encode($1)" if f.endswith("::encode_then_encrypt") else "$1"), "the message itself must be encrypted", c.loc(f), msg[:300])
                if p.kind == "ret" and sret(p).startswith("Ok("):
                    ps = [show(x) for x in parts(payload(p.ret))]
                    good = len(ps) == 2 and re.fullmatch(r"((from\(\[u8;24\], |(GenericArray|[\w:]+)::(as_slice|from|into|deref|as_ref)\()*)" + re.escape(nonce) + r"\)*", ps[0]) and ps[1] == "out3[" + show(e.res) + "]"
                    c.ob("seal#out", good, "the sealed message must be the nonce followed by the ciphertext", c.loc(f), str(ps)[:600])
    c.count("seal", n, 4)
    for f in ("crypto::symkey::SymmetricKey::encrypt", "crypto::ephemeral_e2e::SharedSecret::encrypt"):
        c.ob("seal#site", f in fs, f"{f} does not reach the cipher", f)


def unseal(c):
    n = 0
    fs = sites(c, "decrypt(_in_place)?(_detached)?")
    for f in fs:
        for p in c.paths(f):
            if p.kind == "panic":
                c.ob("open#panic", False, "decrypting must not panic on any input", c.loc(f), repr(p)[:400])
            es = evs(p, r"^aead::.*::decrypt")
            ok = p.kind == "ret" and sret(p).startswith("Ok(")
            if ok:
                c.ob("open#called", len(es) == 1 and holds(p, f"{show(es[0].res)} is Ok"), "plaintext is returned without a successful authenticated decryption", c.loc(f), repr(p)[:600])
            for e in es:
                n += 1
                key, nonce, ad, msg = [show(x) for x in e.args[:4]]
                inner = "::decrypt_with_nonce" in f
                k = next((v for t, v in KEYS.items() if t + "::" in f), None)
                c.ob("open#key", k and re.fullmatch(k, key), "the cipher must be keyed with the holder's key", c.loc(f), key[:300])
                if not inner:
                    c.ob("open#parts", re.fullmatch(r"(from\([^()]*, |GenericArray::from_slice\()?slice\(\$1, (RangeTo\{end: 24\}|range\(0, 24\))\)\)?|.*split_at\w*\(\$1, 24\)(\.Some\.0)?\.0\)?", nonce)
                         and re.fullmatch(r"slice\(\$1, (RangeFrom\{start: 24\}|range\(24, len\(\$1\)\))\)|.*split_at\w*\(\$1, 24\)(\.Some\.0)?\.1", msg),
                         "the first 24 bytes are the nonce, all the rest is the ciphertext", c.loc(f), nonce[:200] + " / " + msg[:200])
                    v = view(p)
                    c.ob("open#len", v.lit(("t", "lt(23, len($1))", True)) or "split_at_checked" in msg, "the length must be checked before the nonce is split off", c.loc(f), repr(p)[:300])
                    want = {"$2.Some.0"} if holds(p, "$2 is Some") else {"[]", "$2"}
                    c.ob("open#ad", ad in want, "the associated data given must be authenticated", c.loc(f), ad[:300])
                if ok and not f.endswith("decrypt_then_decode"):
                    c.ob("open#out", sret(p) == f"Ok(out3[{show(e.res)}])", "the result must be the decrypted buffer", c.loc(f), sret(p)[:400])
                elif ok:
                    c.ob("open#decoded", sret(p) == f"Ok(DecodeAll::decode_all(out3[{show(e.res)}]).Ok.0)", "the result must be decoded from the whole decrypted buffer", c.loc(f), sret(p)[:400])
    c.count("open", n, 4)
    for f in ("crypto::symkey::SymmetricKey::decrypt", "crypto::ephemeral_e2e::SharedSecret::decrypt", "crypto::ephemeral_e2e::SharedSecret::decrypt_then_decode"):
        c.ob("open#site", f in fs, f"{f} does not reach the cipher", f)


def agreement(c):
    E = "crypto::ephemeral_e2e::"
    own = r"from\(PublicKey, \$0\.key\)"
    for p in c.paths(E + "EndToEndPrivateKey::shared_secret"):
        same = [v for a, v in p.truth.items() if re.fullmatch(r"eq\((\$1(\.key)?, .*\$0.*|.*\$0.*, \$1(\.key)?)\)", show(a))]
        if p.kind == "panic":
            c.ob("dh#panic", same == [True], "a shared secret may only be refused with the own public key", c.loc(p.fid), repr(p)[:400])
        elif p.kind == "ret":
            c.ob("dh#own", same == [False], "a shared secret with the own public key must be refused", c.loc(p.fid), repr(p)[:400])
            s = fields(p, p.ret, "secret")[0]
            c.ob("dh#value", re.fullmatch(r"(SharedSecret::(to_bytes|as_bytes)\()?ReusableSecret::diffie_hellman\(\$0\.key, \$1\.key\)\)?", s), "the shared secret must be the key agreement of the own private and the other public key", c.loc(p.fid), s[:300])
    for f in ("EndToEndPrivateKey::public_key", "EndToEndPublicKey::from_private_key"):
        c.table(f, c.paths(E + f), [("", "EndToEndPublicKey{key: from(PublicKey, $0.key)}")])
    c.table("EndToEndPrivateKey::new", c.paths(E + "EndToEndPrivateKey::new_from_rng"), [("", lambda p: re.fullmatch(r"EndToEndPrivateKey\{key: ReusableSecret::random_from_rng\((\w+\()?\$0\)?\)(@\d+)?\}", sret(p)))])


PARTS = [seal, unseal, agreement]
