"""Signatures: a verdict is exactly the signature scheme's verdict on the digest of the message, the given signature and the
given key; signing signs that same digest with the own key pair and the auxiliary data of the provider."""
from ..rule import *
CRATES = ["crypto"]
S = "crypto::key::secp256k1::"
K = "crypto::key::"
DG = r"GenericArray::split\(Digest::finalize(_reset)?\(out0\[Digest::update\(Digest::new\((CoreWrapper<CtVariableCoreWrapper<Blake2bVarCore;[^()]*)\), {m}\)\]\)\)\.0"


def dig(m):
    d = DG.format(m=re.escape(m))
    return rf"(Message::from_digest\((from\(\[u8;32\], )?{d}\)?\)|Message::from_digest_slice\((GenericArray::as_slice\()?{d}\)?\)\.Ok\.0)"


def verdict(c, f, key, msg, sig):
    ps = c.paths(f)
    got = set()
    for p in ps:
        vs = [(show(t), v) for t, v in list(p.var.items()) + list(p.truth.items()) if "verify_schnorr(" in show(t)]
        r = sret(p)
        if p.kind != "ret":
            c.ob(f + "#panic", any(v == "Err" and show(t).startswith("Message::from_digest_slice(") for t, v in p.var.items()), "verification must not panic on any input", c.loc(f), repr(p)[:300])
            continue
        calls = evs(p, r"verify_schnorr$")
        good = len(calls) == 1
        if good:
            a = [show(x) for x in calls[0].args]
            good = a[1] == sig and (re.fullmatch(msg, a[2])) and a[3] == f"PublicKey::x_only_public_key({key}).0"
            c.ob(f + "#call", good, "the scheme must judge the given signature over the digest of the whole message under this key", c.loc(f), str(a[1:])[:700])
            o = view(p).variant(show(calls[0].res))
            if r in ("true", "false"):
                got.add(r)
                c.ob(f + "#verdict", o == ("Ok" if r == "true" else "Err"), "the verdict must be the scheme's verdict", c.loc(f), repr(p)[:400])
            else:
                c.ob(f + "#verdict", r == f"is_ok({show(calls[0].res)})", "the verdict must be the scheme's verdict", c.loc(f), r[:300])
                got |= {"true", "false"}
        else:
            c.ob(f + "#call", r == "false", "a signature is accepted without having been verified by the scheme", c.loc(f), repr(p)[:400])
    c.ob(f + "#both", got == {"true", "false"}, "both verdicts must be possible", c.loc(f))


def verifying(c):
    verdict(c, S + "Secp256k1PublicKey::verify_message", "$0.pubkey_data", dig("$2"), "$1")
    verdict(c, S + "Secp256k1PublicKey::verify_message_hashed", "$0.pubkey_data", r"\$2", "$1")
    verdict(c, K + "PublicKey::verify_message", "$0.pub_key.Secp256k1Schnorr.0.pubkey_data", dig("$2"), "$1.Secp256k1Schnorr.0")


def signing(c):
    for f, key in ((S + "Secp256k1PrivateKey::sign_message", "$0.data"), (K + "PrivateKey::sign_message", "$0.key.Secp256k1Schnorr.0.data")):
        n = 0
        for p in c.paths(f):
            if p.kind != "ret":
                c.ob(f + "#panic", any(v == "Err" and show(t).startswith("Message::from_digest_slice(") for t, v in p.var.items()), "signing must not panic", c.loc(f), repr(p)[:300])
                continue
            n += 1
            r = sret(p)
            m = re.fullmatch(r"(Ok\(Signature::Secp256k1Schnorr\()?schnorr::sign_schnorr_with_aux_rand\([\w:]+\(\), (.*), SecretKey::keypair\(" + re.escape(key) + r", [\w:]+\(\)\), Secp256k1SchnorrAuxDataProvider::get_secp256k1_schnorr_aux_data\(\$2\)(@\d+)?\)(@\d+)?(\)\))?", r)
            c.ob(f, m and re.fullmatch(dig("$1"), m[2]), "signing must sign the digest of the whole message with the own key pair and the provider's auxiliary data", c.loc(f), r[:700])
        c.ob(f + "#ok", n, "no signature can be made", c.loc(f))
    f = next((i for i in c.F.ids() if re.fullmatch(r"<\w+ as crypto::key::aux_data_provider::Secp256k1SchnorrAuxDataProvider>::get_secp256k1_schnorr_aux_data", i)), K + "aux_data_provider::get_secp256k1_schnorr_aux_data")
    c.every("aux", c.paths(f), lambda p: re.fullmatch(r"RngExt::random\(\$0\)@\d+|out1\[Rng::fill(_bytes)?\(\$0, .*\)(@\d+)?\]", sret(p)), "the auxiliary data must be drawn from the generator")


def pairs(c):
    P = "PublicKey::from_secret_key(_, {0})"
    c.table("secp#from_private", c.paths(S + "Secp256k1PublicKey::from_private_key"), [("", "Secp256k1PublicKey{pubkey_data: " + P.format("$0.data") + "}")])
    c.table("from_private", c.paths(K + "PublicKey::from_private_key"), [("", "PublicKey{pub_key: PublicKeyHolder::Secp256k1Schnorr(Secp256k1PublicKey{pubkey_data: " + P.format("$0.key.Secp256k1Schnorr.0.data") + "})}")])
    for f in ("new_from_rng", "new_from_entropy"):
        for p in c.paths(K + "PrivateKey::" + f):
            m = re.fullmatch(r"\(PrivateKey\{key: PrivateKeyHolder::Secp256k1Schnorr\(Secp256k1PrivateKey\{data: (.*)\}\)\}, PublicKey\{pub_key: PublicKeyHolder::Secp256k1Schnorr\(Secp256k1PublicKey\{pubkey_data: (.*)\}\)\}\)", sret(p))
            good = m and (m[1].startswith("Secp256k1::generate_keypair(") and m[1].endswith(".0") and m[2] == m[1][:-1] + "1" or match(P.format(m[1]), m[2]))
            c.ob(f + "#pair", good, "a new key pair's public key must belong to its private key", c.loc(p.fid), sret(p)[:300])


PARTS = [verifying, signing, pairs]
