"""Verifiable random function: data is accepted only when the scheme verifies proof and output for this key and transcript;
it is produced with the own key over that transcript; the output is extracted from the verified pre-output and transcript."""
from ..rule import *
CRATES = ["crypto"]
V = "crypto::vrf::"
SK = V + "schnorrkel::"


def verifying(c):
    for f, key, d in ((SK + "SchnorrkelPublicKey::verify_vrf_data", "$0.key", "$2"), (V + "VRFPublicKey::verify_vrf_data", "$0.pub_key.Schnorrkel.0.key", "$2.Schnorrkel.0")):
        ok = bad = 0
        for p in c.paths(f):
            r = sret(p)
            if p.kind != "ret":
                c.ob(f + "#panic", False, "verifying must not panic", c.loc(f), repr(p)[:300])
                continue
            es = [e for e in evs(p, r"vrf_verify$") if [show(x) for x in e.args] == [key, "$1", d + ".preout", d + ".proof"]]
            o = view(p).variant(show(es[0].res)) if es else None
            if r.startswith("Ok("):
                ok += 1
                c.ob(f + "#accept", o == "Ok", "random-function data is accepted without proof and output having verified for this key and transcript", c.loc(f), repr(p)[:500])
            else:
                bad += 1
                c.ob(f + "#reject", r.startswith("Err(") and o == "Err", "valid random-function data is refused", c.loc(f), repr(p)[:500])
        c.ob(f + "#both", ok and bad, "both verdicts must be possible", c.loc(f))


def producing(c):
    def good(key):
        t = f"vrf::vrf_sign_extra(Keypair{{secret: {key}, public: SecretKey::to_public({key})}}, $1, SignableTranscript::make_extra_transcript($1))"
        return f"SchnorrkelVRFReturn{{preout: VRFInOut::to_preout({t}.0), proof: {t}.1}}"
    c.table("produce", c.paths(SK + "SchnorrkelPrivateKey::produce_vrf_data"), [("", good("$0.key"))])
    c.table("produce_any", c.paths(V + "VRFPrivateKey::produce_vrf_data"), [("", f"VRFReturn::Schnorrkel({good('$0.key.Schnorrkel.0.key')})")])
    R = SK + "data::SchnorrkelVRFReturn::"
    for f, key in (("calculate_vrf_output", "$1"), ("calculate_vrf_output_with_generic_key", "$1.pub_key.Schnorrkel.0.key")):
        t = f"VRFPreOut::attach_input_hash($0.preout, {key}, $2)"
        c.table(f, c.paths(R + f), [(f"{t} is Err", "Err(_)"), (f"{t} is Ok", f"Ok(VRFInOut::make_bytes({t}.Ok.0, const({SK}data::VRF_OUTPUT_LABEL)))")])
    c.table("public", c.paths(V + "VRFPublicKey::from_private_key"), [("", "VRFPublicKey{pub_key: VRFPublicKeyHolder::Schnorrkel(SchnorrkelPublicKey{key: SecretKey::to_public($0.key.Schnorrkel.0.key)})}")])
    c.table("to_public", c.paths(V + "VRFPrivateKey::to_public_key"), [("", "VRFPublicKey{pub_key: VRFPublicKeyHolder::Schnorrkel(SchnorrkelPublicKey{key: SecretKey::to_public($0.key.Schnorrkel.0.key)})}")])
    for f in ("new_from_rng", "new_from_entropy", "new_using_random_bytes"):
        for p in c.paths(V + "VRFPrivateKey::" + f):
            if not success(p):
                continue
            m = re.fullmatch(r"(Ok\()?\(VRFPrivateKey\{key: VRFPrivateKeyHolder::Schnorrkel\(SchnorrkelPrivateKey\{key: (.*)\}\)\}, VRFPublicKey\{pub_key: VRFPublicKeyHolder::Schnorrkel\(SchnorrkelPublicKey\{key: (.*)\}\)\}\)\)?", sret(p))
            c.ob(f + "#pair", m and (m[3] == f"SecretKey::to_public({m[2]})" or m[2].endswith(".secret") and m[3] == m[2][:-len("secret")] + "public"), "a new pair's public key must belong to its private key", c.loc(p.fid), sret(p)[:400])


def transcripts(c):
    T = V + "transcript::"
    for ty in ("no_rng::VRFTranscript", "with_rng::VRFTranscriptWithRng<'_>"):
        b = f"<{T}{ty} as {T}traits::SignableTranscript>::"
        for f, g in (("attach_u64", "append_u64"), ("attach_raw_data", "append_message")):
            c.table(ty + "#" + f, c.paths(b + f), [("", f"$0{{0:=out0[Transcript::{g}($0.0, $1, $2)]}} || VRFTranscriptWithRng(out0[Transcript::{g}($0.0, $1, $2)], $0.1) || VRFTranscript(out0[Transcript::{g}($0.0, $1, $2)])")])
        s = f"<{T}{ty} as schnorrkel::context::SigningTranscript>::"
        c.table(ty + "#commit", c.paths(s + "commit_bytes"), [("", lambda p: "out0[Transcript::append_message($0.0, $1, $2)]" in sout(0)(p))])
        c.table(ty + "#challenge", c.paths(s + "challenge_bytes"), [("", "out2[Transcript::challenge_bytes($0.0, $1, $2)]")], out=sout(2))
        c.table(ty + "#witness", c.paths(s + "witness_bytes_rng"), [("", "out2[Transcript::witness_bytes_rng($0.0, $1, $2, $3, $4)]")], out=sout(2))
        src = r"randomness::make_true_rng\(\)@\d+" if "no_rng" in ty else r"Mutex::lock\(\$0\.1\)@\d+\.Ok\.0"
        c.every(ty + "#nonce", [p for p in c.paths(s + "witness_bytes") if p.kind == "ret"], lambda p: re.fullmatch(r"out2\[Transcript::witness_bytes_rng\(\$0\.0, \$1, \$2, \$3, (Rng08Adapter\()?" + src + r"\)?\)\]", sout(2)(p)), "the secret nonce of a proof must be bound to transcript and nonce seeds and to the transcript's source of randomness")


PARTS = [verifying, producing, transcripts]
