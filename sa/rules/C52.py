"""A signature authorises only the transaction it was made for: what is signed, who has signed, and what of the inputs is committed to."""
from ..rule import *
CRATES = ["common"]
T_ = "common::chain::transaction::"
S = T_ + "signature::"
H = S + "sighash::"
I_ = S + "inputsig::"
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
IN, OUTS = "Signable::inputs($0).Some.0", "Signable::outputs($0).Some.0"


def trace_from(t, start):
    if t == start:
        return []
    if t.tag == "out" and t.args[0].args[0].endswith("hash_encoded_to") and t.args[1] == 1:
        return trace_from(t.args[0].args[1][1], start) + [plain(show(t.args[0].args[1][0]))]
    return ["?" + show(t)[:80]]


def signed_data(c):
    """the hash that is signed: sighash type, version, flags, inputs and commitments, outputs"""
    fid = c.resolve(H + "signature_hash")
    loc, seen = c.loc(fid), {}
    ps = c.paths(fid, stop=r"hash_encoded_to$|Signable::|StreamHasher|Stream::(new|finalize)$")
    nexts = {}
    for p in ps:
        for a, x in (p.next or {}).items():
            nexts.setdefault(show(a), []).append(x)
    for p in ps:
        if p.kind != "ret":
            c.ob("hash#panic", p.kind == "back" or under(p, "!lt($3, len($2))") and under(p, "lt($3, len(Signable::inputs($1).Some.0))") and under(p, "eq(len($2), len(Signable::inputs($1).Some.0))"),
                 "must not panic", loc, repr(p)[:400])
            continue
        r = plain(show(p.ret))
        no_in, bad_i = "Signable::inputs($1) is None", holds(p, "slice::get(Signable::inputs($1).Some.0, $3) is None") or holds(p, "!lt($3, len(Signable::inputs($1).Some.0))")
        bad_n = under(p, "!eq(len($2), len(Signable::inputs($1).Some.0))")
        outs = "Signable::outputs($1).Some.0" if under(p, "Signable::outputs($1) is Some") else "[]"
        one = f"slice::get({outs}, $3)"
        single, none = under(p, "eq(3, bitand(127, $0.0))"), under(p, "eq(2, bitand(127, $0.0))")
        pay = PRED["bit7"](p, "$0.0")
        if r.startswith("Err("):
            why = "inputs" if under(p, no_in) else "index" if bad_i else "count" if bad_n else "output" if single and (holds(p, one + " is None") or holds(p, f"!lt($3, len({outs}))")) else None
            seen[why] = 1
            c.ob("hash#refused", why, "a hash may be refused only for missing inputs, outputs or commitments", loc, repr(p)[:500])
            continue
        fin = [x for x in subterms(p.ret) if x.tag == "call" and x.args[0].endswith("finalize")]
        ok = fin and r in [x.format(plain(show(fin[0]))) for x in ("Ok(T::into({}))", "Ok(H256::from({}))", "Ok(H256(T::into({})))", "Ok(H256(from([u8;32], {})))")]
        c.ob("hash#result", ok, "the hash of what was written", loc, r[:300])
        if not ok:
            continue
        st = fin[0].args[1][0]
        got = trace0(st, p.phi or {}, nexts)
        if got is None:
            c.ob("hash#start", False, "starts with an empty stream", loc, show(st)[:300])
            continue
        ins = "Signable::inputs($1).Some.0"
        want = [{"$0.0", "$0"}]
        for q in ("Signable::version_byte($1)", "Signable::flags($1)"):
            if under(p, q + " is Some"):
                want.append({q + ".Some.0"})
            else:
                c.ob("hash#optional", under(p, q + " is None"), "written if there is one", loc, repr(p)[:300])
        if pay:
            want += [{f"slice::get({ins}, $3).Some.0", ins + "[$3]"}, {"$2[$3]", "slice::get($2, $3).Some.0"}]
        else:
            n = {f"cast(u32, len({ins}))", "cast(u32, len($2))"}
            want += [n, {("*", f"elem({ins})")}, n, {("*", "elem($2)")}]
            c.ob("hash#all", {"iter(" + ins + ")", "iter($2)"} <= {show(x[1]) for x in p.facts if x[0] == "exh"}, "all inputs and commitments", loc, repr(p)[:400])
        if single:
            want.append({one + ".Some.0", outs + "[$3]"})
        elif not none:
            want.append({outs})
        c.ob("hash#when", not bad_i and not bad_n and pay is not None and (single or none or under(p, "!eq(2, bitand(127, $0.0))") and under(p, "!eq(3, bitand(127, $0.0))")),
             "as the signature's type says", loc, repr(p)[:400])
        c.ob("hash#data", len(got) == len(want) and all(a in b for a, b in zip(got, want)), "the hash must cover exactly " + str(want)[:300], loc, str(got)[:500])
        seen[pay, single, none] = 1
    c.ob("hash#cases", set(seen) >= {"inputs", "index", "count", "output"} | {(a, *b) for a in (True, False) for b in ((True, False), (False, True), (False, False))}, "every type of signature, every refusal", loc, str(seen))
    f = H + "sighashtype::SigHashType::"
    c.table("type inputs", c.paths(f + "inputs_mode"), [("@bit7($0.0)", "InputsMode::AnyoneCanPay"), ("!@bit7($0.0)", "InputsMode::CommitWhoPays")])
    c.table("type outputs", c.paths(f + "outputs_mode"), [("eq(2, bitand(127, $0.0))", "OutputsMode::None"), ("eq(3, bitand(127, $0.0))", "OutputsMode::Single"),
                                                          ("!eq(2, bitand(127, $0.0)) & !eq(3, bitand(127, $0.0))", "OutputsMode::All")])
    c.table("type known", c.paths("<" + f[:-2] + " as core::convert::TryFrom<u8>>::try_from"), [(f"eq({i}, bitand($0, 127))", "Ok(SigHashType($0))") for i in (1, 2, 3)] +
            [(" & ".join(f"!eq({i}, bitand($0, 127))" for i in (1, 2, 3)), "Err(_)")])
    for f_, v in (("all", "SigHashType(1)"), ("get", "$0.0")):
        c.table("type " + f_, c.paths(f + f_), [("", v)])
    c.table("type default", c.paths("<" + f[:-2] + " as core::default::Default>::default"), [("", "SigHashType(1)")])
    A = "<" + T_ + "signed_transaction::SignedTransaction as " + S + "Signable>::"
    B = "<common::chain::partially_signed_transaction::PartiallySignedTransaction as " + S + "Signable>::"
    R = "<common::chain::block::block_reward::BlockRewardTransactable<'_> as " + S + "Signable>::"
    for m in ("inputs", "outputs", "version_byte", "flags"):
        c.table("signed " + m, c.paths(A + m, stop=CLOSED), [("", f"Some(SignedTransaction::{m}($0))")])
        c.table("unsigned " + m, c.paths(B + m, stop=CLOSED), [("", f"Some(Transaction::{m}(PartiallySignedTransaction::tx($0)))")])
        c.table("reward " + m, c.paths(R + m, stop=CLOSED), [("", "$0." + m if m in ("inputs", "outputs") else "None")])
        c.table("of " + m, c.paths(T_ + "signed_transaction::SignedTransaction::" + m, stop=CLOSED), [("", f"Transaction::{m}($0.transaction)")])
    c.table("tx", c.paths("common::chain::partially_signed_transaction::PartiallySignedTransaction::tx", stop=CLOSED), [("", "PartiallySignedTransactionV1::tx($0.V1.0)")])
    c.table("tx v1", c.paths("common::chain::partially_signed_transaction::v1::PartiallySignedTransactionV1::tx", stop=CLOSED), [("", "$0.tx")])


def trace0(t, phi, nexts):
    base = t
    while True:
        if base.tag == "out" and base.args[0].tag == "call" and base.args[0].args[0].endswith("hash_encoded_to"):
            base = base.args[0].args[1][1]
        elif base in phi:
            base = phi[base]
        else:
            break
    if not (base.tag == "call" and base.args[0].endswith("::new")):
        return None

    def go(t):
        if t == base:
            return []
        if t in phi:
            return go(phi[t]) + [("*",) + tuple(b) for b in sorted({tuple(trace_from(n, t)) for n in nexts.get(show(t), ())})]
        if t.tag == "out" and t.args[1] == 1:
            return go(t.args[0].args[1][1]) + [plain(show(t.args[0].args[1][0]))]
        return ["?" + show(t)[:60]]
    return go(t)


SPENDS = {"PublicKeyHash": ("AuthorizedPublicKeyHashSpend", "authorize_pubkeyhash_spend::verify_public_key_hash_spending({d}, {s}, $3)"),
          "PublicKey": ("AuthorizedPublicKeySpend", "authorize_pubkey_spend::verify_public_key_spending({d}, {s}, $3)"),
          "ClassicMultisig": ("AuthorizedClassicalMultisigSpend", "authorize_classical_multisig::verify_classical_multisig_spending($1, {d}, {s}, $3)")}


def verified(c):
    """a witness is accepted only if it is a signature of that hash by whom the destination says"""
    f = c.resolve(S + "verify_signature")
    loc, seen = c.loc(f), set()
    HASH = "sighash::signature_hash(StandardInputSignature::sighash_type($3.Standard.0), $2, $4, $5)"
    V = f"StandardInputSignature::verify_signature($3.Standard.0, $0, $1, {HASH}.Ok.0)"
    for p in c.paths(f, stop=CLOSED):
        c.ob("input#ends", p.kind == "ret" and not dropped(p), "must be accepted or refused", loc, repr(p)[:300])
        r = plain(sret(p))
        n = {plain(show(e.res)): p.var.get(e.res) for e in p.events}
        dest = next((v for t, v in p.var.items() if show(t) == "$1"), None)
        wit = next((v for t, v in p.var.items() if show(t) == "$3"), None)
        if r.startswith("Err("):
            why = ("inputs" if under(p, "Signable::inputs($2) is None") else "index" if under(p, "!lt($5, len(Signable::inputs($2).Some.0))") else "failed" if n.get(HASH) == "Err" or n.get(V) == "Err" else
                   "needless" if dest == "AnyoneCanSpend" and wit == "Standard" else "missing" if dest != "AnyoneCanSpend" and wit == "NoSignature" and not p_kind(p, "$1", "AnyoneCanSpend") else None)
            seen.add(why)
            c.ob("input#refused", why, "refused only if not signed as required", loc, repr(p)[:400])
            continue
        good = n.get(V, n.get(V) if V in n else None) == "Ok" and n.get(HASH) == "Ok" if V in n or HASH in n else dest == "AnyoneCanSpend" and wit == "NoSignature"
        if r == V:
            good = True
        c.ob("input#accepted", good and under(p, "lt($5, len(Signable::inputs($2).Some.0))"), "accepted only with a valid signature, or none where anyone can spend", loc, repr(p)[:400])
        seen.add(("ok", "anyone" if dest == "AnyoneCanSpend" else "signed"))
    c.ob("input#cases", seen >= {"inputs", "index", "failed", "needless", "missing", ("ok", "anyone"), ("ok", "signed")}, "every outcome", loc, str(seen))
    for key, f in (("standard", I_ + "standard_signature::StandardInputSignature::verify_signature"), ("message", I_ + "arbitrary_message::ArbitraryMessageSignatureRef::<'a>::verify_signature")):
        f, seen = c.resolve(f), set()
        for p in c.paths(f, stop=CLOSED):
            c.ob(key + "#ends", p.kind == "ret" and not dropped(p), "must be accepted or refused", c.loc(f), repr(p)[:300])
            r = plain(sret(p))
            for k in [x for x in ("PublicKeyHash", "PublicKey", "ClassicMultisig", "ScriptHash", "AnyoneCanSpend") if p_kind(p, "$2", x)]:
                if k not in SPENDS:
                    c.ob(f"{key}#{k}", r.startswith("Err("), "no signature can be valid", c.loc(f), r[:200])
                    seen.add((k, "Err"))
                    continue
                ty, call = SPENDS[k]
                dec = f"{ty}::from_data($0.raw_signature)"
                ver = call.format(d=f"$2.{k}.0", s=dec + ".Ok.0")
                n = {plain(show(e.res)): p.var.get(e.res) for e in p.events}
                if r.startswith("Err("):
                    c.ob(f"{key}#{k}", n.get(dec) == "Err" or n.get(ver) == "Err", "refused only if it is not valid", c.loc(f), repr(p)[:300])
                else:
                    c.ob(f"{key}#{k}", n.get(dec) == "Ok" and (r == ver or n.get(ver) == "Ok" and r == "Ok(())"), "accepted only if it is valid", c.loc(f), repr(p)[:300])
                seen.add((k, "Err" if r.startswith("Err(") else "Ok"))
        c.ob(key + "#cases", len(seen) == 8 or len(seen) == 5 + 3 - 0, "every kind of destination", c.loc(f), str(seen))
    c.table("owned message", c.paths(I_ + "arbitrary_message::ArbitraryMessageSignature::verify_signature", stop=CLOSED), [("", "ArbitraryMessageSignatureRef::verify_signature(ArbitraryMessageSignature::as_ref($0), $1, $2, $3)")])
    c.table("owned ref", c.paths(I_ + "arbitrary_message::ArbitraryMessageSignature::as_ref"), [("", "ArbitraryMessageSignatureRef{raw_signature: $0.raw_signature}")])
    for m, ty in (("authorize_pubkey_spend", "AuthorizedPublicKeySpend"), ("authorize_pubkeyhash_spend", "AuthorizedPublicKeyHashSpend"),
                  ("classical_multisig::authorize_classical_multisig", "AuthorizedClassicalMultisigSpend"), ("standard_signature", "StandardInputSignature"),
                  ("authorize_hashed_timelock_contract_spend", "AuthorizedHashedTimelockContractSpend")):
        c.table("decoded " + ty, c.paths(f"{I_}{m}::{ty}::from_data", stop=CLOSED), [("T::decode_all($0) is Ok", "Ok(T::decode_all($0).Ok.0)"), ("T::decode_all($0) is Err", "Err(_)")])
    c.table("standard", c.paths(I_ + "standard_signature::StandardInputSignature::new"), [("", "StandardInputSignature{sighash_type: $0, raw_signature: $1}")])
    for m in ("sighash_type", "raw_signature", "into_raw_signature"):
        c.table("standard " + m, c.paths(I_ + "standard_signature::StandardInputSignature::" + m), [("", "$0." + m.replace("into_", ""))])
    ok = "PublicKey::verify_message($0, $1.signature, Encode::encode($2))"
    c.table("key", c.paths(I_ + "authorize_pubkey_spend::verify_public_key_spending", stop=CLOSED), [(ok, "Ok(())"), ("!" + ok, "Err(_)")])
    ok, same = "PublicKey::verify_message($1.public_key, $1.signature, Encode::encode($2))", "PublicKeyHash::eq(PublicKeyHash::from($1.public_key), $0)"
    c.table("key hash", c.paths(I_ + "authorize_pubkeyhash_spend::verify_public_key_hash_spending", stop=CLOSED), [(f"{ok} & {same}", "Ok(())"), (f"{same} & !{ok}", "Err(_)"), (f"!{same}", "Err(_)")])
    for t in ("&crypto::key::PublicKey", "&common::chain::transaction::output::classic_multisig::ClassicMultisigChallenge"):
        f = f"<common::address::pubkeyhash::PublicKeyHash as core::convert::From<{t}>>::from"
        c.table("hash of " + t, c.paths(f, stop=CLOSED), [("", "PublicKeyHash(T::into(GenericArray::split(hash::hash(Blake2b32, Encode::encode($0))).0))")])


def p_kind(p, subj, k):
    """whether a path is (possibly) taken for variant k of subj"""
    for t, v in p.var.items():
        if show(t) == subj:
            return v == k
    return not any(show(t) == subj and k in v for t, v in p.notvar.items())


def multisig(c):
    """classical multisig: the challenge paid to, valid, and exactly the required number of its keys have signed"""
    M = I_ + "classical_multisig::"
    P = "PartiallySignedMultisigChallenge::"
    C_ = "AuthorizedClassicalMultisigSpend::challenge"
    f = c.resolve(M + "authorize_classical_multisig::verify_classical_multisig_spending")
    v = f"{P}verify_signatures({P}from_partial($0, Encode::encode($3), $2).Ok.0, $0)"
    gate(c, "multisig", f, need=[v], when=[f"PublicKeyHash::eq(T::into({C_}($2)), $1)", v + ".Ok.0 is CompleteAndValid"], result="Ok(())",
         refuse=[f"!PublicKeyHash::eq(T::into({C_}($2)), $1)", v + ".Ok.0 is Invalid", v + ".Ok.0 is Incomplete"])
    f = M + "multisig_partial_signature::PartiallySignedMultisigChallenge::<'a>::"
    gate(c, "multisig new", f + "from_partial", need=[P + "check_structurally_valid(PartiallySignedMultisigChallenge{signatures: $2, message: $1}, $0)"], result="Ok(PartiallySignedMultisigChallenge{signatures: $2, message: $1})")
    keys, n = f"ClassicMultisigChallenge::public_keys({C_}($0.signatures))", f"ClassicMultisigChallenge::min_required_signatures({C_}($0.signatures))"
    have, miss = "AuthorizedClassicalMultisigSpend::available_signatures_count($0.signatures)", P + "missing_signatures_count($0)"
    f1, idx = c.resolve(f + "check_structurally_valid"), "AuthorizedClassicalMultisigSpend::public_key_indices($0.signatures)"
    ends = set()
    for p in c.paths(f1, stop=CLOSED):
        if p.kind == "back":
            c.ob("structure#each", holds(p, f"lt(elem({idx}), len({keys}))"), "goes on only if the key exists", c.loc(f1), repr(p)[:300])
            continue
        r = plain(sret(p))
        bad, inv = holds(p, f"!lt(elem({idx}), len({keys}))"), any(p.var.get(e.res) == "Err" and match(f"ClassicMultisigChallenge::is_valid({C_}($0.signatures), $1)", plain(show(e.res))) for e in p.events)
        over = anyof(p, f"!lt(-1, {miss})", f"lt({miss}, 0)", f"lt({n}, {have})")
        ends.add("bad" if bad else "inv" if inv else "over" if over else r.split("(")[1])
        c.ob("structure#end", p.kind == "ret" and not dropped(p) and r.startswith("Err(") == bool(bad or inv or over), "refused if invalid, for an unknown key or too many signatures, and only then", c.loc(f1), repr(p)[:400])
        if r.startswith("Ok("):
            c.ob("structure#all", any(x[0] == "exh" and idx in show(x[1]) for x in p.facts) and any(p.var.get(e.res) == "Ok" and "is_valid" in e.name for e in p.events), "after all signatures", c.loc(f1), repr(p)[:300])
    c.ob("structure#cases", len(ends) == 5 and {"bad", "inv", "over"} <= ends, "every outcome", c.loc(f1), str(ends))
    c.table("missing", c.paths(f + "missing_signatures_count", stop=CLOSED), [("", f"sub({n}, cast(i32, {have}))")], kinds=("ret",))
    f1, it = c.resolve(f + "verify_signatures"), "AuthorizedClassicalMultisigSpend::iter($0.signatures)"
    good = f"PublicKey::verify_message({keys}[elem({it}).0], elem({it}).1, $0.message)"
    ends = set()
    for p in c.paths(f1, stop=CLOSED):
        if p.kind == "panic":
            c.ob("signatures#panic", under(p, f"!lt(elem({it}).0, len({keys}))"), "must not panic", c.loc(f1), repr(p)[:300])
            continue
        if p.kind == "back":
            c.ob("signatures#each", holds(p, good), "goes on only if the signature is valid", c.loc(f1), repr(p)[:300])
            continue
        r = plain(sret(p))
        chk = [p.var.get(e.res) for e in p.events if "check_structurally_valid" in e.name and match(P + "check_structurally_valid($0, $1)", plain(show(e.res)))]
        done = any(x[0] == "exh" and it in show(x[1]) for x in p.facts)
        few = any(under(p, f"lt({h}, {n})") for h in (have, have.replace("$0.signatures", P + "signatures($0)")))
        many = any(under(p, f"!lt({h}, {n})") for h in (have, have.replace("$0.signatures", P + "signatures($0)")))
        k = "Err" if r.startswith("Err(") else r[3:-1].split("::")[-1]
        ends.add(k)
        c.ob("signatures#" + k, {"Err": chk == ["Err"], "Invalid": chk == ["Ok"] and holds(p, "!" + good), "Incomplete": chk == ["Ok"] and done and few, "CompleteAndValid": chk == ["Ok"] and done and many}.get(k),
             "exactly as all the signatures say", c.loc(f1), repr(p)[:500])
    c.ob("signatures#cases", ends == {"Err", "Invalid", "Incomplete", "CompleteAndValid"}, "every outcome", c.loc(f1), str(ends))
    for m, r in (("challenge", C_ + "($0.signatures)"), ("signatures", "$0.signatures")):
        c.table("of " + m, c.paths(f + m, stop=CLOSED), [("", r)])
    A = M + "authorize_classical_multisig::AuthorizedClassicalMultisigSpend::"
    for m, r in (("challenge", "$0.challenge"), ("signatures", "$0.signatures"), ("available_signatures_count", "len($0.signatures)"), ("new", "AuthorizedClassicalMultisigSpend{signatures: $0, challenge: $1}")):
        c.table("spend " + m, c.paths(A + m, stop=CLOSED), [("", r)])
    c.table("spend add", c.paths(A + "add_signature", stop=CLOSED), [("", "_")], out=sout(0))
    X = T_ + "output::classic_multisig::ClassicMultisigChallenge::"
    k, mx = "len($0.public_keys)", "ChainConfig::max_classic_multisig_public_keys_count($1)"
    r = "$0.min_required_signatures"
    gate(c, "challenge", X + "is_valid", when=[f"!eq(0, {k})", f"!lt({mx}, {k})", f"!eq(0, {r})", f"!lt({k}, {r})"], refuse=[f"eq(0, {k})", f"lt({mx}, {k})", f"eq(0, {r})", f"lt({k}, {r})"], result="Ok(())")
    for m in ("public_keys", "min_required_signatures"):
        c.table("challenge " + m, c.paths(X + m), [("", "$0." + m)])
    s = c.resolve(M + "authorize_classical_multisig::sign_classical_multisig_spending")
    new = "out0[AuthorizedClassicalMultisigSpend::add_signature($5, $1, PrivateKey::sign_message($2, Encode::encode($4), $6).Ok.0)]"
    part = lambda x: f"{P}from_partial($0, Encode::encode($4), {x})"
    ver = lambda x: f"{P}verify_signatures({part(x)}.Ok.0, $0)"
    pk = "slice::get(ClassicMultisigChallenge::public_keys($3), $1)"
    own = f"PublicKey::eq({pk}.Some.0, PublicKey::from_private_key($2))"
    gate(c, "sign multisig", s, need=["ClassicMultisigChallenge::is_valid($3, $0)", part("$5"), ver("$5"), part(new), ver(new)], panics="unreachable",
         when=["mapget(AuthorizedClassicalMultisigSpend::signatures($5), $1) is None", ver("$5") + ".Ok.0 is Incomplete", pk + " is Some", own],
         refuse=["mapget(AuthorizedClassicalMultisigSpend::signatures($5), $1) is Some", ver("$5") + ".Ok.0 is CompleteAndValid", ver("$5") + ".Ok.0 is Invalid", pk + " is None", "!" + own],
         result=f"Ok(ClassicalMultisigCompletionStatus::Complete({new})) || Ok(ClassicalMultisigCompletionStatus::Incomplete({new}))")
    for p in c.paths(s, stop=CLOSED):
        r = plain(sret(p)) if p.kind == "ret" else ""
        if r.startswith("Ok("):
            c.ob("sign multisig#status", under(p, f"{ver(new)}.Ok.0 is " + ("CompleteAndValid" if "::Complete(" in r else "Incomplete")), "complete exactly if nothing is missing", c.loc(s), repr(p)[:500])


def signing(c):
    """signatures are made only with the key of the destination, of exactly that hash"""
    msg = "PrivateKey::sign_message($0, Encode::encode($2), $3)"
    gate(c, "sign key", I_ + "authorize_pubkey_spend::sign_public_key_spending", need=[msg], when=["PublicKey::eq($1, PublicKey::from_private_key($0))"], refuse=["!PublicKey::eq($1, PublicKey::from_private_key($0))"],
         result=f"Ok(AuthorizedPublicKeySpend::new({msg}.Ok.0))")
    f, own = I_ + "authorize_pubkeyhash_spend::", "PublicKeyHash::eq(PublicKeyHash::from(PublicKey::from_private_key($0)), $1)"
    st = CLOSED.replace("(?!", "(?!.*::authorize_pubkeyhash_spend::sign_|")
    gate(c, "sign key hash", f + "sign_public_key_hash_spending", need=[msg], when=[own], refuse=["!" + own], stop=st, result=f"Ok(AuthorizedPublicKeyHashSpend::new(PublicKey::from_private_key($0), {msg}.Ok.0))", panics="assert|eq")
    m2 = "PrivateKey::sign_message($0, Encode::encode($1), $2)"
    gate(c, "sign own hash", f + "sign_public_key_hash_spending_unchecked", need=[m2], stop=st, result=f"Ok(AuthorizedPublicKeyHashSpend::new(PublicKey::from_private_key($0), {m2}.Ok.0))", panics="assert|eq")
    c.table("key spend", c.paths(I_ + "authorize_pubkey_spend::AuthorizedPublicKeySpend::new"), [("", "AuthorizedPublicKeySpend{signature: $0}")])
    c.table("key hash spend", c.paths(f + "AuthorizedPublicKeyHashSpend::new"), [("", "AuthorizedPublicKeyHashSpend{public_key: $0, signature: $1}")])
    hash_ = "sighash::signature_hash($1, $3, $4, $5)"
    a = "authorize_pubkey_spend::sign_public_key_spending($0, $2.PublicKey.0, %s, %s)"
    b = "authorize_pubkeyhash_spend::sign_public_key_hash_spending($0, $2.PublicKeyHash.0, %s, %s)"
    for key, f, h, pre, rng, dest in (("sign input", "standard_signature::StandardInputSignature::produce_uniparty_signature_for_input", hash_ + ".Ok.0", "StandardInputSignature{sighash_type: $1, raw_signature: ", "$6", "$2"),
                                      ("sign message", "arbitrary_message::ArbitraryMessageSignature::produce_uniparty_signature", "arbitrary_message::produce_message_challenge($2)", "ArbitraryMessageSignature{raw_signature: ", "$3", "$1")):
        e = " & " + hash_ + " is Ok" if key == "sign input" else ""
        x, y = (t.replace("$2.Pub", dest + ".Pub") % (h, rng) for t in (a, b))
        rows = [(f"{dest} is PublicKey & {x} is Ok" + e, f"Ok({pre}Encode::encode({x}.Ok.0)}})"), (f"{dest} is PublicKey & {x} is Err" + e, "Err(__)"),
                (f"{dest} is PublicKeyHash & {y} is Ok" + e, f"Ok({pre}Encode::encode({y}.Ok.0)}})"), (f"{dest} is PublicKeyHash & {y} is Err" + e, "Err(__)")] + [
            (f"{dest} is {k}" + e, "Err(__)") for k in ("ScriptHash", "AnyoneCanSpend", "ClassicMultisig")] + ([(hash_ + " is Err", "Err(__)")] if e else [])
        c.table(key, c.paths(I_ + f, stop=CLOSED), rows)
    y = "authorize_pubkeyhash_spend::sign_public_key_hash_spending_unchecked($0, arbitrary_message::produce_message_challenge($1), $2)"
    c.table("sign message by key", c.paths(I_ + "arbitrary_message::ArbitraryMessageSignature::produce_uniparty_signature_as_pub_key_hash_spending", stop=CLOSED), [
        (y + " is Ok", f"Ok(ArbitraryMessageSignature{{raw_signature: Encode::encode({y}.Ok.0)}})"), (y + " is Err", "Err(__)")])
    h2 = "sighash::signature_hash($2, $3, $4, $5)"
    part = f"PartiallySignedMultisigChallenge::from_partial($0, Encode::encode({h2}.Ok.0), $1)"
    v = f"PartiallySignedMultisigChallenge::verify_signatures({part}.Ok.0, $0)"
    gate(c, "sign by several", I_ + "standard_signature::StandardInputSignature::produce_classical_multisig_signature_for_input", need=[h2, part, v], when=[v + ".Ok.0 is CompleteAndValid"],
         refuse=[v + ".Ok.0 is Incomplete", v + ".Ok.0 is Invalid"], result="Ok(StandardInputSignature{sighash_type: $2, raw_signature: Encode::encode($1)})")
    U, K = "StandardInputSignature::produce_uniparty_signature_for_input($0, $1, $2, $3, $4, $5, %s)", "StandardInputSignature::produce_classical_multisig_signature_for_input($0, $1, $2, $3, $4, $5)"
    for f, call, kind in (("uniparty_signature_for_htlc_spending", U % "$7", "Spend($6, "), ("uniparty_signature_for_htlc_refunding", U % "$6", "Refund("), ("classical_multisig_signature_for_htlc_refunding", K, "Refund(")):
        gate(c, f, I_ + "htlc::produce_" + f, need=[call], result=f"Ok(StandardInputSignature::new(StandardInputSignature::sighash_type({call}.Ok.0), Encode::encode(AuthorizedHashedTimelockContractSpend::{kind}StandardInputSignature::raw_signature({call}.Ok.0)))))")


def messages(c):
    """messages are never transactions; an intent is signed by every input's destination"""
    f = c.resolve(I_ + "arbitrary_message::produce_message_challenge")
    A, B = "'===MINTLAYER MESSAGE BEGIN===\\n'", "'\\n===MINTLAYER MESSAGE END==='"
    for p in c.paths(f, stop=CLOSED):
        c.ob("message", p.kind == "ret" and sret(p).replace("\n", "\\n") in (f"id::default_hash(collect(chain(chain(iter({A}), iter($0)), iter({B}))))", f"id::default_hash(concat([{A}, $0, {B}]))"),
             "the hash of the message between its marks", c.loc(f), sret(p)[:300])
    N = T_ + "signed_transaction_intent::SignedTransactionIntent::"
    each = "ArbitraryMessageSignatureRef::verify_signature(ArbitraryMessageSignatureRef::from_data(elem($0.signatures)), $1, SignedTransactionIntent::normalize_destination(elem($2)), arbitrary_message::produce_message_challenge($0.signed_message))"
    f = c.resolve(N + "verify")
    when = ["eq($3, $0.signed_message)", "eq(len($2), len($0.signatures))"]
    backs = [p for p in c.paths(f, stop=CLOSED) if p.kind == "back"]
    for p in backs:
        c.ob("intent#each", any(match(each, plain(show(e.res))) and p.var.get(e.res) == "Ok" for e in p.events), "each signature must be valid", c.loc(f), repr(p)[:400])
    c.count("intent signatures", len(backs), 1)
    gate(c, "intent", f, when=when, refuse=["!" + w for w in when], exhausted=["enumerate(zip(iter($0.signatures), iter($2))) || zip(iter($0.signatures), iter($2))"], result="Ok(())")
    I2 = "SignedTransactionIntent{signed_message: $0, signatures: $1}"
    gate(c, "intent of parts", N + "from_components", need=[f"SignedTransactionIntent::verify({I2}, $3, $2, SignedTransactionIntent::signed_message({I2})) || SignedTransactionIntent::verify({I2}, $3, $2, $0)"], result=f"Ok({I2})")
    for m in ("signed_message", "signatures"):
        c.table("intent " + m, c.paths(N + m), [("", "$0." + m)])
    c.table("intent message", c.paths(N + "get_message_to_sign", stop=CLOSED), [("", "fmt('<tx_id:', lower_hex($1), ';intent:', $0, '>')")])
    c.table("intent by hash", c.paths(N + "normalize_destination", stop=CLOSED), [("$0 is PublicKey", "Destination::PublicKeyHash(T::into($0.PublicKey.0)) || Destination::PublicKeyHash(PublicKeyHash::from($0.PublicKey.0))")] + [
        (f"$0 is {k}", "$0") for k in ("PublicKeyHash", "AnyoneCanSpend", "ScriptHash", "ClassicMultisig")])
    c.table("ref", c.paths(I_ + "arbitrary_message::ArbitraryMessageSignatureRef::<'a>::from_data"), [("", "ArbitraryMessageSignatureRef{raw_signature: $0}")])
    n = "eq(len($1), len(Transaction::inputs($0)))"
    c.table("intent for", c.paths(N + "produce_from_transaction", stop=CLOSED), [(n, "SignedTransactionIntent::produce_from_transaction_id(Transaction::get_id($0), $1, $2, $3, $4)"), ("!" + n, "Err(__)")])
    f, seen = c.resolve(N + "produce_from_transaction_id"), set()
    sig = "ArbitraryMessageSignature::produce_uniparty_signature_as_pub_key_hash_spending(apply(_, elem($1)).Ok.0, SignedTransactionIntent::get_message_to_sign($2, $0), $4)"
    for p in c.paths(f, stop=CLOSED):
        r = plain(sret(p)) if p.ret is not None else ""
        for k in ("PublicKeyHash", "PublicKey", "AnyoneCanSpend", "ScriptHash", "ClassicMultisig"):
            if p.kind == "back" and p_kind(p, "elem($1)", k):
                c.ob("intent made#each", k.startswith("PublicKey") and match(f"ArbitraryMessageSignature::into_raw({sig}.Ok.0)", r), "each input's destination signs the message", c.loc(f), repr(p)[:400])
                seen.add(k)
        if p.kind == "ret" and r.startswith("Ok("):
            c.ob("intent made", match("Ok(SignedTransactionIntent{signed_message: SignedTransactionIntent::get_message_to_sign($2, $0), signatures: collect(map(iter($1), __))})", r), "one signature per destination", c.loc(f), r[:300])
            seen.add("ok")
        c.ob("intent made#end", p.kind != "panic" and not dropped(p), "must succeed or fail", c.loc(f), repr(p)[:200])
    c.ob("intent made#cases", seen == {"PublicKeyHash", "PublicKey", "ok"}, "keys and hashes of keys can sign", c.loc(f), str(seen))


KINDS = {"Utxo": "Transfer LockThenTransfer Burn CreateStakePool ProduceBlockFromStake CreateDelegationId DelegateStaking IssueFungibleToken IssueNft DataDeposit Htlc CreateOrder",
         "Account": "", "AccountCommand": "MintTokens UnmintTokens LockTokenSupply FreezeToken UnfreezeToken ChangeTokenAuthority ChangeTokenMetadataUri ConcludeOrder FillOrder",
         "OrderAccountCommand": "FillOrder FreezeOrder ConcludeOrder"}


def committed(c):
    """per input: what is committed to besides the input itself"""
    C_ = H + "input_commitments::"
    f = c.resolve(C_ + "make_sighash_input_commitments_for_transaction_inputs")
    E, POS = "elem($0)", "pos(iter($0))"
    U = f"UtxoProvider::get_utxo($1, {POS}, {E}.Utxo.0)"
    G = f"{U}.Ok.0.Some.0"
    seen, ends, loc = set(), set(), c.loc(f)
    for p in c.paths(f, stop=r"Provider::"):
        if p.kind == "panic":
            c.ob("commitments#panic", False, "must not panic", loc, repr(p)[:300])
            continue
        r = plain(sret(p))
        c.ob("commitments#lost", not [e for e in dropped(p) if "Provider" in e.name], "a failure must be reported", loc, str(dropped(p))[:300])
        if p.kind == "ret":
            if r.startswith("Err("):
                missing = any(p.var.get(e.res) == "Err" or any(v == "None" and show(t) == show(e.res) + ".Ok.0" for t, v in p.var.items()) for e in p.events if "Provider" in e.name)
                c.ob("commitments#refused", missing, "refused only if information is missing", loc, repr(p)[:400])
            else:
                ends.add(next((v for t, v in p.var.items() if show(t) == "$4"), None))
                c.ob("commitments#result", match("Ok(collect(map(enumerate(iter($0)), __)))", r), "one commitment per input, in order", loc, r[:200])
            continue
        for ver in ("V0", "V1"):
            if not p_kind(p, "$4", ver):
                continue
            for k, subs in KINDS.items():
                if not p_kind(p, E, k):
                    continue
                subj = {"Utxo": G, "AccountCommand": E + ".AccountCommand.1", "OrderAccountCommand": E + ".OrderAccountCommand.0"}.get(k, "-")
                for s in subs.split() or [""]:
                    if s and not any_kind(p, subj, s):
                        continue
                    info = f"OrderInfoProvider::get_order_info($3, {subj}.{s}.0).Ok.0.Some.0"
                    first = f"initially_asked: {info}.initially_asked, initially_given: {info}.initially_given"
                    want = f"SighashInputCommitment::Utxo({G})" if k == "Utxo" else "SighashInputCommitment::None"
                    if ver == "V1" and s == "ProduceBlockFromStake":
                        want = f"SighashInputCommitment::ProduceBlockFromStakeUtxo{{utxo: {G}, staker_balance: PoolInfoProvider::get_pool_info($2, {subj}.{s}.1).Ok.0.Some.0.staker_balance}}"
                    elif ver == "V1" and s == "FillOrder":
                        want = f"SighashInputCommitment::FillOrderAccountCommand{{{first}}}"
                    elif ver == "V1" and s == "ConcludeOrder":
                        want = f"SighashInputCommitment::ConcludeOrderAccountCommand{{{first}, ask_balance: {info}.ask_balance, give_balance: {info}.give_balance}}"
                    c.ob(f"commitments#{ver} {k} {s}", r == want, "must commit to " + want[:200], loc, r[:400])
                    seen.add((ver, k, s))
    c.ob("commitments#cases", len(seen) == 2 * 25 and ends == {"V0", "V1"}, "every kind of input, both versions", loc, f"{len(seen)} {ends}")
    c.table("version", c.paths(C_ + "make_sighash_input_commitments_for_transaction_inputs_at_height", stop=CLOSED), [
        ("", "input_commitments::make_sighash_input_commitments_for_transaction_inputs($0, $1, $2, $3, ChainstateUpgrade::sighash_input_commitment_version(NetUpgrades::version_at_height(ChainConfig::chainstate_upgrades($4), $5).1))")])
    f = c.resolve(C_ + "make_sighash_input_commitments_for_kernel_input_utxos")
    for p in c.paths(f, stop=CLOSED):
        c.ob("kernel", p.kind == "back" and sret(p) == "SighashInputCommitment::Utxo(Cow::Borrowed(elem($0)))" or p.kind == "ret" and match("collect(map(iter($0), __))", sret(p)), "each kernel output", c.loc(f), repr(p)[:200])
    f, seen = c.resolve(C_ + "make_sighash_input_commitments_for_kernel_inputs"), set()
    for p in c.paths(f, stop=CLOSED):
        r = plain(sret(p))
        seen.add((p.kind, r[:3]))
        if p.kind == "ret" and r.startswith("Err("):
            c.ob("kernel inputs#refused", any(p.var.get(e.res) == "Err" for e in p.events) or under(p, U + ".Ok.0 is None") or not p_kind(p, E, "Utxo"), "refused only if not an existing output", c.loc(f), repr(p)[:300])
        else:
            c.ob("kernel inputs", p.kind == "back" and r == f"SighashInputCommitment::Utxo({G})" or p.kind == "ret" and match("Ok(collect(map(enumerate(iter($0)), __)))", r), "each output spent", c.loc(f), repr(p)[:300])
    c.ob("kernel inputs#cases", len(seen) == 3, "every outcome", c.loc(f), str(seen))
    f = c.resolve(f"<{C_}info_providers::TrivialUtxoProvider<'a> as {C_}info_providers::UtxoProvider<'a>>::get_utxo")
    for p in c.paths(f, stop=CLOSED):
        r, x = plain(sret(p)), "slice::get($0.0, $1)"
        c.ob("given", match("Ok(None)", r) and (holds(p, x + " is None") or holds(p, x + ".Some.0 is None")) or match(f"Ok(Some(Cow::Borrowed({x}.Some.0.Some.0)))", r), "the output given for that input", c.loc(f), repr(p)[:300])


def any_kind(p, subj, k):
    """as p_kind, for a subject that may show with or without its reference"""
    for t, v in p.var.items():
        if plain(show(t)) == subj:
            return v == k
    return not any(plain(show(t)) == subj and k in v for t, v in p.notvar.items())


PARTS = [signed_data, verified, multisig, signing, messages, committed]
