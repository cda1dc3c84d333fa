"""Inputs are spent only if the spending condition of what they spend is met: conditions per kind, their evaluation, and what they are evaluated against."""
from ..rule import *
CRATES = ["mintscript", "tx-verifier"]
M, I_ = "mintscript::", "InputInfoProvider::input_info($0)"
V = "tx_verifier::transaction_verifier::input_check::"
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)

TRUE = "always"
OUT, ACC, CMD, OCMD = I_ + ".Utxo.utxo", "AccountOutPoint::account(" + I_ + ".Account.outpoint)", I_ + ".AccountCommand.command", I_ + ".OrderAccountCommand.command"
KINDS = {"Utxo": (OUT, "Transfer LockThenTransfer Burn CreateStakePool ProduceBlockFromStake CreateDelegationId DelegateStaking IssueFungibleToken IssueNft DataDeposit Htlc CreateOrder"),
         "Account": (ACC, "DelegationBalance"), "AccountCommand": (CMD, "MintTokens UnmintTokens LockTokenSupply FreezeToken UnfreezeToken ChangeTokenAuthority ChangeTokenMetadataUri ConcludeOrder FillOrder"),
         "OrderAccountCommand": (OCMD, "FillOrder FreezeOrder ConcludeOrder")}
NEVER = ("Burn", "CreateDelegationId", "DelegateStaking", "IssueFungibleToken", "DataDeposit", "CreateOrder")
WIT = "InputInfoProvider::witness($0)"
SPEND = f"AuthorizedHashedTimelockContractSpend::from_data(StandardInputSignature::raw_signature({WIT}.Standard.0))"


def sig(d):
    return f"translate::to_signature_witness_script($0, {d})"


def asked(call, of):
    return f"SignatureInfoProvider::{call}($0, {of})"


def htlc(way, key):
    return (f"WitnessScript::signature({OUT}.Htlc.1.{key}, EvaluatedInputWitness::Standard(StandardInputSignature::new(StandardInputSignature::sighash_type({WIT}.Standard.0), {SPEND}.Ok.0.{way})))")


def conj(a, b):
    return f"WitnessScript::satisfied_conjunction([{a}, {b}])"


LOCK = f"WitnessScript::timelock({OUT}.LockThenTransfer.2)"
REFUND_LOCK = f"WitnessScript::timelock({OUT}.Htlc.1.refund_timelock)"
HASH = f"WitnessScript::hashlock(HashChallenge::Hash160(HtlcSecretHash::to_fixed_bytes({OUT}.Htlc.1.secret_hash)), HtlcSecret::consume({SPEND}.Ok.0.Spend.0))"


def signing():
    """who must sign for each kind of input of a transaction"""
    t = {("Utxo", k): None for k in NEVER}
    t |= {("Utxo", k): sig(f"{OUT}.{k}.{i}") for k, i in (("Transfer", 1), ("LockThenTransfer", 1), ("IssueNft", 2))}
    t["Utxo", "CreateStakePool"] = sig(f"StakePoolData::decommission_key({OUT}.CreateStakePool.1)")
    t["Utxo", "ProduceBlockFromStake"] = ("get_pool_decommission_destination", OUT + ".ProduceBlockFromStake.1")
    t["Utxo", "Htlc"] = {"Spend": htlc("Spend.1", "spend_key"), "Refund": htlc("Refund.0", "refund_key")}
    t["Account", "DelegationBalance"] = ("get_delegation_spend_destination", ACC + ".DelegationBalance.0")
    for k in KINDS["AccountCommand"][1].split():
        t["AccountCommand", k] = ("get_tokens_authority", f"{CMD}.{k}.0")
    t["AccountCommand", "ConcludeOrder"] = ("get_orders_conclude_destination", CMD + ".ConcludeOrder.0")
    t["AccountCommand", "FillOrder"] = TRUE
    t["OrderAccountCommand", "FillOrder"] = sig("Destination::AnyoneCanSpend")
    for k in ("FreezeOrder", "ConcludeOrder"):
        t["OrderAccountCommand", k] = ("get_orders_conclude_destination", f"{OCMD}.{k}.0")
    return t


def full():
    t = signing()
    t["Utxo", "LockThenTransfer"] = conj(LOCK, t["Utxo", "LockThenTransfer"])
    h = t["Utxo", "Htlc"]
    t["Utxo", "Htlc"] = {"Spend": conj(HASH, h["Spend"]), "Refund": conj(REFUND_LOCK, h["Refund"])}
    return t


def locks():
    t = {(a, k): TRUE for a, (_, ks) in KINDS.items() for k in ks.split()}
    t |= {("Utxo", k): None for k in NEVER}
    t["Utxo", "LockThenTransfer"] = LOCK
    t["Utxo", "Htlc"] = {"Spend": TRUE, "Refund": REFUND_LOCK}
    return t


def staking():
    t = {(a, k): None for a, (_, ks) in KINDS.items() for k in ks.split()}
    t["Utxo", "ProduceBlockFromStake"] = sig(OUT + ".ProduceBlockFromStake.0")
    t["Utxo", "CreateStakePool"] = sig(f"StakePoolData::staker({OUT}.CreateStakePool.1)")
    return t


def conditions(c, key, fid, table):
    """Every kind of input is translated to its condition, and only what is missing or cannot be spent is refused."""
    fid = c.resolve(fid)
    loc, seen = c.loc(fid), {}
    for p in c.paths(fid, stop=r"to_signature_witness_script$|" + CLOSED):
        var = {plain(show(t)): v for t, v in p.var.items()}
        no = {plain(show(t)): v for t, v in p.notvar.items()}
        c.ob(key + "#ends", p.kind == "ret" and not dropped(p), "every input must be translated or refused", loc, repr(p)[:300])
        if p.kind != "ret":
            continue
        r = plain(sret(p))
        failed = [t for t, v in var.items() if v == "Err"]
        for a in ([var[I_]] if I_ in var else [x for x in KINDS if x not in no.get(I_, ())]):
            subj, ks = KINDS[a]
            for k in ([var[subj]] if subj in var else [x for x in ks.split() if x not in no.get(subj, ())]):
                want = table[a, k]
                if isinstance(want, dict):
                    if var.get(WIT) != "Standard" or var.get(SPEND) == "Err":
                        c.ob(key + "#unsigned " + k, r.startswith("Err(") and (var.get(WIT) == "NoSignature" or SPEND in failed), "needs its witness", loc, repr(p)[:400])
                        continue
                    way = var.get(SPEND + ".Ok.0")
                    want, k = want.get(way, "!"), f"{k} {way}"
                if isinstance(want, tuple):
                    q = asked(*want)
                    if q in failed or var.get(q + ".Ok.0") == "None":
                        c.ob(key + "#missing " + k, r.startswith("Err("), "what is unknown cannot be spent from", loc, repr(p)[:400])
                        continue
                    want = sig(q + ".Ok.0.Some.0")
                if want is None:
                    good = r.startswith("Err(") and not failed
                elif want == TRUE:
                    good = r.startswith("Ok(WitnessScript::Threshold(Threshold{required: 0, ") and r.endswith(", len: 0}}))")
                else:
                    good = not failed and match(f"Ok({want})", r)
                c.ob(f"{key}#{a} {k}", good, "the condition for spending it must be " + str(want)[:300], loc, r[:600])
                seen[a, k] = 1
    c.count(key + " kinds", len(seen), len(table))


def translations(c):
    for key, who, t in (("transaction", "<common::chain::transaction::signed_transaction::SignedTransaction as ", full()), ("reward", "<common::chain::block::block_reward::BlockRewardTransactable<'_> as ", staking()),
                        ("locks only", "<mintscript::translate::TimelockOnly as ", locks()), ("signatures only", "<mintscript::translate::SignatureOnlyTx as ", signing())):
        conditions(c, key, who + "mintscript::translate::TranslateInput<C>>::translate_input", t)
    c.table("witness", c.paths(M + "translate::to_signature_witness_script", stop=CLOSED), [
        (f"{WIT} is Standard", f"WitnessScript::signature($1, EvaluatedInputWitness::Standard({WIT}.Standard.0))"),
        (f"{WIT} is NoSignature", f"WitnessScript::signature($1, EvaluatedInputWitness::NoSignature({WIT}.NoSignature.0))")])


def evaluation(c):
    W = M + "script::WitnessScript::"
    for f, r in (("signature", "WitnessScript::Signature($0, $1)"), ("timelock", "WitnessScript::Timelock($0)"), ("hashlock", "WitnessScript::HashLock{hash_challenge: $0, preimage: $1}"), ("conjunction", "WitnessScript::threshold_unchecked(len($0), $0)")):
        c.table(f, c.paths(W + f, stop=CLOSED), [("", r)])
    c.table("threshold", c.paths(W + "threshold_unchecked"), [("!lt(len($1), $0)", "WitnessScript::Threshold(Threshold{required: $0, conditions: $1})")], kinds=("ret",))
    c.table("new threshold", c.paths(M + "script::Threshold::new"), [("!lt(len($1), $0)", "Ok(Threshold{required: $0, conditions: $1})"), ("lt(len($1), $0)", "Err(_)")])
    f = W + "satisfied_conjunction"
    for p in c.paths(f, stop=CLOSED):
        c.ob("conjunction of all", p.kind == "back" and sret(p) == "ScriptCondition::Satisfied(elem($0))" or p.kind == "ret" and match("WitnessScript::conjunction(collect(map(iter($0), __)))", sret(p)), "all conditions, each to be satisfied", c.loc(f), repr(p)[:300])

    # a script is satisfied when everything in it is; what a threshold leaves to be satisfied is looked at as well
    f = c.resolve(M + "script::verify::<impl mintscript::script::WitnessScript>::verify")
    X = "Vec::pop(_).Some.0"
    leaf = {"Signature": f"ScriptVisitor::visit_signature(_, {X}.Signature.0, {X}.Signature.1)", "Timelock": f"ScriptVisitor::visit_timelock(_, {X}.Timelock.0)",
            "HashLock": f"ScriptVisitor::visit_hashlock(_, {X}.HashLock.hash_challenge, {X}.HashLock.preimage)", "Threshold": f"Threshold::collect_satisfied({X}.Threshold.0)"}
    seen = set()
    for p in c.paths(f, stop=CLOSED):
        k = next((v for t, v in p.var.items() if match(X, plain(show(t)))), None)
        if k is None:
            c.ob("verify#end", p.kind == "ret" and sret(p) == "Ok(())" and any(v == "None" and match("Vec::pop(_)", plain(show(t))) for t, v in p.var.items()), "satisfied only when nothing is left to check", c.loc(f), repr(p)[:300])
            continue
        seen.add((k, p.kind))
        outcome = [p.var.get(e.res) for e in p.events if match(leaf[k], plain(show(e.res)))]
        c.ob("verify#" + k, outcome == (["Ok"] if p.kind == "back" else ["Err"]) and (p.kind == "back" or sret(p).startswith("Err(")) and not dropped(p), "goes on exactly if this part is satisfied", c.loc(f), repr(p)[:400])
        if p.kind == "back":
            nxt = [plain(show(x)) for x in (p.next or {}).values()]
            rest = [n for n in nxt if n.startswith("out0[Vec::") and "visit" not in n]
            if k == "Threshold":
                good = any(re.match(r"out0\[Vec::(extend|append)\(out0\[Vec::pop\(.*\)\], ", n) and "Threshold::collect_satisfied(" in n and "filter" not in n and "skip" not in n and "take" not in n for n in rest)
            else:
                good = any(re.fullmatch(r"out0\[Vec::pop\(phi<[^<>]*>\)\]", n) for n in rest)
            c.ob("verify#rest " + k, good, "nothing left to check may be lost", c.loc(f), str(nxt)[:500])
    c.ob("verify#all", seen == {(k, w) for k in leaf for w in ("back", "ret")}, "each part can be satisfied or not", c.loc(f), str(seen))

    # a threshold: exactly as many satisfied as required
    f = c.resolve(M + "script::Threshold::collect_satisfied")
    E = "elem(Threshold::conditions($0))"
    states = set()
    for p in c.paths(f, stop=CLOSED):
        k = next((v for t, v in p.var.items() if show(t) == E), None)
        phis = {show(a): (show(init), n) for a, init, n in ((a, x, None) for a, x in p.phi.items())} if p.phi else {}
        sat = next((a for a, (i, _) in phis.items() if i == "Threshold::required($0)"), None)
        dis = next((a for a, (i, _) in phis.items() if i == "Threshold::required_dissat($0)"), None)
        acc = next((a for a, (i, _) in phis.items() if i.startswith("Vec::")), None)
        if p.kind == "panic":
            continue
        c.ob("threshold#start", sat and dis and acc, "counts what is left to be satisfied and not satisfied", c.loc(f), str(phis)[:400])
        if not (sat and dis and acc):
            continue
        nxt = {show(a): plain(show(x)) for a, x in (p.next or {}).items()}
        if k is None:
            c.ob("threshold#end", p.kind == "ret" and show(p.ret) == f"Ok({acc})" and any(x[0] == "exh" for x in p.facts), "all conditions looked at", c.loc(f), repr(p)[:300])
            continue
        left = sat if k == "Satisfied" else dis
        states.add((k, p.kind))
        if p.kind == "ret":
            c.ob("threshold#refused", sret(p).startswith("Err(") and any(show(t) == f"lt(0, {left})" and v is False for t, v in p.truth.items()), "refused exactly when one too many", c.loc(f), repr(p)[:300])
        else:
            other = dis if k == "Satisfied" else sat
            kept = nxt.get(acc) == (f"out0[Vec::push({acc}, {E}.Satisfied.0)]" if k == "Satisfied" else acc)
            c.ob("threshold#step", nxt.get(left) == f"sub({left}, 1)" and nxt.get(other) == other and kept, "counts down; keeps what is to be satisfied", c.loc(f), str(nxt)[:400])
    c.ob("threshold#all", states == {(k, w) for k in ("Satisfied", "Dissatisfied") for w in ("ret", "back")}, "both kinds of conditions, enough and too many", c.loc(f), str(states))
    for m in ("required", "conditions"):
        c.table(m, c.paths(M + "script::Threshold::" + m, stop=CLOSED), [("", "$0." + m)])
    n = "len(Threshold::conditions($0))"
    c.table("dissatisfied", c.paths(M + "script::Threshold::required_dissat", stop=CLOSED), [(f"!lt({n}, Threshold::required($0))", f"sub({n}, Threshold::required($0))")], kinds=("ret",))


def checkers(c):
    H = "timelock::check_at_least"
    late, at = "TimelockContext::spending_time($1)", "TimelockContext::spending_height($1)"
    f = "<mintscript::checker::timelock::StandardTimelockChecker as mintscript::checker::timelock::TimelockChecker<C>>::check_timelock"
    src_h, src_t = "TimelockContext::source_height($1)", "TimelockContext::source_time($1)"
    n = "T::try_into($2.ForBlockCount.0)"
    h, t = f"BlockHeight::add({src_h}.Ok.0, BlockDistance::new({n}.Ok.0))", f"BlockTimestamp::add_int_seconds({src_t}.Ok.0, $2.ForSeconds.0)"
    c.table("lock", c.paths(f, stop=CLOSED), [
        ("$2 is UntilHeight", f"{H}({at}, $2.UntilHeight.0, _)"), ("$2 is UntilTime", f"{H}({late}, $2.UntilTime.0, _)"),
        (f"$2 is ForBlockCount & {n} is Err", "Err(_)"), (f"$2 is ForBlockCount & {n} is Ok & {src_h} is Err", "Err(__)"),
        (f"$2 is ForBlockCount & {n} is Ok & {src_h} is Ok & {h} is None", "Err(_)"), (f"$2 is ForBlockCount & {n} is Ok & {src_h} is Ok & {h} is Some", f"{H}({at}, {h}.Some.0, _)"),
        (f"$2 is ForSeconds & {src_t} is Err", "Err(__)"), (f"$2 is ForSeconds & {src_t} is Ok & {t} is None", "Err(_)"),
        (f"$2 is ForSeconds & {src_t} is Ok & {t} is Some", f"{H}({late}, {t}.Some.0, _)")])
    c.table("not before", c.paths("mintscript::checker::timelock::check_at_least", stop=CLOSED), [("!lt($0, $1)", "Ok(())"), ("lt($0, $1)", "Err(__)")])
    f = "<mintscript::checker::hashlock::StandardHashlockChecker as mintscript::checker::hashlock::HashlockChecker>::check_hashlock"
    gate(c, "hash", f, need=["hashlock::ensure_hashes_equal(GenericArray::as_slice(hash::hash(Ripemd160, hash::hash(Sha256, $2))), $1.Hash160.0)"], when=["$1 is Hash160"], panics="unimplemented")
    c.table("same hash", c.paths("mintscript::checker::hashlock::ensure_hashes_equal", stop=CLOSED), [("eq($0, $1)", "Ok(())"), ("!eq($0, $1)", "Err(_)")])
    f = "<mintscript::checker::signature::StandardSignatureChecker as mintscript::checker::signature::SignatureChecker<C>>::check_signature"
    S = "SignatureContext::"
    c.table("signature", c.paths(f, stop=CLOSED), [("", f"signature::verify_signature({S}chain_config($1), $2, {S}transaction($1), $3, {S}input_commitments($1), {S}input_num($1))")])
    V_ = "<mintscript::checker::ScriptChecker<C, S, T, H> as mintscript::script::verify::ScriptVisitor>::visit_"
    for k, r in (("signature", "SignatureChecker::check_signature($0.signature_checker, $0.context, $1, $2)"), ("timelock", "TimelockChecker::check_timelock($0.timelock_checker, $0.context, $1)"), ("hashlock", "HashlockChecker::check_hashlock($0.hashlock_checker, $1, $2)")):
        c.table("visit " + k, c.paths(V_ + k, stop=CLOSED), [("", r)])
    K = M + "checker::"
    no, std = "NoOp{}Checker", "Standard{}Checker"
    for k, ty, (s, t, h) in (("full", "FullScriptChecker", (std, std, std)), ("timelock_only", "TimelockOnlyScriptChecker", (no, std, no)), ("signature_only", "SignatureOnlyScriptChecker", (std, no, no))):
        f = next(x for x in c.F.ids("mintscript", rf"checker::ScriptChecker.*::{k}$"))
        c.table("checker " + k, c.paths(f), [("", "ScriptChecker{context: $0, signature_checker: %s, timelock_checker: %s, hashlock_checker: %s}" % (s.format("Signature"), t.format("Timelock"), h.format("Hashlock")))])


def source(c):
    """what conditions are evaluated against"""
    U = "UtxosView::utxo($0, $2.Utxo.0)"
    c.table("input", c.paths(V + "PerInputData::<'a>::from_input", stop=CLOSED), [
        (f"$2 is Utxo & {U} is Ok & {U}.Ok.0 is Some", f"Ok(PerInputData::new(InputInfo::Utxo{{outpoint: $2.Utxo.0, utxo: Utxo::take_output({U}.Ok.0.Some.0), utxo_source: Some(Utxo::source({U}.Ok.0.Some.0))}}, $3))"),
        (f"$2 is Utxo & {U} is Ok & {U}.Ok.0 is None", "Err(_)"), (f"$2 is Utxo & {U} is Err", "Err(_)"),
        ("$2 is Account", "Ok(PerInputData::new(InputInfo::Account{outpoint: $2.Account.0}, $3))"), ("$2 is AccountCommand", "Ok(PerInputData::new(InputInfo::AccountCommand{command: $2.AccountCommand.1}, $3))"),
        ("$2 is OrderAccountCommand", "Ok(PerInputData::new(InputInfo::OrderAccountCommand{command: $2.OrderAccountCommand.0}, $3))")])
    c.table("per input", c.paths(V + "PerInputData::<'a>::new", stop=CLOSED), [("", "PerInputData{input: $0, witness: $1}")])
    for who, into in (("PerInputData<'_>", ("$0.input", "$0.witness")), ("TranslationContextFull<'_, AV, TV, OV>", ("PerInputData::input_info($0.input)", "PerInputData::witness($0.input)")),
                      ("signature_only_check::InputVerifyContextSignature<'_, T>", ("PerInputData::input_info($0.input_data)", "PerInputData::witness($0.input_data)"))):
        for m, r in zip(("input_info", "witness"), into):
            c.table(f"{m} {who}", c.paths(f"<{V}{who} as mintscript::translate::InputInfoProvider>::{m}", stop=CLOSED), [("", r)])
    T = f"<{V}TranslationContextFull<'_, AV, TV, OV> as mintscript::translate::SignatureInfoProvider>::"
    for m, q, d in (("get_pool_decommission_destination", "PoSAccountingView::get_pool_data($0.pos_accounting, $1)", "PoolData::decommission_destination(@)"), ("get_delegation_spend_destination", "PoSAccountingView::get_delegation_data($0.pos_accounting, $1)", "DelegationData::spend_destination(@)"),
                    ("get_tokens_authority", "TokensAccountingView::get_token_data($0.tokens_accounting, $1)", "FungibleTokenData::authority(@.FungibleToken.0)"), ("get_orders_conclude_destination", "OrdersAccountingView::get_order_data($0.orders_accounting, $1)", "OrderData::conclude_key(@)")):
        c.table(m, c.paths(T + m, stop=CLOSED), [(f"{q} is Err", f"Err({q}.Err.0)"), (f"{q} is Ok & {q}.Ok.0 is None", "Ok(None)"), (f"{q} is Ok & {q}.Ok.0 is Some", f"Ok(Some({d.replace('@', q + '.Ok.0.Some.0')}))")])
    for m in ("get_pool_decommission_destination", "get_delegation_spend_destination", "get_tokens_authority", "get_orders_conclude_destination"):
        c.table("given " + m, c.paths(f"<{V}signature_only_check::InputVerifyContextSignature<'_, T> as mintscript::translate::SignatureInfoProvider>::{m}", stop=CLOSED), [("", "Ok(Some($0.outpoint_destination))")])
    # every input with its own witness
    f, W = V + "CoreContext::<'a>::new", "Transactable::signatures($1)"
    ends = set()
    for p in c.paths(f, stop=CLOSED):
        if p.kind == "panic":
            c.ob("inputs#panic", p.msg and "assert" in p.msg, "only one witness per input", c.loc(f), repr(p)[:300])
            continue
        ins = next((x for x in ("Signable::inputs($1).Some.0", "[]") if f"iter({x})" in repr(p)), "!")
        make = f"PerInputData::from_input($0, pos(_), elem({ins}), elem({W}).Some.0)"
        c.ob("inputs#pairs", any(f"zip(iter({ins}), iter({W}))" in x for x in (repr(p),)) and not dropped(p), "each input goes with its own witness", c.loc(f), repr(p)[:400])
        if p.kind == "back":
            c.ob("inputs#made", match(make + ".Ok.0", plain(sret(p))), "made of the input and its witness", c.loc(f), sret(p)[:400])
        elif success(p):
            ends.add(ins)
            c.ob("inputs#all", match("Ok(CoreContext{inputs_and_sigs: collect(map(enumerate(zip(__)), __))})", plain(sret(p))), "all inputs", c.loc(f), sret(p)[:300])
        else:
            bad = any(p.var.get(e.res) == "Err" and match(make, plain(show(e.res))) for e in p.events) or any(v == "None" and show(t) == f"elem({W})" for t, v in p.var.items())
            c.ob("inputs#refused", bad, "refused only for a missing witness or output", c.loc(f), repr(p)[:400])
    c.ob("inputs#some", "Signable::inputs($1).Some.0" in ends, "must be able to pass", c.loc(f))
    c.table("nth input", c.paths(V + "CoreContext::<'a>::input_data", stop=CLOSED), [("", "$0.inputs_and_sigs[$1]")])
    # the tip and time of spending, and where the output came from
    new = "VerifyContextTimelock::custom($0, $1, {}, $3, TransactionSourceForConnect::expected_block_height($2), $4)"
    c.table("spent at", c.paths(V + "VerifyContextTimelock::<'a, S>::for_verifier", stop=CLOSED), [("$2 is Mempool", new.format("GenBlockIndex::block_id($2.Mempool.current_best)")), ("$2 is Chain", new.format("T::into(BlockIndex::block_id($2.Chain.new_block_index))"))])
    c.table("context", c.paths(V + "VerifyContextTimelock::<'a, S>::custom", stop=CLOSED), [("", "VerifyContextTimelock{chain_config: $0, storage: $1, tip: $2, spending_time: $3, spending_height: $4, core_ctx: $5}")])
    L = f"<{V}InputVerifyContextTimelock<'_, S> as mintscript::checker::timelock::TimelockContext>::"
    i = "PerInputData::input_info(CoreContext::input_data($0.ctx.core_ctx, $0.input_num))"
    c.table("info", c.paths(V + "InputVerifyContextTimelock::<'a, S>::info", stop=CLOSED), [("", i)])
    c.table("spending height", c.paths(L + "spending_height", stop=CLOSED), [("", "$0.ctx.spending_height")])
    c.table("spending time", c.paths(L + "spending_time", stop=CLOSED), [("", "$0.ctx.spending_time")])
    i = "InputVerifyContextTimelock::info($0)"
    s = i + ".Utxo.utxo_source"
    anc = f"__block_index_ancestor_getter(_, $0.ctx.storage, $0.ctx.chain_config, _, {s}.Some.0.Blockchain.0)"
    src = f"{i} is Utxo & {s} is Some & {s}.Some.0 is "
    none = [(f"{i} is {k}", "Err(_)") for k in ("Account", "AccountCommand", "OrderAccountCommand")] + [(f"{i} is Utxo & {s} is None", "Err(_)")]
    c.table("source height", c.paths(L + "source_height", stop=CLOSED), [(src + "Mempool", "Ok($0.ctx.spending_height)"), (src + "Blockchain", f"Ok({s}.Some.0.Blockchain.0)")] + none)
    seen = set()
    f = L + "source_time"
    for p in c.paths(f, stop=CLOSED):
        k = {plain(show(t)): v for t, v in p.var.items()}
        where = k.get(s + ".Some.0")
        ok_ = p.kind == "ret" and success(p)
        if ok_:
            seen.add(where)
        if where == "Mempool":
            good = sret(p) == "Ok($0.ctx.spending_time)"
        elif where == "Blockchain":
            e = [e for e in p.events if re.search("block_index_ancestor_getter$", e.name)]
            good = len(e) == 1 and p.var.get(e[0].res) == ("Ok" if ok_ else "Err") and [show(a) for a in e[0].args][1:3] == ["$0.ctx.storage", "$0.ctx.chain_config"] and "$0.ctx.tip" in show(e[0].args[3]) and show(e[0].args[4]) == s + ".Some.0.Blockchain.0" \
                and (not ok_ or plain(sret(p)) == f"Ok(GenBlockIndex::block_timestamp({plain(show(e[0].res))}.Ok.0))")
        else:
            good = not ok_
        c.ob("source time", good and not dropped(p), "the time of the block at that height below the tip, or of spending", c.loc(f), repr(p)[:500])
    c.ob("source time#both", seen == {"Mempool", "Blockchain"}, "both sources", c.loc(f), str(seen))
    F_ = f"<{V}InputVerifyContextFull<'_, T, S> as mintscript::checker::timelock::TimelockContext>::"
    for m in ("spending_height", "spending_time", "source_height", "source_time"):
        c.table("same " + m, c.paths(F_ + m, stop=CLOSED), [("", f"InputVerifyContextTimelock::{m}(InputVerifyContextFull::sub_ctx($0))")])
    c.table("sub context", c.paths(V + "InputVerifyContextFull::<'a, T, S>::sub_ctx", stop=CLOSED), [("", "InputVerifyContextTimelock::new($0.ctx.sub_ctx, $0.input_num)")])
    for k in ("Full", "Timelock"):
        f = next(x for x in c.F.ids("tx_verifier", rf"input_check::InputVerifyContext{k}::<.*>::new$"))
        c.table("context of an input " + k, c.paths(f, stop=CLOSED), [("", f"InputVerifyContext{k}{{ctx: $0, input_num: $1}}")])
    for who, rows in (("InputVerifyContextFull<'_, T, S>", ("$0.ctx.sub_ctx.chain_config", "$0.ctx.transaction", "$0.ctx.input_commitments", "$0.input_num")), ("signature_only_check::InputVerifyContextSignature<'_, T>", ("$0.chain_config", "$0.tx", "$0.input_commitments", "$0.input_num"))):
        for m, r in zip(("chain_config", "transaction", "input_commitments", "input_num"), rows):
            c.table(f"{m} {who}", c.paths(f"<{V}{who} as mintscript::checker::signature::SignatureContext>::{m}", stop=CLOSED), [("", r)])


def inputs(c):
    """each input of the transaction is translated and its condition verified"""
    core = "CoreContext::new({}).Ok.0"
    for key, fn, ctx, script, chk in (
            ("verify", "verify_full", core.format("$2, $0"), None, None),
            ("locks", "verify_timelocks", core.format("$2, $0"), None, None)):
        f = c.resolve(V + fn)
        loc, seen = c.loc(f), set()
        if fn == "verify_full":
            tl = f"VerifyContextTimelock::for_verifier($1, $6, $7, $8, {ctx})"
            com = f"SighashInputCommitmentsSource::get_input_commitments($0, {ctx}, $3, $5, $1, $9)"
            scr = "TranslationContextFull::to_script(TranslationContextFull::new($3, $4, $5, {}))"
            chk = f"ScriptChecker::full(InputVerifyContextFull::new(VerifyContextFull::new($0, {com}.Ok.0, {tl}), {{}}))"
        else:
            tl = f"VerifyContextTimelock::custom($1, $3, $4, $6, $5, {ctx})"
            scr = "TimelockOnly::translate_input({})"
            chk = f"ScriptChecker::timelock_only(InputVerifyContextTimelock::new({tl}, {{}}))"
        for p in c.paths(f, stop=CLOSED):
            c.ob(key + "#lost", p.kind != "panic" and not dropped(p), "no outcome may be lost", loc, repr(p)[:400])
            bad = [e for e in p.events if p.var.get(e.res) == "Err"]
            vs = [plain(show(e.res)) for e in p.events if re.search(r"::verify$", e.name)]
            if p.kind == "ret" and not success(p):
                c.ob(key + "#refused", bad, "refused only for a failed check", loc, repr(p)[:400])
            elif p.kind == "back":
                it = f"CoreContext::inputs_iter({ctx})"
                want = f"verify::verify({scr.format(f'elem({it}).1')}.Ok.0, {chk.format(f'elem({it}).0')})"
                c.ob(key + "#each", vs == [want] and not bad, "each input's condition is verified, in its own context", loc, str(vs)[:900])
                seen.add("back")
            else:
                c.ob(key + "#all", not bad and any(x[0] == "exh" and "inputs_iter" in show(x[1]) and not re.search(r"skip|take|filter|step", show(x[1])) for x in p.facts), "passes when all inputs were looked at", loc, repr(p)[:400])
                seen.add("ret")
        c.ob(key + "#passes", seen == {"back", "ret"}, "can pass", loc, str(seen))
    c.table("commit", c.paths(V + "VerifyContextFull::<'a, T, S>::new", stop=CLOSED), [("", "VerifyContextFull{transaction: $0, input_commitments: $1, sub_ctx: $2}")])
    f = c.resolve(V + "TranslationContextFull::<'a, AV, TV, OV>::new")
    c.table("to script", c.paths(f, stop=CLOSED), [("", "TranslationContextFull{pos_accounting: $0, tokens_accounting: $1, orders_accounting: $2, input: $3}")])
    t = "TranslateInput::translate_input($0)"
    c.table("script of", c.paths(V + "TranslationContextFull::<'_, AV, TV, OV>::to_script", stop=CLOSED), [(f"{t} is Err", "Err(__)"), (f"{t} is Ok", f"Ok({t}.Ok.0)")])
    # one signature
    f = c.resolve(V + "signature_only_check::verify_tx_signature")
    ins = "Signable::inputs($2).Some.0"
    inp, w = f"slice::get({ins}, $4).Some.0", "Transactable::signatures($2)[$4]"
    info = {"Utxo": f"InputInfo::Utxo{{outpoint: {inp}.Utxo.0, utxo: $5.Some.0, utxo_source: None}}", "Account": f"InputInfo::Account{{outpoint: {inp}.Account.0}}", "AccountCommand": f"InputInfo::AccountCommand{{command: {inp}.AccountCommand.1}}",
            "OrderAccountCommand": f"InputInfo::OrderAccountCommand{{command: {inp}.OrderAccountCommand.0}}"}
    seen, loc = set(), c.loc(f)
    for p in c.paths(f, stop=CLOSED):
        k = next((v for t, v in p.var.items() if plain(show(t)) == inp), None)
        c.ob("one#lost", p.kind == "ret" and not dropped(p), "no outcome may be lost", loc, repr(p)[:300])
        bad = [e for e in p.events if p.var.get(e.res) == "Err"]
        if p.kind == "ret" and success(p):
            x = f"InputVerifyContextSignature{{chain_config: $0, tx: $2, outpoint_destination: $1, input_commitments: $3, input_num: $4, input_data: PerInputData::new({info.get(k)}, {w}.Some.0)}}"
            c.ob("one#checked", not bad and holds(p, f"eq(len($3), len({ins}))") and any(match(f"verify::verify(SignatureOnlyTx::translate_input({x}).Ok.0, ScriptChecker::signature_only({x}))", plain(show(e.res))) for e in p.events),
                 "the input's condition is verified against its witness", loc, repr(p)[:900])
            seen.add(k)
        else:
            c.ob("one#refused", bad or holds(p, f"!eq(len($3), len({ins}))") or any(v == "None" for v in p.var.values()), "refused only for what is missing or fails", loc, repr(p)[:400])
    c.ob("one#kinds", seen == set(info), "every kind of input", loc, str(seen))


def maturity(c):
    f = "tx_verifier::transaction_verifier::timelock_check::check_output_maturity_setting"
    short = "lt(BlockCount::new($0.ForBlockCount.0).0, $1.0)"
    c.table("maturity", c.paths(f, stop=CLOSED), [(f"$0 is ForBlockCount & !{short}", "Ok(())"), (f"$0 is ForBlockCount & {short}", "Err(__)")] + [(f"$0 is {k}", "Err(__)") for k in ("UntilHeight", "UntilTime", "ForSeconds")])
    f = "tx_verifier::transaction_verifier::timelock_check::check_timelock"
    c.table("one lock", c.paths(f, stop=CLOSED), [("", "StandardTimelockChecker::check_timelock(StandardTimelockChecker, TimelockData{spending_height: $3, spending_time: $4, source_height: $0, source_time: $1}, $2)")])
    D = "<tx_verifier::transaction_verifier::timelock_check::TimelockData as mintscript::checker::timelock::TimelockContext>::"
    for m in ("spending_height", "spending_time", "source_height", "source_time"):
        c.table("of data " + m, c.paths(D + m, stop=CLOSED), [("", f"$0.{m}" if "spending" in m else f"Ok($0.{m})")])


PARTS = [translations, evaluation, checkers, source, inputs, maturity]
