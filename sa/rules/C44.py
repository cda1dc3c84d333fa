"""Disconnecting: what connecting changed is undone from the stored undo data, last change first; account nonces step by one, up when spent and down when disconnected."""
from ..rule import *
CRATES = ["tx-verifier", "common"]
V = "tx_verifier::transaction_verifier::TransactionVerifier::<C, S, U, A, T, O>::"
STOP = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::)"
STEP = r"TransactionVerifier::<.*>::\w+$|UtxosCache::<.*>::(dis)?connect_\w+$|TokenIssuanceCache::(un)?register$|UtxosBlockUndoCache::\w+$|AccountingBlockUndoCache::<.*>::\w+$|::undo$"


def transaction(c):
    tx = "SignedTransaction::transaction($2)"
    take = f"UtxosBlockUndoCache::take_tx_undo(_, $1, Transaction::get_id({tx}), _)"
    steps(c, "disconnect_transaction", V + "disconnect_transaction", STEP, [("", [
        take, f"TransactionVerifier::disconnect_accounting_outputs(_, $1, {tx})", f"UtxosCache::disconnect_transaction(_, {tx}, {take}.Ok.0)",
        f"TokenIssuanceCache::unregister(_, {tx}, _)"], "Ok(_)")], stop=STOP)
    fid = V + "disconnect_accounting_outputs"
    steps(c, "disconnect_accounting", fid, STEP + r"(?<!unspend_input_from_account)", [("", [f"TransactionVerifier::disconnect_{x}_accounting_outputs(_, $1, $2)" for x in ("pos", "tokens", "orders")], "Ok(())")], loose=True, stop=STOP)
    I = "elem(Transaction::inputs($2))"
    seen = {}
    for p in c.paths(fid, stop=STOP):
        if p.kind == "ret" and success(p):
            c.ob("nonces#all", any("Transaction::inputs($2)" in show(x[1]) for x in p.facts if x[0] == "exh"), "the nonces of all inputs must step back", c.loc(fid), repr(p)[:300])
        if p.kind != "back":
            continue
        v = [k for k in ("Utxo", "Account", "AccountCommand", "OrderAccountCommand") if holds(p, f"{I} is {k}")]
        es = [[show(a) for a in e.args][1:] for e in evs(p, r"unspend_input_from_account$")]
        want = {"Account": f"T::into(AccountOutPoint::account({I}.Account.0))", "AccountCommand": f"T::into({I}.AccountCommand.1)"}.get(v[0] if v else "")
        c.ob("nonces#each", len(v) == 1 and es == ([[want]] if want else []), "each account spent from must have its nonce stepped back, once", c.loc(fid), repr(p)[:300] + str(es))
        seen[v[0] if v else ""] = 1
    for k in ("Account", "AccountCommand"):
        c.ob("nonces#" + k, k in seen, "the nonce must step back for " + k, c.loc(fid))


def undone(c):
    for what, cache, call in (("pos", "pos_accounting", "PoSAccountingOperationImpl::undo(PoSAccountingDeltaAdapter::operations(_, $1), %s)"),
                              ("tokens", "tokens_accounting", "TokensAccountingCache::undo(_, %s)"), ("orders", "orders_accounting", "OrdersAccountingCache::undo(_, %s)")):
        fid = V + f"disconnect_{what}_accounting_outputs"
        take = None
        n = [0, 0, 0]
        for p in c.paths(fid, stop=STOP):
            t = evs(p, r"::take_tx_undo$")
            a = [show(x) for x in t[0].args] if t else []
            c.ob(what + "#taken", len(t) == 1 and a[0] == f"$0.{cache}_block_undo" and a[1] == "$1" and a[2] == "Transaction::get_id($2)", "the undo data of this transaction must be taken, once", c.loc(fid), str(a)[:200])
            if not t:
                continue
            take = show(t[0].res)
            seq = f"TxUndo::into_inner({take}.Ok.0.Some.0)"
            us = [show(e.res) for e in evs(p, r"::undo$")]
            if p.kind == "back":
                n[0] += 1
                c.ob(what + "#each", len(us) == 1 and match(call % f"elem({seq})", us[0]), "each change must be undone once", c.loc(fid), str(us)[:300])
            elif p.kind == "ret" and success(p):
                exh = [show(x[1]) for x in p.facts if x[0] == "exh"]
                if holds(p, f"{take}.Ok.0 is None"):
                    n[1] += 1
                    c.ob(what + "#none", not us, "without undo data nothing is undone", c.loc(fid))
                else:
                    n[2] += 1
                    c.ob(what + "#order", any(x in (f"rev(iter({seq}))", f"rev({seq})") for x in exh), "changes must be undone last first, all of them", c.loc(fid), str(exh)[:300])
            elif p.kind == "panic":
                c.ob(what + "#panic", False, "must not panic", c.loc(fid), repr(p)[:300])
        c.ob(what + "#all", all(n), "undo data may be there or not", c.loc(fid), str(n))


def reward(c):
    fid, i = V + "disconnect_block_reward", "WithId::get_id($1)"
    src = f"TransactionSource::Chain({i})"
    take = f"UtxosBlockUndoCache::take_block_reward_undo(_, {src}, _)"
    back = f"UtxosCache::disconnect_block_transactable(_, Block::block_reward_transactable($1), T::into({i}), {take}.Ok.0)"
    kept = f"AccountingBlockUndoCache::take_block_reward_undo(_, {src}, _)"
    cons = "SignedBlockHeader::consensus_data(Block::header($1))"
    ways = [(f"{cons} is {k}", [take, back] + ([kept] if k == "PoS" else []), "Ok(())") for k in ("None", "PoW", "PoS")]
    steps(c, "disconnect_block_reward", fid, STEP, ways, stop=STOP)
    seen = 0
    for p in c.paths(fid, stop=STOP):
        us = [e for e in evs(p, r"::undo$")]
        if us:
            t = evs(p, r"AccountingBlockUndoCache::<.*>::take_block_reward_undo$")
            c.ob("reward#each", len(us) == 1 and t and match(f"PoSAccountingOperationImpl::undo(PoSAccountingDeltaAdapter::operations(_, {src}), elem(BlockRewardUndo::into_inner({show(t[0].res)}.Ok.0.Some.0)))", show(us[0].res)),
                 "each change of the reward must be undone", c.loc(fid), show(us[0].res)[:400])
            seen += 1
    c.ob("reward#undone", seen, "the reward distribution must be undone", c.loc(fid))


def nonces(c):
    """an account is spent from with exactly the nonce after the last one, which becomes the last one"""
    opt = dict(stop=r"::get_account_nonce_count$", inline={"common"})
    # one step up
    g = "T::get_account_nonce_count($0, $2)"
    n = f"{g}.Ok.0.Some.0.0"
    new = "$0{account_nonce:=mapset($0.account_nonce, $2, CachedOperation::Write($1))}"
    both = lambda r, o: lambda p: match(r, sret(p)) and match(o, sout(0)(p))
    c.table("spend", c.paths(V + "spend_input_from_account", **opt), [
        (f"{g} is Err", both("Err(_)", "$0")),
        (f"{g} is Ok & {g}.Ok.0 is None & eq(0, $1.0)", both("Ok(())", new)),
        (f"{g} is Ok & {g}.Ok.0 is None & !eq(0, $1.0)", both("Err(_)", "$0")),
        (f"{g} is Ok & {g}.Ok.0 is Some & ovf(add, u64, 1, {n})", both("Err(_)", "$0")),
        (f"{g} is Ok & {g}.Ok.0 is Some & !ovf(add, u64, 1, {n}) & eq($1.0, add(1, {n}))", both("Ok(())", new)),
        (f"{g} is Ok & {g}.Ok.0 is Some & !ovf(add, u64, 1, {n}) & !eq($1.0, add(1, {n}))", both("Err(_)", "$0"))])
    # one step down
    g = "T::get_account_nonce_count($0, $1)"
    n = f"{g}.Ok.0.Some.0.0"
    put = lambda x: f"$0{{account_nonce:=mapset($0.account_nonce, $1, {x})}}"
    c.table("unspend", c.paths(V + "unspend_input_from_account", **opt), [
        (f"{g} is Err", both("Err(_)", "$0")), (f"{g} is Ok & {g}.Ok.0 is None", both("Err(_)", "$0")),
        (f"{g} is Ok & {g}.Ok.0 is Some & lt(0, {n})", both("Ok(())", put(f"CachedOperation::Write(AccountNonce(sub({n}, 1)))"))),
        (f"{g} is Ok & {g}.Ok.0 is Some & !lt(0, {n})", both("Ok(())", put("CachedOperation::Erase")))])
    # the last nonce: what was written here, or what the storage says
    fid = list(c.F.ids("tx_verifier", r"hierarchy::<impl .*StorageRef for .*>::get_account_nonce_count$"))
    c.ob("last#one", len(fid) == 1, "the last nonce must be readable from the verifier", "hierarchy.rs", str(fid))
    e = "mapget($0.account_nonce, $1)"
    for f in fid:
        c.table("last", c.paths(f, stop=STOP), [(f"{e} is None", "TransactionVerifierStorageRef::get_account_nonce_count($0.storage, $1)"), (f"{e} is Some & {e}.Some.0 is Erase", "Ok(None)")]
                + [(f"{e} is Some & {e}.Some.0 is {k}", f"Ok(Some({e}.Some.0.{k}.0))") for k in ("Read", "Write")])
    # each account has its own
    kinds = {"AccountSpending": [("Delegation", "DelegationBalance")], "AccountCommand": [("Token", x) for x in (
        "MintTokens", "UnmintTokens", "LockTokenSupply", "FreezeToken", "UnfreezeToken", "ChangeTokenAuthority", "ChangeTokenMetadataUri")] + [("Order", "ConcludeOrder"), ("Order", "FillOrder")],
        "OrderAccountCommand": [("Order", x) for x in ("FillOrder", "FreezeOrder", "ConcludeOrder")]}
    for ty, ks in kinds.items():
        fid = list(c.F.ids("common", rf"AccountType as .*From<&?[\w:]*::{ty}>>::from$"))
        c.ob("account#" + ty, len(fid) == 1, "each kind of spending must name an account", "account_outpoint.rs", str(fid))
        for f in fid:
            c.table("account " + ty, c.paths(f), [(f"$0 is {k}" if len(ks) > 1 else "", f"AccountType::{t}($0.{k}.0)") for t, k in ks])


PARTS = [transaction, undone, reward, nonces]
