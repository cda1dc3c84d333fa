"""Connecting a transaction: the steps in order, each able to refuse it, and per kind of input and output exactly the operation it names, with its undo data kept in order."""
from ..rule import *
CRATES = ["tx-verifier"]
V = "tx_verifier::transaction_verifier::TransactionVerifier::<C, S, U, A, T, O>::"
STOP = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::)"
I, O = "elem(Transaction::inputs($2))", "elem(Transaction::outputs($2))"
INPUTS, OUTPUTS = "Transaction::inputs($2)", "Transaction::outputs($2)"
STATE = "(?:$0|out0[__])"
W = r"::(spend_input_from_\w+|add_tx_undo|undo|create_\w+|decommission_pool|increase_staker_rewards|delete_\w+|delegate_staking|spend_share_from_delegation_id|issue_token|mint_tokens|unmint_tokens" \
    r"|lock_circulating_supply|freeze_\w+|unfreeze_token|change_\w+|conclude_order|fill_order|insert)$"
NOTHING = ["Transfer", "LockThenTransfer", "Burn", "CreateStakePool", "ProduceBlockFromStake", "CreateDelegationId", "DelegateStaking", "IssueFungibleToken", "IssueNft", "DataDeposit", "Htlc", "CreateOrder"]
COMMANDS = ["MintTokens", "UnmintTokens", "LockTokenSupply", "FreezeToken", "UnfreezeToken", "ChangeTokenAuthority", "ConcludeOrder", "FillOrder", "ChangeTokenMetadataUri"]


def nothing(but, at=O, of=NOTHING):
    return [(f"{at} is {x}", [], None) for x in of if x not in but]


def ends(field):
    return f"AccountingBlockUndoCache::add_tx_undo($0.{field}, _, Transaction::get_id($2), TxUndo::new(collect(chain(iter(collect(filter_map(iter({INPUTS}), __))), iter(collect(filter_map(iter({OUTPUTS}), __)))))))"


def connect(c, what, field, rows, refuse, writes=W):
    fid = V + f"connect_{what}_outputs"
    dispatch(c, what, fid, [INPUTS, OUTPUTS], writes, rows, refuse, [("", [ends(field)], "Ok(())"), ("", [], "Ok(())")], stop=STOP)
    # the undo data is left out only if there is none
    for p in c.paths(fid, stop=STOP):
        if success(p) and not evs(p, r"::add_tx_undo$"):
            t = repr(p)
            c.ob(what + "#kept", all(re.search(r"(?<!!)eq\(0, len\(collect\(filter_map\(iter\(" + re.escape(s), t) for s in (INPUTS, OUTPUTS)), "undo data must be stored unless there is none", c.loc(fid), t[:500])


def pos(c):
    ops = "PoSAccountingOperationImpl::%s(PoSAccountingDeltaAdapter::operations(_, T::into($1)), %s)"
    A = f"AccountOutPoint::account({I}.Account.0)"
    spend = f"TransactionVerifier::spend_input_from_account($0, AccountOutPoint::nonce({I}.Account.0), T::into({A}))"
    share = ops % ("spend_share_from_delegation_id", f"{A}.DelegationBalance.0, {A}.DelegationBalance.1")
    utxo = f"TransactionVerifier::spend_input_from_utxo($0, T::into($1), {I}.Utxo.0)"
    pool = ops % ("create_pool", f"{O}.CreateStakePool.0, T::into({O}.CreateStakePool.1)")
    deleg = ops % ("create_delegation_id", f"{O}.CreateDelegationId.1, make_id::make_delegation_id({INPUTS}).Ok.0, {O}.CreateDelegationId.0")
    stake = ops % ("delegate_staking", f"{O}.DelegateStaking.1, {O}.DelegateStaking.0")
    own = f"Id::eq(make_id::make_pool_id({INPUTS}).Ok.0, {O}.CreateStakePool.0)"
    less = f"lt(StakePoolData::pledge({O}.CreateStakePool.1).atoms, ChainConfig::min_stake_pool_pledge($0.chain_config).atoms)"
    rows = [(f"{I} is {x}", [], None) for x in ("AccountCommand", "OrderAccountCommand")]
    rows += [(f"{I} is Account", [spend, share], share + ".Ok.0"), (f"{I} is Utxo & {utxo}.Ok.0 is Some", [utxo], utxo + ".Ok.0.Some.0"), (f"{I} is Utxo & {utxo}.Ok.0 is None", [utxo], None)]
    rows += nothing(("CreateStakePool", "CreateDelegationId", "DelegateStaking"))
    rows += [(f"{O} is CreateStakePool & {own} & !{less}", [pool], pool + ".Ok.0"), (f"{O} is CreateDelegationId", [deleg], deleg + ".Ok.0"), (f"{O} is DelegateStaking", [stake], stake + ".Ok.0")]
    connect(c, "pos_accounting", "pos_accounting_block_undo", rows, [f"{O} is CreateStakePool & !{own}", f"{O} is CreateStakePool & {own} & {less}"], W.replace("|insert", ""))


def tokens(c):
    C, N = f"{I}.AccountCommand.1", f"{I}.AccountCommand.0"
    nonce = f"TransactionVerifier::spend_input_from_account($0, {N}, T::into({C}))"
    rows, refuse = [(f"{I} is {x}", [], None) for x in ("Utxo", "Account", "OrderAccountCommand")], []
    rows += [(f"{I} is AccountCommand & {C} is {x}", [], None) for x in ("ConcludeOrder", "FillOrder")]
    for v, f, n in (("MintTokens", "mint_tokens", 2), ("LockTokenSupply", "lock_circulating_supply", 1), ("FreezeToken", "freeze_token", 2), ("UnfreezeToken", "unfreeze_token", 1),
                    ("ChangeTokenAuthority", "change_authority", 2), ("ChangeTokenMetadataUri", "change_metadata_uri", 2)):
        w = f"TokensAccountingCache::{f}(_, " + ", ".join(f"{C}.{v}.{i}" for i in range(n)) + ")"
        rows.append((f"{I} is AccountCommand & {C} is {v}", [nonce, w], w + ".Ok.0"))
    burned = f"input_output_policy::calculate_tokens_burned_in_outputs($2, {C}.UnmintTokens.0).Ok.0"
    some = f"lt(0, {burned}.atoms)"
    w = f"TokensAccountingCache::unmint_tokens(_, {C}.UnmintTokens.0, {burned})"
    rows += [(f"{I} is AccountCommand & {C} is UnmintTokens & {some}", [nonce, w], w + ".Ok.0"), (f"{I} is AccountCommand & {C} is UnmintTokens & !{some}", [nonce], None)]
    w = f"TokensAccountingCache::issue_token(_, make_id::make_token_id($0.chain_config, TransactionSourceForConnect::expected_block_height($1), {INPUTS}).Ok.0, TokenData::FungibleToken(T::into({O}.IssueFungibleToken.0)))"
    rows += nothing(("IssueFungibleToken",)) + [(f"{O} is IssueFungibleToken", [w], w + ".Ok.0")]
    connect(c, "tokens", "tokens_accounting_block_undo", rows, [])
    # frozen tokens are looked for before anything changes
    for p in c.paths(V + "connect_tokens_outputs", stop=STOP):
        first = [e for e in p.events if re.search(W + r"|check_operations_with_frozen_tokens", e.name)]
        c.ob("frozen#first", first and show(first[0].res).startswith("TransactionVerifier::check_operations_with_frozen_tokens($0, $2, TransactionSourceForConnect::expected_block_height($1)"),
             "frozen tokens must be looked for before anything changes", c.loc(V + "connect_tokens_outputs"), repr(p)[:400])


def orders(c):
    C, N, D = f"{I}.AccountCommand.1", f"{I}.AccountCommand.0", f"{I}.OrderAccountCommand.0"
    nonce = f"TransactionVerifier::spend_input_from_account($0, {N}, T::into({C}))"
    rows = [(f"{I} is {x}", [], None) for x in ("Utxo", "Account")]
    rows += [(f"{I} is AccountCommand & {C} is {x}", [], None) for x in COMMANDS if not x.endswith("Order")]
    for at, x, v, args, w0 in ((C, "AccountCommand", "ConcludeOrder", "", [nonce]), (C, "AccountCommand", "FillOrder", f", {C}.FillOrder.1, OrdersVersion::V0", [nonce]),
                               (D, "OrderAccountCommand", "FillOrder", f", {D}.FillOrder.1, OrdersVersion::V1", []), (D, "OrderAccountCommand", "ConcludeOrder", "", []),
                               (D, "OrderAccountCommand", "FreezeOrder", "", [])):
        f = {"FillOrder": "fill_order", "ConcludeOrder": "conclude_order", "FreezeOrder": "freeze_order"}[v]
        w = f"OrdersAccountingCache::{f}(_, {at}.{v}.0{args})"
        rows.append((f"{I} is {x} & {at} is {v}", w0 + [w], w + ".Ok.0"))
    w = f"OrdersAccountingCache::create_order(_, make_id::make_order_id({INPUTS}).Ok.0, T::into({O}.CreateOrder.0))"
    rows += nothing(("CreateOrder",)) + [(f"{O} is CreateOrder", [w], w + ".Ok.0")]
    connect(c, "orders", "orders_accounting_block_undo", rows, [])


STEP = r"check_transaction::check_transaction$|TokenIssuanceCache::(un)?register$|check_tx_inputs_outputs_policy$|TransactionVerifier::<.*>::\w+$|UtxosCache::<.*>::(dis)?connect_\w+$|UtxosBlockUndoCache::\w+$" \
       r"|AccountingBlockUndoCache::<.*>::\w+$|distribute_pos_reward$"


def transaction(c):
    fid, tx, h = V + "connect_transaction", "SignedTransaction::transaction($2)", "TransactionSourceForConnect::expected_block_height($1)"
    fee = "input_output_policy::check_tx_inputs_outputs_policy(" + f"{tx}, $0.chain_config, {h}, $0.orders_accounting_cache, PoSAccountingDeltaAdapter::accounting_delta($0.pos_accounting_adapter), $0.tokens_accounting_cache, $0.utxo_cache)"
    spent = f"UtxosCache::connect_transaction(_, {tx}, TransactionSourceForConnect::to_utxo_source($1))"
    steps(c, "connect_transaction", fid, STEP, [("", [
        f"check_transaction::check_transaction($0.chain_config, {h}, $2)",
        f"TokenIssuanceCache::register($0.token_issuance_cache, $0.chain_config, {h}, _, {tx}, _)",
        fee,
        f"TransactionVerifier::verify_inputs(_, $2, $1, $3, {h})",
        f"TransactionVerifier::connect_pos_accounting_outputs(_, $1, {tx})",
        f"TransactionVerifier::connect_tokens_outputs(_, $1, {tx})",
        f"TransactionVerifier::connect_orders_outputs(_, $1, {tx})",
        spent,
        f"UtxosBlockUndoCache::add_tx_undo(_, TransactionSource::from($1), Transaction::get_id({tx}), {spent}.Ok.0)"], "Ok(" + fee + ".Ok.0)")], stop=STOP)


def reward(c):
    fid, h, i, src = V + "connect_block_reward", "BlockIndex::block_height($1)", "BlockIndex::block_id($1)", "TransactionSource::Chain(BlockIndex::block_id($1))"
    verify = f"TransactionVerifier::verify_inputs($0, $2, TransactionSourceForConnect::for_chain($1), $4, {h})"
    spend = f"UtxosCache::connect_block_transactable(_, $2, T::into({i}), {h})"
    keep = f"UtxosBlockUndoCache::add_reward_undo(_, {src}, {spend}.Ok.0.Some.0)"
    cons = "SignedBlockHeader::consensus_data(BlockIndex::block_header($1))"
    total = f"Amount::add(ChainConfig::block_subsidy_at_height($0.chain_config, {h}), $3.0)"
    pos = f"reward_distribution::distribute_pos_reward(PoSAccountingDeltaAdapter::operations(_, {src}), {i}, PoSData::stake_pool_id({cons}.PoS.0), {total}.Some.0, __)"
    undo = f"AccountingBlockUndoCache::add_reward_undo(_, {src}, BlockRewardUndo::new({pos}.Ok.0))"
    ways = []
    has, sp = "BlockRewardTransactable::inputs($2) is %s", f"UtxosCache::connect_block_transactable($0.utxo_cache, $2, T::into({i}), {h}).Ok.0 is %s"
    for a in ("Some", "None"):
        for b in ("Some", "None"):
            for k in ("None", "PoW", "PoS"):
                ways.append((f"{has % a} & {sp % b} & {cons} is {k}", ([verify] if a == "Some" else []) + [spend] + ([keep] if b == "Some" else []) + ([pos, undo] if k == "PoS" else []), "Ok(())"))
    steps(c, "connect_block_reward", fid, STEP, ways, [f"{cons} is PoS & {total} is None"], stop=STOP)


def spent(c):
    """a spent pool decommissions it; other outputs have no accounting effect"""
    fid, u = V + "spend_input_from_utxo", "UtxosCache::utxo($0.utxo_cache, $2)"
    fid = c.resolve(fid)
    ps = c.paths(fid, stop=STOP)
    got = [e for p in ps for e in p.events if re.search(r"::utxo$", e.name)]
    u = show(got[0].res) if got else "?"
    c.ob("spent#utxo", got and [show(a) for a in got[0].args] == ["$0.utxo_cache", "$2"], "the spent output must be looked up", c.loc(fid), u)
    out = f"Utxo::output({u}.Ok.0.Some.0)"
    ways = []
    for v, f in (("CreateStakePool", 0), ("ProduceBlockFromStake", 1)):
        w = f"PoSAccountingOperationImpl::decommission_pool(PoSAccountingDeltaAdapter::operations(_, $1), {out}.{v}.{f})"
        ways.append((f"{out} is {v}", [w], f"Ok(Some({w}.Ok.0))"))
    for v in NOTHING:
        if v not in ("CreateStakePool", "ProduceBlockFromStake"):
            ways.append((f"{out} is {v}", [], "Ok(None)"))
    steps(c, "spent", fid, W, ways, [f"{u}.Ok.0 is None"], stop=STOP)


PARTS = [pos, tokens, orders, transaction, reward, spent]
