"""A block or header is accepted only after every check of it, each against this chain's parameters; what was found invalid stays so."""
from ..rule import *
CRATES = ["chainstate"]
R = "chainstate::detail::chainstateref::ChainstateRef::<'a, S, V>::"
H = "SignedBlockHeader::"
CFG = "$0.chain_config"


def header(c):
    known = "ChainstateRef::skip_check_block_because_block_exists_and_is_checked($0, WithId::id(WithId::new($1))).Ok.0"
    gate(c, "header", R + "check_block_header", need=["ChainstateRef::check_block_header_impl($0, __)"], skip=[known], result="_")
    f, p = R + "check_block_header_impl", "ChainstateRef::check_block_parent($0, $1)"
    when = f"BlockTimestamp::as_duration_since_epoch({H}timestamp($1))"
    late = f"lt(Duration::add(Time::as_duration_since_epoch(ChainstateRef::current_time($0)), ChainConfig::max_future_block_time_offset({CFG}, BlockHeight::next_height(GenBlockIndex::block_height({p}.Ok.0)))), {when})"
    early = f"lt({H}timestamp($1).timestamp, median_time::calculate_median_time_past($0, {H}prev_block_id($1)).timestamp)"
    gate(c, "header checks", f, need=[p, "ChainstateRef::check_header_size($0, $1)", "ChainstateRef::enforce_checkpoints($0, $1)", "ChainstateRef::check_block_height_vs_max_reorg_depth($0, $1)",
                                     f"validator::validate_consensus({CFG}, $1, $0, __)"],
         when=["!" + early, "!" + late], refuse=[early, late], panics=r"^expect 'should not fail'")
    # stake is judged in the state after the parent block, which need not be the tip
    for q in c.paths(f, stop=CLOSED):
        if q.kind == "ret" and q.var and success(q):
            e = evs(q, r"::validate_consensus$")
            pos = holds(q, f"{H}consensus_data($1) is PoS")
            re_ = "in_memory_reorg::reorganize_in_memory($0, BlockHeader::prev_block_id(SignedBlockHeader::header($1)))"
            t = [show(a) for a in e[0].args] if e else []
            good = len(t) == 6 and (match(f"EpochDataCache::from_data($0.db_tx, {re_}.Ok.0.1)", t[3]) and match(f"UtxosCache::from_data(_, TransactionVerifierDelta::consume({re_}.Ok.0.0).0).Ok.0", t[4])
                                    and match(f"PoSAccountingDelta::from_data(_, TransactionVerifierDelta::consume({re_}.Ok.0.0).1)", t[5]) if pos else
                                    "from_data" not in " ".join(t[3:]))
            c.ob("state", good, "stake must be judged in the state after the parent block", c.loc(f), " ; ".join(t)[:600])


def parent(c):
    i = f"ChainstateRef::get_gen_block_index($0, {H}prev_block_id($1))"
    ok_ = f"BlockStatus::is_ok(GenBlockIndex::status({i}.Ok.0.Some.0))"
    gate(c, "parent", R + "check_block_parent", need=[i], when=[ok_], refuse=[f"{i}.Ok.0 is None", "!" + ok_], result=f"Ok({i}.Ok.0.Some.0)")


def known(c):
    i = "ChainstateRef::get_block_index($0, $1)"
    st = f"BlockIndex::status({i}.Ok.0.Some.0)"
    below = f"lt(BlockStatus::last_valid_stage({st}), BlockValidationStage::CheckBlockOk)"
    key, f = "known", R + "skip_check_block_because_block_exists_and_is_checked"
    c.table(key, c.paths(f, stop=CLOSED), [
        (f"{i} is Err", "Err(_)"), (f"{i} is Ok & {i}.Ok.0 is None", "Ok(false)"), (f"{i} is Ok & {i}.Ok.0 is Some & !BlockStatus::is_ok({st})", "Err(_)"),
        (f"{i} is Ok & {i}.Ok.0 is Some & BlockStatus::is_ok({st}) & {below}", "Ok(false)"), (f"{i} is Ok & {i}.Ok.0 is Some & BlockStatus::is_ok({st}) & !{below}", "Ok(true)")])


def sizes(c):
    big = f"lt(ChainConfig::max_block_header_size({CFG}), {H}header_size($1))"
    gate(c, "header size", R + "check_header_size", when=["!" + big], refuse=[big])
    over = [f"lt(ChainConfig::{lim}({CFG}), BlockSize::{part}(Block::block_size($1)))" for lim, part in (
        ("max_block_header_size", "size_from_header"), ("max_block_size_from_std_scripts", "size_from_txs"), ("max_block_size_from_smart_contracts", "size_from_smart_contracts"))]
    gate(c, "block size", R + "check_block_size", when=["!" + x for x in over], refuse=over)


def checkpoints(c):
    given, height = "T::into(SignedBlockHeader::get_id($1))", "BlockHeight::next_height(GenBlockIndex::block_height(ChainstateRef::get_previous_block_index($0, $1).Ok.0))"
    allow = "ChainstateConfig::checkpoints_mismatch_allowed($0.chainstate_config)"
    gate(c, "checkpoint", R + "enforce_checkpoint_impl", when=[], refuse=[f"!eq($2, $3) & !{allow}"])
    for p in c.paths(R + "enforce_checkpoint_impl", stop=CLOSED):
        if p.kind == "ret" and success(p):
            c.ob("checkpoint", holds(p, "eq($2, $3)") or holds(p, allow), "another block than that of the checkpoint passes only if mismatches are allowed", c.loc(R + "enforce_checkpoint_impl"), repr(p)[:300])
    at = f"Checkpoints::checkpoint_at_height(ChainConfig::height_checkpoints({CFG}), $2)"
    f = R + "enforce_exact_checkpoint_assuming_height"
    gate(c, "at checkpoint", f, need=[f"ChainstateRef::enforce_checkpoint_impl($0, $2, {at}.Some.0, {given})"], skip=[f"{at} is None"], result="Ok(true)")
    for p in c.paths(f, stop=CLOSED):
        if p.kind == "ret" and holds(p, f"{at} is None"):
            c.ob("at checkpoint", sret(p) == "Ok(false)", "no checkpoint at this height", c.loc(f), repr(p)[:300])
    exact = f"ChainstateRef::enforce_exact_checkpoint_assuming_height($0, $1, {height})"
    below = f"Checkpoints::parent_checkpoint_to_height(ChainConfig::height_checkpoints({CFG}), {height})"
    anc = f"ChainstateRef::get_ancestor($0, ChainstateRef::get_previous_block_index($0, $1).Ok.0, {below}.0)"
    gate(c, "checkpoints", R + "enforce_checkpoints", need=[exact, f"ChainstateRef::enforce_checkpoint_impl($0, {below}.0, {below}.1, GenBlockIndex::block_id({anc}.Ok.0))"], skip=[exact + ".Ok.0"])


def depth(c):
    low = "lt(GenBlockIndex::block_height(ChainstateRef::last_common_ancestor_in_main_chain($0, ChainstateRef::get_previous_block_index($0, $1).Ok.0).Ok.0).0, ChainstateRef::get_min_height_with_allowed_reorg($0).Ok.0.0)"
    gate(c, "depth", R + "check_block_height_vs_max_reorg_depth", when=["!" + low], refuse=[low])


def block(c):
    known = "ChainstateRef::skip_check_block_because_block_exists_and_is_checked($0, WithId::id(WithId::as_sub_obj($1))).Ok.0"
    proxy, idx = "BlockBody::merkle_tree_proxy(Block::body($1)).Ok.0", "ChainstateRef::get_gen_block_index($0, Block::prev_block_id($1))"
    m, w = f"H256::eq(Block::merkle_root($1), WrappedMerkleTree::root(BlockBodyMerkleProxy::merkle_tree({proxy})))", f"H256::eq(Block::witness_merkle_root($1), WrappedMerkleTree::root(BlockBodyMerkleProxy::witness_merkle_tree({proxy})))"
    gate(c, "block", R + "check_block", need=["ChainstateRef::check_block_header_impl($0, WithId::as_sub_obj($1))", "ChainstateRef::check_block_size($0, $1)", "ChainstateRef::check_block_reward_maturity_settings($0, $1)",
                                              f"ChainstateRef::check_transactions($0, $1, BlockHeight::next_height(GenBlockIndex::block_height({idx}.Ok.0.Some.0)))"],
         when=[m, w], refuse=["!" + m, "!" + w, f"{idx}.Ok.0 is None"], skip=[known])


def transactions(c):
    T_, f = "elem(Block::transactions($1))", R + "check_transactions"
    gate(c, "transactions", f, need=["ChainstateRef::check_duplicate_inputs($0, $1)"], exhausted=["iter(Block::transactions($1))"])
    backs = [p for p in c.paths(f, stop=CLOSED) if p.kind == "back"]
    for p in backs:
        c.ob("transactions#each", any(match(f"check_transaction::check_transaction({CFG}, $2, {T_})", show(e.res)) and p.var.get(e.res) == "Ok" for e in p.events), "each transaction must be checked for this height", c.loc(f), repr(p)[:400])
    c.count("transactions looked at", len(backs), 1)


def duplicates(c):
    """every input that can occur once only is looked for among those before it, and kept"""
    f, i = R + "check_duplicate_inputs", "elem(SignedTransaction::inputs(elem(Block::transactions($1))))"
    gate(c, "duplicates", f, exhausted=["iter(Block::transactions($1))"], refuse=["mapget(_, " + i + ") is Some"])
    seen = set()
    for p in c.paths(f, stop=CLOSED):
        k = next((v for t, v in p.var.items() if show(t) == i), None)
        if k is None or p.kind == "ret":
            if p.kind == "ret" and k == "OrderAccountCommand":
                c.ob("duplicates#fill", not holds(p, f"{i}.OrderAccountCommand.0 is FillOrder"), "orders may be filled repeatedly", c.loc(f), repr(p)[:300])
            continue
        kk = next((v for t, v in p.var.items() if show(t) == i + ".OrderAccountCommand.0"), k)
        seen.add(kk)
        if kk != "FillOrder":
            fresh = any(t.tag == "mapget" and show(t.args[1]) == i and v == "None" for t, v in p.var.items())
            kept = any("ins" in show(x)[:3] or i in show(x) for x in (p.next or {}).values())
            nested = any(show(x) == f"iter(SignedTransaction::inputs(elem(Block::transactions($1))))" for x in p.phi.values())
            sets = [t.args[0] for t, v in p.var.items() if t.tag == "mapget" and show(t.args[1]) == i and v == "None"]
            c.ob("duplicates#kept", not nested or all(show(p.phi.get(x, x)).startswith("phi<") for x in sets), "what occurred in earlier transactions of the block is remembered", c.loc(f), str([(show(a), show(b)) for a, b in p.phi.items()])[:500])
            c.ob("duplicates#each", fresh and kept, "an input that can occur once must be new, and is remembered", c.loc(f), repr(p)[:400] + str({k: show(v)[:200] for k, v in (p.next or {}).items()}))
    c.ob("duplicates#kinds", seen >= {"Utxo", "Account", "AccountCommand", "ConcludeOrder", "FreezeOrder", "FillOrder"}, "every kind of input can pass", c.loc(f), str(seen))


def reward(c):
    """a staked block's reward goes back to staking; any other is locked for at least the distance of its kind"""
    f, cd, o = R + "check_block_reward_maturity_settings", "Block::consensus_data($1)", "elem(BlockReward::outputs(Block::block_reward($1)))"
    dist = {"PoW": f"PoWChainConfig::reward_maturity_distance(ChainConfig::get_proof_of_work_config({CFG}))", "None": f"ChainConfig::empty_consensus_reward_maturity_block_count({CFG})"}
    over, seen, loc = "iter(Block::block_reward", {}, c.loc(f)
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
    for p in c.paths(f, stop=CLOSED):
        c.ob("reward#lost", not dropped(p) and p.kind != "panic", "no outcome may be lost", loc, repr(p)[:300])
        kind = {plain(show(t)): v for t, v in p.var.items()}
        if o not in kind:
            c.ob("reward#all", p.kind == "ret" and success(p) and any(x[0] == "exh" for x in p.facts), "passes when all outputs of the reward were looked at", loc, repr(p)[:300])
            continue
        k, lock = (kind.get(cd), kind[o]), [e for e in p.events if match(f"timelock_check::check_output_maturity_setting({o}.LockThenTransfer.2, {dist.get(kind.get(cd), '!')}, __)", plain(show(e.res)))]
        okd = p.kind == "back" or success(p)
        if k[1] == "LockThenTransfer" and k[0] in dist:
            c.ob("reward#lock", len(lock) == 1 and okd == (p.var.get(lock[0].res) == "Ok"), "the lock must be as long as the rewards of this kind take to mature", loc, repr(p)[:400])
        else:
            c.ob("reward#kind", okd == (k == ("PoS", "ProduceBlockFromStake")), "what a reward can be", loc, repr(p)[:400])
        if okd:
            seen[k] = 1
    c.ob("reward#passes", set(seen) == {("PoS", "ProduceBlockFromStake"), ("PoW", "LockThenTransfer"), ("None", "LockThenTransfer")}, "what must pass", loc, str(seen))


PARTS = [header, parent, known, sizes, checkpoints, depth, block, reward, transactions, duplicates]
