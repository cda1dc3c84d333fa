"""A block's proof is right for its place: the kind of proof is the one the network requires at that height, the target is the one the chain's history dictates, and the work, or the stake, meets that target."""
from ..rule import *
CRATES = ["consensus", "chainstate-types"]
kw = dict(stop=CLOSED)
MUST = r"^expect|^unwrap|assert|^panicking|^overflow|^div0|^rem0"

plainly = lambda p: re.sub(r"(?<=[)\]])@\d+", "", sret(p))


def kind(c):
    """the proof is of the kind required at the block's height, which is one above its parent's"""
    i = "BlockIndexHandle::get_gen_block_index($2, SignedBlockHeader::prev_block_id($1))"
    st = f"consensus_upgrade::consensus_status(ChainConfig::consensus_upgrades($0), BlockHeight::next_height(GenBlockIndex::block_height({i}.Ok.0.Some.0)))"
    v = "consensus::validator::validate_"
    c.table("kind", c.paths(v + "consensus", **kw), [
        (f"{i} is Err", "Err(_)"), (f"{i} is Ok & {i}.Ok.0 is None", "Err(_)"),
        (f"{i} is Ok & {i}.Ok.0 is Some & {st} is PoW", f"validator::validate_pow_consensus($0, SignedBlockHeader::header($1), {st}.PoW.0, $2)"),
        (f"{i} is Ok & {i}.Ok.0 is Some & {st} is IgnoreConsensus", "validator::validate_ignore_consensus(SignedBlockHeader::header($1))"),
        (f"{i} is Ok & {i}.Ok.0 is Some & {st} is PoS", f"validator::validate_pos_consensus($0, {st}.PoS.0, $2, $3, $4, $5, $1)")])
    d = "BlockHeader::consensus_data($0)"
    c.table("no proof", c.paths(v + "ignore_consensus", **kw), [(f"{d} is None", "Ok(())"), (f"{d} is PoW", "Err(_)"), (f"{d} is PoS", "Err(_)")])
    d = "BlockHeader::consensus_data($1)"
    q = f"work::check_pow_consensus($0, $1, {d}.PoW.0, $2, $3)"
    c.table("work wanted", c.paths(v + "pow_consensus", **kw), [(f"{d} is None", "Err(_)"), (f"{d} is PoS", "Err(_)"), (f"{d} is PoW & {q} is Ok", f"Ok({q}.Ok.0) || Ok(())"), (f"{d} is PoW & {q} is Err", "Err(_)")])
    d = "SignedBlockHeader::consensus_data($6)"
    q = f"pos::check_proof_of_stake($0, $1, $6, {d}.PoS.0, $2, $3, $4, $5)"
    c.table("stake wanted", c.paths(v + "pos_consensus", **kw), [(f"{d} is None", "Err(_)"), (f"{d} is PoW", "Err(_)"), (f"{d} is PoS & {q} is Ok", f"Ok({q}.Ok.0) || Ok(())"), (f"{d} is PoS & {q} is Err", "Err(_)")])


def work(c):
    """the hash of the header is at most the target, and the target is the one required"""
    W, I = "consensus::pow::work::", "consensus::pow::work::<impl consensus::pow::PoW>::"
    for t in ("T::try_into($1)", "compact::try_from($1)"):
        if any(show(x) == t for p in c.paths(W + "check_proof_of_work", **kw) for x in p.var):
            break
    ways = []
    for a, b, no in (("T::into($0)", f"{t}.Ok.0", "Greater"), (f"{t}.Ok.0", "T::into($0)", "Less")):
        q = f"Uint256::partial_cmp({a}, {b})"
        ways += [(f"{t} is Ok & {q} is Some & {q}.Some.0 is {x}", "Ok(false)" if x == no else "Ok(true)") for x in ("Less", "Equal", "Greater")] + [(f"{t} is Ok & {q} is None", "Ok(false)")]
    ps = c.paths(W + "check_proof_of_work", **kw)
    used = [w for w in ways if any(w[0].split(" & ")[1].split(" is ")[0] in {show(x) for x in p.var} for p in ps)]
    c.table("enough", ps, used + [(f"{t} is Err", "Err(_)")])
    # what is required
    lim = "Compact::from(PoW::difficulty_limit(PoW::new($0))) || T::into(PoW::difficulty_limit(PoW::new($0)))"
    par = "gen_block::classify(BlockHeader::prev_block_id($1), $0)"
    idx = f"BlockIndexHandle::get_block_index($4, {par}.Block.0)"
    loc = c.loc(W + "check_pow_consensus")
    n = set()
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
    anc = None
    for p in c.paths(W + "check_pow_consensus", **kw):
        c.ob("work#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        if p.kind != "ret":
            c.ob("work#panic", False, "must not panic", loc, repr(p)[:300])
            continue
        ok = sret(p) == "Ok(())"
        want, which = None, None
        for e in p.events:
            if e.name.endswith("::get_work_required"):
                want, which = f"{show(e.res)}.Ok.0", "work"
                c.ob("work#history", match(f"work::get_work_required(PoW::new($0), {idx}.Ok.0.Some.0, BlockHeader::timestamp($1), _)", plain(show(e.res))), "the work required follows from the parent and the block's own time", loc, show(e.res)[:300])
                c.ob("work#ongoing", under(p, "$3 is Ongoing") and under(p, f"{par} is Block"), "history counts unless the network has just changed or there is none", loc, repr(p)[:300])
                anc = e.args[3]
        if want is None and under(p, "$3 is Threshold"):
            want, which = "$3.Threshold.initial_difficulty", "first"
        elif want is None and under(p, f"{par} is Genesis"):
            want, which = lim, "genesis"
        if ok:
            c.ob("work#known", want, "the work required must be known", loc, repr(p)[:400])
            truths = {plain(show(t)): v for t, v in p.truth.items()}
            right = False
            for r in (want or "").split(" || "):
                good = any(v and (match(f"Compact::eq({plain(r)}, PoWData::bits($2))", s) or match(f"Compact::eq(PoWData::bits($2), {plain(r)})", s)) for s, v in truths.items())
                hash_ = any(v and any(match(f"work::check_proof_of_work(Id::to_hash(BlockHeader::{x}($1)), {y}).Ok.0", s) for x in ("block_id", "get_id") for y in (plain(r), "PoWData::bits($2)")) for s, v in truths.items())
                if good and hash_:
                    right = True
                    n.add(which)
            c.ob("work#right " + str(which), right, "passes only if the target is the one required, and the hash meets it", loc, repr(p)[:600])
        else:
            failed = any(p.var.get(e.res) == "Err" for e in p.events)
            none = any(v == "None" and match(f"{idx}.Ok.0", plain(show(t))) for t, v in p.var.items())
            no = any(not v for t, v in p.truth.items() if re.match(r"Compact::eq|work::check_proof_of_work", show(t)))
            c.ob("work#refused", failed or none or no, "refused only for the wrong target, or too little work", loc, repr(p)[:500])
    c.ob("work#ways", n == {"work", "first", "genesis"}, "each kind of block can pass", loc, str(n))
    if anc is not None:
        for key, x in (("check", anc),):
            rs = Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(x, [mk("arg", "?0"), mk("arg", "?1")])
            c.ob("work#ancestor", rs and all(p.kind == "ret" and match("consensus::get_ancestor_from_block_index_handle($4, $?0, $?1)", show(p.ret)) for p in rs), "ancestors are those of the parent", loc, str([show(p.ret) for p in rs])[:300])
    c.table("template", c.paths(W + "calculate_work_required", **kw), [
        ("$3 is Threshold", "Ok($3.Threshold.initial_difficulty)"), ("$3 is Ongoing & $1 is Genesis", "Ok(T::into(PoW::difficulty_limit(PoW::new($0)))) || Ok(Compact::from(PoW::difficulty_limit(PoW::new($0))))"),
        ("$3 is Ongoing & $1 is Block", "work::get_work_required(PoW::new($0), $1.Block.0, $2, $4)")])


def retarget(c):
    """the required work changes only at the end of an interval, by the time the interval took, within the factor the network allows"""
    W, I, H = "consensus::pow::work::", "consensus::pow::work::<impl consensus::pow::PoW>::", "consensus::pow::helpers::"
    d = "SignedBlockHeader::consensus_data(BlockIndex::block_header($1))"
    bits = f"PoWData::bits({d}.PoW.0)"
    nh = "BlockHeight::checked_add(BlockIndex::block_height($1), 1)"
    nhs = nh + ".Some.0"
    iv = "PoW::difficulty_adjustment_interval($0)"
    due = f"helpers::due_for_retarget({iv}, {nhs})"
    s0 = f"helpers::get_starting_block_time({iv}, $1, $3)"
    no, mn = "PoW::no_retargeting($0)", "PoW::allow_min_difficulty_blocks($0)"
    on = f"{d} is PoW & !{no} & {nh} is Some"
    c.table("required", c.paths(I + "get_work_required", **kw), [
        (f"{d} is None", "Err(_)"), (f"{d} is PoS", "Err(_)"), (f"{d} is PoW & {no}", f"Ok({bits})"),
        (f"{on} & !{due} & {mn}", f"Ok(work::next_work_required_for_min_difficulty($0, BlockTimestamp::as_int_seconds($2), $1, {bits}))"), (f"{on} & !{due} & !{mn}", f"Ok({bits})"),
        (f"{on} & {due} & {s0} is Err", "Err(_)"), (f"{on} & {due} & {s0} is Ok", f"work::next_work_required($0, {s0}.Ok.0, $1, {bits})")], kinds=("ret",))
    c.table("stalled", c.paths(I + "next_work_required_for_min_difficulty", **kw), [
        ("special_rules::block_production_stalled(Duration::as_secs(PoW::target_spacing($0)), $1, BlockTimestamp::as_int_seconds(BlockIndex::block_timestamp($2)))", "Compact::from(PoW::difficulty_limit($0)) || T::into(PoW::difficulty_limit($0))"),
        ("!special_rules::block_production_stalled(Duration::as_secs(PoW::target_spacing($0)), $1, BlockTimestamp::as_int_seconds(BlockIndex::block_timestamp($2)))", "$3")])
    c.table("when stalled", c.paths(H + "special_rules::block_production_stalled", **kw), [("", "gt($1, add($2, mul(2, $0))) || lt(add($2, mul(2, $0)), $1)")], kinds=("ret",))
    c.table("due", c.paths(H + "due_for_retarget", **kw), [("", "eq(rem(T::into($1), $0), 0)")], kinds=("ret",))
    hb = "BlockHeight::new(sub(T::into(BlockIndex::block_height($1)), sub($0, 1)))"
    c.table("start", c.paths(H + "get_starting_block_time", **kw), [(f"apply($2, $1, {hb}) is Ok", f"Ok(GenBlockIndex::block_timestamp(apply($2, $1, {hb}).Ok.0))"), (f"apply($2, $1, {hb}) is Err", "Err(_)")], kinds=("ret",))
    c.table("next", c.paths(I + "next_work_required", **kw), [
        ("", "helpers::calculate_new_target(work::actual_timespan($0, BlockTimestamp::as_int_seconds(BlockIndex::block_timestamp($2)), BlockTimestamp::as_int_seconds($1)), PoW::target_timespan_in_secs($0), $3, PoW::difficulty_limit($0))")])
    c.table("timespan", c.paths(I + "actual_timespan", **kw), [("", "num_traits::clamp(sub($1, $2), PoW::min_target_timespan_in_secs($0), PoW::max_target_timespan_in_secs($0)) || _::clamp(sub($1, $2), PoW::min_target_timespan_in_secs($0), PoW::max_target_timespan_in_secs($0))")], kinds=("ret",))
    P = "consensus::pow::PoW::"
    ts = "NonZero::get(PoW::target_timespan_in_secs($0))"
    for f, want in (("min_target_timespan_in_secs", f"div({ts}, PoW::max_retarget_factor($0))"), ("max_target_timespan_in_secs", f"mul(PoW::max_retarget_factor($0), {ts})"), ("difficulty_adjustment_interval", f"div({ts}, Duration::as_secs(PoW::target_spacing($0)))"),
                    ("no_retargeting", "PoWChainConfig::no_retargeting($0.0)"), ("allow_min_difficulty_blocks", "PoWChainConfig::allow_min_difficulty_blocks($0.0)"), ("difficulty_limit", "PoWChainConfig::limit($0.0)"),
                    ("max_retarget_factor", "PoWChainConfig::max_retarget_factor($0.0)"), ("target_spacing", "PoWChainConfig::target_spacing($0.0)"), ("new", "PoW(ChainConfig::get_proof_of_work_config($0))"),
                    ("target_timespan_in_secs", "NonZero::new(Duration::as_secs(PoWChainConfig::target_timespan($0.0))).Some.0")):
        c.table(f, c.paths(P + f, **kw), [("", want)], kinds=("ret",))
    # old target * time taken / time wanted, at most the limit
    t = next((x for x in ("compact::try_from($2)", "T::try_into($2)") if any(show(v) == x for p in c.paths(H + "calculate_new_target", **kw) for v in p.var)), "compact::try_from($2)")
    m = f"Uint256::mul({t}.Ok.0, Uint256::from_u64($0))"
    rows = [(f"{t} is Err", "Err(_)")]
    for cond, num in ((f"{m} is Some", m + ".Some.0"), (f"{m} is None", "Uint256([18446744073709551615, 18446744073709551615, 18446744073709551615, 18446744073709551615])")):
        q = f"Uint256::div({num}, Uint256::from_u64(NonZero::get($1)))"
        for a, b, x in ((q + ".Some.0", "$3", "Greater"), ("$3", q + ".Some.0", "Less")):
            k = f"Uint256::partial_cmp({a}, {b})"
            rows += [(f"{t} is Ok & {cond} & {q} is Some & {k} is Some & {k}.Some.0 is {y}", "Ok(Compact::from($3))" if y == x else f"Ok(Compact::from({q}.Some.0))") for y in ("Less", "Equal", "Greater")]
            rows.append((f"{t} is Ok & {cond} & {q} is Some & {k} is None", f"Ok(Compact::from({q}.Some.0))"))
    ps = c.paths(H + "calculate_new_target", **kw)
    seen = {show(x) for p in ps for x in p.var}
    rows = [r for r in rows if "partial_cmp" not in r[0] or any(s.startswith("Uint256::partial_cmp") and s + " is " in r[0] + " is " or s + ".Some.0 is" in r[0] for s in seen if s.startswith("Uint256::partial_cmp("))]
    c.table("new target", ps, rows, kinds=("ret",))


def stake(c):
    """a staked block: its target, its time, its kernel, its signature and its hash"""
    P = "consensus::pos::"
    tg = "target::calculate_target_required($0, $1, SignedBlockHeader::prev_block_id($2), $4)"
    i = "BlockIndexHandle::get_gen_block_index($4, SignedBlockHeader::prev_block_id($2))"
    h = f"BlockHeight::next_height(GenBlockIndex::block_height({i}.Ok.0.Some.0))"
    seed = f"pos::randomness_of_sealed_epoch($0, {h}, $5)"
    pool = "PoSAccountingView::get_pool_data($7, PoSData::stake_pool_id($3))"
    bal = "PoSAccountingView::get_pool_balance($7, PoSData::stake_pool_id($3))"
    k = "kernel::get_kernel_output(PoSData::kernel_inputs($3), $6)"
    up = f"ChainstateUpgrade::pool_id_mismatch_in_kernel_input_utxo_and_pos_data_forbidden(NetUpgrades::version_at_height(ChainConfig::chainstate_upgrades($0), {h}).1)"
    own = f"PoolData::staker_balance({pool}.Ok.0.Some.0)"
    tgt = "pos::compact_target_to_target(PoSData::compact_target($3))"
    sup = "ChainConfig::final_supply($0)"
    hash_ = (f"hash_check::calc_and_check_pos_hash(PoSChainConfig::consensus_version(PoSStatus::get_chain_config($1)), ChainConfig::epoch_index_from_height($0, {h}), {seed}.Ok.0, {tgt}.Ok.0, PoSData::vrf_data($3), "
             f"PoolData::vrf_public_key({pool}.Ok.0.Some.0), SignedBlockHeader::timestamp($2), {own}.Ok.0, {bal}.Ok.0, CoinUnit::to_amount_atoms({sup}.Some.0))")
    f = P + "check_proof_of_stake"
    wrong = ("Transfer", "LockThenTransfer", "Burn", "CreateDelegationId", "DelegateStaking", "IssueFungibleToken", "IssueNft", "DataDeposit", "Htlc", "CreateOrder")
    ids = {"CreateStakePool": k + ".Ok.0.CreateStakePool.0", "ProduceBlockFromStake": k + ".Ok.0.ProduceBlockFromStake.1"}
    dest = {"CreateStakePool": f"StakePoolData::staker({k}.Ok.0.CreateStakePool.1)", "ProduceBlockFromStake": k + ".Ok.0.ProduceBlockFromStake.0"}
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
    target_ok = lambda p, v: any(x is v and (match(f"Compact::eq({tg}.Ok.0, PoSData::compact_target($3))", plain(show(t))) or match(f"Compact::eq(PoSData::compact_target($3), {tg}.Ok.0)", plain(show(t)))) for t, x in p.truth.items())
    loc, seen, refused = c.loc(c.resolve(f)), set(), set()
    for p in c.paths(f, **kw):
        c.ob("stake#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        c.ob("stake#panic", p.kind == "ret", "must not panic", loc, repr(p)[:200])
        if p.kind != "ret":
            continue
        es = [(plain(show(bare(e.res))), e) for e in p.events]
        fact = {plain(show(bare(t))): v for t, v in p.var.items()}
        kd = fact.get(k + ".Ok.0")
        mismatch = lambda v: any(x is v and ids.get(kd, "?") in plain(show(t)) and "PoSData::stake_pool_id($3)" in plain(show(t)) and re.match(r"(Id::)?eq\(", show(t)) for t, x in p.truth.items())
        if sret(p) == "Ok(())":
            c.ob("stake#kernel", kd in ids, "only a stake may produce a block", loc, str(kd))
            yes = fact.get(up)
            seen.add((kd, yes))
            c.ob("stake#target", target_ok(p, True), "the target is the one required", loc, repr(p)[:300])
            for n in (tg, i, f"pos::enforce_timestamp_ordering({i}.Ok.0.Some.0, $2)", seed, pool, bal, k, f"block_sig::check_block_signature($2, {dest.get(kd)})", own, tgt, hash_):
                c.ob("stake#need " + n[:50], any(match(n, s) and p.var.get(e.res) != "Err" for s, e in es), "passes only after " + n[:300], loc, str([s for s, e in es])[:1500])
            for n in (i + ".Ok.0", pool + ".Ok.0", sup):
                c.ob("stake#known " + n[:50], fact.get(n) == "Some", "must be known: " + n[:200], loc, repr(p)[:300])
            c.ob("stake#pool", yes == "No" or (yes == "Yes" and mismatch(True)), "the kernel is of the pool named, once that is enforced", loc, repr(p)[:500])
        else:
            why = None
            if any(p.var.get(e.res) == "Err" for e in p.events):
                why = "failed"
            elif target_ok(p, False):
                why = "target"
            elif kd in wrong:
                why = kd
            elif fact.get(up) == "Yes" and mismatch(False):
                why = "pool " + kd
            else:
                why = next((n for n in (i + ".Ok.0", pool + ".Ok.0", sup) if fact.get(n) == "None"), None)
            refused.add(why)
            c.ob("stake#refused", why, "refused only for these reasons", loc, repr(p)[:500])
    c.ob("stake#ways", len(seen) == 4, "both kinds of stake, both before and after the pool must match", loc, str(seen))
    for w in ("failed", "target", "pool CreateStakePool", "pool ProduceBlockFromStake", i + ".Ok.0", pool + ".Ok.0", sup) + wrong:
        c.ob("stake#refuses " + w[:40], w in refused, "must be refused", loc, w[:200])


def parts_of_stake(c):
    P = "consensus::pos::"
    lt = "lt(GenBlockIndex::block_timestamp($0).timestamp, SignedBlockHeader::timestamp($1).timestamp)"
    c.table("later", c.paths(P + "enforce_timestamp_ordering", **kw), [(lt, "Ok(())"), ("!" + lt, "Err(_)")])
    s = "ChainConfig::sealed_epoch_index($0, $1)"
    d = f"EpochStorageRead::get_epoch_data($2, {s}.Some.0)"
    c.table("seed", c.paths(P + "randomness_of_sealed_epoch", **kw), [
        (f"{s} is None", "Ok(PoSRandomness::at_genesis($0))"), (f"{s} is Some & {d} is Err", "Err(_)"), (f"{s} is Some & {d} is Ok & {d}.Ok.0 is Some", f"Ok(EpochData::randomness({d}.Ok.0.Some.0))"),
        (f"{s} is Some & {d} is Ok & {d}.Ok.0 is None", "Ok(PoSRandomness::at_genesis($0))")], out=plainly)
    c.table("target of", c.paths(P + "compact_target_to_target", **kw), [("T::try_into($0) is Ok", "Ok(T::try_into($0).Ok.0)"), ("T::try_into($0) is Err", "Err(_)")] if any(show(t) == "T::try_into($0)" for p in c.paths(P + "compact_target_to_target", **kw) for t in p.var)
            else [("compact::try_from($0) is Ok", "Ok(compact::try_from($0).Ok.0)"), ("compact::try_from($0) is Err", "Err(_)")])
    o = "TxInput::utxo_outpoint($0[0])"
    u = f"UtxosView::utxo($1, {o}.Some.0)"
    c.table("kernel", c.paths(P + "kernel::get_kernel_output", **kw), [
        ("eq(0, len($0))", "Err(_)"), ("!eq(0, len($0)) & !eq(1, len($0))", "Err(_)"), (f"eq(1, len($0)) & {o} is None", "Err(_)"), (f"eq(1, len($0)) & {o} is Some & {u} is Err", "Err(_)"),
        (f"eq(1, len($0)) & {o} is Some & {u} is Ok & {u}.Ok.0 is None", "Err(_)"), (f"eq(1, len($0)) & {o} is Some & {u} is Ok & {u}.Ok.0 is Some", f"Ok(Utxo::take_output({u}.Ok.0.Some.0))")])
    sg = "SignedBlockHeader::signature_data($0)"
    v = f"PublicKey::verify_message($1.PublicKey.0, BlockHeaderSignatureData::signature({sg}.HeaderSignature.0), Encode::encode(SignedBlockHeader::header($0)))"
    c.table("signed", c.paths(P + "block_sig::check_block_signature", **kw), [(f"$1 is {x}", "Err(_)") for x in ("AnyoneCanSpend", "PublicKeyHash", "ScriptHash", "ClassicMultisig")] + [
        (f"$1 is PublicKey & {sg} is None", "Err(_)"), (f"$1 is PublicKey & {sg} is HeaderSignature & !{v}", "Err(_)"), (f"$1 is PublicKey & {sg} is HeaderSignature & {v}", "Ok(())")])
    # the hash
    r = "PoSRandomness::from_block($1, $6, $2, $4, $5)"
    gate(c, "hash", P + "hash_check::calc_and_check_pos_hash", need=[r], result=f"hash_check::check_pos_hash($0, T::into(PoSRandomness::value({r}.Ok.0)), $3, $7, $8, $9)")
    c.table("version", c.paths(P + "hash_check::check_pos_hash", **kw), [("eq(0, $0.0)", "hash_check::check_pos_hash_v0($1, $2, $4)"), ("eq(1, $0.0)", "hash_check::check_pos_hash_v1($1, $2, $3, $4, $5)"), ("!eq(0, $0.0) & !eq(1, $0.0)", "Err(_)")])
    eff = "effective_pool_balance::effective_pool_balance($2, $3, $4)"
    for f, b, pre in (("check_pos_hash_v0", "T::into($2)", ""), ("check_pos_hash_v1", f"T::into({eff}.Ok.0)", f"{eff} is Ok & ")):
        rows = [(f"{eff} is Err", "Err(_)")] if pre else []
        ps = c.paths(P + "hash_check::" + f, **kw)
        texts = {show(x) for p in ps for x in p.var}
        for m in (f"Uint512::mul({b}, T::into($1))", f"Uint512::mul(T::into($1), {b})"):
            for x, y, no in (("T::into($0)", m + ".Some.0", "Greater"), (m + ".Some.0", "T::into($0)", "Less")):
                q = f"Uint512::partial_cmp({x}, {y})"
                if q in texts:
                    rows += [(f"{pre}{m} is Some & {q} is Some & {q}.Some.0 is {z}", "Err(_)" if z == no else "Ok(())") for z in ("Less", "Equal", "Greater")] + [(f"{pre}{m} is Some & {q} is None", "Err(_)")]
        c.table(f, ps, rows, kinds=("ret",))
        c.ob(f + "#panic", all(re.search(r"expect", str(p.msg)) for p in ps if p.kind == "panic"), "only the product of two small numbers may be taken for granted", c.loc(P + "hash_check::" + f))


def balance(c):
    """sigma - a/(a+1) * (sigma z^2 - s (z sigma - s (z - sigma))) / z^2, for s and sigma at most z"""
    B = "consensus::pos::effective_pool_balance::"
    c.table("parameters", c.paths(B + "effective_pool_balance", **kw), [("", "effective_pool_balance::effective_pool_balance_impl($0, $1, $2, Rational{numer: 1, denom: 1000}, Rational{numer: 75375728, denom: 1000000000})")])
    z = "div(mul(Rational::numer($3), Amount::into_atoms($2)), Rational::denom($3))"
    Z, sig = f"T::into({z})", f"min(Amount::into_atoms($1), {z})"
    S, G = f"T::into(min(Amount::into_atoms($0), {z}))", f"T::into({sig})"
    m, s_, dv = (lambda a, b: f"Uint256::checked_mul({a}, {b}).Some.0"), (lambda a, b: f"Uint256::checked_sub({a}, {b}).Some.0"), (lambda a, b: f"Uint256::checked_div({a}, {b}).Some.0")
    zz = m(Z, Z)
    t1 = m(s_(Z, G), S)
    t2 = m(s_(m(Z, G), t1), S)
    num = m(s_(m(G, zz), t2), "T::into(Rational::numer($4))")
    adj = dv(dv(num, "T::into(add(Rational::denom($4), Rational::numer($4)))"), zz)
    want = f"Ok(Amount::from_atoms(sub({sig}, T::try_into({adj}).Ok.0)))"
    f = B + "effective_pool_balance_impl"
    bad = ["!lt(0, $2.atoms)", "lt(0, $2.atoms) & !lt($1.atoms, $2.atoms)", "lt($1.atoms, $0.atoms)"]
    n, loc, refused = 0, c.loc(f), set()
    for p in c.paths(f, **kw):
        if p.kind == "panic":
            c.ob("balance#panic", re.search(MUST, str(p.msg)), "must not panic", loc, str(p.msg)[:100])
        elif show(p.ret).startswith("Ok("):
            n += 1
            c.ob("balance#value", show(p.ret) == want, "the effective balance", loc, show(p.ret)[:1500])
            for x in ("lt(0, $2.atoms)", "lt($1.atoms, $2.atoms)", "!lt($1.atoms, $0.atoms)"):
                c.ob("balance#when " + x, under(p, x), "only if the supply is not nil, and more than the balance, and the pledge is no more than the balance", loc, repr(p)[:300])
        else:
            arith = any(v in ("None", "Err") for v in p.var.values())
            hit = [x for x in bad if under(p, x)]
            refused.update(hit)
            c.ob("balance#refused", arith or hit, "refused only for these reasons", loc, repr(p)[:300])
    c.ob("balance#n", n == 1, "must give a balance", loc)
    for x in bad:
        c.ob("balance#refuses " + x, x in refused, "must be refused", loc, x)


def target(c):
    """the target of a staked block, from the time the latest blocks took"""
    T_ = "consensus::pos::target::"
    for f, par, blk, extra in (("calculate_target_required", "gen_block::classify($2, $0)", None, None), ("calculate_target_required_from_block_index", "$2", "$2.Block.0", "$3")):
        ps, rows = c.paths(T_ + f, **kw), []
        idx = f"BlockIndexHandle::get_block_index($3, {par}.Block.0)"
        for st, cfg in (("$1 is Ongoing", "$1.Ongoing.0"), ("$1 is Threshold & $1.Threshold.initial_difficulty is None", "$1.Threshold.config")):
            rows.append((f"{st} & {par} is Genesis", f"Ok(T::into(PoSChainConfig::target_limit({cfg}))) || Ok(Compact::from(PoSChainConfig::target_limit({cfg})))"))
            if blk:
                rows.append((f"{st} & {par} is Block", f"target::calculate_target_required_internal($0, {cfg}, {blk}, {extra})"))
            else:
                rows += [(f"{st} & {par} is Block & {idx} is Err", "Err(_)"), (f"{st} & {par} is Block & {idx} is Ok & {idx}.Ok.0 is None", "Err(_)"),
                         (f"{st} & {par} is Block & {idx} is Ok & {idx}.Ok.0 is Some", f"target::calculate_target_required_internal($0, {cfg}, {idx}.Ok.0.Some.0, _)")]
        c.table(f, ps, rows + [("$1 is Threshold & $1.Threshold.initial_difficulty is Some", "Ok($1.Threshold.initial_difficulty.Some.0)")])
        if not blk:
            for p in ps:
                for e in p.events:
                    if e.name.endswith("calculate_target_required_internal") and e.args[3].tag == "clos":
                        rs = Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(e.args[3], [mk("arg", "?0"), mk("arg", "?1")])
                        c.ob("target#ancestor", rs and all(match("consensus::get_ancestor_from_block_index_handle($3, $?0, $?1)", show(q.ret)) for q in rs), "ancestors are those of the parent", c.loc(T_ + f), str([show(q.ret) for q in rs])[:300])
    st = "consensus_upgrade::consensus_status(ChainConfig::consensus_upgrades($0), BlockIndex::block_height($2))"
    d = "SignedBlockHeader::consensus_data(BlockIndex::block_header($2))"
    ct = f"PoSData::compact_target({d}.PoS.0)"
    av = "target::calculate_average_block_time($1, $2, $3)"
    nz = "NonZero::new(Duration::as_secs(ChainConfig::target_block_spacing($0)))"
    ps = c.paths(T_ + "calculate_target_required_internal", **kw)
    t = next((x for x in (f"T::try_into({ct})", f"compact::try_from({ct})") if any(show(v) == x for p in ps for v in p.var)), "?")
    rows = [(f"{st} is PoS & {st}.PoS.0 is Threshold & {st}.PoS.0.Threshold.initial_difficulty is Some", f"Ok({st}.PoS.0.Threshold.initial_difficulty.Some.0)")]
    for g in (f"{st}.PoS.0 is Threshold & {st}.PoS.0.Threshold.initial_difficulty is None", f"{st}.PoS.0 is Ongoing"):
        g = f"{st} is PoS & {g} & {d} is PoS"
        rows += [(f"{g} & {t} is Err", "Err(_)"), (f"{g} & {t} is Ok & {av} is Err", "Err(_)"), (f"{g} & {t} is Ok & {av} is Ok & {nz} is None", "Err(_)"), (f"{g} & {t} is Ok & {av} is Ok & {nz} is Some", f"target::calculate_new_target($1, {t}.Ok.0, {av}.Ok.0, {nz}.Some.0)")]
    c.table("history", ps, rows, kinds=("ret",))
    # the average time of a block
    h, b = "BlockIndex::block_height($1)", "BlockHeight::sub(BlockIndex::block_height($1), BlockDistance::new(sub(cast(i64, PoSChainConfig::block_count_to_average_for_blocktime($0)), 1)))"
    rows, now = [], "BlockTimestamp::as_int_seconds(BlockIndex::block_timestamp($1))"
    for cond, s0 in ((f"{b} is Some", b + ".Some.0"), (f"{b} is None", "BlockHeight::zero()")):
        a = f"apply($2, $1, {s0})"
        at = f"BlockTimestamp::as_int_seconds(GenBlockIndex::block_timestamp({a}.Ok.0))"
        lt = f"lt({s0}.0, {h}.0)"
        rows += [(f"{cond} & !{lt}", "Err(_)"), (f"{cond} & {lt} & {a} is Err", "Err(_)"), (f"{cond} & {lt} & {a} is Ok & lt({now}, {at})", "Err(_)"),
                 (f"{cond} & {lt} & {a} is Ok & !lt({now}, {at})", f"Ok(div(sub({now}, {at}), cast(u64, T::into(BlockHeight::sub({h}, {s0}).Some.0))))")]
    c.table("average", c.paths(T_ + "calculate_average_block_time", **kw), rows, kinds=("ret",))
    # the new target
    pv, lim = "T::into($1)", "PoSChainConfig::difficulty_change_limit($0)"
    q = lambda op, a, b: f"Uint512::{op}({a}, {b})"
    dm = q("mul", pv, f"Uint512::from_u64(T::into(PerThousand::value({lim})))")
    dl = q("div", dm + ".Some.0", f"Uint512::from_u64(T::into(PerThousand::denominator({lim})))")
    lo, hi = q("sub", pv, dl + ".Some.0") + ".Some.0", q("add", pv, dl + ".Some.0") + ".Some.0"
    rows = []
    for cond, ab in (("eq(0, $2)", "Uint512([1, 0, 0, 0, 0, 0, 0, 0])"), ("!eq(0, $2)", "Uint512::from_u64($2)")):
        nt = q("div", q("mul", pv, ab) + ".Some.0", "Uint512::from_u64(NonZero::get($3))") + ".Some.0"
        cl = f"Uint256::try_from(num_traits::clamp({nt}, {lo}, {hi}))"
        rows += [(f"{cond} & {cl} is Err", "Ok(Compact::from(min(PoSChainConfig::target_limit($0), PoSChainConfig::target_limit($0)))) || Ok(Compact::from(PoSChainConfig::target_limit($0)))"),
                 (f"{cond} & {cl} is Ok", f"Ok(Compact::from(min(PoSChainConfig::target_limit($0), {cl}.Ok.0))) || Ok(Compact::from(min({cl}.Ok.0, PoSChainConfig::target_limit($0))))")]
    c.table("new staking target", c.paths(T_ + "calculate_new_target", **kw), rows, kinds=("ret",))


PARTS = [kind, work, retarget, stake, parts_of_stake, balance, target]


def randomness(c):
    """the hash of a staked block is the output of the verifiable random function, for its key, over the seed, the time and the epoch"""
    V, P = "chainstate_types::vrf_tools::", "chainstate_types::pos_randomness::PoSRandomness::"
    parts = ["new(", "attach_raw_data(", "H256::as_bytes($1)", "attach_u64(", "BlockTimestamp::as_int_seconds($2)", "$0"]
    ps = c.paths(V + "construct_transcript", **kw)
    loc = c.loc(V + "construct_transcript")

    def told(t):
        """the things a transcript is told, in order"""
        n = t.args[0].split("::")[-1] if t.tag == "call" else ""
        if n == "new":
            return [("label", t.args[1][0])]
        if n in ("attach_raw_data", "attach_u64"):
            return told(t.args[1][0]) + [(n, t.args[1][1], t.args[1][2])]
        return [("?", t)]

    def label(t):
        s = show(t)
        m = re.match(r"&?const\(([^)]*)\)$", s)
        if m:
            s = sret(c.paths(m.group(1))[0])
        return bytes(int(x) for x in s.strip("&*[]").split(",")).decode() if re.fullmatch(r"&?\[[\d, ]+\]", s) else s.strip("b'\"")
    for p in ps:
        got = [(x[0], label(x[1])) + ((show(x[2]),) if len(x) > 2 else ()) for x in told(unphi(p, p.ret))]
        want = [("label", "MintlayerStakeVRF"), ("attach_raw_data", "Randomness", "H256::as_bytes($1)"), ("attach_u64", "Slot", "BlockTimestamp::as_int_seconds($2)"), ("attach_u64", "EpochIndex", "$0")]
        c.ob("transcript", got == want, "what the function is computed over", loc, str(got)[:500])
    tr = "vrf_tools::construct_transcript($0, $1, $4)"
    out = f"vrf_tools::extract_vrf_output($2, $3, {tr})"
    gate(c, "vrf", V + "verify_vrf_and_get_vrf_output", need=[f"VRFPublicKey::verify_vrf_data($3, {tr}, $2)", out], result=f"Ok(T::into({out}.Ok.0))")
    v = "vrf_tools::verify_vrf_and_get_vrf_output($0, PoSRandomness::value($2), $3, $4, $1)"
    gate(c, "from block", P + "from_block", need=[v], result=f"Ok(PoSRandomness::new({v}.Ok.0)) || Ok(PoSRandomness{{value: {v}.Ok.0}})")
    c.table("at genesis", c.paths(P + "at_genesis", **kw), [("", "PoSRandomness{value: ChainConfig::initial_randomness($0)} || PoSRandomness::new(ChainConfig::initial_randomness($0))")], out=plainly)
    c.table("value", c.paths(P + "value", **kw), [("", "$0.value")])


PARTS = [kind, work, retarget, stake, parts_of_stake, balance, target, randomness]
