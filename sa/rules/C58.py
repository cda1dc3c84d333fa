"""The sealed state trails the tip by whole epochs and can go back: an epoch's accounting is gathered as its blocks are connected, applied to the sealed state when the last block of an epoch
is connected and taken back when that block is disconnected; the randomness of an epoch comes from its last block, and an overlay of it is written down as it is seen."""
from ..rule import *
CRATES = ["common", "chainstate-types", "chainstate"]
E_, H = "chainstate::detail::chainstateref::epoch_seal::", "BlockHeight::next_height"
CC, SR, SW, ES = "ChainConfig::", "BlockchainStorageRead::", "BlockchainStorageWrite::", "EpochStorageWrite::"
WRITE = r"BlockchainStorageWrite::\w+$|EpochStorageWrite::\w+$|::batch_write_delta$|undo_merge_with_delta$|merge_with_delta$|::advance_epoch_seal$|::rollback_epoch_seal$"
# whatever helpers the module is cut into are looked into
IN = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|chainstate::detail::chainstateref::epoch_seal::|.*\{closure#\d+\}$)"
NEAR = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|.*::chain_config$|.*\{closure#\d+\}$)"
kw = dict(stop=IN)
go = dict(stop=IN, see=bare)


def seal(c):
    f = E_ + "update_epoch_seal"
    rows = []
    for ev, h, read, act, last in (("Connect", "$2.Connect.0", "get_accounting_epoch_delta", "view_impls::batch_write_delta || FlushablePoSAccountingView::batch_write_delta", "set_accounting_epoch_undo_delta"),
                                   ("Disconnect", f"{H}($2.Disconnect.0)", "get_accounting_epoch_undo_delta", "PoSAccountingDB::undo_merge_with_delta", "del_accounting_epoch_undo_delta")):
        due = f"{CC}is_due_for_epoch_seal($1, {h})"
        i = f"sub({CC}epoch_index_from_height($1, {h}), {CC}sealed_epoch_distance_from_tip($1))"
        d = f"{SR}{read}($0, {i})"
        db = "PoSAccountingDB::new($0)"
        does = [f"{x}({db}, {d}.Ok.0.Some.0)" for x in act.split(" || ")]
        ends = [f"{SW}{last}($0, {i}" + (f", {x}.Ok.0)" if ev == "Connect" else ")") for x in does]
        rows += [(f"$2 is {ev} & !{due}", [], "Ok(())"), (f"$2 is {ev} & {due} & {d} is Ok & {d}.Ok.0 is None", [], "Ok(())"),
                 (f"$2 is {ev} & {due} & {d} is Ok & {d}.Ok.0 is Some", [" || ".join(does), " || ".join(ends)], "Ok(())")]
    steps(c, "seal", f, WRITE, rows, panics="", **go)
    # it may give up only if the epoch to seal would be before the first, which being due rules out
    for p in c.paths(f, **kw):
        if p.kind == "panic":
            tx = [txt(t) for t, v in p.truth.items() if v] + [txt(t) + " is None" for t, v in p.var.items() if v == "None"]
            c.ob("seal#panic", any(re.match(rf"lt\({CC}epoch_index_from_height\(\$1, (.*)\), {CC}sealed_epoch_distance_from_tip\(\$1\)\)$", s) for s in tx), "may give up only if the epoch to seal is before the first", c.loc(f), repr(p)[:300])


txt = lambda t: re.sub(r"(?<=[)\]])@\d+", "", show(bare(t)))


def config(c):
    x, last, idx, dist = "common::chain::config::ChainConfig::", "ChainConfig::is_last_block_in_epoch($0, $1)", "ChainConfig::epoch_index_from_height($0, $1)", "ChainConfig::sealed_epoch_distance_from_tip($0)"
    c.table("index", c.paths(x + "epoch_index_from_height", stop=CLOSED), [("", "div(T::into($1), $0.epoch_length) || div($1.0, $0.epoch_length) || div(T::into($1), ChainConfig::epoch_length($0)) || BlockHeight::into_int($1)")], kinds=("ret",))
    c.table("last", c.paths(x + "is_last_block_in_epoch", stop=CLOSED), [("", " || ".join(f"eq({a}, {b})" for z in ("ChainConfig::epoch_length($0)", "$0.epoch_length") for a, b in ((f"rem(T::into({H}($1)), {z})", "0"), ("0", f"rem(T::into({H}($1)), {z})"))))], kinds=("ret",))
    for p in c.paths(x + "is_due_for_epoch_seal", stop=CLOSED):
        s, t = show(p.ret), {show(k): v for k, v in p.truth.items()}
        good = (s == "false" and (t.get(last) is False or t.get(f"lt({idx}, {dist})") is True or t.get(f"ge({idx}, {dist})") is False)) or (match(f"ge({idx}, {dist}) || le({dist}, {idx}) || not(lt({idx}, {dist}))", s) and t.get(last) is True) or (
            s == last and (t.get(f"lt({idx}, {dist})") is False or t.get(f"ge({idx}, {dist})") is True)) or (s == "true" and t.get(last) is True and (t.get(f"lt({idx}, {dist})") is False or t.get(f"ge({idx}, {dist})") is True))
        c.ob("due", p.kind == "ret" and good, "due exactly at the last block of an epoch that is not among the first", c.loc(x + "is_due_for_epoch_seal"), repr(p)[:300] + s)
    for p in c.paths(x + "sealed_epoch_index", stop=CLOSED):
        if p.kind != "ret":
            c.ob("sealed#panic", "overflow" in str(p.msg), "must not panic", c.loc(x + "sealed_epoch_index"), repr(p)[:200])
            continue
        full = holds(p, last)
        by = [dist] if full else [f"add(1, {dist})", f"add({dist}, 1)"]
        c.ob("sealed", (full or refuted(p, last)) and any(match(f"chk(sub, u64, {idx}, {b})", show(p.ret)) for b in by), "the epoch sealed lies the distance behind, one more while the epoch is not full", c.loc(x + "sealed_epoch_index"), repr(p)[:300] + show(p.ret))


def data(c):
    f = E_ + "update_epoch_data"
    b, h = "$3.Connect.1", "$3.Connect.0"
    cd = f"SignedBlockHeader::consensus_data(Block::header({b}))"
    o = f"BlockReward::outputs(Block::block_reward({b}))"
    none = f"eq(0, len({o}))"
    pool = f"PoSAccountingView::get_pool_data($1, {o}[0].ProduceBlockFromStake.1)"
    s = f"{CC}sealed_epoch_index($2, {h})"
    d = f"EpochStorageRead::get_epoch_data($0, {s}.Some.0)"
    last = f"{CC}is_last_block_in_epoch($2, {h})"
    rows, bad = [], [f"$3 is Connect & {cd} is PoS & {none}"]
    for kind, key in (("CreateStakePool", f"StakePoolData::vrf_public_key({o}[0].CreateStakePool.1)"), ("ProduceBlockFromStake", f"PoolData::vrf_public_key({pool}.Ok.0.Some.0)")):
        for cond, seed in ((f"{s} is None", f"PoSRandomness::at_genesis($2)"), (f"{s} is Some & {d}.Ok.0 is None", f"PoSRandomness::at_genesis($2)"), (f"{s} is Some & {d}.Ok.0 is Some", f"EpochData::randomness({d}.Ok.0.Some.0)")):
            r = f"PoSRandomness::from_block({CC}epoch_index_from_height($2, {h}), SignedBlockHeader::timestamp(Block::header({b})), {seed}, PoSData::vrf_data({cd}.PoS.0), {key})"
            rows.append((f"$3 is Connect & {last} & {cd} is PoS & {o}[0] is {kind} & {cond}", [f"{ES}set_epoch_data($0, {CC}epoch_index_from_height($2, {h}), EpochData::new({r}.Ok.0))"], "Ok(())"))
    rows += [(f"$3 is Connect & !{last}", [], "Ok(())")] + [(f"$3 is Connect & {last} & {cd} is {k}", [], "Ok(())") for k in ("None", "PoW")]
    gone = f"{CC}is_last_block_in_epoch($2, $3.Disconnect.0)"
    rows += [(f"$3 is Disconnect & !{gone}", [], "Ok(())"), (f"$3 is Disconnect & {gone}", [f"{ES}del_epoch_data($0, {CC}epoch_index_from_height($2, {H}($3.Disconnect.0)))"], "Ok(())")]
    kinds = [v["n"] for v in c.F.adts["common::chain::transaction::output::TxOutput"]["v"]]
    wrong = [f"{o}[0] is {k}" for k in kinds if k not in ("CreateStakePool", "ProduceBlockFromStake")]
    steps(c, "data", f, WRITE, rows, refuse=[none, f"{pool}.Ok.0 is None"] + wrong, **go)


def overlay(c):
    M = "chainstate_types::epoch_data_cache::"
    g, i = "mapget($0.data, $1)", f"<{M}EpochDataCache<P> as {M}EpochStorageRead>::get_epoch_data"
    q = "EpochStorageRead::get_epoch_data($0.parent, $1)"
    c.table("seen", c.paths(i, stop=CLOSED), [(f"{g} is Some & {g}.Some.0 is Erase", "Ok(None)"), (f"{g} is Some & {g}.Some.0 is Write", f"Ok(Some({g}.Some.0.Write.0))"), (f"{g} is None & {q} is Ok", f"Ok({q}.Ok.0) || {q}"), (f"{g} is None & {q} is Err", f"Err(_) || {q}")])
    c.table("below", c.paths(f"<T as {M}EpochStorageRead>::get_epoch_data", stop=CLOSED), [("", "EpochStorageRead::get_epoch_data($0, $1)")])
    for f, v in (("set_epoch_data", "DataEntry::Write($2)"), ("del_epoch_data", "DataEntry::Erase")):
        fid = f"<{M}EpochDataCache<P> as {M}EpochStorageWrite>::{f}"
        for p in c.paths(fid, stop=CLOSED):
            c.ob("noted#" + f, p.kind == "ret" and show(p.ret) == "Ok(())" and show(p.out(mk("arg", 0))) == f"$0{{data:=mapset($0.data, $1, {v})}}", "what is set or erased is noted under its epoch", c.loc(fid), show(p.out(mk("arg", 0)))[:200])
    for f, v in (("new", "EpochDataCache{parent: $0, data: emptymap()}"), ("from_data", "EpochDataCache{parent: $0, data: $1.data}"), ("consume", "ConsumedEpochDataCache{data: $0.data}")):
        c.table(f, c.paths(f"{M}EpochDataCache::<P>::{f}", stop=CLOSED), [("", v)])
    it = "elem($0.data)"
    dispatch(c, "flush", M + "ConsumedEpochDataCache::flush", "$0.data", r"EpochStorageWrite::\w+$", [(f"{it}.1 is Write", [f"{ES}set_epoch_data(_, {it}.0, {it}.1.Write.0)"], None), (f"{it}.1 is Erase", [f"{ES}del_epoch_data(_, {it}.0)"], None)], [], [("", [], "Ok(())")], [], stop=CLOSED)
    c.table("data", c.paths("chainstate_types::epoch_data::EpochData::new", stop=CLOSED), [("", "EpochData{randomness: $0}")])
    c.table("randomness", c.paths("chainstate_types::epoch_data::EpochData::randomness", stop=CLOSED), [("", "$0.randomness")])


def gathered(c):
    fid = "chainstate::detail::chainstateref::tx_verifier_storage::<impl tx_verifier::transaction_verifier::storage::TransactionVerifierStorageMut for chainstate::detail::chainstateref::ChainstateRef<'_, S, V>>::apply_accounting_delta"
    b = f"{SR}get_block_index($0.db_tx, $1.Chain.0)"
    i = f"{CC}epoch_index_from_height($0.chain_config, BlockIndex::block_height({b}.Ok.0.Some.0))"
    d = f"{SR}get_accounting_epoch_delta($0.db_tx, {i})"
    rows = []
    for cond, was in ((f"{d}.Ok.0 is Some", f"{d}.Ok.0.Some.0"), (f"{d}.Ok.0 is None", "PoSAccountingDeltaData::default() || PoSAccountingDeltaData::new() || T::default() || default(PoSAccountingDeltaData)")):
        rows.append((f"$1 is Chain & {cond}", [" || ".join(f"PoSAccountingDeltaData::merge_with_delta({w}, $2)" for w in was.split(" || ")), f"{SW}set_accounting_epoch_delta($0.db_tx, {i}, _)"], "Ok(_)"))
    steps(c, "gather", fid, WRITE, rows, refuse=[f"{b}.Ok.0 is None"], panics="forbidden", stop=NEAR, see=bare)
    n = 0
    for p in c.paths(fid, stop=NEAR):
        for e in evs(p, r"::set_accounting_epoch_delta$"):
            n += 1
            c.ob("gather#merged", "out0[PoSAccountingDeltaData::merge_with_delta(" in show(e.args[2]), "what is kept is what was merged", c.loc(fid), show(e.args[2])[:300])
        if p.kind == "panic":
            c.ob("gather#panic", under(p, "$1 is Mempool"), "nothing from the mempool may come here", c.loc(fid), repr(p)[:200])
    c.count("gather#n", n, 1)


def states(c):
    """the state of the tip and the sealed one are told apart by type"""
    def walk(x):
        if isinstance(x, dict):
            if re.search(r"::PoSAccountingDB::<[^>]*>::new$", str(x.get("d", ""))):
                yield x
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                yield from walk(v)
    n = {}
    for f in c.F.ids():
        if f.startswith(("chainstate::", "<chainstate::")) and "::tests::" not in f:
            for x in walk(c.F.fn(f)):
                ts = [c.F.ty("chainstate", a) for a in x.get("a") or []]
                tag = ts[-1][1].split("::")[-1] if ts and ts[-1][0] == "adt" else "?"
                where = "seal" if "::epoch_seal::" in f else "genesis" if "process_genesis" in f else "tip"
                n.setdefault(where, []).append(tag)
                want = {"seal": ("SealedStorageTag",), "tip": ("TipStorageTag",), "genesis": ("SealedStorageTag", "TipStorageTag")}[where]
                c.ob("state " + where, tag in want, "the epoch seal works on the sealed state, everything else on that of the tip", c.loc(f), tag)
    c.ob("state#both", set(n.get("genesis", ())) == {"SealedStorageTag", "TipStorageTag"}, "genesis is in both states", "", str(n.get("genesis")))
    c.count("states", sum(map(len, n.values())), 3)


PARTS = [seal, config, data, overlay, gathered, states]
