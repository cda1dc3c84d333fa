"""The tip moves one block at a time: connecting a block applies its transactions and makes it the best block at its height, disconnecting takes exactly
that back, a reorganisation disconnects down to the fork and connects the new branch in order, and all of it happens in one storage transaction."""
from ..rule import *
CRATES = ["chainstate"]
W = "chainstate::detail::chainstateref::ChainstateRef::<'_, S, V>::"
R = "chainstate::detail::chainstateref::ChainstateRef::<'a, S, V>::"
D = "chainstate::detail::Chainstate::<S, V>::"
C, CR, SW, SR = "Chainstate::", "ChainstateRef::", "BlockchainStorageWrite::", "BlockchainStorageRead::"
CFG = "$0.chain_config"
WRITE = r"BlockchainStorageWrite::\w+$|ChainstateRef(::<[^:]*>)?::(check_block|connect_transactions|disconnect_transactions|post_\w+|set_\w+|del_\w+|persist_block|connect_tip|disconnect_tip|disconnect_until|reorganize|activate_best_chain|update_\w+)$|flush|::(dis)?connect_block$|TransactionVerifier(::<[^:]*>)?::consume$|epoch_seal::update_\w+$|Chainstate(::<[^:]*>)?::(with_rw_tx|attempt_to_process_block|process_\w+)$|::commit_db_tx$|TransactionRw::commit$"
kw = dict(stop=CLOSED)
go = dict(stop=CLOSED, see=bare)


def position(c):
    i = f"{CR}get_block_index($0, gen_block::classify($1, {CFG}).Block.0)"
    b, g = f"gen_block::classify($1, {CFG}) is Block", f"gen_block::classify($1, {CFG}) is Genesis"
    h = f"BlockIndex::block_height({i}.Ok.0.Some.0)"
    at = f"{CR}get_block_id_by_height($0, {h})"
    c.table("position", c.paths(R + "get_block_height_in_main_chain", **kw), [
        (g, "Ok(Some(BlockHeight::zero())) || Ok(Some(BlockHeight(0)))"), (f"{b} & {i} is Err", "Err(_)"), (f"{b} & {i} is Ok & {i}.Ok.0 is None", "Ok(None)"),
        (f"{b} & {i} is Ok & {i}.Ok.0 is Some & {at} is Err", "Err(_)"), (f"{b} & {i} is Ok & {i}.Ok.0 is Some & {at} is Ok & {at}.Ok.0 is None", "Ok(None)"),
        (f"{b} & {i} is Ok & {i}.Ok.0 is Some & {at} is Ok & {at}.Ok.0 is Some & eq($1, {at}.Ok.0.Some.0)", f"Ok(Some({h}))"),
        (f"{b} & {i} is Ok & {i}.Ok.0 is Some & {at} is Ok & {at}.Ok.0 is Some & !eq($1, {at}.Ok.0.Some.0)", "Ok(None)")], kinds=("ret",))
    q = f"{CR}get_block_height_in_main_chain($0, $1)"
    c.table("on chain", c.paths(R + "is_block_in_main_chain", **kw), [(f"{q} is Err", "Err(_)"), (f"{q} is Ok & {q}.Ok.0 is Some", "Ok(true)"), (f"{q} is Ok & {q}.Ok.0 is None", "Ok(false)")])
    c.table("least height", c.paths("chainstate::detail::chainstateref::calc_min_height_with_allowed_reorg", **kw), [
        ("BlockHeight::sub($1, ChainConfig::max_depth_for_reorg($0)) is Some", "BlockHeight::sub($1, ChainConfig::max_depth_for_reorg($0)).Some.0"),
        ("BlockHeight::sub($1, ChainConfig::max_depth_for_reorg($0)) is None", "T::into(0) || BlockHeight::zero() || BlockHeight(0)")])


def branch(c):
    """the blocks to connect: those from the new tip down that are not on the main chain, the lowest first"""
    f = R + "get_new_chain"
    loc, n = c.loc(c.resolve(f)), 0
    for p in c.paths(f, **kw):
        cur, r = None, show(p.ret) if p.kind == "ret" else ""
        for t in p.phi:
            if show(p.phi[t]) == "$1":
                cur = t
        if cur is None:
            continue
        on, prev = f"{CR}is_block_in_main_chain($0, T::into(BlockIndex::block_id({show(cur)})))", f"{CR}get_previous_block_index($0, {show(cur)})"
        fact = {show(t): v for t, v in p.var.items()}
        tr = {show(t): v for t, v in p.truth.items()}
        acc = [t for t in p.phi if show(p.phi[t]) in ("Vec::new()", "vec![]") or re.match(r"Vec::(new|with_capacity)\(", show(p.phi[t]))]
        c.ob("branch#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        if p.kind == "back":
            n += 1
            good = tr.get(on + ".Ok.0") is False and show(p.next[cur]) == prev + ".Ok.0.Block.0" and any(show(p.next[a]) == f"out0[Vec::push({show(a)}, {show(cur)})]" for a in acc)
            c.ob("branch#turn", good, "a block outside the main chain is collected, and its parent is next", loc, repr(p)[:400])
        elif p.kind == "ret" and r.startswith("Ok("):
            if tr.get(on + ".Ok.0"):
                good = any(match(x, r) for a in acc for x in (f"Ok(out0[slice::reverse({show(a)})])", f"Ok(rev({show(a)}))"))
            else:
                good = fact.get(prev + ".Ok.0") == "Genesis" and any(r == f"Ok(out0[slice::reverse(out0[Vec::push({show(a)}, {show(cur)})])])" for a in acc)
            n += 1
            c.ob("branch#end", good, "the branch ends where the main chain begins, and is told from there upwards", loc, repr(p)[:400] + r[:300])
        else:
            c.ob("branch#failed", p.kind == "ret" and ("Err" in fact.values()), "fails only if storage cannot be read", loc, repr(p)[:300])
    c.ob("branch#n", n >= 3, "the branch must be walked", loc)


def moves(c):
    # disconnecting
    cl = "gen_block::classify"
    loop, n = c.paths(W + "disconnect_until", **kw), 0
    loc = c.loc(c.resolve(W + "disconnect_until"))
    for p in loop:
        cur = next((t for t in p.phi if match("T::into($1) || $1 || Id::from($1) || gen_block::from($1)", show(captured(p, started(p, p.phi[t]))))), None)
        st = lambda t: show(captured(p, map_term(t, lambda x: None if x == cur else (p.phi.get(x) if x.tag == "phi" else None))))
        ev = [e for e in p.events if re.search(r"::disconnect_tip$", e.name)]
        other = [e.name for e in p.events if re.search(WRITE, e.name) and e not in ev]
        last = [(st(t), v) for t, v in p.truth.items()]
        here = show(cur) if cur is not None else "?"
        end = [v for s, v in last if match(f"eq({here}, $2) || eq($2, {here})", s.replace("Id::eq(", "eq("))]
        blk = f"{cl}({here}, {CFG})"
        if p.kind == "ret" and show(p.ret) == "Ok(())":
            c.ob("until#end", end == [True] and not ev, "ends at the block that remains", loc, repr(p)[:300])
            n += 1
        elif p.kind == "ret":
            c.ob("until#failed", len(ev) == 1 and p.var.get(ev[0].res) == "Err", "fails only if a block cannot be disconnected", loc, repr(p)[:300])
        elif p.kind == "back":
            want = f"{CR}disconnect_tip($0, Some({blk}.Block.0))"
            s = [st(e.res) for e in ev]
            c.ob("until#turn", end == [False] and len(s) == 1 and s[0] == want and p.var.get(ev[0].res) != "Err" and st(p.next[cur]) == f"GenBlockIndex::block_id({want}.Ok.0)", "disconnects this block, then its parent", loc, " ".join(s)[:400] + repr(p)[:400])
            n += 1
        else:
            c.ob("until#panic", any(v == "Genesis" and st(t) == blk for t, v in p.var.items()), "only the genesis block cannot be disconnected", loc, repr(p)[:300])
        c.ob("until#only", not other, "does nothing else", loc, str(other)[:200])
    c.ob("until#n", n >= 2, "must disconnect", loc)
    # a reorganisation
    new = f"{CR}get_new_chain($0, $2)"
    blk = f"{cl}($1, {CFG})"
    down = f"{CR}disconnect_until($0, {blk}.Block.0, BlockIndex::prev_block_id({new}.Ok.0[0]))"
    up = f"{CR}connect_tip($0, elem({new}.Ok.0))"
    f = W + "reorganize"
    steps(c, "reorg", f, WRITE, [(f"{blk} is Block", [down], "Ok(())"), (f"{blk} is Genesis", [], "Ok(())")], turns=[(f"{blk} is Block", [down, up]), (f"{blk} is Genesis", [up])], panics="^expect 'This vector|index out of bounds", **go)
    for p in c.paths(f, **kw):
        if p.kind == "ret":
            r, loc = bare(initially(p, p.ret)), c.loc(f)
            if sret(p) == "Ok(())":
                c.ob("reorg#all", any(x[0] == "exh" and show(initially(p, x[1])) == f"iter({new}.Ok.0)" for x in p.facts), "every block of the branch, in order, is connected", loc, repr(p)[:400])
            for e in p.events:
                if e.name.endswith("::connect_tip") and p.var.get(e.res) == "Err":
                    c.ob("reorg#blame", match(f"Err(ReorgError::ConnectTipFailed(BlockIndex::block_id(elem({new}.Ok.0)), {up}.Err.0))", show(r)), "the block that cannot be connected is the one blamed", loc, show(r)[:400])
            c.ob("reorg#blamed", "ConnectTipFailed" not in show(r) or any(e.name.endswith("::connect_tip") for e in p.events), "a block is blamed only if it could not be connected", loc, show(r)[:300])
    best = f"{CR}get_best_block_index($0)"
    cmp_ = f"Uint256::partial_cmp(BlockIndex::chain_trust($1), GenBlockIndex::chain_trust({best}.Ok.0))"
    re_ = f"{CR}reorganize($0, GenBlockIndex::block_id({best}.Ok.0), $1)"
    more, less = "Greater", "Less"
    back = f"Uint256::partial_cmp(GenBlockIndex::chain_trust({best}.Ok.0), BlockIndex::chain_trust($1))"
    if any(show(t) == back + ".Some.0" for p in c.paths(W + "activate_best_chain", **kw) for t in p.var):    # the comparison may be written either way round
        cmp_, more, less = back, less, more
    steps(c, "activate", W + "activate_best_chain", WRITE, [(f"{cmp_}.Some.0 is {more}", [re_], "Ok(true)")] + [(x, [], "Ok(false)") for x in (f"{cmp_}.Some.0 is Equal", f"{cmp_}.Some.0 is {less}", f"{cmp_} is None")], **go)


def tip(c):
    st = "BlockStatus::is_ok(BlockIndex::status($1))"
    data = f"{CR}get_block_from_index($0, $1)"
    b = f"T::into({data}.Ok.0.Some.0)"
    stage = "BlockStatus::last_valid_stage(BlockIndex::status($1))"
    low, full = f"lt({stage}, BlockValidationStage::CheckBlockOk)", f"BlockValidationStage::eq({stage}, BlockValidationStage::FullyChecked)"
    is_tip = f"eq(BlockIndex::prev_block_id($1), {CR}get_best_block_id($0).Ok.0)"
    check = f"{CR}check_block($0, {b})"
    main = [f"{CR}connect_transactions($0, $1, {b})", f"{SW}set_block_id_at_height($0.db_tx, BlockIndex::block_height($1), T::into(BlockIndex::block_id($1)))", f"{SW}set_best_block_id($0.db_tx, T::into(BlockIndex::block_id($1)))"]
    mark, post = f"{CR}set_block_index($0, BlockIndex::with_status($1, _))", f"{CR}post_connect_tip($0, $1, {b}) || {CR}post_connect_tip($0, $1, T::into({b}))"
    f = W + "connect_tip"
    ways = []
    for lo in (low, "!" + low):
        for fu in (full, "!" + full):
            if (lo, fu) == (low, full):     # the stage cannot be both; the code may or may not tell
                continue
            ways.append((f"{st} & {data}.Ok.0 is Some & {is_tip} & {lo} & {fu}", ([check] if lo == low else []) + main + ([mark] if fu != full else []) + [post], "Ok(_)"))
    steps(c, "connect", f, WRITE, ways + [(f"{low} & {full}", [check] + main + [post], "Ok(_)")], refuse=["!" + st, f"{data}.Ok.0 is None", "!" + is_tip], **go)
    for p in c.paths(f, **kw):
        for e in evs(p, r"::set_block_index$"):
            c.ob("connect#mark", match("BlockIndex::with_status($1, out0[BlockStatus::advance_validation_stage_to(_, BlockValidationStage::FullyChecked)])", show(e.args[-1])), "the block is marked as checked in full", c.loc(f), show(e.res)[:400])
    at, was = f"{CR}get_best_block_id($0)", "gen_block::chain_block_id"
    f = W + "disconnect_tip"
    ix = f"{CR}get_block_index($0, __)"
    gone = [f"{CR}disconnect_transactions($0, T::into({CR}get_block_from_index($0, {ix}.Ok.0.Some.0).Ok.0.Some.0))", f"{SW}set_best_block_id($0.db_tx, BlockIndex::prev_block_id({ix}.Ok.0.Some.0))", f"{SW}del_block_id_at_height($0.db_tx, BlockIndex::block_height({ix}.Ok.0.Some.0))",
            f"{CR}post_disconnect_tip($0, GenBlockIndex::block_height({CR}get_previous_block_index($0, {ix}.Ok.0.Some.0).Ok.0))"]
    import itertools
    steps(c, "disconnect", f, WRITE, [("", [gone[0]] + list(m) + [gone[3]], f"Ok({CR}get_previous_block_index($0, {ix}.Ok.0.Some.0).Ok.0)") for m in (gone[1:3],)], panics="expect|unwrap|assert", **go)
    for p in c.paths(f, **kw):
        # which block: the best one
        for e in evs(p, r"::get_block_index$"):
            s = show(e.res)
            c.ob("disconnect#which", f"{at}.Ok.0" in s and "$1" not in s and "out0" not in s, "the block disconnected is the best block", c.loc(f), s[:300])
    new = "fn TransactionVerifier::new"
    f = W + "connect_transactions"
    did = f"TransactionVerificationStrategy::connect_block($0.tx_verification_strategy, {new}, $0, {CFG}, $1, $2, median_time::calculate_median_time_past($0, Block::prev_block_id($2)))"
    flush = lambda x: [x, f"TransactionVerifier::consume({x}.Ok.0)", f"flush::flush_to_storage($0, TransactionVerifier::consume({x}.Ok.0).Ok.0)"]
    steps(c, "connect transactions", f, WRITE, [("", flush(did), "Ok(())")], **go)
    did = f"TransactionVerificationStrategy::disconnect_block($0.tx_verification_strategy, {new}, $0, {CFG}, $1)"
    steps(c, "disconnect transactions", W + "disconnect_transactions", WRITE, [("", flush(did), "Ok(())")], **go)


def epochs(c):
    """what follows a change of the tip: the epoch is sealed or unsealed, and its data is kept"""
    def data(event):
        return [f"epoch_seal::update_epoch_data(EpochDataCache::new($0.db_tx), PoSAccountingDB::new($0.db_tx), {CFG}, BlockStateEventWithIndex::{event})",
                f"ConsumedEpochDataCache::flush(EpochDataCache::consume(EpochDataCache::new($0.db_tx)), $0.db_tx)"]
    seal = lambda e: f"epoch_seal::update_epoch_seal($0.db_tx, {CFG}, BlockStateEvent::{e})"
    h = "BlockIndex::block_height($1)"
    steps(c, "after connecting", W + "post_connect_tip", WRITE, [("", [seal(f"Connect({h})")] + data(f"Connect({h}, $2)"), "Ok(())")], **go)
    last = f"ChainConfig::is_last_block_in_epoch({CFG}, $1)"
    gone = f"{SW}del_accounting_epoch_delta($0.db_tx, ChainConfig::epoch_index_from_height({CFG}, BlockHeight::next_height($1)))"
    f = W + "post_disconnect_tip"
    steps(c, "after disconnecting", f, WRITE, [(last, [seal("Disconnect($1)"), gone] + data("Disconnect($1)"), "Ok(())"), ("!" + last, [seal("Disconnect($1)")] + data("Disconnect($1)"), "Ok(())")], **go)
    for f in ("post_connect_tip", "post_disconnect_tip"):
        for p in c.paths(W + f, **kw):
            for e in evs(p, r"::flush$"):
                c.ob("epochs#kept", "out0[epoch_seal::update_epoch_data(" in show(e.args[0]), "the data kept is the data updated", c.loc(W + f), show(e.args[0])[:200])


def stores(c):
    here = f"{SR}block_exists($0.db_tx, WithId::get_id($1))"
    steps(c, "persist", W + "persist_block", WRITE, [(f"!{here}.Ok.0", [f"{SW}add_block($0.db_tx, $1)"], "Ok(_)")], refuse=[here + ".Ok.0"], **go)
    i = f"{SR}get_block_index($0.db_tx, BlockIndex::block_id($1))"
    steps(c, "new index", W + "set_new_block_index", WRITE, [(f"{i}.Ok.0 is None", [f"{CR}set_block_index($0, $1)"], "Ok(_)")], refuse=[i + ".Ok.0 is Some"], **go)
    steps(c, "index", W + "set_block_index", WRITE, [("", [f"{SW}set_block_index($0.db_tx, $1)"], "Ok(_)")], **go)
    m = f"{CR}get_min_height_with_allowed_reorg($0).Ok.0", f"chainstateref::calc_min_height_with_allowed_reorg({CFG}, GenBlockIndex::block_height({CR}get_best_block_index($0).Ok.0))"
    steps(c, "least", W + "update_min_height_with_allowed_reorg", WRITE, [("", [" || ".join(f"{SW}set_min_height_with_allowed_reorg($0.db_tx, max({a}, {b}))" for a, b in (m, m[::-1]))], "Ok(())")], **go)
    x = f"{SR}get_block_index($0.db_tx, $1)"
    steps(c, "forget", W + "del_block_index_of_non_persisted_block", WRITE, [(f"{x}.Ok.0 is Some", [f"{SW}del_block_index($0.db_tx, $1)"], "Ok(())"), (f"{x}.Ok.0 is None", [], "Ok(())")], panics="", **go)


PARTS = [position, branch, moves, tip, epochs, stores]


def attempts(c):
    """with_rw_tx: what is done is committed if and only if it succeeded; it is done again only after a passing storage failure, within the limit"""
    f = D + "with_rw_tx"
    loc = c.loc(c.resolve(f))
    do, tx = "apply($1, Chainstate::make_db_tx($0).Ok.0)", "ChainstateRef::"
    seen = set()
    for p in c.paths(f, **kw):
        cnt = next((t for t in p.phi if show(p.phi[t]) == "0"), None)
        st = lambda t: re.sub(r"(?<=[)\]])@\d+", "", show(bare(captured(p, map_term(t, lambda x: None if x == cnt else (p.phi.get(x) if x.tag == "phi" else None))))))
        if p.kind == "panic":
            c.ob("attempts#panic", "overflow" in str(p.msg), "must not panic", loc, repr(p)[:300])
            continue
        va, tr = {st(t): v for t, v in p.var.items()}, {st(t): v for t, v in p.truth.items()}
        n = f"add(1, {show(cnt)})"
        left = [v for s, v in tr.items() if s == f"lt({n}, $0.chainstate_config.max_db_commit_attempts)"]
        acts = [e for e in p.events if st(e.res) == do]
        com = [e for e in p.events if re.search(r"::commit_db_tx$|TransactionRw::commit$|::commit$", e.name)]
        done = va.get(do)
        c.ob("attempts#commit", len(com) == (done == "Ok") and all(show(e.args[0]).startswith("out1[apply(") for e in com), "what was done is committed if and only if it succeeded", loc, repr(p)[:400])
        c.ob("attempts#once", len(acts) <= 1, "done once per attempt", loc, repr(p)[:300])
        bad = {s: v for s, v in va.items() if v == "Err"}
        chk = [s for s in bad if re.match(r"ChainstateRef::(check_storage_error|commit_db_tx)\(", s)]
        passing = [tr.get(f"Error::is_intermittent({s}.Err.0)") for s in chk]
        if p.kind == "back":
            c.ob("attempts#again", len(chk) == 1 and left == [True] and passing == [True] and st(p.next[cnt]) == n, "done again only after a passing storage failure, and not beyond the limit", loc, repr(p)[:500])
            seen.add("again " + chk[0].split("(")[0] if chk else "")
        elif st(p.ret) == f"Ok({do}.Ok.0)":
            c.ob("attempts#ok", done == "Ok" and not bad and com, "success is what was done and committed", loc, repr(p)[:400])
            seen.add("ok")
        else:
            c.ob("attempts#failed", bad, "fails only if something failed", loc, repr(p)[:400])
            # a failure of what was done is told as it is, unless storage failed
            c.ob("attempts#told", st(p.ret).startswith("Err(") and (chk or "make_db_tx" in "".join(bad)) or st(p.ret) == do and not (chk and left != [True]), "the failure is told", loc, st(p.ret)[:300])
            c.ob("attempts#tried", not (chk and left == [True] and passing == [True]), "a passing failure is tried again", loc, repr(p)[:400])
    c.ob("attempts#n", {"ok", "again ChainstateRef::check_storage_error", "again ChainstateRef::commit_db_tx"} <= seen, "must try again after a failure of either kind", loc, str(seen))
    steps(c, "commit", W + "commit_db_tx", r"TransactionRw::commit$", [("", ["TransactionRw::commit($0.db_tx)"], "TransactionRw::commit($0.db_tx) || Ok(_)")], **go)


def integration(c):
    f = D + "integrate_block"
    ix = "BlockIndex::make_persisted(BlockIndex::with_status($2, BlockStatus::new()))"
    do = [f"{CR}check_block($0, $1)", f"{CR}set_new_block_index($0, {ix})", f"{CR}persist_block($0, $1)", f"{CR}activate_best_chain($0, {ix})", f"{CR}update_min_height_with_allowed_reorg($0)"]
    loc = c.loc(c.resolve(f))
    n = 0
    for p in c.paths(f, **kw):
        es = [e for e in p.events if re.search(WRITE, e.name)]
        s = [re.sub(r"(?<=[)\]])@\d+", "", show(bare(e.res))) for e in es]
        bad = [i for i, e in enumerate(es) if p.var.get(e.res) == "Err"]
        r = show(bare(p.ret)) if p.kind == "ret" else ""
        swap = [do[0], do[2], do[1]] + do[3:]
        c.ob("integrate", p.kind == "ret" and (s == do[:len(s)] or s == swap[:len(s)]), "checks the block, stores its index and its data, and activates the best chain", loc, repr(p)[:300] + " ; ".join(s)[:600])
        if not bad:
            c.ob("integrate#ok", len(s) == 5 and r == f"Ok({do[3]}.Ok.0)", "succeeds after all steps", loc, r[:300])
            n += 1
        else:
            e, kind = f"{s[bad[-1]]}.Err.0", re.match(r"Err\(BlockIntegrationError::(\w+)", r)
            want = {0: "BlockCheckError", 1: "BlockCheckError", 2: "BlockCheckError", 4: "OtherNonValidationError"}.get(bad[-1])
            if bad[-1] == 3 or bad == [3]:
                want = "ConnectBlockErrorDuringReorg" if p.var.get(next(t for t in p.var if show(bare(t)) == e)) == "ConnectTipFailed" else "OtherReorgError"
                e = None
            c.ob("integrate#failed", kind and kind[1] == want and (e is None or e in r) and (len(s) == bad[-1] + 1 or bad == [3] and len(s) == 5), "a failure is told, with what may be blamed for it", loc, r[:300])
            n += 1
        for x in es:
            if x.name.endswith(("set_new_block_index", "activate_best_chain")):
                t = re.sub(r"(?<=[)\]])@\d+", "", show(x.args[1]))
                c.ob("integrate#stage", match("BlockIndex::make_persisted(BlockIndex::with_status($2, out0[BlockStatus::advance_validation_stage_to(BlockStatus::new(), BlockValidationStage::CheckBlockOk)]))", t), "the index says what was checked, and that the data is there", loc, t[:300])
    c.ob("integrate#n", n >= 6, "must integrate", loc)


PARTS += [attempts, integration]


def processing(c):
    """attempt_to_process_block: a block is integrated once; a failed one is marked only if the failure shows it is bad"""
    f = D + "attempt_to_process_block"
    loc = c.loc(c.resolve(f))
    B = "Chainstate::check_legitimate_orphan($0, $2, $1).Ok.0"
    ro = "Chainstate::make_db_tx_ro($0).Ok.0"
    X = f"{CR}create_block_index_for_new_block({ro}, {B}, BlockStatus::new()).Ok.0"
    known = f"detail::get_block_index({ro}, WithId::get_id({B})).Ok.0"
    write = r"::set_new_block_index$|::invalidate_block$|::reset_block_failure_flags$|::set_validation_failed$"
    seen = set()
    for p in c.paths(f, **kw):
        rw = evs(p, r"::with_rw_tx$")
        c.ob("process#once", len(rw) <= 1, "integrated once", loc, repr(p)[:300])
        name = show(bare(rw[0].res)) if rw else None
        st = lambda t: re.sub(r"(?<=[)\]])@\d+", "", show(bare(t)).replace(name, "RW") if name else show(bare(t)))
        va, tr = {st(t): v for t, v in p.var.items()}, {st(t): v for t, v in p.truth.items()}
        bad = [s for s, v in va.items() if v == "Err"]
        did = [st(e.res) for e in p.events if re.search(write, e.name)]
        if p.kind == "panic":
            c.ob("process#panic", "assert" in str(p.msg) and not did, "must not panic", loc, repr(p)[:300])
            continue
        r = st(p.ret)
        if rw:
            c.ob("process#new", va.get(known) == "None", "only a block that is not known is integrated", loc, repr(p)[:400])
            if rw[0].args[1].tag == "clos" and "do" not in seen:
                seen.add("do")
                from ..vf import Machine
                q = [q for q in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(rw[0].args[1], [mk("arg", "?0")]) if q.kind != "panic"]
                c.ob("process#do", q and all(st(x.ret) == f"Chainstate::integrate_block($?0, {B}, {X})" for x in q), "what is done is to integrate the block", loc, " ; ".join(st(x.ret) for x in q)[:500])
        if r.startswith("Ok("):
            saved = f"detail::get_existing_block_index({ro}, WithId::get_id({B})).Ok.0"
            reorg = tr.get("RW.Ok.0")
            c.ob("process#ok", va.get("RW") == "Ok" and reorg is not None and r == (f"Ok(Some({saved}))" if reorg else "Ok(None)") and not did, "what became the tip is told", loc, r[:300])
            seen.add(f"ok{reorg}")
        elif va.get(known) == "Some":
            good = tr.get(f"BlockStatus::is_ok(BlockIndex::status({known}.Some.0))")
            c.ob("process#known", not rw and not did and r == f"Err(BlockError::{'' if good else 'Invalid'}BlockAlreadyProcessed(WithId::get_id({B})))" .replace("InvalidBlock", "InvalidBlock"), "a known block is not processed again", loc, r[:300])
            seen.add(f"known{good}")
        elif va.get("RW") == "Err":
            k = va.get("RW.Err.0")
            e = f"RW.Err.0.{k}"
            sure = tr.get(f"BlockProcessingErrorClass::block_should_be_invalidated(BlockProcessingErrorClassification::classify({e}.0))")
            if sure is None:
                sure = next((v for s, v in tr.items() if "block_should_be_invalidated(" in s and f"classify({e}.0)" in s), None)
            mark = f"Chainstate::set_new_block_index($0, BlockIndex::with_status({X}, {e}.1))"
            if k == "BlockCheckError":
                want, back = (["BlockStatus::set_validation_failed(" + e + ".1)", mark] if sure else []), f"Err({e}.0)"
                for x in evs(p, r"Chainstate(::<[^:]*>)?::set_new_block_index$"):
                    c.ob("process#failed", "out0[BlockStatus::set_validation_failed(" in show(x.args[1]), "what is kept is that it failed", loc, show(x.args[1])[-300:])
            elif k == "ConnectBlockErrorDuringReorg":
                want, back = ([mark, f"BlockInvalidator::invalidate_block(BlockInvalidator::new($0), {e}.2, IsExplicit::No)"] if sure else []), f"Err({e}.0)"
                if len(bad) > 1:
                    c.ob("process#unread", not did, "", loc, repr(p)[:300])
                    continue
            elif k == "BlockCommitError":
                want, back = [], f"Err(BlockError::DbCommitError({e}.1, {e}.2, DbCommittingContext::Block({e}.0)))"
            else:
                want, back = [], f"Err({e}.0)"
            c.ob("process#blame " + str(k), did == want and r == back and (sure is not None or not want and k not in ("BlockCheckError", "ConnectBlockErrorDuringReorg")), "a block is marked as bad only if the failure shows that it is, and then it is", loc, " ; ".join(did)[:500] + " RESULT " + r[:200])
            seen.add(f"{k}{sure}")
        else:
            c.ob("process#err", bad and not did and r.startswith("Err("), "fails only if something failed", loc, repr(p)[:400])
    for x in ("do", "okTrue", "okFalse", "knownTrue", "knownFalse", "BlockCheckErrorTrue", "BlockCheckErrorFalse", "ConnectBlockErrorDuringReorgTrue", "ConnectBlockErrorDuringReorgFalse"):
        c.ob("process#" + x, x in seen, "this case must exist: " + x, loc, str(sorted(seen)))
    f = D + "set_new_block_index"
    for p in c.paths(f, **kw):
        for e in evs(p, r"::with_rw_tx$"):
            from ..vf import Machine
            q = [q for q in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(e.args[1], [mk("arg", "?0")]) if q.kind != "panic"]
            c.ob("mark", q and all(show(x.ret) == f"{CR}set_new_block_index($?0, $1)" for x in q), "what is stored is this index", c.loc(f), " ".join(show(x.ret) for x in q)[:300])
            c.ob("mark#result", show(p.ret) == show(e.res), "and whether it was", c.loc(f), show(p.ret)[:200])


def arrivals(c):
    first, then = "Chainstate::attempt_to_process_block($0, $1, $2)", "Chainstate::process_orphans_of($0, WithId::get_id($1))"
    then_ = "Chainstate::process_orphans_of(_, WithId::get_id($1))"
    tell = lambda x: [f"Chainstate::update_initial_block_download_flag($0, GenBlockIndexRef::Block({x}.Ok.0.Some.0), false)", f"Chainstate::broadcast_new_tip_event($0, GenBlockIndexRef::Block({x}.Ok.0.Some.0), Chainstate::is_initial_block_download($0))"]
    rx = r"::(attempt_to_process_block|process_\w+|update_initial\w+|broadcast_\w+)$"
    steps(c, "arrival", D + "process_block_and_related_orphans", rx, [
        (f"{then_}.Ok.0 is Some", [first, then] + tell(then), f"Ok({then}.Ok.0) || Ok(Some({then}.Ok.0.Some.0))"),
        (f"{then_}.Ok.0 is None & {first}.Ok.0 is Some", [first, then] + tell(first), f"Ok({first}.Ok.0) || Ok(Some({first}.Ok.0.Some.0))"),
        (f"{then_}.Ok.0 is None & {first}.Ok.0 is None", [first, then], f"Ok({first}.Ok.0) || Ok(None)")], panics="expect 'valid target'", **go)
    f = D + "process_block"
    loc, do, chk = c.loc(c.resolve(f)), "Chainstate::process_block_and_related_orphans($0, $1, $2)", "Chainstate::check_consistency($0)"
    for p in c.paths(f, **kw):
        va, r = {show(bare(t)): v for t, v in p.var.items()}, show(bare(p.ret))
        s = [show(bare(e.res)) for e in p.events if re.search(r"::(process_\w+|check_consistency)$", e.name)]
        c.ob("processed", p.kind == "ret" and s == [do, chk] and (r.startswith("Err(") if va.get(chk) == "Err" else r == do), "the block is processed, the chain is consistent, and the outcome is told", loc, repr(p)[:300])
    g = f"ChainConfig::genesis_block_id({CFG})"
    T = "Transactional::transaction_rw($0.chainstate_storage, None).Ok.0"
    db = f"PoSAccountingDB::new({T})"
    pool = [f"Chainstate::create_pool_in_storage($0, PoSAccountingDelta::new({db}))", f"view_impls::batch_write_delta({db}, PoSAccountingDelta::consume(PoSAccountingDelta::new({db})))"]
    rand = f"PoSRandomness::new(ChainConfig::initial_randomness({CFG}))"
    steps(c, "genesis", D + "process_genesis", r"::(set_\w+|initialize_db|create_pool_in_storage|batch_write_delta|commit)$", [("", [
        f"{SW}set_best_block_id({T}, {g})", f"{SW}set_block_id_at_height({T}, BlockHeight::zero(), {g})", f"EpochStorageWrite::set_epoch_data({T}, 0, EpochData::new({rand}))", f"UtxosDB::initialize_db({T}, {CFG})"] + pool * 2 +
        [f"TransactionRw::commit({T})"], "Ok(())")], panics="expect 'Genesis database", **go)


PARTS += [processing, arrivals]
