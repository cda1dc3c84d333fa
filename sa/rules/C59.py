"""Invalidating a block: the block and all that descends from it are marked, each with the right mark, the chain goes down to below it and then to the best valid chain that remains; resetting
takes all these marks back."""
from ..rule import *
from ..vf import Machine
CRATES = ["common", "chainstate-types", "chainstate"]
B = "chainstate::detail::block_invalidation::"
I, K = B + "BlockInvalidator::<'a, S, V>::", B + "best_chain_candidates::"
R = "chainstate::detail::chainstateref::ChainstateRef::<'a, S, V>::"
W = "chainstate::detail::chainstateref::ChainstateRef::<'_, S, V>::"
CR, BI, BC = "ChainstateRef::", "BlockInvalidator::", "BestChainCandidates::"
RO = "Chainstate::make_db_tx_ro($0.chainstate).Ok.0"
# helpers of the module are looked into; the named steps are not
NEAR = CLOSED.replace(r"^(?!", r"^(?!chainstate::detail::block_invalidation::|") + r"|::(invalidate_stale_block|find_and_activate_best_chain|collect_stale_block_indices_in_branch|remove_tree_add_parent|best_item|is_empty|BestChainCandidates::new)$"
STEP = r"::(with_rw_tx|remove_orphans_of|invalidate_stale_block|find_and_activate_best_chain|disconnect_until|update_block_status|del_block_index_of_non_persisted_block|activate_best_chain|remove_tree_add_parent|set_block_index|set_min_height\w*)$"
kw = dict(stop=NEAR)
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
txt = lambda t: plain(show(bare(t)))


class Given:
    """the paths of a closure, judged as those of a function"""
    def __init__(self, c, ps, loc):
        self.c, self.ps, self.where = c, ps, loc

    def __getattr__(self, n):
        return getattr(self.c, n)

    def paths(self, *a, **k):
        return self.ps

    def loc(self, *a):
        return self.where


def inside(c, key, fid, then, n=1):
    """what is done in a storage transaction"""
    seen = {}
    for p in c.paths(fid, **kw):
        for e in evs(p, r"::with_rw_tx$"):
            t = unphi(p, e.args[1])
            c.ob(key + "#clos", t.tag == "clos" and match("$0.chainstate", txt(e.args[0])), "what is done must be known", c.loc(fid), show(t)[:200])
            if t.tag == "clos":
                seen.setdefault(show(t), (t, p))
    c.count(key + "#tx", len(seen), n)
    for t, p in seen.values():
        ps = Machine(c.F, stop=NEAR, inline=c.F.crates).run_closure(t, [mk("arg", "?0")])
        c.ob(key + "#paths", ps, "must do something", c.loc(fid))
        then(Given(c, ps, c.loc(fid)))


def outs(t):
    return plain(show(t))


def marking(c):
    f = I + "invalidate_stale_block"
    br = f"{BI}collect_stale_block_indices_in_branch($0, $1)"
    steps(c, "mark", f, STEP, [("", ["Chainstate::with_rw_tx($0.chainstate, __)", "Chainstate::remove_orphans_of($0.chainstate, $1)"], f"Ok({br}.Ok.0)")], stop=NEAR, see=bare)
    e = f"elem({br}.Ok.0)"
    at = f"eq(0, pos(iter({br}.Ok.0)))"

    def then(g):
        put = lambda m: [f"{CR}update_block_status($?0, {e}, out0[BlockStatus::{m}(BlockIndex::status({e}))])"]
        steps(g, "marks", f, STEP, [("", [], "Ok(())")], turns=[(f"{at} & $2 is Yes", put("set_explicitly_invalidated")), (f"{at} & $2 is No", put("set_validation_failed")), ("!" + at, put("set_has_invalid_parent"))], stop=NEAR)
        for p in g.ps:
            if p.kind == "ret" and show(p.ret) == "Ok(())":
                x = [plain(show(q[1])) for q in p.facts if q[0] == "exh"]
                c.ob("marks#all", x == [f"enumerate(iter({br}.Ok.0))"], "all of the branch is marked", g.where, str(x))
    inside(c, "marks", f, then)
    on = f"{CR}is_block_in_main_chain({RO}, T::into($1))"
    b = f"{CR}collect_block_indices_in_branch({RO}, $1)"
    g = I + "collect_stale_block_indices_in_branch"
    rows = [(f"{b} is Ok", f"Ok({b}.Ok.0) || {b}")]
    for p in c.paths(g, **kw):
        if p.kind == "panic":
            c.ob("stale#panic", holds(p, on + ".Ok.0"), "may give up only if the block is on the main chain", c.loc(g), repr(p)[:300])
        elif plain(sret(p)).startswith("Ok("):
            c.ob("stale", match(f"Ok({b}.Ok.0)", plain(sret(p))) and holds(p, "!" + on + ".Ok.0"), "the branch from the block on, if that is not on the main chain", c.loc(g), repr(p)[:300])
        else:
            c.ob("stale#failed", any(v == "Err" for v in p.var.values()), "fails only for storage", c.loc(g), repr(p)[:300])


def invalidate(c):
    f = I + "invalidate_block"
    on = f"{CR}is_block_in_main_chain({RO}, T::into($1))"
    idx, best, least = f"{CR}get_existing_block_index({RO}, $1)", f"{CR}get_best_block_index({RO})", f"{CR}get_min_height_with_allowed_reorg({RO})"
    deep = f"lt({least}.Ok.0.0, BlockIndex::block_height({idx}.Ok.0).0)"
    mark, go = f"{BI}invalidate_stale_block($0, $1, $2)", f"{BI}find_and_activate_best_chain($0)"
    steps(c, "invalidate", f, STEP, [(f"!{on}.Ok.0", [mark], "Ok(())"), (f"{on}.Ok.0 & {deep}", ["Chainstate::with_rw_tx($0.chainstate, __)", mark, go], "Ok(())")], refuse=[f"{on}.Ok.0 & !{deep}"], panics="invalidate genesis", stop=NEAR, see=bare)
    top = f"GenBlockId::chain_block_id(gen_block::classify(GenBlockIndex::block_id({best}.Ok.0), $0.chainstate.chain_config)).Some.0"
    inside(c, "down", f, lambda g: steps(g, "down", f, STEP, [("", [f"{CR}disconnect_until($?0, {top}, BlockIndex::prev_block_id({idx}.Ok.0))"], "Ok(_)")], stop=NEAR, see=bare))


def activate(c):
    f = I + "find_and_activate_best_chain"
    loc = c.loc(f)
    one = " || ".join(("Uint256([1, 0, 0, 0])", "const(common::uint::Uint256::ONE)"))
    add = f"Uint256::add(GenBlockIndex::chain_trust({CR}get_best_block_index({RO}).Ok.0), Uint256([1, 0, 0, 0]))"
    least = add + ".Some.0"
    seen = set()
    for p in c.paths(f, **kw):
        cand = [t for t in p.phi if txt(p.phi[t]) == f"{BC}new({RO}, {least}).Ok.0"]
        if p.kind == "panic":
            # nothing but what cannot be: the trust overflows, there is no best item of a set that is not empty, the best item has too little trust, a branch without its root
            why = [txt(t) for t, v in p.var.items() if v in ("None", "Less", "Greater")] + [txt(t) for t in p.truth]
            c.ob("activate#panic", any(re.match(r"Uint256::add\(GenBlockIndex::chain_trust|BestChainCandidates::best_item\(|Uint256::partial_cmp\(BestChainCandidates::best_item|.*(eq|len|first|is_empty)\(.*" + BI + r"(invalidate_stale_block|collect_stale)", w)
                                           for w in why), "must not panic", loc, repr(p)[:300])
            continue
        c.ob("activate#lost", not [e for e in dropped(p) if re.search(STEP, e.name)], "no outcome is dropped", loc, str(dropped(p))[:300])
        rw = evs(p, r"::with_rw_tx$")
        names = [e.name.split("::")[-1] for e in p.events if re.search(STEP + r"|::collect_stale_block_indices_in_branch$", e.name)]
        r = txt(p.ret) if p.kind == "ret" else "next"
        if not cand:
            c.ob("activate#before", r.startswith("Err(") and not names, "the candidates have more trust than the best block", loc, repr(p)[:400])
            continue
        P = txt(cand[0])
        va, tr = {txt(t): v for t, v in p.var.items()}, {txt(t): v for t, v in p.truth.items()}
        empty, best = tr.get(f"{BC}is_empty({P})"), va.get(f"{BC}best_item({P})")
        if r == "Ok(false)":
            seen.add("none")
            c.ob("activate#none", (empty is True or best == "None") and not names, "no reorganisation only if no candidate remains", loc, repr(p)[:400])
            continue
        if not rw:
            c.ob("activate#tried", r.startswith("Err("), "each candidate is tried", loc, repr(p)[:400])
            continue
        X = txt(rw[0].res)
        out = va.get(X)
        t = rw[0].args[1]
        c.ob("activate#what", t.tag == "clos", "what is done must be known", loc, show(t)[:200])
        if "do" not in seen and t.tag == "clos":
            seen.add("do")
            ps = Machine(c.F, stop=NEAR, inline=c.F.crates).run_closure(t, [mk("arg", "?0")])
            act = f"{CR}activate_best_chain($?0, {CR}get_existing_block_index($?0, {BC}best_item({P}).Some.0.block_id).Ok.0)"
            for q in ps:
                if q.kind == "panic":
                    c.ob("activate#do#panic", any(txt(k) == act + ".Ok.0" and v is False for k, v in q.truth.items()), "must not panic unless nothing happened", loc, repr(q)[:300])
                elif txt(q.ret).startswith("Ok("):
                    es = [txt(e.res) for e in q.events if re.search(STEP, e.name)]
                    c.ob("activate#do", es == [act] and not any(v == "Err" for v in q.var.values()), "the best candidate's chain is activated", loc, str(es)[:400])
                else:
                    wraps = txt(q.ret)
                    bad = [txt(k) for k, v in q.var.items() if v == "Err"]
                    c.ob("activate#do#failed", bad and (bad != [act] or "ReorgError(" in wraps and act + ".Err.0" in wraps), "a failed reorganisation is told as such", loc, wraps[:300])
        if r == "Ok(true)":
            seen.add("done")
            c.ob("activate#done", out == "Ok" and names == ["with_rw_tx"], "done once a chain was activated", loc, repr(p)[:400])
            continue
        kind = va.get(X + ".Err.0")
        re_ = f"{X}.Err.0.ReorgError.0"
        if out == "Err" and kind == "ReorgError" and va.get(re_) == "ConnectTipFailed":
            bid, err = f"{re_}.ConnectTipFailed.0", f"{re_}.ConnectTipFailed.1"
            sure = next((v for s, v in tr.items() if re.match(r"BlockProcessingErrorClass::block_should_be_invalidated\((\w+::)?classify\(|BlockProcessingErrorClass::block_should_be_invalidated\(BlockProcessingErrorClassification::classify\(", s) and err in s), None)
            took = f"{BI}invalidate_stale_block($0, {bid}, IsExplicit::No)" if sure else f"{BI}collect_stale_block_indices_in_branch($0, {bid})"
            want = ["with_rw_tx", "invalidate_stale_block" if sure else "collect_stale_block_indices_in_branch", "remove_tree_add_parent"]
            mine = [e for e in p.events if re.search(r"::(invalidate_stale_block|collect_stale_block_indices_in_branch)$", e.name)]
            good = sure is not None and names == want[:len(names)] and len(mine) <= 1 and all(re.sub(r"^(\w+::\w+\()[^,]*,", r"\1$0,", txt(e.res)) == took for e in mine)
            c.ob("activate#failed", good, "a block that cannot be connected is invalidated if it is at fault, and removed from the candidates in any case", loc, str(names) + " ".join(txt(e.res) for e in mine)[:500])
            if p.kind == "back":
                rm = evs(p, r"::remove_tree_add_parent$")
                good = len(rm) == 1
                if good:
                    a = rm[0].args
                    idx = txt(mine[0].res) + ".Ok.0" if mine else "?"
                    good = txt(a[0]) == P and txt(a[2]) == f"{idx}[0]" and txt(a[4]) == least and match(f"drop({idx}, 1) || skip({idx}, 1) || tail({idx}, 1) || slice({idx}, 1, _) || __", txt(a[3])) and idx in txt(a[3]) and "1" in txt(a[3]).replace(idx, "")
                    seen.add(f"again{sure} {txt(a[3]).replace(idx, 'X')}")
                c.ob("activate#again", good and names == want, "the next try is without the branch of the block that failed", loc, " ; ".join(txt(x) for e in rm for x in e.args)[:600])
        else:
            c.ob("activate#other", r.startswith("Err("), "any other failure is told", loc, repr(p)[:400])
    for x in ("none", "done", "do"):
        c.ob("activate#" + x, x in seen, "this must exist: " + x, loc, str(seen))
    for x in ("True", "False"):
        c.ob("activate#again" + x, any(s.startswith("again" + x) for s in seen), "this must exist: again", loc, str(seen)[:400])


def reset(c):
    f = I + "reset_block_failure_flags"
    br = f"{CR}collect_block_indices_in_branch({RO}, $1)"
    steps(c, "reset", f, STEP, [("", ["Chainstate::with_rw_tx($0.chainstate, __)", f"{BI}find_and_activate_best_chain($0)"], "Ok(())")], stop=NEAR, see=bare)
    e = f"elem({br}.Ok.0)"

    def then(g):
        steps(g, "cleared", f, STEP, [("", [], "Ok(())")], turns=[(f"!BlockIndex::is_persisted({e})", [f"{CR}del_block_index_of_non_persisted_block($?0, BlockIndex::block_id({e}))"]),
                                                                  (f"BlockIndex::is_persisted({e})", [f"{CR}update_block_status($?0, {e}, BlockStatus::with_cleared_fail_bits(BlockIndex::status({e})))"])], stop=NEAR)
        for p in g.ps:
            if p.kind == "ret" and show(p.ret) == "Ok(())":
                x = [plain(show(q[1])) for q in p.facts if q[0] == "exh"]
                c.ob("cleared#all", x == [f"iter({br}.Ok.0)"], "all of the branch is cleared", g.where, str(x))
    inside(c, "cleared", f, then)


def below(p, st, a, b):
    """is a < b on this path (both Uint256, for which partial_cmp always gives an answer); None if not decided, "never" if impossible"""
    for t, v in list(p.var.items()) + [(t, None) for t in p.notvar]:
        s = st(t)
        for x, y, low, not_low in ((a, b, "Less", {"Greater", "Equal"}), (b, a, "Greater", {"Less", "Equal"})):
            if s == f"Uint256::partial_cmp({x}, {y})" and v == "None":
                return "never"
            if s in (f"Uint256::partial_cmp({x}, {y}).Some.0", f"Uint256::cmp({x}, {y})"):
                if v is not None:
                    return v == low
                if low in p.notvar[t]:
                    return False
                if not_low <= set(p.notvar[t]):
                    return True
    return None


def candidates(c):
    A, Q = "ChainstateAccessor::", "BlockInfo::"
    IN = CLOSED.replace(r"^(?!", r"^(?!chainstate::detail::block_invalidation::best_chain_candidates::|")
    # all candidates: the tips with enough trust, that may be reorganised to
    f = K + "BestChainCandidates::new"
    loc = c.loc(f)
    least = f"{A}min_height_with_allowed_reorg($0).Ok.0"
    ids = f"{A}get_higher_block_ids_sorted_by_height($0, {least}).Ok.0"
    info = f"{A}get_block_info($0, elem({ids})).Ok.0"
    trust = f"{Q}chain_trust({info})"
    anc = f"{A}last_common_ancestor_in_main_chain($0, {A}block_info_to_gen({info}))"
    item = f"BestChainCandidatesItem{{chain_trust: {trust}, block_id: {Q}id({info})}}"
    n = {}
    for p in c.paths(f, stop=IN):
        if p.kind == "panic":
            c.ob("new#panic", False, "must not panic", loc, repr(p)[:300])
            continue
        c.ob("new#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        tr, va = {txt(t): v for t, v in p.truth.items()}, {txt(t): v for t, v in p.var.items()}
        sets = [t for t in p.phi if show(p.phi[t]) in ("emptymap()",)]
        if p.kind == "ret":
            r = show(p.ret)
            if r.startswith("Err("):
                c.ob("new#failed", "Err" in va.values(), "fails only for storage", loc, repr(p)[:300])
                continue
            x = [plain(show(q[1])) for q in p.facts if q[0] == "exh"]
            n["end"] = r
            c.ob("new#end", x == [f"rev(iter({ids}))"] or x == [f"rev({ids})"] or x == [f"iter(rev({ids}))"], "all blocks above are looked at, the highest first", loc, str(x))
            c.ob("new#result", any(r == f"Ok(BestChainCandidates({show(s)}))" for s in sets), "the candidates are told", loc, r[:200])
            n["cand"] = r
            continue
        # a turn
        ok = tr.get(f"BlockStatus::is_ok({Q}status({info}))")
        few = below(p, txt, trust, "$1")
        if few == "never":
            continue
        changed = {show(t): p.next[t] for t in sets if show(p.next[t]) != show(t)}
        if ok is False or few is True:
            n["skip"] = 1
            c.ob("new#skip", not changed, "a block that is bad, or has too little trust, is no candidate, nor is its parent ruled out", loc, repr(p)[:400])
            continue
        mg = [(t, v) for t, v in p.var.items() if t.tag == "mapget" and match(f"T::into(elem({ids})) || elem({ids}) || gen_block::from(elem({ids}))", txt(t.args[1]))]
        c.ob("new#asked", ok is True and few is False and len(mg) == 1, "it must be decided whether the block is fine, has enough trust and is a tip", loc, repr(p)[:400])
        if len(mg) != 1:
            continue
        par, is_tip = show(mg[0][0].args[0]), mg[0][1] == "None"
        cond = f"lt(GenBlockInfo::height({anc}.Ok.0).0, {least}.0)"
        deep = tr.get(cond)
        c.ob("new#parent", plain(show(changed.get(par, mk("unit")))) == f"mapset({par}, {Q}parent_id({info}), ())", "the parent is no tip", loc, str(changed)[:300])
        other = {k: v for k, v in changed.items() if k != par}
        if is_tip and deep is False:
            n["tip"] = 1
            c.ob("new#tip", len(other) == 1 and all(plain(show(v)) == f"mapset({k}, {item}, ())" for k, v in other.items()), "a tip that may be reorganised to is a candidate", loc, str({k: show(v) for k, v in other.items()})[:400])
            n["into"] = list(other)
        else:
            n["no tip" if not is_tip else "deep"] = 1
            c.ob("new#no", not other and (not is_tip or deep is True), "nothing else is", loc, str(other)[:300] + repr(p)[:300])
    for x in ("end", "skip", "tip", "no tip", "deep"):
        c.ob("new#" + x + "#exists", x in n, "this must exist: " + x, loc)
    c.ob("new#same", n.get("into") and n.get("end") == f"Ok(BestChainCandidates({n['into'][0]}))", "what is told is what was collected", loc, str(n)[:300])
    # taking a branch out
    f = K + "BestChainCandidates::remove_tree_add_parent"
    loc = c.loc(f)
    of = lambda x: f"BestChainCandidatesItem{{chain_trust: {Q}chain_trust({x}), block_id: {Q}id({x})}}"
    par = f"{A}gen_block_id_to_normal($1, {Q}parent_id($2))"
    pi = f"{A}get_block_info($1, {par}.Some.0)"
    see = set()
    for p in c.paths(f, stop=IN):
        if p.kind == "panic":
            c.ob("remove#panic", False, "must not panic", loc, repr(p)[:300])
            continue
        c.ob("remove#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        st = lambda t: plain(show(captured(p, map_term(t, lambda x: p.phi.get(x) if x.tag == "phi" else None))))
        ch = [(e.name.split(".")[-1], st(e.args[1])) for e in p.events if e.name in ("map.insert", "map.remove")]
        va, tr = {st(t): v for t, v in p.var.items()}, {st(t): v for t, v in p.truth.items()}
        if p.kind == "back":
            see.add("turn")
            c.ob("remove#each", ("remove", of("elem($3)")) in ch and ("insert" not in [x for x, _ in ch]), "each descendant is taken out", loc, str(ch)[:300])
            continue
        r = st(p.ret)
        x = [plain(show(q[1])) for q in p.facts if q[0] == "exh"]
        c.ob("remove#all", x == ["iter($3)"] and ("remove", of("$2")) in ch, "all descendants are, and the block", loc, str(x) + str(ch)[:200])
        added = [y for k, y in ch if k == "insert"]
        if r.startswith("Err("):
            c.ob("remove#failed", va.get(pi) == "Err" and not added, "fails only if the parent cannot be read", loc, repr(p)[:300])
            continue
        less = below(p, st, f"{Q}chain_trust({pi}.Ok.0)", "$4")
        if less == "never":
            continue
        enough = None if less is None else not less
        if va.get(par) == "None":
            see.add("genesis")
            c.ob("remove#genesis", not added, "genesis is no candidate", loc, str(added)[:300])
        else:
            see.add(enough)
            c.ob("remove#parent", enough is not None and added == ([of(pi + ".Ok.0")] if enough else []), "the parent becomes a candidate exactly if it has enough trust", loc, str(added)[:300] + repr(p)[:300])
    for x in ("turn", "genesis", True, False):
        c.ob(f"remove#{x}", x in see, f"this must exist: {x}", loc, str(see))
    c.table("best", c.paths(K + "BestChainCandidates::best_item", stop=IN), [("", "BTreeSet::last($0.0)")])
    c.table("empty", c.paths(K + "BestChainCandidates::is_empty", stop=IN), [("", "eq(len($0.0), 0) || eq(0, len($0.0))")])
    T = f"<{K}BestChainCandidatesItem as core::cmp::"
    c.table("item trust", c.paths(K + "BestChainCandidatesItem::chain_trust", stop=CLOSED), [("", "$0.chain_trust")])
    c.table("item id", c.paths(K + "BestChainCandidatesItem::block_id", stop=CLOSED), [("", "$0.block_id")])
    t, b = "Uint256::cmp($0.chain_trust, $1.chain_trust)", "Id::cmp($0.block_id, $1.block_id)"
    for p in c.paths(T + "Ord>::cmp", stop=CLOSED):
        s = show(p.ret)
        good = holds(p, f"{t} is Equal") and match(b + " || T::cmp($0.block_id, $1.block_id)", s) or any(holds(p, f"{t} is {x}") and s in (f"Ordering::{x}", t, x) for x in ("Less", "Greater")) or s in (
            "tuplecmp(($0.chain_trust, $0.block_id), ($1.chain_trust, $1.block_id))", "cmp(($0.chain_trust, $0.block_id), ($1.chain_trust, $1.block_id))", "tuple::cmp(($0.chain_trust, $0.block_id), ($1.chain_trust, $1.block_id))",
            "Ord::cmp(($0.chain_trust, $0.block_id), ($1.chain_trust, $1.block_id))")
        c.ob("order", p.kind == "ret" and good, "ordered by trust first, and by id among equals", c.loc(T + "Ord>::cmp"), repr(p)[:200] + " RESULT " + s)
    # what is asked of the chain
    Z = "<chainstate::detail::chainstateref::ChainstateRef<'_, S, V> as " + K + "ChainstateAccessor>::"
    for m, r in (("min_height_with_allowed_reorg", "get_min_height_with_allowed_reorg($0)"), ("get_higher_block_ids_sorted_by_height", "get_higher_block_ids_sorted_by_height($0, $1)"), ("get_block_info", "get_existing_block_index($0, $1)"),
                 ("last_common_ancestor_in_main_chain", "last_common_ancestor_in_main_chain($0, $1)")):
        x = CR + r
        c.table("asks " + m, c.paths(Z + m, stop=CLOSED), [(f"{x} is Ok", f"Ok({x}.Ok.0) || {x}"), (f"{x} is Err", f"Err({x}.Err.0) || {x}")])
    gb = "GenBlockId::chain_block_id(gen_block::classify($1, $0.chain_config))"
    c.table("asks gen", c.paths(Z + "gen_block_id_to_normal", stop=NEARER), [("", gb)])
    c.table("asks to", c.paths(Z + "block_info_to_gen", stop=CLOSED), [("", "T::into($0) || GenBlockIndex::Block($0) || gen_block_index::from($0)")])
    Y = f"<chainstate_types::block_index::BlockIndex as {K}BlockInfo>::"
    for m, r in (("id", "block_id"), ("parent_id", "prev_block_id"), ("chain_trust", "chain_trust"), ("status", "status"), ("height", "block_height")):
        c.table("is " + m, c.paths(Y + m, stop=CLOSED), [("", f"BlockIndex::{r}($0)")])
    c.table("is gen height", c.paths(f"<chainstate_types::gen_block_index::GenBlockIndex as {K}GenBlockInfo>::height", stop=CLOSED), [("", "GenBlockIndex::block_height($0)")])


NEARER = CLOSED.replace(r"^(?!", r"^(?!.*::chain_config$|")


def branch(c):
    """a branch: its root, and each block whose parent is in it"""
    f = R + "collect_block_indices_in_branch"
    loc = c.loc(f)
    root = f"{CR}get_existing_block_index($0, $1).Ok.0"
    ids = f"{CR}get_higher_block_ids_sorted_by_height($0, BlockHeight::next_height(BlockIndex::block_height({root}))).Ok.0"
    cur = f"{CR}get_existing_block_index($0, elem({ids})).Ok.0"
    par = f"GenBlockId::chain_block_id(gen_block::classify(BlockIndex::prev_block_id({cur}), $0.chain_config))"
    see = set()
    for p in c.paths(f, stop=CLOSED):
        va = {txt(t): v for t, v in p.var.items()}
        if p.kind == "panic":
            c.ob("branch#panic", va.get(par) == "None", "must not panic", loc, repr(p)[:300])
            continue
        c.ob("branch#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        acc = [t for t in p.phi if plain(show(p.phi[t])) == f"out0[Vec::push(Vec::new(), {root})]" or show(p.phi[t]) == f"vec![{root}]" or plain(show(p.phi[t])) == f"[{root}]"]
        ids_ = [t for t in p.phi if plain(show(p.phi[t])) in (f"mapset(emptymap(), BlockIndex::block_id({root}), ())", "mapset(emptymap(), $1, ())")]
        if p.kind == "ret":
            r = show(p.ret)
            if r.startswith("Err("):
                c.ob("branch#failed", "Err" in va.values(), "fails only for storage", loc, repr(p)[:300])
                continue
            x = [plain(show(q[1])) for q in p.facts if q[0] == "exh"]
            see.add("end")
            c.ob("branch#end", x == [f"iter({ids})"] and len(acc) == 1 and r == f"Ok({show(acc[0])})", "the branch is told, with all of it, its root first", loc, str(x) + r[:200])
            continue
        c.ob("branch#state", len(acc) == 1 and len(ids_) == 1, "the branch begins with its root", loc, str({show(k): show(v)[:80] for k, v in p.phi.items()})[:500])
        if len(acc) != 1 or len(ids_) != 1:
            continue
        a, m = acc[0], ids_[0]
        isin = va.get(f"mapget({show(m)}, {par}.Some.0)")
        if isin == "Some":
            good = plain(show(p.next[a])) == f"out0[Vec::push({show(a)}, {cur})]" and plain(show(p.next[m])) in (f"mapset({show(m)}, elem({ids}), ())", f"mapset({show(m)}, BlockIndex::block_id({cur}), ())")
        else:
            good = isin == "None" and p.next[a] == a and p.next[m] == m
        see.add(isin)
        c.ob("branch#turn", good, "a block is of the branch exactly if its parent is", loc, repr(p)[:300] + " NEXT " + show(p.next[a])[:200])
    for x in ("end", "Some", "None"):
        c.ob("branch#" + x, x in see, "this must exist: " + x, loc)
    q = "BlockchainStorageRead::get_block_tree_by_height($0.db_tx, $1)"
    f = R + "get_higher_block_ids_sorted_by_height"
    for p in c.paths(f, stop=CLOSED):
        s = plain(show(p.ret)) if p.kind == "ret" else "panic"
        c.ob("higher", (holds(p, q + " is Err") and s.startswith("Err(")) or match(f"Ok(T::collect(flatten(values({q}.Ok.0)))) || Ok(collect(flatten(iter(values({q}.Ok.0))))) || Ok(flatten(values({q}.Ok.0))) || Ok(flatten(iter(values({q}.Ok.0))))", s), "the blocks from a height on, in their order", c.loc(f), s[:300])
    st = f"{CR}set_block_index($0, BlockIndex::with_status($1, $2))"
    f = W + "update_block_status"
    steps(c, "status", f, STEP, [("", [st], "Ok(_)")], stop=CLOSED, see=bare)


PARTS = [marking, invalidate, activate, reset, candidates, branch]
