"""What a verifier gathered is written down completely: each kind of change to the state below it, under its own key, once; and a verifier read as a state tells what it has, else what is below."""
from ..rule import *
CRATES = ["tx-verifier", "chainstate"]
V = "tx_verifier::transaction_verifier::"
NEAR = CLOSED.replace(r"^(?!", r"^(?!tx_verifier::transaction_verifier::(flush|cached_operation)::|tx_verifier::transaction_verifier::(\w+::)*\w+::(data|txid_from_issuance)$|"
                      r"tx_verifier::transaction_verifier::(\w+::)*(AccountingBlockUndoCache|TokenIssuanceCache|PoSAccountingDeltaAdapter|CachedOperation)(::<\w+>)?::(data|txid_from_issuance|accounting_delta|get|take)$|"
                      r"tx_verifier::transaction_verifier::pos_accounting_delta_adapter::PoSAccountingOperationImpl::<'a, P>::|chainstate::detail::chainstateref::tx_verifier_storage::\w+$|")
QUIET = re.compile(r"(caller|log_utils::log|into|from|new|(?<=::)from_\w+|consume|default|to_string|fmt|map\.\w+)$|log::")
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
short = lambda s: re.sub(r"\b(?:\w+::)+(\w+)\(", r"\1(", plain(s))
txt = lambda t: short(show(bare(t)))


def does(c, key, fid, main, rows=None, out=None, mempool=False):
    """`main` is done, once, and what it gives is given; rows: (condition, result) instead"""
    loc = c.loc(fid)
    seen = set()
    for p in c.paths(fid, stop=NEAR):
        va = {txt(t): v for t, v in p.var.items()}
        if p.kind == "panic":
            c.ob(key + "#panic", mempool and va.get("$1") == "Mempool", "must not panic", loc, repr(p)[:300])
            continue
        r = txt(p.ret)
        es = [txt(e.res) for e in p.events if not QUIET.search(e.name)]
        if main is not None:
            m = main
            c.ob(key + "#once", es == [m], f"{m} must be done, and nothing else", loc, str(es)[:400])
            if r.startswith("Err("):
                c.ob(key + "#failed", va.get(m) == "Err" and f"{m}.Err.0" in r, "fails only as that does", loc, repr(p)[:300])
                continue
            if va.get(m) == "Err":
                c.ob(key + "#lost", r == m, "a failure is told", loc, r[:300])
                continue
            if not rows:
                c.ob(key, r in (m, f"Ok({m}.Ok.0)", f"Ok({m})") or (r == "Ok(())" and not re.match(r"get_", m)), "what it gives is given", loc, r[:300])
                seen.add("")
        for i, (cond, main_, want) in enumerate(rows or ()):
            k, v = cond.split(" is ")
            if va.get(k) == v or v == "Some" and any(x.startswith(k + ".Some") for x in va):
                seen.add(i)
                if v == "Some" and any(j for j, (o, _, _) in enumerate(rows) if o.startswith(k + ".Some")):
                    continue
                if main is None:
                    c.ob(key + f"#{cond}", es == main_, "when " + cond + f" this is done: {main_}", loc, str(es)[:300])
                    if main_ and va.get(main_[0]) == "Err":
                        c.ob(key + "#lost", r in (main_[0], f"Err({main_[0]}.Err.0)"), "a failure is told", loc, r[:300])
                        continue
                c.ob(key + f"#{cond}", r == want or main_ and r == f"Ok({main_[0]}.Ok.0)", "when " + cond + " the result is " + want, loc, r[:300])
        if rows:
            c.ob(key + "#known", any(va.get(o.split(" is ")[0]) == o.split(" is ")[1] for o, _, _ in rows), "a result must follow a condition", loc, repr(p)[:300])
        if out is not None:
            o = plain(show(p.out(mk("arg", 0))))
            c.ob(key + "#out", short(o) in out, "nothing else is changed", loc, o[:400])
    if rows:
        c.ob(key + "#rows", len(seen) == len(rows), "each case must exist", loc, str(seen))
    else:
        c.ob(key + "#some", seen, "must be able to succeed", loc)


def impls(c, crate, rx, table, key, skip=()):
    got = {}
    for i in c.F.ids(crate, rx):
        got.setdefault(i.split("::")[-1], []).append(i)
    for n, (main, rows, mem) in table.items():
        fs = got.pop(n, [])
        c.ob(f"{key}.{n}#one", len(fs) == 1, "there must be one such function", rx, str(fs))
        for f in fs:
            does(c, f"{key}.{n}", f, main, rows, mempool=mem)
    c.ob(key + "#all", not set(got) - set(skip), "no other function", rx, str(got))


ONLY = lambda main, mem=False: (main, None, mem)


def database(c):
    """the state in the database"""
    T = {"get_token_id_from_issuance_tx": ONLY("get_token_id($0.db_tx, $1)"), "get_token_aux_data": ONLY("get_token_aux_data($0.db_tx, $1)"), "get_account_nonce_count": ONLY("get_account_nonce_count($0.db_tx, $1)"),
         "get_utxo": ONLY("get_utxo($0.db_tx, $1)"), "get_best_block_for_utxos": ONLY("get_best_block_for_utxos($0.db_tx)"), "batch_write": ONLY("batch_write(new($0.db_tx), $1)"),
         "set_token_aux_data": ONLY("set_token_aux_data($0.db_tx, $1, $2)"), "del_token_aux_data": ONLY("del_token_aux_data($0.db_tx, $1)"), "set_token_id": ONLY("set_token_id($0.db_tx, $1, $2)"),
         "del_token_id": ONLY("del_token_id($0.db_tx, $1)"), "set_account_nonce_count": ONLY("set_account_nonce_count($0.db_tx, $1, $2)"), "del_account_nonce_count": ONLY("del_account_nonce_count($0.db_tx, $1)"),
         "batch_write_delta": ONLY("batch_write_delta(new($0.db_tx), $1)"), "batch_write_tokens_data": ONLY("batch_write_tokens_data(new($0.db_tx), $1)"), "batch_write_orders_data": ONLY("batch_write_orders_data(new($0.db_tx), $1)"),
         "get_token_data": ONLY("get_token_data($0.db_tx, $1)"), "get_circulating_supply": ONLY("get_circulating_supply($0.db_tx, $1)"), "get_order_data": ONLY("get_order_data($0.db_tx, $1)"),
         "get_ask_balance": ONLY("get_ask_balance($0.db_tx, $1)"), "get_give_balance": ONLY("get_give_balance($0.db_tx, $1)"), "get_all_order_ids": ONLY("get_all_order_ids($0.db_tx)"),
         "get_pool_delegation_share": ONLY("get_pool_delegation_share(new($0.db_tx), $1, $2)")}
    for n in ("get_pool_balance", "get_pool_data", "get_delegation_balance", "get_delegation_data", "get_pool_delegations_shares"):
        T[n] = ONLY(f"{n}(new($0.db_tx), $1)")
    for n, f, g in (("utxo", "undo_data", "from_utxo_block_undo"), ("pos_accounting", "pos_accounting_undo", "from_block_undo"), ("tokens_accounting", "tokens_accounting_undo", "from_block_undo"),
                    ("orders_accounting", "orders_accounting_undo", "from_block_undo")):
        w = "undo_data" if n == "utxo" else f + "_data"
        T[f"set_{n}_undo_data"] = ONLY(f"set_{w}($0.db_tx, $1.Chain.0, consume($2))", True)
        T[f"del_{n}_undo_data"] = ONLY(f"del_{w}($0.db_tx, $1.Chain.0)", True)
        x = f"get_{f}($0.db_tx, $1.Chain.0)"
        T[f"get_{f}"] = (x, [(f"{x}.Ok.0 is Some", None, f"Ok(Some({g}({x}.Ok.0.Some.0)))"), (f"{x}.Ok.0 is None", None, "Ok(None)")], True)
    impls(c, "chainstate", r"chainstateref::tx_verifier_storage::<impl.*>::\w+$", T, "db", skip=("apply_accounting_delta", "get_gen_block_index"))
    # (apply_accounting_delta: C58)
    f = [i for i in c.F.ids("chainstate", r"chainstateref::tx_verifier_storage::<impl.*>::get_gen_block_index$")]
    x = "get_block_index($0.db_tx, classify($1, $0.chain_config).Block.0)"
    for p in c.paths(f[0], stop=NEAR):
        va = {txt(t): v for t, v in p.var.items()}
        k, r = va.get("classify($1, $0.chain_config)"), txt(p.ret) if p.kind == "ret" else "panic"
        good = k == "Genesis" and r == "Ok(Some(GenBlockIndex::Genesis(genesis($0.chain_config))))" or k == "Genesis" and re.fullmatch(r"Ok\(Some\((GenBlockIndex::)?[gG]enesis\(.*\$0\.chain_config\)+", r) or \
            k == "Block" and (va.get(x) == "Err" and r in (x, f"Err({x}.Err.0)") or va.get(x + ".Ok.0") == "None" and r == "Ok(None)" or va.get(x + ".Ok.0") == "Some" and r == f"Ok(Some(Block({x}.Ok.0.Some.0)))")
        c.ob("db.index", good, "the record of genesis, or the one kept of the block", c.loc(f[0]), f"{va} {r}"[:400])


def overlay(c):
    """a verifier as the state below another"""
    T = {}
    op = lambda m, below: (None, [(f"{m} is None", [below], below), (f"{m}.Some.0 is Write", [], f"Ok(Some({m}.Some.0.Write.0))"), (f"{m}.Some.0 is Read", [], f"Ok(Some({m}.Some.0.Read.0))"), (f"{m}.Some.0 is Erase", [], "Ok(None)")], False)
    T["get_token_id_from_issuance_tx"] = op("mapget($0.token_issuance_cache.txid_vs_tokenid, $1)", "get_token_id_from_issuance_tx($0.storage, $1)")
    T["get_token_aux_data"] = op("mapget($0.token_issuance_cache.data, $1)", "get_token_aux_data($0.storage, $1)")
    T["get_account_nonce_count"] = op("mapget($0.account_nonce, $1)", "get_account_nonce_count($0.storage, $1)")
    U = (("utxo", "undo_data", "utxo_block_undo"), ("pos_accounting", "pos_accounting_undo", "pos_accounting_block_undo"), ("tokens_accounting", "tokens_accounting_undo", "tokens_accounting_block_undo"),
         ("orders_accounting", "orders_accounting_undo", "orders_accounting_block_undo"))
    for n, f, fld in U:
        T["get_" + f] = op(f"mapget($0.{fld}.data, $1)", f"get_{f}($0.storage, $1)")
        T[f"set_{n}_undo_data"] = ONLY(f"set_undo_data($0.{fld}, $1, $2)")
        T[f"del_{n}_undo_data"] = ONLY(f"del_undo_data($0.{fld}, $1)")
    T["get_gen_block_index"] = ONLY("get_gen_block_index($0.storage, $1)")
    T["get_utxo"] = ONLY("utxo($0.utxo_cache, $1)")
    T["set_token_aux_data"] = ONLY("set_token_aux_data($0.token_issuance_cache, $1, $2)")
    T["del_token_aux_data"] = ONLY("del_token_aux_data($0.token_issuance_cache, $1)")
    T["set_token_id"] = ONLY("set_token_id($0.token_issuance_cache, $1, $2)")
    T["del_token_id"] = ONLY("del_token_id($0.token_issuance_cache, $1)")
    T["apply_accounting_delta"] = ONLY("apply_accounting_delta($0.pos_accounting_adapter, $1, $2)")
    T["batch_write"] = ONLY("batch_write($0.utxo_cache, $1)")
    T["batch_write_delta"] = ONLY("batch_write_delta($0.pos_accounting_adapter, $1)")
    T["batch_write_tokens_data"] = ONLY("batch_write_tokens_data($0.tokens_accounting_cache, $1)")
    T["batch_write_orders_data"] = ONLY("batch_write_orders_data($0.orders_accounting_cache, $1)")
    some = lambda x: (x, [(f"{x} is Ok", None, f"Ok(Some({x}.Ok.0))")], False)
    D = "$0.pos_accounting_adapter.accounting_delta"
    for n in ("get_pool_data", "get_delegation_data", "get_pool_delegations_shares"):
        T[n] = ONLY(f"{n}({D}, $1)")
    for x in (f"get_pool_balance({D}, $1)", f"get_delegation_balance({D}, $1)", f"get_pool_delegation_share({D}, $1, $2)", "get_circulating_supply($0.tokens_accounting_cache, $1)",
              "get_ask_balance($0.orders_accounting_cache, $1)", "get_give_balance($0.orders_accounting_cache, $1)"):
        T[x.split("(")[0]] = some(x)
    T["get_token_data"] = ONLY("get_token_data($0.tokens_accounting_cache, $1)")
    T["get_order_data"] = ONLY("get_order_data($0.orders_accounting_cache, $1)")
    T["get_all_order_ids"] = ONLY("get_all_order_ids($0.orders_accounting_cache)")
    impls(c, "tx_verifier", r"transaction_verifier::hierarchy::<impl.*>::\w+$", T, "over", skip=("get_best_block_for_utxos", "set_account_nonce_count", "del_account_nonce_count"))
    H = {i.split("::")[-1]: i for i in c.F.ids("tx_verifier", r"transaction_verifier::hierarchy::<impl.*>::\w+$")}
    c.table("over.best", c.paths(H["get_best_block_for_utxos"], stop=NEAR), [("", "Ok($0.best_block)")])
    for n, o in (("set", "CachedOperation::Write($2)"), ("del", "CachedOperation::Erase")):
        f = H[n + "_account_nonce_count"]
        c.table(f"over.{n} nonce", c.paths(f, stop=NEAR), [("", "Ok(())")])
        for p in c.paths(f, stop=NEAR):
            s = plain(show(p.out(mk("arg", 0))))
            c.ob(f"over.{n} nonce#kept", s == f"$0{{account_nonce:=mapset($0.account_nonce, $1, {o})}}", "the nonce is noted, and nothing else", c.loc(f), s[:300])


def flushing(c):
    """all that was gathered is written, each kind to its own"""
    f = V + "flush::flush_to_storage"
    loc = c.loc(f)
    tok = "$1.token_issuance_cache"
    K = {f"{tok}.data": ("set_token_aux_data", "del_token_aux_data"), f"{tok}.txid_vs_tokenid": ("set_token_id", "del_token_id"), "$1.utxo_block_undo": ("set_utxo_undo_data", "del_utxo_undo_data"),
         "$1.pos_accounting_delta_undo": ("set_pos_accounting_undo_data", "del_pos_accounting_undo_data"), "$1.tokens_accounting_delta_undo": ("set_tokens_accounting_undo_data", "del_tokens_accounting_undo_data"),
         "$1.account_nonce": ("set_account_nonce_count", "del_account_nonce_count"), "$1.orders_accounting_delta_undo": ("set_orders_accounting_undo_data", "del_orders_accounting_undo_data")}
    B = ["batch_write(_, $1.utxo_cache)", "batch_write_delta(_, $1.accounting_delta)", "batch_write_tokens_data(_, $1.tokens_accounting_delta)", "batch_write_orders_data(_, $1.orders_accounting_delta)"]
    store = lambda s: re.sub(r"^(\w+)\((\$0|phi<[^>]*>)", r"\1(_", s)
    seen, n = set(), 0
    for p in c.paths(f, stop=NEAR):
        if p.kind == "panic":
            c.ob("flush#panic", any(txt(t).startswith(("lt(1, len(", "le(len(", "eq(len(", "lt(len(")) for t in p.truth), "must not panic", loc, repr(p)[:300])
            continue
        c.ob("flush#lost", not [e for e in dropped(p) if not QUIET.search(e.name)], "no failure is dropped", loc, str(dropped(p))[:200])
        es = [e for e in p.events if not QUIET.search(e.name)]
        all_ = [store(txt(e.res)) for e in es]
        va = {store(txt(t)): v for t, v in p.var.items()}
        each = [(k, v) for k, v in ((txt(t), v) for t, v in p.var.items()) if v in ("Write", "Read", "Erase")]
        turn = [s for s in all_ if s not in B]
        c.ob("flush#few", len(turn) <= 1 and len(set(all_)) == len(all_), "each is written once", loc, str(all_)[:400])
        if each:
            k, v = each[-1]
            m = re.fullmatch(r"elem\((.*)\)\.1", k)
            c.ob("flush#kind", len(each) == 1 and m and m.group(1) in K, "what is flushed must be known", loc, str(each)[:300])
            if not m or m.group(1) not in K:
                continue
            st, dl = K[m.group(1)]
            e = f"elem({m.group(1)})"
            want = {"Write": [f"{st}(_, {e}.0, {e}.1.Write.0)"], "Erase": [f"{dl}(_, {e}.0)"], "Read": []}[v]
            seen.add((m.group(1), v))
            c.ob("flush#turn", turn == want, f"{m.group(1)} {v}: {want}", loc, str(turn)[:300])
        elif turn:
            e = "elem($1.pos_accounting_block_deltas)"
            seen.add("blocks")
            c.ob("flush#blocks", turn == [f"apply_accounting_delta(_, {e}.0, {e}.1)"], "each block's changes go to its epoch", loc, str(turn)[:300])
        if p.kind != "ret":
            continue
        r = store(txt(p.ret))
        if r.startswith("Err("):
            c.ob("flush#failed", all_ and va.get(all_[-1]) == "Err", "fails only as the state below does", loc, repr(p)[:300])
            continue
        n += 1
        x = {re.sub(r"^iter\((.*)\)$", r"\1", plain(show(q[1]))) for q in p.facts if q[0] == "exh"}
        c.ob("flush#all", x == set(K) | {"$1.pos_accounting_block_deltas"} and sorted(all_) == sorted(B) and r == "Ok(())", "all of it is written", loc, f"{sorted(x)} {all_} {r}"[:600])
    c.ob("flush#done", n, "must be able to succeed", loc)
    for k in K:
        for v in ("Write", "Erase"):
            c.ob(f"flush#{k} {v}", (k, v) in seen, "this must exist", loc)
    c.ob("flush#blocks exist", "blocks" in seen, "this must exist", loc)
    # what is gathered is what is handed on
    f = V + "TransactionVerifier::<C, S, U, A, T, O>::consume"
    want = {"utxo_cache": "consume($0.utxo_cache)", "utxo_block_undo": "consume($0.utxo_block_undo)", "token_issuance_cache": "consume($0.token_issuance_cache)", "accounting_delta": "consume($0.pos_accounting_adapter).0",
            "pos_accounting_delta_undo": "consume($0.pos_accounting_block_undo)", "pos_accounting_block_deltas": "consume($0.pos_accounting_adapter).1", "account_nonce": "$0.account_nonce",
            "tokens_accounting_delta": "consume($0.tokens_accounting_cache)", "tokens_accounting_delta_undo": "consume($0.tokens_accounting_block_undo)", "orders_accounting_delta": "consume($0.orders_accounting_cache)",
            "orders_accounting_delta_undo": "consume($0.orders_accounting_block_undo)"}
    for p in c.paths(f, stop=CLOSED):
        t = p.ret.args[3][0] if p.ret is not None and p.ret.tag == "adt" and p.ret.args[1] == "Ok" else None
        got = {k: short(show(x)) for k, x in zip(t.args[2], t.args[3])} if t is not None and t.tag == "adt" else show(p.ret)
        c.ob("consume", got == want, "all that was gathered is handed on", c.loc(f), str(got)[:600])
    for n, fid, r in (("undo", V + "accounting_undo_cache::AccountingBlockUndoCache::<T>::consume", "$0.data"), ("utxo undo", V + "utxos_undo_cache::UtxosBlockUndoCache::consume", "$0.data"),
                      ("tokens", V + "token_issuance_cache::TokenIssuanceCache::consume", "ConsumedTokenIssuanceCache{data: $0.data, txid_vs_tokenid: $0.txid_vs_tokenid}"),
                      ("pos", V + "pos_accounting_delta_adapter::PoSAccountingDeltaAdapter::<P>::consume", "(PoSAccountingDelta::consume($0.accounting_delta), $0.accounting_block_deltas)")):
        c.table("consume " + n, c.paths(fid, stop=CLOSED), [("", r)])


def both(c):
    """each change to the pools is made in the whole and in the block's part"""
    A = V + "pos_accounting_delta_adapter::"
    O = f"<{A}PoSAccountingOperationImpl<'_, P> as pos_accounting::pool::operations::PoSAccountingOperations<pos_accounting::pool::operations::PoSAccountingUndo>>::"
    whole, part, src = "$0.adapter.accounting_delta", "$0.adapter.accounting_block_deltas", "$0.tx_source"
    for n, k in (("create_pool", 2), ("decommission_pool", 1), ("increase_staker_rewards", 2), ("create_delegation_id", 3), ("delete_delegation_id", 1), ("delegate_staking", 2), ("spend_share_from_delegation_id", 2), ("undo", 1)):
        f = O + n
        loc = c.loc(f)
        op = f"{n}(new({whole}), " + ", ".join(f"${i}" for i in range(1, k + 1)) + ")"
        made = f"consume(out0[{op}])"
        old = {"Some": f"mapget({part}, {src}).Some.0", "None": "default()"}
        got = set()
        for p in c.paths(f, stop=NEAR):
            if p.kind == "panic":
                c.ob(n + "#panic", False, "must not panic", loc, repr(p)[:300])
                continue
            va = {txt(t): v for t, v in p.var.items()}
            r = txt(p.ret)
            c.ob(n + "#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
            if r.startswith("Err("):
                c.ob(n + "#failed", "Err" in va.values(), "fails only if the change cannot be made", loc, repr(p)[:300])
                continue
            v = va.get(f"mapget({part}, {src})")
            got.add(v)
            o = next((short(show(p.m.snap(p.st, v_))) for k_, v_ in p.st.cells.items() if k_[0] == "h" and show(k_[1]) == "$0.adapter"), "$0.adapter")
            w = f"out0[merge_with_delta({whole}, {made})]"
            q = f"mapset({part}, {src}, out0[merge_with_delta({old.get(v)}, {made})])"
            want = [f"$0.adapter{{accounting_delta:={w}, accounting_block_deltas:={q}}}", f"$0.adapter{{accounting_block_deltas:={q}, accounting_delta:={w}}}"]
            c.ob(n, o.replace(" ", "") in [z.replace(" ", "") for z in want], "the change is made in the whole and in the block's part", loc, o[:600])
            c.ob(n + "#undo", r == f"Ok({op}.Ok.0)" or n == "undo" and r == "Ok(())", "what undoes it is given", loc, r[:200])
        c.ob(n + "#cases", got == {"Some", "None"}, "both with and without an earlier change of the block", loc, str(got))
    W = f"<{A}PoSAccountingOperationImpl<'_, P> as pos_accounting::pool::view::PoSAccountingView>::"
    for n, a in (("pool_exists", "$1"), ("get_pool_data", "$1"), ("get_pool_balance", "$1"), ("get_delegation_data", "$1"), ("get_delegation_balance", "$1"), ("get_pool_delegation_share", "$1, $2"), ("get_pool_delegations_shares", "$1")):
        does(c, "view." + n, W + n, f"{n}({whole}, {a})")
    P = A + "PoSAccountingDeltaAdapter::<P>::"
    does(c, "batch", P + "batch_write_delta", "batch_write_delta($0.accounting_delta, $1)", out=["$0{accounting_delta:=out0[batch_write_delta($0.accounting_delta, $1)]}"])
    f = P + "apply_accounting_delta"
    m = "mapget($0.accounting_block_deltas, $1)"
    for p in c.paths(f, stop=NEAR):
        va = {txt(t): v for t, v in p.var.items()}
        old = {"Some": m + ".Some.0", "None": "default()"}.get(va.get(m))
        x, o, r = f"merge_with_delta({old}, $2)", short(show(p.out(mk("arg", 0)))), txt(p.ret) if p.kind == "ret" else "panic"
        c.ob("block", o == f"$0{{accounting_block_deltas:=mapset($0.accounting_block_deltas, $1, out0[{x}])}}" and (r == "Ok(())" or va.get(x) == "Err" and r.startswith("Err(")), "the changes are added to the block's",
             c.loc(f), f"{o} {r}"[:400])


PARTS = [database, overlay, flushing, both]
