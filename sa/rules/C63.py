"""The orphan pool's indexes agree with what is in it; what a transaction needs and provides; who may wait there."""
from ..rule import *
from .C61 import judge, eta, views
CRATES = ["mempool"]
P = "mempool::pool::"
O = P + "orphans::"
M = O + "TxOrphanPoolMaps::"
POOL = O + "TxOrphanPool::"
E = P + "entry::TxEntry"
D = P + "dependency::"
STOP = CLOSED.replace(r"^(?!", r"^(?!" + O + r"(?!TxOrphanPoolMaps::(?:insert|remove)$|TxOrphanPool::(?:remove_at|insert|enforce_limits|remove_expired|enforce_max_size|children_of)$)|")
DEP = CLOSED.replace(r"^(?!", r"^(?!" + D + "|")
ID, AT, FROM = "tx_id($1)", "creation_time($1)", "origin($1)"


def last(n):
    return n.rsplit("::", 1)[-1]


def plain(s):
    """eta, with paths in front of calls left out"""
    s = eta(s)
    s = re.sub(r"(?:\w+::)*(?:<[^<>]*>::)*(?:TxEntry|InternalId|SmallVec|AccountNonce|TxOrphanPoolMaps|TxOrphanPool|PoolEntry|BTreeSet|BTreeMap)::(?=\w+\()", "", s)
    return re.sub(r"\b(?:\w+::)+(\w+)(?=[({])", r"\1", s)


class W:
    def __init__(self, v):
        self.v, self.p = v, v.p
        self.va = {plain(k): x for k, x in v.va.items()}
        self.tr = {plain(k): x for k, x in v.tr.items()}
        self.ret = plain(v.t(v.p.ret)) if v.p.ret is not None and v.p.kind != "panic" else v.p.kind
        ph = {show(t): plain(show(i)) for t, i in v.p.phi.items()}
        self.out = {}
        for k, x in v.outs().items():
            x = plain(x)
            self.out[k] = "loop:" + ph[x] if x in ph else x
        self.ends = [plain(e) for e in v.ends]
        self.turn = {k: (ph_, plain(n)) for k, (ph_, n) in ((plain(a), b) for a, b in v.steps().items())} if v.p.kind == "back" else {}


def looks(c, fid, stop=STOP):
    return [W(v) for v in views(c, fid, stop)]


def extended(c, t, key, loc, iid):
    """the closure that says what is added for each of what is needed"""
    n = 0
    for s in subterms(t):
        if s.tag == "map" and s.args[1].tag in ("clos", "closure"):
            for p in Machine(c.F, stop=STOP, inline=c.F.crates).run_closure(s.args[1], [mk("arg", "?0")]):
                n += 1
                c.ob(key + "#closure", p.kind == "ret" and show(bare(p.ret)) == f"($?0, {iid})", "each is kept with the internal id", loc, show(p.ret) if p.ret is not None else p.kind)
    return n


def maps(c):
    # putting in
    fid = M + "insert"
    loc = c.loc(fid)
    rets = 0
    for w in looks(c, fid):
        if w.p.kind == "panic":
            c.ob("put#panic", any(k.startswith("mapget(") and v == "Some" for k, v in w.va.items()), "stops only if it is there already", loc, str(w.va)[:300])
            continue
        want = {"by_tx_id": f"mapset($0.by_tx_id, {ID}, $2)", "by_insertion_time": f"mapset($0.by_insertion_time, ({AT}, $2), ())", "by_origin": f"mapset($0.by_origin, ({FROM}, $2), ())"}
        got = dict(w.out)
        deps = got.pop("by_deps", "")
        if w.p.kind == "back":
            (s, (ph, nx)), = list(w.turn.items()) or [("", ("", ""))]
            c.ob("put#turn", s == "$0.by_deps" and nx == f"mapset({ph}, (elem(required_deps($1)), $2), ())", "each of what it needs leads to it", loc, nx[:300])
            continue
        rets += 1
        c.ob("put#keys", got == want, "the id, the time and the origin all lead to it", loc, str(got)[:500])
        if deps == "loop:$0.by_deps":
            c.ob("put#deps", "iter(required_deps($1))" in w.ends, "all of what it needs", loc, str(w.ends)[:300])
        else:
            m = re.match(r"out0\[extend\(\$0\.by_deps, map\(iter\(required_deps\(\$1\)\), closure<.*\)\)\]$", deps)
            c.ob("put#deps", m and extended(c, w.p.out(mk("arg", 0)), "put", loc, "$2") == 1, "all of what it needs leads to it", loc, deps[:300])
    c.ob("put#some", rets == 1, "one way to succeed", loc, str(rets))
    # taking out
    fid = M + "remove"
    loc = c.loc(fid)
    I = f"mapget($0.by_tx_id, {ID}).Some.0"
    want = {"by_tx_id": f"mapdel($0.by_tx_id, {ID})", "by_insertion_time": f"mapdel($0.by_insertion_time, ({AT}, {I}))", "by_origin": f"mapdel($0.by_origin, ({FROM}, {I}))"}
    n = 0
    for w in looks(c, fid):
        if w.p.kind == "panic":
            c.ob("drop#panic", any(k.startswith("mapget(") and v == "None" for k, v in w.va.items()), "stops only if it is not there", loc, str(w.va)[:300])
            continue
        if w.p.kind == "back":
            (s, (ph, nx)), = list(w.turn.items()) or [("", ("", ""))]
            c.ob("drop#turn", s == "$0.by_deps" and nx == f"mapdel({ph}, (elem(required_deps($1)), {I}))", "each of what it needed no longer leads to it", loc, nx[:300])
            n += 1
            continue
        got = dict(w.out)
        deps = got.pop("by_deps", "")
        c.ob("drop#keys", got == want, "the id, the time and the origin no longer lead to it", loc, str(got)[:600])
        c.ob("drop#deps", deps == "loop:$0.by_deps" and "iter(required_deps($1))" in w.ends, "for all it needed", loc, deps[:200] + str(w.ends)[:200])
        n += 1
    c.ob("drop#some", n >= 2, "can succeed", loc, str(n))


def rows(c, key, fid, table, stop=STOP, turns=None, told=True):
    """table: (conditions, result or list or None=whatever, changes or None)"""
    loc = c.loc(fid)
    hit = set()
    for w in looks(c, fid, stop):
        if w.p.kind == "back":
            if turns is None:
                continue
            c.ob(key + "#turn", turns(w), "each turn as specified", loc, (str(w.turn) + w.ret + str(w.va))[:500])
            hit.add("turn")
            continue
        if w.p.kind == "panic" and str(w.p.msg).startswith("overflow"):
            continue
        bad = [k for k, x in w.va.items() if x == "Err"]
        if bad and told:
            c.ob(key + "#told", w.ret.startswith(("Err(", bad[-1])) and bad[-1] in w.ret, "a failure is told", loc, w.ret[:300])
            continue
        for i, (cond, want, out) in enumerate(table):
            if not all(lit(w, x) for x in cond.split(" & ") if x):
                continue
            hit.add(i)
            ws = want if isinstance(want, list) else [want]
            c.ob(key + f"#row[{cond}]", want is None or w.ret in ws, f"when {cond or 'always'} the result is {want}", loc, w.ret[:400])
            if w.p.kind != "panic" and out is not None:
                c.ob(key + f"#out[{cond}]", w.out == out or list(w.out.values()) == [out], f"when {cond or 'always'} this is changed: {out or 'nothing'}", loc, str(w.out)[:500])
            break
        else:
            c.ob(key + "#known", False, "a path outside the specified cases", loc, repr(w.p)[:500])
    for i, (cond, want, _) in enumerate(table):
        c.ob(key + f"#hit[{cond}]", i in hit or want is None or isinstance(want, list) and "panic" in want, f"no path handles the case {cond}", loc)
    if turns:
        c.ob(key + "#turns", "turn" in hit, "there is a turn", loc)


def lit(w, x):
    if x.startswith("end "):
        return x[4:] in w.ends
    if " is " in x:
        t, v = x.split(" is ")
        if t in w.va:
            return w.va[t] in v.split("/")
        ns = [{str(y) for y in s} for k, s in w.p.notvar.items() if plain(w.v.t(k)) == t]
        return bool(ns) and v == "other" or False
    if x.startswith("!"):
        return w.tr.get(x[1:]) is False
    return w.tr.get(x) is True


def pool(c):
    HAS = f"mapget($0.maps.by_tx_id, {ID}) is "
    PUT = "$0{maps:=out0[insert($0.maps, $1, InternalId(len($0.transactions)))],transactions:=out0[push($0.transactions, $1)]}"
    put = f"out0[enforce_max_size({PUT.replace(',trans', ', trans')}, 50000)]"
    fid = POOL + "insert"
    loc = c.loc(fid)
    rets = 0
    for w in looks(c, fid):
        p = w.p
        vs = [v for k, v in w.va.items() if k == f"mapget($0.maps.by_tx_id, {ID})"] or \
             [v for k, v in w.va.items() if k.startswith("mapget($0.maps.by_tx_id,")]
        pushed = any(last(e.name) == "push" for e in p.events)
        if p.kind == "panic":
            c.ob("insert#panic", not pushed and w.tr.get("lt(49999, len($0.transactions))") is True, "stops only beyond what ids can tell apart", loc, str(w.tr)[:200])
        elif w.ret == "Ok(TxStatus::InOrphanPoolDuplicate)":
            rets |= 1
            c.ob("insert#dup", not w.out and vs[:1] == ["Some"], "what is there already is told of and changes nothing", loc, str(w.va)[:300])
        else:
            o = plain(show(p.out(mk("arg", 0))))
            c.ob("insert#put", o == put, "otherwise it is put at the end and indexed there, within the hard limit", loc, o[:500])
            gone = next((v for k, v in w.tr.items() if k == f"lt(0, {put[5:-1]})"), None)
            if w.ret == "Err(OrphanPoolError::Full)":
                rets |= 2
                c.ob("insert#full", True, "", loc)
            else:
                rets |= 4
                c.ob("insert#in", w.ret == "Ok(TxStatus::InOrphanPool)" , "told to be in", loc, w.ret)
            raw = [(show(t), v) for t, v in p.var.items() if last(show(t).split("(")[0]) == "mapget"]
            # whether it was itself put out is looked up in what is left
            after = [v for t, v in raw if "enforce_max_size" in t]
            ok = (gone is False and not after) or (after[:1] == (["None"] if w.ret.startswith("Err") else ["Some"]))
            c.ob("insert#still", ok, "told to be in exactly if it was not put out itself", loc, str(raw)[:500])
    c.ob("insert#all", rets == 7, "duplicate, full and in are all possible", loc, str(rets))
    fid = POOL + "insert_and_enforce_limits"
    loc = c.loc(fid)
    n = 0
    end = "out0[enforce_limits(out0[insert($0, $1)], $2)]"
    for w in looks(c, fid):
        o = plain(show(w.p.out(mk("arg", 0))))
        if w.va.get("insert($0, $1)") == "Err":
            c.ob("limits#told", w.ret.startswith(("Err(", "insert($0, $1)")) and "insert($0, $1)" in w.ret, "a failure is told", loc, w.ret[:200])
            continue
        n += 1
        c.ob("limits#done", w.p.kind == "ret" and o == end, "it is put in and then the limits are kept", loc, o[:300])
        raw = [v for t, v in w.p.var.items() if last(show(t).split("(")[0]) == "mapget" and plain(show(t)) == f"mapget({end}.maps.by_tx_id, {ID})"]
        c.ob("limits#told", raw == (["None"] if w.ret == "Err(OrphanPoolError::Full)" else ["Some"]) and w.ret in ("Err(OrphanPoolError::Full)", "Ok(insert($0, $1).Ok.0)", "insert($0, $1)"),
             "it is told to be in exactly if it is still there after that", loc, w.ret[:200] + str(raw))
    c.ob("limits#both", n == 2, "both are possible", loc, str(n))

    GONE = "swap_remove($0.transactions, $1.0)"
    LEFT = f"slice::get(out0[{GONE}], $1.0)"
    one = f"out0[remove($0.maps, {GONE})]"
    fid = POOL + "remove_at"
    loc = c.loc(fid)
    seen = set()
    for w in looks(c, fid):
        o = {k: v.replace("slice::get", "get") for k, v in w.out.items()}
        moved = [v for k, v in w.va.items()][:1]
        two = f"out0[insert(out0[remove({one}, {LEFT}.Some.0)], {LEFT}.Some.0, $1)]".replace("slice::get", "get")
        if w.p.kind == "panic":
            continue
        c.ob("remove#what", w.ret == GONE, "what is at the place is taken out", loc, w.ret[:200])
        c.ob("remove#maps", o == {"maps": two if moved == ["Some"] else one, "transactions": f"out0[{GONE}]"},
             "it is taken out of the indexes, and the one moved to its place is indexed there", loc, str(o)[:600])
        seen |= set(moved)
    c.ob("remove#both", seen == {"Some", "None"}, "both when another is moved and when not", loc, str(seen))

    a, b = "remove_expired($0, $1)", "enforce_max_size($0, $0.transaction_count_limit)"
    x = "out0[remove_expired($0, $1)]"
    fid = POOL + "enforce_limits"
    o = [plain(show(w.p.out(mk("arg", 0)))) for w in looks(c, fid) if w.p.kind == "ret"]
    c.ob("both#limits", o and set(o) == {f"out0[enforce_max_size({x}, {x}.transaction_count_limit)]"}, "the old are put out, and then as many as are too many", c.loc(fid), str(o)[:400])

    def dropping(key, fid, what, cond, stop=STOP):
        """in a loop, what is removed in each turn, and when that goes on"""
        loc = c.loc(fid)
        n = 0
        for w in looks(c, fid, stop):
            ph = [show(t) for t, i in w.p.phi.items() if show(i) == "$0"]
            if len(ph) != 1:
                c.ob(key + "#loop", w.p.kind == "panic", "a loop over the pool", loc, repr(w.p)[:300])
                continue
            f, = ph
            tr = {k.replace(f, "P"): v for k, v in w.tr.items()}
            va = {k.replace(f, "P"): v for k, v in w.va.items()}
            o = plain(show(w.p.out(mk("arg", 0)))).replace(f, "P")
            o = re.sub(r"phi<[^>]*>", "R", o)
            tr = {re.sub(r"phi<[^>]*>", "R", k): v for k, v in tr.items()}
            if w.p.kind == "back":
                c.ob(key + "#turn", o == f"out0[remove_at(P, {what})]" and cond(va, tr, True), f"in each turn {what} is removed", loc, (o + str(va) + str(tr))[:500])
                n |= 1
            elif w.p.kind == "ret":
                c.ob(key + "#end", o == "P" and cond(va, tr, False), "it goes on for as long as there is any", loc, (o + str(va) + str(tr) + str(w.ends))[:500])
                n |= 2
        c.ob(key + "#both", n == 3, "turns and an end", loc, str(n))

    F = "first(P.maps.by_insertion_time)"
    old = f"lt({F}.Some.0.0.time, saturating_duration_sub($1, Duration{{secs: 50, nanos: Nanoseconds(0)}}).time)"
    dropping("old", POOL + "remove_expired", f"{F}.Some.0.1",
             lambda va, tr, on: va.get(F) == "Some" and tr.get(old) is True if on else va.get(F) == "None" or tr.get(old) is False)
    dropping("many", POOL + "enforce_max_size", "InternalId(random_range(R, Range{start: 0, end: len(P.transactions)}))",
             lambda va, tr, on: tr.get("lt($1, len(P.transactions))") is on)
    R = "range(P.maps.by_origin, range(($1, InternalId(0)), ($1, InternalId(65535)), incl()))"
    fid = POOL + "remove_by_origin"
    loc = c.loc(fid)
    n = 0
    for w in looks(c, fid):
        ph = [show(t) for t, i in w.p.phi.items() if show(i) == "$0"]
        if len(ph) != 1:
            c.ob("peer#loop", w.p.kind == "panic", "a loop over the pool", loc, repr(w.p)[:300])
            continue
        o = plain(show(w.p.out(mk("arg", 0)))).replace(ph[0], "P")
        if w.p.kind == "back":
            n |= 1
            c.ob("peer#turn", o in (f"out0[remove_at(P, elem({R}).1)]", f"out0[remove_at(P, next(iter({R})).Some.0.1)]", f"out0[remove_at(P, next({R}).Some.0.1)]"), "one of that origin is removed in each turn", loc, o[:300])
        elif w.p.kind == "ret":
            n |= 2
            es = [re.sub(r", closure<.*", "", e.replace(ph[0], "P")) for e in w.ends]
            nx = [v for k, v in w.va.items() if "next(" in k]
            c.ob("peer#end", o == "P" and (any(R in e for e in es) or nx == ["None"]), "until there is none", loc, (o + str(es))[:400])
    c.ob("peer#both", n == 3, "turns and an end", loc, str(n))

    IDX = "mapget($0.maps.by_tx_id, $1)"
    AT_ = f"slice::get($0.transactions, {IDX}.Some.0.0)"
    rows(c, "get", POOL + "get", [(f"{IDX} is None", "None", {}), (f"{IDX} is Some", [AT_, AT_.replace("slice::", ""), f"Some({AT_}.Some.0)".replace("slice::", ""), "panic"], {})])
    rows(c, "contains", POOL + "contains", [(f"{IDX} is None", "false", {}), (f"{IDX} is Some", "true", {})])
    rows(c, "entry", POOL + "entry", [(f"{IDX} is None", "None", {}), (f"{IDX} is Some", f"Some(PoolEntry{{pool: $0, iid: {IDX}.Some.0}})", {})])
    rows(c, "take", O + "PoolEntry::<'p>::take", [("", "remove_at($0.pool, $0.iid)", None)])


def children(c):
    fid = POOL + "children_of"
    loc = c.loc(fid)
    RNG = "range($0.maps.by_deps, range(({0}, InternalId(0)), ({1}, InternalId(65535)), incl()))"
    first = RNG.format("TxOutput(tx_id($1), 0)", "TxOutput(tx_id($1), 4294967295)")
    ps = looks(c, fid)
    for w in ps:
        t = w.p.ret
        ok = t.tag == "chain"
        c.ob("children#two", ok and len(ps) == 1, "those needing its outputs, and those needing what else it provides", loc, w.ret[:300])
        if not ok:
            continue
        utxo, other = t.args
        if show(utxo).startswith("flat_map"):
            utxo, other = other, utxo
        u = re.sub(r", closure<.*", "", plain(show(utxo)))
        c.ob("children#utxo", u in (f"map(iter({first})", f"map({first}"), "all that need any of its outputs", loc, u[:400])
        run = lambda f: list(Machine(c.F, stop=STOP, inline=c.F.crates).run_closure(f, [mk("arg", "?0")]))
        for p in run(utxo.args[1]):
            if p.kind == "ret":
                s = plain(show(bare(p.ret)))
                c.ob("children#utxoentry", re.fullmatch(r"(slice::)?get\(\$0\.transactions, \$\?0\.1\.0\)\.Some\.0", s), "the transaction at the id", loc, s[:200])
        o = plain(show(other))
        c.ob("children#other", re.match(r"flat_map\((iter\()?provided_non_utxo_deps\(\$1\)\)?, closure<", o), "for all else it provides", loc, o[:300])
        n = 0
        for p in run(other.args[1]):
            s = plain(show(bare(p.ret))) if p.kind == "ret" else ""
            rq = "into_requirement($?0)"
            rg = RNG.format(rq, rq).replace("$0.maps", "$0.maps")
            c.ob("children#need", re.sub(r", closure<.*", "", s) in (f"map(iter({rg})", f"map({rg}"), "all that need just that", loc, s[:400])
            n += 1
            if p.kind == "ret" and p.ret.tag == "map":
                for q in run(p.ret.args[1]):
                    if q.kind == "ret":
                        s = plain(show(bare(q.ret)))
                        c.ob("children#otherentry", re.fullmatch(r"(slice::)?get\(\$0\.transactions, \$\?0\.1\.0\)\.Some\.0", s), "the transaction at the id", loc, s[:200])
        c.ob("children#n", n, "closure seen", loc)
    fid = P + "TxFinalizer::<'a>::enqueue_children"
    loc = c.loc(fid)
    X = "children_of($0.orphan_pool, $1)"
    want = f"insert($0.work_queue, peer_id(origin(elem({X}))), tx_id(elem({X})))"
    n = 0
    for w in looks(c, fid):
        if w.p.kind == "back":
            es = [plain(show(e.res)) for e in w.p.events if last(e.name) == "insert"]
            c.ob("enqueue#turn", es == [want], "each child is put in its peer's queue", loc, str(es)[:300])
            n += 1
        elif w.p.kind == "ret":
            c.ob("enqueue#all", f"iter({X})" in w.ends, "all children", loc, str(w.ends))
    c.ob("enqueue#some", n, "there is a turn", loc)


def ready(c):
    fid = O + "PoolEntry::<'p>::is_ready"
    loc = c.loc(fid)
    seen = set()
    for w in looks(c, fid):
        if w.p.kind == "panic":
            continue
        x = [k for k in w.va if k.startswith("elem(required_deps(")]
        kind = w.va.get(x[0]) if x else None
        held = [v for k, v in w.va.items() if k.startswith("mapget($0.pool.maps.by_tx_id, elem(required_deps(") and k.endswith(".TxOutput.0)")]
        wait = kind == "TxOutput" and held == ["Some"]
        if w.p.kind == "back" and not w.ret.startswith(("Some", "None")):
            c.ob("ready#on", not wait and (kind != "TxOutput" or held == ["None"]), "no other need makes it wait", loc, str(w.va)[:300])
            seen.add("on")
        elif w.p.kind == "ret":
            c.ob("ready#ends", w.ret == ("false" if wait else "true") and (wait or any("required_deps(" in e and not re.search(r"skip|take", e) for e in w.ends)),
                 "not ready exactly if a transaction it spends from is itself waiting here", loc, w.ret + str(w.va)[:300] + str(w.ends))
            seen.add(w.ret)
    c.ob("ready#all", seen >= {"true", "false", "on"}, "all are possible", loc, str(seen))


def needs(c):
    N, I = "$0.AccountCommand.0", "$0.AccountCommand.1"
    TOKEN = ["MintTokens", "UnmintTokens", "LockTokenSupply", "FreezeToken", "UnfreezeToken", "ChangeTokenMetadataUri", "ChangeTokenAuthority"]

    def lists(xs):
        """a list and what was pushed to it, in any order"""
        out = []
        for p in permute(xs):
            s = "new()"
            for x in p:
                s = f"out0[push({s}, {x})]"
            out += [f"into_iter({s})", s, f"iter({s})"]
        return out

    def permute(xs):
        return [xs] if len(xs) < 2 else [xs, xs[::-1]]
    S = "get_tx_id(source_id($0.Utxo.0))"
    A = "account($0.Account.0).DelegationBalance.0"
    AN = "nonce($0.Account.0)"
    t = [(f"$0 is Utxo & {S} is None", lists([]), {}), (f"$0 is Utxo & {S} is Some", lists([f"TxOutput({S}.Some.0, output_index($0.Utxo.0))"]), {}),
         (f"$0 is Account & eq(0, value({AN}))", lists([f"DelegationSpending({A}, {AN})", f"DelegationCreation({A})"]), {}),
         (f"$0 is Account & !eq(0, value({AN}))", lists([f"DelegationSpending({A}, {AN})"]), {})]
    for k in TOKEN:
        t += [(f"$0 is AccountCommand & {I} is {k} & {z}eq(0, value({N}))", lists([f"TokenAccountManagement({I}.{k}.0, {N})"] + ([] if z else [f"TokenCreation({I}.{k}.0)"])), {}) for z in ("", "!")]
    t += [(f"$0 is AccountCommand & {I} is {k}", lists([]), {}) for k in ("FillOrder", "ConcludeOrder")]
    t += [(f"$0 is OrderAccountCommand & $0.OrderAccountCommand.0 is {k}", lists([f"OrderCreation($0.OrderAccountCommand.0.{k}.0)"]), {}) for k in ("FillOrder", "FreezeOrder", "ConcludeOrder")]
    rows(c, "needs.input", D + "TxRequiredDependency::from_input", t, DEP)
    none = ["Transfer", "LockThenTransfer", "Burn", "CreateStakePool", "ProduceBlockFromStake", "IssueFungibleToken", "IssueNft", "DataDeposit", "Htlc", "CreateOrder"]
    rows(c, "needs.output", D + "TxRequiredDependency::from_output",
         [("$0 is CreateDelegationId", "Some(PoolCreation($0.CreateDelegationId.1))", {}), ("$0 is DelegateStaking", "Some(DelegationCreation($0.DelegateStaking.1))", {})] + [(f"$0 is {k}", "None", {}) for k in none], DEP)
    rows(c, "consumed", D + "TxRequiredDependency::into_consumed",
         [(f"$0 is {k}", f"Some({k}($0.{k}.0, $0.{k}.1))", {}) for k in ("TxOutput", "DelegationSpending", "TokenAccountManagement")] +
         [(f"$0 is {k}", "None", {}) for k in ("PoolCreation", "DelegationCreation", "TokenCreation", "OrderCreation")], DEP)
    # provided
    inc = f"increment({N})"
    rows(c, "gives.input", D + "TxProvidedNonUtxoDependency::from_input",
         [("$0 is Utxo", "None", {}), ("$0 is OrderAccountCommand", "None", {}), (f"$0 is Account & increment({AN}) is None", "None", {}),
          (f"$0 is Account & increment({AN}) is Some", f"Some(DelegationSpending({A}, increment({AN}).Some.0))", {}), (f"$0 is AccountCommand & {inc} is None", "None", {})] +
         [(f"$0 is AccountCommand & {I} is {k} & {inc} is Some", f"Some(TokenAccountManagement({I}.{k}.0, {inc}.Some.0))", {}) for k in TOKEN] +
         [(f"$0 is AccountCommand & {I} is {k}", "None", {}) for k in ("FillOrder", "ConcludeOrder")], DEP)
    fid = D + "TxProvidedNonUtxoDependency::from_output"
    made = {"CreateOrder": ("make_order_id($2)", "OrderCreation"), "IssueFungibleToken": ("make_token_id_with_version(TokenIdGenerationVersion::V1, $2)", "TokenCreation"),
            "CreateDelegationId": ("make_delegation_id($2)", "DelegationCreation")}
    none = ["Transfer", "LockThenTransfer", "IssueNft", "Htlc", "ProduceBlockFromStake", "Burn", "DelegateStaking", "DataDeposit"]
    t = [("$0 is CreateStakePool", "Some(PoolCreation($0.CreateStakePool.0))", {})]
    for k, (m, x) in made.items():
        t += [(f"$0 is {k} & {m} is Err", ["None", "panic"], {}), (f"$0 is {k}", f"Some({x}({m}.Ok.0))", {})]
    rows(c, "gives.output", fid, t + [(f"$0 is {k}", "None", {}) for k in none], DEP, told=False)
    both = ["PoolCreation", "DelegationCreation", "TokenCreation", "OrderCreation"]
    two = ["DelegationSpending", "TokenAccountManagement"]
    rows(c, "as.need", D + "TxProvidedNonUtxoDependency::into_requirement",
         [(f"$0 is {k}", f"{k}($0.{k}.0)", {}) for k in both] + [(f"$0 is {k}", f"{k}($0.{k}.0, $0.{k}.1)", {}) for k in two], DEP)
    rows(c, "as.given", D + "TxProvidedNonUtxoDependency::from_requirement",
         [("$0 is TxOutput", "None", {})] + [(f"$0 is {k}", f"Some({k}($0.{k}.0))", {}) for k in both] + [(f"$0 is {k}", f"Some({k}($0.{k}.0, $0.{k}.1))", {}) for k in two], DEP)
    # of a whole transaction
    ins, outs = [f"SignedTransaction::{x}(TxEntry::transaction($0))" for x in ("inputs", "outputs")]
    for key, f, ty, how in (("needs", "required_deps", "TxRequiredDependency", "flat_map"), ("gives", "provided_non_utxo_deps", "TxProvidedNonUtxoDependency", "filter_map")):
        fid = E + "::<O>::" + f
        loc = c.loc(fid)
        for w in looks(c, fid, CLOSED.replace(r"^(?!", r"^(?!" + D + r"Tx\w+::from_tx|" + E + "|")):
            t = w.p.ret
            ok = t.tag == "chain"
            a, b = t.args if ok else (t, t)
            src = lambda x: re.sub(r"\b(?:\w+::)+(?=\w+\()", "", show(x.args[0])) if x.tag in ("map", "filter_map", "flat_map", "filter") else x.tag
            ga, gb = sorted([src(a), src(b)])
            c.ob(f"{key}.all#of", ok and [re.sub(r"^iter\((.*)\)$", r"\1", g.replace("transaction($0)", "T").replace("$0.transaction", "T")) for g in (ga, gb)] == ["inputs(T)", "outputs(T)"], "of all inputs and all outputs", loc, f"{ga} {gb}"[:300])
            for x in (a, b):
                io = "input" if "input" in src(x) else "output"
                fn = x.args[1]
                s = show(fn)
                c.ob(f"{key}.{io}#how", x.tag in (how, "flat_map", "filter_map"), "each can count", loc, x.tag)
                if s.startswith("fn "):
                    c.ob(f"{key}.{io}#fn", s.endswith(f"{ty}::from_{io}"), f"by {ty}::from_{io}", loc, s)
                else:
                    for p in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(fn, [mk("arg", "?0")]):
                        r = re.sub(r"\b(?:\w+::)+(?=\w+\()", "", show(bare(p.ret)))
                        r = r.replace("tx_id($0)", "I").replace("$0.tx_id", "I").replace("transaction($0)", "T").replace("$0.transaction", "T")
                        c.ob(f"{key}.{io}#fn", r in (f"from_{io}($?0)", f"from_{io}($?0, I, inputs(T))"), f"by {ty}::from_{io}", loc, r[:200])


def kinds(c):
    fid = O + "detect::OrphanType::from_error"
    loc = c.loc(fid)
    seen = set()
    for w in looks(c, fid):
        k = w.va.get("$0")
        G, H = "value($0.NonceIsNotIncremental.2)", "value($0.NonceIsNotIncremental.1)"
        inner = [v for x, v in w.va.items() if x.startswith("error($0.InputCheck.0") or x.endswith("error($0.InputCheck.0)")]
        r = w.ret.replace("OrphanType::", "")
        if k == "MissingOutputOrSpent" or k == "InputCheck" and inner == ["MissingUtxo"]:
            seen.add((k, "utxo"))
            c.ob(f"kind#{k}", r == "Ok(MissingUtxo)", "a missing output makes an orphan", loc, r)
        elif k == "NonceIsNotIncremental":
            less = w.tr.get(f"lt({G}, {H})")
            seen.add((k, less))
            c.ob(f"kind#nonce{less}", r == ("$0" if less else f"Ok(AccountNonceGap(sub({G}, {H})))") or less and r == "Err($0)", "a later nonce makes an orphan, an earlier one does not", loc, r)
        else:
            seen.add("other")
            c.ob("kind#other", r in ("Err($0)", "$0"), "nothing else does, and the error is told", loc, f"{k} {inner} {r}")
    c.ob("kind#all", seen == {("MissingOutputOrSpent", "utxo"), ("InputCheck", "utxo"), ("NonceIsNotIncremental", True), ("NonceIsNotIncremental", False), "other"}, "all are possible", loc, str(seen))
    # who may wait
    fid = P + "TxFinalizer::<'a>::try_add_orphan"
    loc = c.loc(fid)
    st = CLOSED.replace(r"^(?!", r"^(?!" + P + r"TxFinalizer|")
    n = 0
    TR = "try_map_origin($2, "
    for w in looks(c, fid, st):
        bad = [k for k, v in w.va.items() if v == "Err"]
        put = [e for e in w.p.events if last(e.name) == "insert_and_enforce_limits"]
        if w.p.kind != "ret":
            c.ob("policy#runs", False, "it always answers", loc, repr(w.p)[:300])
            continue
        size = [(k, v) for k, v in w.tr.items() if "size(" in k]
        gap = [(k, v) for k, v in w.tr.items() if "AccountNonceGap" in k]
        kd = [v for k, v in w.va.items() if k.startswith(("from_error($3)", "OrphanType::from_error($3)")) and v in ("AccountNonceGap", "MissingUtxo")]
        if not put:
            c.ob("policy#no", w.ret.startswith("Err(") and (bad or any(v for _, v in size + gap)), "turned away with the reason", loc, w.ret[:300])
            continue
        rbf = any(last(e.name) == "orphan_rbf_checks" for e in w.p.events)
        a = [plain(show(x)) for x in put[0].args]
        ok = a[0] == "$0.orphan_pool" and a[1].startswith(TR) and a[1].endswith(".Ok.0") and a[2] == "$0.cur_time"
        c.ob("policy#what", ok, "the transaction itself is put in, as of now", loc, str(a)[:300])
        c.ob("policy#size", len(size) == 1 and size[0][1] is False and re.fullmatch(r"lt\(20000, .*size\(try_map_origin\(\$2, .*\)\.Ok\.0\)+", size[0][0]), "it is not too large", loc, str(size)[:200])
        c.ob("policy#gap", kd == ["MissingUtxo"] and not gap or kd == ["AccountNonceGap"] and [v for _, v in gap] == [False] and gap[0][0].startswith("lt(2, "), "nor is the gap", loc, str(gap)[:200] + str(kd))
        c.ob("policy#rbf", rbf, "and it must not stand in conflict", loc)
        n += 1
        for k in w.va:
            if k.startswith("try_map_origin($2"):
                t, = [t for t in w.p.var if plain(w.v.t(t)) == k][:1]
                cl = [x for x in subterms(t) if x.tag in ("clos", "closure")]
                for q in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(cl[0], [mk("arg", "?0")]) if cl else []:
                    v = {show(bare(x)): y for x, y in q.var.items()}.get("$?0")
                    s = plain(show(q.ret))
                    c.ob(f"policy#origin{v}", v == "Remote" and s == "Ok($?0.Remote.0)" or v == "Local" and s.startswith("Err("), "only what a peer sent may wait", loc, f"{v} {s}")
    c.ob("policy#some", n >= 2, "both kinds can wait", loc, str(n))


def queue(c):
    Q = P + "work_queue::"
    st = CLOSED.replace(r"^(?!", r"^(?!" + Q + r"PeerQueue|")
    fid = Q + "WorkQueue::<W>::insert"
    loc = c.loc(fid)
    seen = set()
    for w in looks(c, fid, st):
        if w.p.kind != "ret":
            continue
        here = w.va.get("mapget($0.work_queue, $1)")
        seen.add(here)
        if here == "Some":
            c.ob("queue.more", set(w.out) == {"work_queue"} and "mapset(" in w.out["work_queue"] and "$2" in w.out["work_queue"] and w.out["work_queue"].startswith("mapset($0.work_queue, $1, "), "more work of a peer is kept with it, for a later turn", loc, str(w.out)[:300])
        else:
            s = w.out.get("scheduled", "")
            c.ob("queue.first", set(w.out) == {"work_queue", "scheduled"} and w.out["work_queue"].startswith("mapset($0.work_queue, $1, PeerQueue{") and "$2" in w.out["work_queue"] and "push($0.scheduled, $1)" in s and w.ret == "true", "a peer without work is given a turn, and the work is kept", loc, str(w.out)[:400])
    c.ob("queue.both", seen == {"Some", "None"}, "both are possible", loc, str(seen))
    rows(c, "queue.gone", Q + "WorkQueue::<W>::remove_peer", [("mapget($0.work_queue, $1) is Some", "true", {"work_queue": "mapdel($0.work_queue, $1)"}), ("mapget($0.work_queue, $1) is None", "false", None)], st)


def check(c):
    maps(c)
    pool(c)
    children(c)
    ready(c)
    needs(c)
    kinds(c)
    queue(c)
