"""The set of unspent outputs: an output can be spent exactly once, and laying one layer over another changes nothing about what is seen."""
from itertools import product
from ..rule import *
CRATES = ["utxo"]
U = "utxo::cache::UtxosCache::<P>::"
VIEW = "<utxo::cache::UtxosCache<P> as utxo::view::UtxosView>::"
OWN = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|utxo::|<utxo::)"
STEP = OWN + r"|::(spend_utxo|add_utxo|has_utxo)$"
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
# what is known of an output in a layer: nothing, or (value, fresh, dirty); the layer below has a value or none
VALID = [None, ("E", True, True), ("E", False, True), ("E", False, False), ("S", True, False), ("S", False, True)]
KINDS = {"Transfer": True, "LockThenTransfer": True, "CreateStakePool": True, "ProduceBlockFromStake": True, "IssueNft": True, "Htlc": True,
         "CreateDelegationId": False, "DelegateStaking": False, "Burn": False, "IssueFungibleToken": False, "DataDeposit": False, "CreateOrder": False}
GOOD = [k for k, y in KINDS.items() if y]
GONE = "(spent)"


def sound(e, below):
    """does what is known fit the layer below?  fresh: it has none; not dirty: it has the same"""
    if e is None:
        return True
    v, fresh, dirty = e
    v = None if v == GONE else v
    return (not fresh or below is None) and (dirty or v == below) and not (v is None and fresh == dirty) and not (v is not None and fresh and not dirty)


def seen(e, below):
    return below if e is None else None if e[0] == GONE else e[0]


def worlds(name):
    """all ways an output can be known in a layer and the one below, which fit together: (known, below)"""
    for e in VALID:
        for below in (None, "below"):
            if e and e[0] == "E" and not e[2]:
                x = (below, e[1], e[2]) if below else None
            else:
                x = e and (GONE if e[0] == "S" else name, e[1], e[2])
            if (e is None or x) and sound(x, below):
                yield x, below


def told(at, e, val):
    """the facts about an entry at `at` in state e; val: what its value is called"""
    if e is None:
        return {}
    yn = lambda b: "Yes" if b else "No"
    return {at + ".status": "Spent" if e[0] == GONE else "Entry", at + ".is_fresh": yn(e[1]), at + ".is_dirty": yn(e[2])}


def possible(p, facts):
    for d, neg in ((p.var, False), (p.truth, False), (p.notvar, True)):
        for t, v in d.items():
            s = plain(show(unphi(p, t)))
            m = re.match(r"(?:UtxoStatus::)?eq\((.*), UtxoStatus::Spent\)$|(?:UtxoStatus::)?eq\(UtxoStatus::Spent, (.*)\)$", s)
            if m:
                s, v = m[1] or m[2], "Spent" if v else "Entry"
            if s in facts and ((facts[s] in v) if neg else facts[s] != v):
                return False
    return True


def entry(p, t, facts, vals):
    """an entry written, as (value, fresh, dirty); None for what cannot be told"""
    def part(t, n):
        if t.tag == "upd":
            for v, m, x in t.args[1]:
                if m == n:
                    return plain(show(unphi(p, x)))
            return part(t.args[0], n)
        s = plain(show(unphi(p, t)))
        m = re.match(r"UtxoEntry\{status: (.*), is_fresh: (.*), is_dirty: (.*)\}$", s)
        return m[("status", "is_fresh", "is_dirty").index(n) + 1] if m else s + "." + n
    st, fr, di = part(t, "status"), part(t, "is_fresh"), part(t, "is_dirty")
    if st in facts:
        v = GONE if facts[st] == "Spent" else vals.get(st + ".Entry.0")
    else:
        m = re.match(r"UtxoStatus::Entry\((.*)\)$", st)
        v = GONE if st == "UtxoStatus::Spent" else vals.get(m[1]) if m else None
    flag = lambda s: {"Yes": True, "No": False}.get(facts.get(s, s.split("::")[-1]))
    return None if v is None or flag(fr) is None or flag(di) is None else (v, flag(fr), flag(di))


def after(p, t, m, k, old, facts, vals):
    """what is known of the output k in the map t, which was m with `old` at k; False: cannot be told"""
    s = plain(show(unphi(p, t)))
    if s == m:
        return old
    if t.tag in ("mapset", "mapdel") and plain(show(unphi(p, t.args[1]))) == k:
        if t.tag == "mapdel":
            return None
        return entry(p, t.args[2], facts, vals) or False
    return False


def utxos(p, t):
    """the map of a cache"""
    if t.tag == "upd":
        for v, n, x in t.args[1]:
            if n == "utxos":
                return x
        return utxos(p, t.args[0])
    return mk("fld", t, "", "utxos")


def layers(c):
    """spending, adding, looking up and forgetting do to what is seen exactly what they say, whatever is known here and below"""
    at = "mapget($0.utxos, $1)"
    ent = at + ".Some.0"
    up = "UtxosView::utxo($0.parent, $1)"
    M = "$0.utxos"

    def case(fid, extra, want, worlds=worlds, key=""):
        """want(seen, known, below, extra facts) -> (result regex, seen afterwards or '?')"""
        loc = c.loc(fid)
        ps = c.paths(fid, stop=OWN)
        for (e, below), x in product(list(worlds("here")), extra):
            facts = {at: "None" if e is None else "Some", up: "Ok", up + ".Ok.0": "Some" if below else "None", **told(ent, e, "here"), **x}
            vals = {up + ".Ok.0.Some.0": below, ent + ".status.Entry.0": e and e[0], "$2": "new"}
            res, then = want(seen(e, below), e, below, x)
            hit = [p for p in ps if possible(p, facts)]
            c.ob(f"{key}#ends", any(p.kind == "ret" for p in hit), "must give a result in every state", loc, f"known {e}, below {below}")
            for p in hit:
                d = f"known {e}, below {below}, {x}: {repr(p)[:300]}"
                if p.kind != "ret":
                    c.ob(f"{key}#panic", False, "must not panic in a state that can occur", loc, d)
                    continue
                r = sret(p)
                for a, b in sorted(vals.items(), key=lambda y: -len(y[0])):
                    if b and a != "$2":
                        r = plain(r).replace(a, f"<{b}>")
                c.ob(f"{key}#result", re.match(res, r), "the result must say what is there", loc, d + " RESULT " + r[:200])
                o = p.out(mk("arg", 0))
                n = after(p, utxos(p, o), M, "$1", e, facts, vals)
                c.ob(f"{key}#state", n is not False and sound(n, below), "what is then known must fit the layer below", loc, d + f" THEN {n} " + show(o)[:300])
                if n is not False:
                    c.ob(f"{key}#seen", seen(n, below) == then, "exactly the output named changes, as said", loc, d + f" THEN {n}")

    v = lambda s: re.escape(f"<{s}>")
    case(U + "spend_utxo", [{}], lambda s, e, b, x: (r"Ok\(%s\)$" % v(s), None) if s else (r"Err\(", None), key="spend")
    case(U + "add_utxo", [{"$3": True}], lambda s, e, b, x: (r"Ok\(\(\)\)$", "new"), key="overwrite")
    # without leave to overwrite there is nothing to see, unless it is in this layer, and then it is refused
    fits = lambda n: ((e, b) for e, b in worlds(n) if seen(e, b) is None or e and e[0] != GONE)
    case(U + "add_utxo", [{"$3": False}], lambda s, e, b, x: (r"Ok\(\(\)\)$", "new") if s is None else (r"Err\(Error::OverwritingUtxo\)$", s), worlds=fits, key="add")
    case(U + "get_mut_utxo", [{}], lambda s, e, b, x: (r"Ok\(Some\(%s\)\)$" % v(s) if s else r"Ok\(None\)$", s), key="get")
    case(U + "uncache", [{}], lambda s, e, b, x: (r"Ok\(\(\)\)$|Err\(", s), key="forget")
    case(VIEW + "utxo", [{}], lambda s, e, b, x: (r"Ok\(Some\(%s\)\)$|%s$" % (v(s), re.escape(up)) if s else r"Ok\(None\)$|%s$" % re.escape(up) if e is None else r"Ok\(None\)$", s), key="look")
    case(VIEW + "has_utxo", [{}], lambda s, e, b, x: (r"Ok\(%s\)$" % ("true" if s else "false"), s), key="has")
    for f in (U + "spend_utxo", U + "get_mut_utxo", VIEW + "utxo", VIEW + "has_utxo"):
        for p in c.paths(f, stop=OWN):
            if p.var and any(plain(show(t)) == up and x == "Err" for t, x in p.var.items()):
                c.ob("below#failed", p.kind == "ret" and sret(p).startswith("Err("), "a failure of the layer below must be reported", c.loc(f), repr(p)[:300])
    for f, w in (("spend_utxo", "$1"), ("add_utxo", "$1")):
        for p in c.paths(U + f, stop=OWN):
            c.ob("key", all(x not in show(p.out(mk("arg", 0))) for x in ("current_block_hash:=", "parent:=")), "nothing else changes", c.loc(U + f), show(p.out(mk("arg", 0)))[:300])


def merge(c):
    """writing a layer into the one below it: what was seen through the upper one is seen in the lower one"""
    fid = "<utxo::cache::UtxosCache<P> as utxo::view::FlushableUtxoView>::batch_write"
    loc = c.loc(fid)
    K, E = "elem($1.container).0", "elem($1.container).1"
    at = f"mapget($0.utxos, {K})"
    ent = at + ".Some.0"
    ps = c.paths(fid, stop=OWN)
    turn = []
    for p in ps:
        if p.kind == "back" or p.kind == "panic" or any("elem($1.container)" in show(t) for t in (*p.var, *p.truth)):
            turn.append(p)
            continue
        o = p.out(mk("arg", 0))
        c.ob("merge#done", success(p) and plain(sret(p)) == "Ok(())", "succeeds when all is written", loc, repr(p)[:300])
        c.ob("merge#all", any(f[0] == "exh" and show(f[1]) == "iter($1.container)" for f in p.facts), "all that is known above must be written", loc, repr(p)[:300])
        c.ob("merge#block", re.search(r"current_block_hash:=\$1\.best_block[,}]", show(o)), "the best block is that of the upper layer", loc, show(o)[:300])
        c.ob("merge#kept", show(unphi(p, utxos(p, o))) == "$0.utxos", "nothing else changes", loc, show(o)[:300])
    # my entry, what is below me; the entry above me fits what is seen here
    for (e, below) in worlds("here"):
        here = seen(e, below)
        for f in VALID[1:]:
            x = (GONE if f[0] == "S" else here if not f[2] else "above", f[1], f[2])
            facts = {at: "None" if e is None else "Some", **told(ent, e, ""), **told(E, x, "")}
            vals = {ent + ".status.Entry.0": e and e[0], E + ".status.Entry.0": x[0]}
            hit = [p for p in turn if possible(p, facts)]
            d0 = f"known above {x}, here {e}, below {below}"
            if f[0] == "E" and not f[2] and here is None or not sound(x, here):
                if f[1] and f[2] and e and e[0] != GONE:
                    c.ob("merge#misused", hit and all(p.kind == "ret" and sret(p).startswith("Err(") for p in hit), "what is said to be new but is already here must be refused", loc, d0)
                continue
            c.ob("merge#known", any(p.kind == "back" for p in hit), "must be able to merge in every state", loc, d0)
            for p in hit:
                d = d0 + ": " + repr(p)[:300]
                if p.kind != "back":
                    c.ob("merge#fails", False, "must not fail in a state that can occur", loc, d)
                    continue
                m = [(k, v) for k, v in p.next.items() if show(p.phi.get(k, k)) == "$0.utxos"]
                n = after(p, m[0][1], "$0.utxos", K, e, facts, vals) if len(m) == 1 else False
                c.ob("merge#state", n is not False and sound(n, below), "what is then known must fit the layer below", loc, d + f" THEN {n} " + str([show(v)[:200] for k, v in m]))
                if n is not False:
                    c.ob("merge#seen", seen(n, below) == seen(x, here), "what was seen above is then seen here", loc, d + f" THEN {n}")
    c.count("merge turns", len(turn), 1)
    fid = "utxo::view::flush_to_base"
    c.table("flush", c.paths(fid, stop=OWN + "|::batch_write$"), [("", "FlushableUtxoView::batch_write($1, ConsumedUtxoCache{container: $0.utxos, best_block: $0.current_block_hash})")])


def store(c):
    """in the database there is what is not spent; and the best block belongs to it"""
    I = "utxo::storage::view_impls::<impl utxo::view::FlushableUtxoView for utxo::storage::UtxosDB<S>>::batch_write"
    K, E = "elem($1.container).0", "elem($1.container).1"
    S = "UtxosStorageWrite::"
    steps(c, "write", I, r"::(set_utxo|del_utxo|set_best_block_for_utxos)$", [("", [f"{S}set_best_block_for_utxos(_, $1.best_block)"], "Ok(())")],
          turns=[(f"{E}.is_dirty is No", []), (f"{E}.is_dirty is Yes & {E}.status is Entry", [f"{S}set_utxo(_, {K}, {E}.status.Entry.0)"]), (f"{E}.is_dirty is Yes & {E}.status is Spent", [f"{S}del_utxo(_, {K})"])], stop=OWN)
    for p in c.paths(I, stop=OWN):
        if p.kind == "ret" and success(p):
            c.ob("write#all", any(f[0] == "exh" and show(f[1]) == "iter($1.container)" for f in p.facts), "all must be written", c.loc(I), repr(p)[:300])
    V = "utxo::storage::view_impls::<impl utxo::view::UtxosView for utxo::storage::UtxosDB<S>>::"
    g = "UtxosStorageRead::get_utxo($0.0, $1)"
    c.table("db has", c.paths(V + "has_utxo", stop=OWN), [(f"{g} is Err", f"Err({g}.Err.0)"), (f"{g} is Ok & {g}.Ok.0 is Some", "Ok(true)"), (f"{g} is Ok & {g}.Ok.0 is None", "Ok(false)")])
    c.table("db utxo", c.paths(V + "utxo", stop=OWN), [("", g)])
    c.table("db best", c.paths(V + "best_block_hash", stop=OWN), [("", "UtxosStorageRead::get_best_block_for_utxos($0.0)")])
    R = "utxo::storage::rw_impls::<impl utxo::storage::UtxosStorage%s for utxo::storage::UtxosDB<S>>::%s"
    for kind, f, a in (("Write", "set_utxo", "$1, $2"), ("Write", "del_utxo", "$1"), ("Write", "set_best_block_for_utxos", "$1"), ("Read", "get_utxo", "$1"), ("Read", "get_best_block_for_utxos", "")):
        t = f"UtxosStorage{kind}::{f}(" + ", ".join(x for x in ("$0.0", a) if x) + ")"
        c.table("db " + f, c.paths(R % (kind, f), stop=OWN), [("", t)])
        t = f"UtxosStorage{kind}::{f}(" + ", ".join(x for x in ("$0", a) if x) + ")"
        c.table("through " + f, c.paths(f"<T as utxo::storage::UtxosStorage{kind}>::{f}", stop=CLOSED), [("", t)])
    for f, a in (("utxo", "$1"), ("has_utxo", "$1"), ("best_block_hash", "")):
        c.table("view through " + f, c.paths(f"<T as utxo::view::UtxosView>::{f}", stop=CLOSED), [("", f"UtxosView::{f}(" + ", ".join(x for x in ("$0", a) if x) + ")")])
    X = "<utxo::storage::in_memory::UtxosDBInMemoryImpl as utxo::storage::UtxosStorage%s>::%s"
    for f, o in (("set_utxo", "$0{store:=mapset($0.store, $1, $2)}"), ("del_utxo", "$0{store:=mapdel($0.store, $1)}"), ("set_best_block_for_utxos", "$0{best_block_id:=$1}")):
        for p in c.paths(X % ("Write", f), stop=CLOSED):
            c.ob("memory " + f, sret(p) == "Ok(())" and show(p.out(mk("arg", 0))) == o, "exactly this is written", c.loc(X % ("Write", f)), repr(p)[:300] + show(p.out(mk("arg", 0)))[:200])
    m = "mapget($0.store, $1)"
    for f in (X % ("Read", "get_utxo"), "<utxo::storage::in_memory::UtxosDBInMemoryImpl as utxo::view::UtxosView>::utxo"):
        c.table("memory get", c.paths(f, stop=CLOSED), [(f"{m} is Some", f"Ok(Some({m}.Some.0))"), (f"{m} is None", "Ok(None)")] if any(p.var for p in c.paths(f, stop=CLOSED)) else [("", f"Ok({m})")])
    # the genesis block's outputs
    fid = "utxo::storage::UtxosDB::<S>::initialize_db"
    G = "Genesis::utxos(ChainConfig::genesis_block($1))"
    src = sources("ChainConfig::genesis_block_id($1)")
    steps(c, "genesis", fid, r"::(set_best_block_for_utxos|add_utxo|batch_write)$", [("", [S + "set_best_block_for_utxos(_, ChainConfig::genesis_block_id($1))", "_(__)"], "()")],
          turns=[("", [S + "set_best_block_for_utxos(_, ChainConfig::genesis_block_id($1))", points("UtxosCache::add_utxo(_, UtxoOutPoint::new({}, cast(u32, pos(iter(" + G + ")))), Utxo{{output: elem(" + G + "), source: UtxoSource::Blockchain(BlockHeight::new(0))}}, false)", src)])],
          panics=r"^expect ", stop=OWN + r"|::(add_utxo|batch_write)$")
    for p in c.paths(fid, stop=OWN + r"|::(add_utxo|batch_write)$"):
        if p.kind == "ret":
            e = [e for e in p.events if e.name.endswith("::batch_write")]
            done = {show(f[1]) for f in p.facts if f[0] == "exh"}
            c.ob("genesis#written", len(e) == 1 and re.search(r"ConsumedUtxoCache\{container: .*\.utxos, best_block: .*\.current_block_hash\}\)$", plain(show(e[0].res))) and any(whole(x, "iter(" + G + ")") for x in done), "all outputs of the genesis block are written", c.loc(fid), repr(p)[:400])


def whole(s, it):
    """a sequence gone through in full: `it`, enumerated or mapped, nothing skipped"""
    return it in s and not re.search(r"(?<![\w:])(skip|take|step_by|skip_while|take_while|chain|zip)\(", s)


def sources(x):
    return [f"OutPointSourceId::from({x})", f"T::into({x})", f"OutPointSourceId::Transaction({x})", f"OutPointSourceId::BlockReward({x})", f"Into::into({x})"]


def points(fmt, src):
    return " || ".join(fmt.replace("{}", s).replace("{{", "{").replace("}}", "}") for s in src)


def txs(c):
    """connecting spends the inputs and adds the outputs that can be spent, disconnecting does the reverse"""
    tin, tout = "elem(Transaction::inputs($1))", "elem(Transaction::outputs($1))"
    src = sources("Transaction::get_id($1)")
    pt = "UtxoOutPoint::new({}, cast(u32, pos(iter(Transaction::outputs($1)))))"
    add = lambda flag, source="$2": points("UtxosCache::add_utxo($0, " + pt + ", Utxo{{output: " + tout + ", source: " + source + "}}, " + flag + ")", src)
    has = points("_::has_utxo($0, " + pt + ")", src)
    WR = r"::(spend_utxo|add_utxo)$"
    spend = f"UtxosCache::spend_utxo($0, {tin}.Utxo.0)"
    accounts = other(tin, "Utxo")
    ins = [(f"{tin} is Utxo", [spend])] + [(accounts, [])]
    kinds = lambda e, w: [(f"{e} is {k}", w) for k in GOOD] + [(other(e, *GOOD), [])]
    # connect
    fid = U + "connect_transaction"
    loc = c.loc(fid)
    steps(c, "connect", fid, WR, [("", [], "Ok(_)")], turns=[(f"{tin} is Utxo", [])] + ins + kinds(tout, [add("false")]), stop=STEP)
    for p in c.paths(fid, stop=STEP):
        if p.kind == "ret" and success(p):
            done = {plain(show(f[1])) for f in p.facts if f[0] == "exh"}
            c.ob("connect#all", any(whole(x, "iter(Transaction::inputs($1))") for x in done) and any(whole(x, "iter(Transaction::outputs($1))") for x in done), "all inputs and outputs are gone through", loc, str(done)[:400])
            r = plain(show(p.ret))
            m = re.match(r"Ok\(UtxosTxUndoWithSources\{utxos: UtxosTxUndo\((.*)\), sources: (.*)\}\)$", r)
            c.ob("connect#undo", m and all("phi<" in x or re.match(r"collect\((map|filter_map|map\(filter|filter_map\(map)\(iter\(Transaction::inputs\(\$1\)\), ", x) for x in m.groups()), "what was spent is what is given back, by input", loc, r[:300])
        if p.kind == "back" and any(e.name.endswith("::spend_utxo") for e in p.events):
            kept(c, "connect#kept", p, loc, f"Some({spend}.Ok.0)")
        if p.kind == "back" and p.ret is not None and accounts(p) and plain(show(p.ret)) not in ("()",):
            c.ob("connect#none", plain(show(p.ret)) == "None", "an account input spends no output", loc, repr(p)[:300])
    c.ob("connect#sources", any(p.kind == "back" and p.ret is not None and plain(show(p.ret)) == f"UtxoOutPoint::source_id({tin}.Utxo.0)" for p in c.paths(fid, stop=STEP)) or any("source_id" in plain(show(v)) for p in c.paths(fid, stop=STEP) for v in (p.next or {}).values()),
         "where its inputs come from is kept", loc)
    # only the outputs
    fid = U + "add_utxos_from_tx"
    steps(c, "outputs", fid, WR, [("", [], "Ok(())")], turns=[(other(tout, *GOOD), [])] + [(f"{tout} is {k}" + x, w) for k in GOOD for x, w in ((" & $3", [points("UtxosCache::add_utxo($0, " + pt + ", Utxo{{output: " + tout + ", source: $2}}, T::has_utxo($0, " + pt + ").Ok.0)", src)]), (" & !$3", [add("false")]))], stop=STEP)
    ends(c, fid, "outputs", "iter(Transaction::outputs($1))")
    # disconnect
    fid = U + "disconnect_transaction"
    un = "elem($2.0)"
    steps(c, "disconnect", fid, WR, [("", [], "Ok(())")],
          turns=kinds(tout, [points("UtxosCache::spend_utxo($0, " + pt + ")", src)]) + [(f"{un} is Some & {tin} is Utxo", [f"UtxosCache::add_utxo($0, {tin}.Utxo.0, {un}.Some.0, false)"]), (f"{un} is None", [])],
          refuse=[lambda p: under(p, f"{un} is Some") and accounts(p)], panics="assert", stop=STEP)
    ends(c, fid, "disconnect", "iter(Transaction::outputs($1))", "zip(iter(Transaction::inputs($1)), iter($2.0))")
    for p in c.paths(fid, stop=STEP):
        if p.kind == "ret" and success(p):
            c.ob("disconnect#length", holds(p, "eq(len($2.0), len(Transaction::inputs($1)))") or holds(p, "eq(len(Transaction::inputs($1)), len($2.0))"), "there must be an undo for every input", c.loc(fid), repr(p)[:300])


def kept(c, key, p, loc, val):
    """a turn of a loop yields the value, or puts it to what is collected"""
    r = plain(show(initially(p, p.ret))) if p.ret is not None else ""
    nx = [plain(show(initially(p, v))) for v in (p.next or {}).values()]
    c.ob(key, r == val or any(re.search(r"\(.*, " + re.escape(val) + r"\)", x) for x in nx), "what was spent is kept, at the place of its input", loc, repr(p)[:300] + r + str(nx)[:300])


def other(x, *names):
    """on this path x is none of these"""
    def f(p):
        return any(plain(show(unphi(p, t))) == x and v not in names for t, v in p.var.items()) or any(plain(show(unphi(p, t))) == x and set(names) <= set(v) for t, v in p.notvar.items())
    f.__name__ = f"{x} is none of {names}"
    return f


def ends(c, fid, key, *its):
    n = 0
    for p in c.paths(fid, stop=STEP):
        if p.kind == "ret" and success(p):
            n += 1
            done = {plain(show(f[1])) for f in p.facts if f[0] == "exh"}
            for it in its:
                c.ob(key + "#all", any(x.replace(it, "#") != x and whole(x.replace(it, "#"), "#") for x in done), "all must be gone through", c.loc(fid), f"{it} in {str(done)[:300]}")
    c.ob(key + "#ends", n, "must be able to succeed", c.loc(fid))


def rewards(c):
    """a reward spends its inputs and adds its outputs, all of kinds that can be spent; and back"""
    R = "BlockRewardTransactable::"
    i, o = R + "inputs($1)", R + "outputs($1)"
    tin, tout = f"elem({i}.Some.0)", f"elem({o}.Some.0)"
    src = sources("$2")
    pt = "UtxoOutPoint::new({}, cast(u32, pos(iter(" + o + ".Some.0))))"
    WR = r"::(spend_utxo|add_utxo)$"
    fid = U + "connect_block_transactable"
    loc = c.loc(fid)
    spend = f"UtxosCache::spend_utxo($0, {tin}.Utxo.0)"
    accounts = other(tin, "Utxo")
    steps(c, "reward", fid, WR, [(f"{i} is {a} & {o} is {b}", [], "Ok(_)") for a in ("Some", "None") for b in ("Some", "None")],
          turns=[(f"{i} is Some & {tin} is Utxo", [spend])] + [(accounts, [])]
          + [(f"{o} is Some & {tout} is {k}", [points("UtxosCache::add_utxo($0, " + pt + ", Utxo{{output: " + tout + ", source: UtxoSource::Blockchain($3)}}, false)", src)]) for k, y in KINDS.items() if y],
          refuse=[other(tout, *GOOD)], stop=STEP)
    for p in c.paths(fid, stop=STEP):
        if p.kind == "ret" and success(p):
            done = {plain(show(f[1])) for f in p.facts if f[0] == "exh"}
            for x in (i, o):
                if holds(p, x + " is Some"):
                    c.ob("reward#all", any(whole(d, f"iter({x}.Some.0)") for d in done), "all must be gone through", loc, repr(p)[:300])
            r = plain(show(p.ret))
            empty = [(t, v) for t, v in p.truth.items() if re.match(r"eq\(0, len\(", show(t))]
            if holds(p, i + " is None"):
                c.ob("reward#none", r == "Ok(None)", "without inputs nothing is to be undone", loc, r[:200])
            else:
                m = re.match(r"Ok\(Some\(UtxosBlockRewardUndo\((collect\((?:map|filter_map)\(iter\(.*\)|phi<.*>)\)\)\)$", r)
                c.ob("reward#undo", m or r == "Ok(None)" and any(v for t, v in empty), "what was spent is given back", loc, r[:300])
        if p.kind == "back" and any(e.name.endswith("::spend_utxo") for e in p.events):
            kept(c, "reward#kept", p, loc, spend + ".Ok.0")
    fid = U + "disconnect_block_transactable"
    un = "elem($3.Some.0.0)"
    steps(c, "back", fid, WR, [(f"{i} is None", [], "Ok(())"), (f"{i} is Some & $3 is Some", [], "Ok(())")],
          turns=[(f"{o} is Some", [points("UtxosCache::spend_utxo($0, " + pt + ")", src)]), (f"{i} is Some & $3 is Some & {tin} is Utxo", [f"UtxosCache::add_utxo($0, {tin}.Utxo.0, {un}, false)"])] + [(lambda p: under(p, f"{i} is Some & $3 is Some") and accounts(p), [])],
          refuse=[f"{i} is Some & $3 is None"], stop=STEP)
    for p in c.paths(fid, stop=STEP):
        if p.kind == "ret" and success(p):
            done = {plain(show(f[1])) for f in p.facts if f[0] == "exh"}
            c.ob("back#outputs", not holds(p, o + " is Some") or any(whole(d, f"iter({o}.Some.0)") for d in done), "all outputs must be taken back", c.loc(fid), repr(p)[:300])
            z = f"zip(iter({i}.Some.0), iter($3.Some.0.0))"
            c.ob("back#inputs", not holds(p, i + " is Some") or any(z in d and whole(d.replace(z, "#"), "#") for d in done), "all inputs must be given back", c.loc(fid), repr(p)[:300])
    fid = U + "add_utxos_from_block_reward"
    q = "UtxoOutPoint::new({}, cast(u32, pos(iter(BlockReward::outputs($1)))))"
    s3 = sources("$3")
    a = "UtxosCache::add_utxo($0, " + q + ", Utxo{{output: elem(BlockReward::outputs($1)), source: $2}}, "
    steps(c, "genesis reward", fid, WR, [("", [], "Ok(())")], turns=[("$4", [points(a + "T::has_utxo($0, " + q + ").Ok.0)", s3)]), ("!$4", [points(a + "true)", s3)])], stop=STEP)
    ends(c, fid, "reward outputs", "iter(BlockReward::outputs($1))")


def undo(c):
    """what was spent by each transaction is kept with who depends on whom"""
    B = "utxo::undo::UtxosBlockUndo::"
    fid = B + "insert_tx_undo"
    loc = c.loc(fid)
    src = "elem($2.sources)"
    n = set()
    for p in c.paths(fid, stop=OWN):
        o = show(unphi(p, p.out(mk("arg", 0))))
        new = "mapset($0.tx_undos, $1, $2.utxos)"
        if p.kind == "panic":
            c.ob("insert#panic", False, "must not panic", loc, repr(p)[:300])
        elif p.kind == "ret" and not success(p):
            c.ob("insert#refused", holds(p, "mapget($0.tx_undos, $1) is Some") and o == "$0", "refused only if it is there already, and then unchanged", loc, repr(p)[:300] + o[:200])
            n.add("twice")
        elif p.kind == "ret":
            c.ob("insert#new", holds(p, "mapget($0.tx_undos, $1) is None") and "tx_undos:=" + new in o and "reward_undo" not in o, "what was spent is kept under the transaction's id", loc, o[:300])
            c.ob("insert#all", any(f[0] == "exh" and whole(show(f[1]), "iter($2.sources)") for f in p.facts), "all sources are gone through", loc, repr(p)[:300])
            n.add("new")
        elif holds(p, src + " is Transaction"):
            t = f"{src}.Transaction.0"
            ins = sorted(show(unphi(p, v)) for k, v in (p.next or {}).items())
            good = [f"mapset($0.child_parent_dependencies, ($1, {t}), ())", f"mapset($0.parent_child_dependencies, ({t}, $1), ())"]
            c.ob("insert#both", all(x in ins for x in good) and len([x for x in ins if "mapset" in x]) == 2 or not any("mapset" in x for x in ins) and p.ret is not None and plain(show(p.ret)) == t, "both directions are kept", loc, str(ins)[:400])
            n.add("dep" if any("mapset" in x for x in ins) else "")
        else:
            c.ob("insert#reward", holds(p, src + " is BlockReward") and not any("mapset" in show(v) for v in (p.next or {}).values()), "a reward is no dependency", loc, repr(p)[:300])
    c.ob("insert#ways", {"twice", "new", "dep"} <= n, "every case exists", loc, str(n))
    c.table("consume", c.paths(B + "consume", stop=OWN), [("", "ConsumedUtxosBlockUndo{reward_undo: $0.reward_undo, tx_undos: $0.tx_undos, child_parent_dependencies: $0.child_parent_dependencies, parent_child_dependencies: $0.parent_child_dependencies}")])
    c.table("from data", c.paths(B + "from_data", stop=OWN), [("", "UtxosBlockUndo{reward_undo: $0, tx_undos: $1, child_parent_dependencies: $2, parent_child_dependencies: $3}")], kinds=("ret",))
    W = "utxo::undo::UtxosTxUndoWithSources::"
    c.table("with sources", c.paths(W + "new", stop=OWN), [("", "UtxosTxUndoWithSources{utxos: UtxosTxUndo($0), sources: $1}")])
    c.table("parts", c.paths(W + "consume", stop=OWN), [("", "($0.utxos, $0.sources)")])
    for t in ("UtxosTxUndo", "UtxosBlockRewardUndo"):
        c.table(t, c.paths(f"utxo::undo::{t}::new", stop=OWN), [("", f"{t}($0)")])
        for f in ("inner", "into_inner"):
            c.table(t + " " + f, c.paths(f"utxo::undo::{t}::{f}", stop=OWN), [("", "$0.0")])


def parts(c):
    """what a layer and an output consist of"""
    b = "UtxosView::best_block_hash($0)"
    c.table("layer", c.paths(U + "new", stop=OWN), [(f"{b} is Ok", f"Ok(UtxosCache{{parent: $0, current_block_hash: {b}.Ok.0, utxos: emptymap(), memory_usage: 0}})"), (f"{b} is Err", f"Err({b}.Err.0)")])
    c.table("layer from", c.paths(U + "from_data", stop=OWN), [("", "Ok(UtxosCache{parent: $0, current_block_hash: $1.best_block, utxos: $1.container, memory_usage: 0})")])
    c.table("consumed", c.paths(U + "consume", stop=OWN), [("", "ConsumedUtxoCache{container: $0.utxos, best_block: $0.current_block_hash}")])
    c.table("best", c.paths(VIEW + "best_block_hash", stop=OWN), [("", "Ok($0.current_block_hash)")])
    for p in c.paths(U + "set_best_block", stop=OWN):
        c.ob("set best", show(p.out(mk("arg", 0))) == "$0{current_block_hash:=$1}", "exactly the best block changes", c.loc(U + "set_best_block"), show(p.out(mk("arg", 0))))
    E = "utxo::utxo_entry::UtxoEntry::"
    for f, rows in (("is_dirty", [("$0.is_dirty is Yes", "true"), ("$0.is_dirty is No", "false")]), ("is_fresh", [("$0.is_fresh is Yes", "true"), ("$0.is_fresh is No", "false")]),
                    *[(f, [("$0.status is Spent", "None"), ("$0.status is Entry", "Some($0.status.Entry.0)")]) for f in ("utxo", "utxo_mut", "take_utxo")]):
        c.table("entry " + f, c.paths(E + f, stop=OWN), rows)
    X = "utxo::utxo::Utxo::"
    for f, r in (("new", "Utxo{output: $0, source: $1}"), ("new_for_blockchain", "Utxo{output: $0, source: UtxoSource::Blockchain($1)}"), ("new_for_mempool", "Utxo{output: $0, source: UtxoSource::Mempool}"), ("source", "$0.source"), ("output", "$0.output"), ("take_output", "$0.output")):
        c.table("output " + f, c.paths(X + f, stop=OWN), [("", r)])
    S = "utxo::utxo::UtxoSource::"
    c.table("height", c.paths(S + "blockchain_height", stop=OWN), [("$0 is Blockchain", "Ok($0.Blockchain.0)"), ("$0 is Mempool", "Err(_)")])
    c.table("mempool", c.paths(S + "is_mempool", stop=OWN), [("$0 is Blockchain", "false"), ("$0 is Mempool", "true")])


PARTS = [layers, merge, store, txs, rewards, undo, parts]
