"""No value from nothing: what a transaction or block reward puts into its outputs comes from its inputs, in every currency; what is left over is the fee, and only that."""
from ..rule import *
from ..vf import Machine, field, norm
CRATES = ["constraints-value-accumulator", "tx-verifier", "chainstate"]
V = "constraints_value_accumulator::"
A = V + "constraints_accumulator::"
CV = A + "ConstrainedValueAccumulator::"
OWN = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|.*\{closure#\d+\}$|constraints_value_accumulator::constraints_accumulator::)|::(decrease_or|output_value_amount)$"
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
ZERO = "Amount{atoms: 0}"


def role(v):
    s = plain(show(v))
    return ("ACC" if "unconstrained_value: emptymap()" in s and "timelock_constrained: emptymap()" in s else "DUE" if s == "emptymap()"
            else "POS" if s == "PoSAccountingDelta::new($3)" else "TOK" if s == "TokensAccountingCache::new($4)" else "ORD" if s == "OrdersAccountingCache::new($2)" else None)


class Turn:
    """the effect of one turn of a loop on what is carried along, named by its role"""
    def __init__(s, p):
        s.p = p
        s.roles = {show(k): r for k, v in p.phi.items() for r in [role(v)] if r}
        s.free, s.locked, s.due, s.odd = [], [], [], []
        for k, v in (p.next or {}).items():
            r = s.roles.get(show(k))
            if r == "ACC":
                s.acc(k, v)
            elif r == "DUE":
                s.due += s.peel(v, k, s.due)

    def name(s, t):
        t = plain(t)
        for k, r in s.roles.items():
            t = t.replace(k, r)
        return re.sub(r"\b\w+::(get_\w+|spend_share_from_delegation_id|mint_tokens|conclude_order|fill_order|calculate_fill_order)\(", r"\1(", t).replace("Amount::from_atoms(1)", "Amount{atoms: 1}")

    def acc(s, k, v):
        if v is k:
            return
        if v.tag == "upd" and v.args[0] is k:
            for var, n, new in v.args[1]:
                base = field(k, "", n)
                if n == "unconstrained_value":
                    s.free += s.peel(new, base, s.free)
                elif n == "timelock_constrained":
                    s.locked += s.peel(new, base, s.locked)
                else:
                    s.odd.append(show(new))
        else:
            s.odd.append(show(v))

    def peel(s, t, base, into):
        """the additions to an amount map that lead from base to t"""
        got = []
        while t is not base:
            if t.tag == "out" and t.args[1] == 0 and t.args[0].tag == "call" and t.args[0].args[0].endswith("::insert_or_increase"):
                m, k, a = t.args[0].args[1][:3]
                if s.p.var.get(t.args[0]) != "Ok":
                    s.odd.append("unchecked " + show(t))
                got.append((s.name(show(k)), s.name(show(a))))
                t = m
                continue
            if t.tag == "mapset":
                m, k, v = t.args[:3]
                old = f"mapget({show(m)}, {show(k)})"
                was = next((x for y, x in s.p.var.items() if show(y) == old), None)
                had = {"Some": old + ".Some.0", "None": ZERO}.get(was)
                a = next((b for x in s.p.var if show(x) + ".Some.0" == show(v) and s.p.var[x] == "Some" and x.tag == "call" and x.args[0].endswith("Add>::add")
                          for b in x.args[1] for o in x.args[1] if o is not b and show(o) == had), None)
                if a is None and was == "None" and "mapget" not in show(v):
                    a = v
                if a is None:
                    s.odd.append("not an addition " + show(t))
                    break
                got.append((s.name(show(k)), s.name(show(a))))
                t = m
                continue
            s.odd.append(show(t))
            break
        return got[::-1]

    def ops(s, rx):
        return [s.name(show(e.res)) for e in s.p.events if re.search(rx, e.name)]


def turns(c, key, fid, over, rows, ops, stop, nonspendable=()):
    """every turn over `over` adds exactly what a row says"""
    loc = c.loc(fid)
    seen = set()
    ends = 0
    for p in c.paths(fid, stop=stop):
        c.ob(key + "#lost", not dropped(p), "the outcome of a step must not be dropped", loc, str(dropped(p))[:300])
        if p.kind == "panic":
            c.ob(key + "#panic", False, "must not panic", loc, repr(p)[:400])
            continue
        if p.kind == "back":
            t = Turn(p)
            e = f"elem({over})"
            if not any(e in show(x) for x in list(p.var) + list(p.truth)):
                yield p, t
                continue
            w = t.ops(ops)
            bad = [show(x) for x, v in p.var.items() if v == "Err"]
            hit = [i for i, (cond, free, locked, due, steps) in enumerate(rows) if under(p, cond) and not t.odd and not bad
                   and all(len(a) == len(b) and all(match(x, y) for (x1, x2), (y1, y2) in zip(sorted(a), sorted(b)) for x, y in ((x1, y1), (x2, y2))) for a, b in ((free, t.free), (locked, t.locked), (due, t.due)))
                   and len(w) == len(steps) and all(match(x, y) for x, y in zip(steps, w))]
            seen.update(hit)
            c.ob(key + "#each", hit, "each element adds exactly its own value", loc,
                 repr(p)[:500] + f" FREE {t.free} LOCKED {t.locked} DUE {t.due} OPS {w} ODD {t.odd}"[:1500])
            continue
        r = plain(sret(p))
        if not success(p):
            why = any(v in ("Err", "None") for v in p.var.values()) or any(under(p, x) for x in nonspendable) or any(not v and show(t).startswith("eq(len(") for t, v in p.truth.items())
            c.ob(key + "#refused", r.startswith("Err(") and why, "refused only for the specified reasons", loc, repr(p)[:500])
            continue
        ends += 1
        yield p, None
    for i, x in enumerate(rows):
        c.ob(f"{key}#row{i}", i in seen, "this must be counted: " + x[0][:160], loc, str(x)[:400])
    c.ob(key + "#ends", ends, "must be able to succeed", loc)


def value(e, k, at="0"):
    """rows for an output whose value is the field `at`"""
    v = f"{e}.{k}.{at}"
    return [(f"{e} is {k} & {v} is Coin", [("CoinOrTokenId::Coin", v + ".Coin.0")]), (f"{e} is {k} & {v} is TokenV0", []), (f"{e} is {k} & {v} is TokenV1", [(f"CoinOrTokenId::TokenId({v}.TokenV1.0)", v + ".TokenV1.1")])]


def outputs(c):
    """an output takes what it holds, or what issuing it costs"""
    e = "elem($2)"
    coin = lambda a: [("CoinOrTokenId::Coin", a)]
    rows = [(a, f, [], [], []) for k in ("Transfer", "Burn", "Htlc") for a, f in value(e, k)]
    rows += [(a, f, [], [], []) for a, f in value(e, "LockThenTransfer")[1:]]
    v, l = f"{e}.LockThenTransfer.0", f"{e}.LockThenTransfer.2"
    lock = f"{e} is LockThenTransfer & {v} is Coin & {l} is "
    rows += [(lock + k, coin(v + ".Coin.0"), [], [], []) for k in ("UntilHeight", "UntilTime", "ForSeconds")]
    n = l + ".ForBlockCount.0"
    rows += [(f"{lock}ForBlockCount & NonZero::new({n}) is Some", [], [(f"NonZero::new({n}).Some.0", v + ".Coin.0")], [], []),
             (f"{lock}ForBlockCount & NonZero::new({n}) is None", coin(v + ".Coin.0"), [], [], [])]
    g = f"OrderData::give({e}.CreateOrder.0)"
    rows += [(f"{e} is DelegateStaking", coin(e + ".DelegateStaking.0"), [], [], []), (f"{e} is CreateStakePool", coin(f"StakePoolData::pledge({e}.CreateStakePool.1)"), [], [], []),
             (f"{e} is ProduceBlockFromStake", [], [], [], []), (f"{e} is CreateDelegationId", [], [], [], []),
             (f"{e} is DataDeposit", coin("ChainConfig::data_deposit_fee($0, $1)"), [], [], []), (f"{e} is IssueFungibleToken", coin("ChainConfig::fungible_token_issuance_fee($0)"), [], [], []),
             (f"{e} is IssueNft", coin("ChainConfig::nft_issuance_fee($0, $1)"), [], [], []),
             (f"{e} is CreateOrder", [(f"CoinOrTokenId::from_output_value({g}).Some.0", f"constraints_accumulator::output_value_amount({g}).Ok.0")], [], [], [])]
    for p, t in turns(c, "outputs", CV + "from_outputs", "$2", rows, r"^$", OWN):
        c.ob("outputs#all", t is None and any(f[0] == "exh" and show(f[1]) == "iter($2)" for f in p.facts) and match("Ok(_)", sret(p)), "all outputs, and nothing else, are counted", c.loc(CV + "from_outputs"), repr(p)[:500])
    c.table("amount of a value", c.paths(A + "output_value_amount", stop=CLOSED), [("$0 is Coin", "Ok($0.Coin.0)"), ("$0 is TokenV1", "Ok($0.TokenV1.1)"), ("$0 is TokenV0", "Err(_)")])


def inputs(c):
    """an input gives what it holds, as checked against the accounts as the inputs before it left them; commands cost what they cost"""
    e = "elem($5)"
    coin = lambda a: [("CoinOrTokenId::Coin", a)]
    u = f"{e} is Utxo & elem($6) is Some & "
    o = "elem($6).Some.0"
    rows = [(u + a, f, [], [], []) for k in ("Transfer", "LockThenTransfer", "Htlc") for a, f in value(o, k)]
    rows += [(f"{u}{o} is IssueNft", [(f"CoinOrTokenId::TokenId({o}.IssueNft.0)", "Amount{atoms: 1}")], [], [], []), (f"{u}{o} is DelegateStaking", coin(o + ".DelegateStaking.0"), [], [], [])]
    mat = "NonZero::new(BlockCount::to_int(ChainConfig::staking_pool_spend_maturity_block_count($0, $1))) || NonZero::new(ChainConfig::staking_pool_spend_maturity_block_count($0, $1).0)"

    def matured(cond, amount, steps):
        for m in mat.split(" || "):
            yield f"{cond} & {m} is Some", [], [(m + ".Some.0", amount)], [], steps
            yield f"{cond} & {m} is None", coin(amount), [], [], steps
    opt = []
    for k, i in (("CreateStakePool", "0"), ("ProduceBlockFromStake", "1")):
        d = f"get_pool_data(POS, {o}.{k}.{i})"
        opt.append(list(matured(f"{u}{o} is {k}", f"PoolData::staker_balance({d}.Ok.0.Some.0).Ok.0", [])))
    a = f"{e}.Account.0"
    d = "AccountOutPoint::account(" + a + ")"
    opt.append(list(matured(f"{e} is Account", f"{d}.DelegationBalance.1", [f"spend_share_from_delegation_id(POS, {d}.DelegationBalance.0, {d}.DelegationBalance.1)"])))
    k = f"{e}.AccountCommand.1"
    cmd = f"{e} is AccountCommand & {k} is "
    fee = lambda x: coin(f"ChainConfig::{x}")
    sup, frz = fee("token_supply_change_fee($0, $1)"), fee("token_freeze_fee($0, $1)")
    rows += [(cmd + "MintTokens", [(f"CoinOrTokenId::TokenId({k}.MintTokens.0)", f"{k}.MintTokens.1")], [], sup, [f"mint_tokens(TOK, {k}.MintTokens.0, {k}.MintTokens.1)"]),
             (cmd + "LockTokenSupply", [], [], sup, []), (cmd + "UnmintTokens", [], [], sup, []), (cmd + "FreezeToken", [], [], frz, []), (cmd + "UnfreezeToken", [], [], frz, []),
             (cmd + "ChangeTokenAuthority", [], [], fee("token_change_authority_fee($0, $1)"), []), (cmd + "ChangeTokenMetadataUri", [], [], fee("token_change_metadata_uri_fee($0)"), [])]
    ver = "ChainstateUpgrade::orders_version(NetUpgrades::version_at_height(ChainConfig::chainstate_upgrades($0), $1).1)"
    for cond, k in ((cmd, k), (f"{e} is OrderAccountCommand & {e}.OrderAccountCommand.0 is ", f"{e}.OrderAccountCommand.0")):
        i = k + ".ConcludeOrder.0" if "AccountCommand.1" in k else k + ".ConcludeOrder.0"
        od = f"get_order_data(ORD, {i}).Ok.0.Some.0"
        ask, give = f"OrderData::ask({od})", f"OrderData::give({od})"
        rows.append((cond + "ConcludeOrder", [(f"CoinOrTokenId::from_output_value({ask}).Some.0", f"Amount::sub(constraints_accumulator::output_value_amount({ask}).Ok.0, get_ask_balance(ORD, {i}).Ok.0).Some.0"),
                                              (f"CoinOrTokenId::from_output_value({give}).Some.0", f"get_give_balance(ORD, {i}).Ok.0")], [], coin(ZERO), [f"conclude_order(ORD, {i})"]))
        i, m = k + ".FillOrder.0", k + ".FillOrder.1"
        od = f"get_order_data(ORD, {i}).Ok.0.Some.0"
        fill = f"calculate_fill_order(ORD, {i}, {m}, {ver})"
        rows.append((cond + "FillOrder", [(f"CoinOrTokenId::from_output_value(OrderData::give({od})).Some.0", fill + ".Ok.0")], [], [(f"CoinOrTokenId::from_output_value(OrderData::ask({od})).Some.0", m)],
                     [fill, f"fill_order(ORD, {i}, {m}, {ver})"]))
    rows.append((f"{e} is OrderAccountCommand & {e}.OrderAccountCommand.0 is FreezeOrder", [], [], [], []))
    used = {plain(show(x)) for p in c.paths(CV + "from_inputs", stop=OWN) for x in p.var}
    rows += [x for r in opt for x in r if x[0].split(" & ")[-1].rsplit(" is ", 1)[0] in used]
    non = [f"{u}{o} is {x}" for x in ("CreateDelegationId", "IssueFungibleToken", "Burn", "DataDeposit", "CreateOrder")]
    loc = c.loc(CV + "from_inputs")
    paid = 0
    for p, t in turns(c, "inputs", CV + "from_inputs", "$5", rows, r"::(conclude_order|fill_order|mint_tokens|spend_share_from_delegation_id|calculate_fill_order)$", OWN, non):
        if t is None:
            done = [show(unphi(p, f[1])) for f in p.facts if f[0] == "exh"]
            c.ob("inputs#all", len(done) == 2 and any(x in done[0] for x in ("iter($5)", "iter($6)")) and any(under(p, x) for x in ("eq(len($5), len($6))", "eq(len($6), len($5))")) and match("Ok(_)", sret(p)),
                 "all inputs are counted, with the outputs they spend, and all that is due is taken off", loc, repr(p)[:600] + str(done))
        else:
            ev = [x for x in p.events if x.name.endswith("::decrease_or")]
            good = len(ev) == 1 and not t.free and not t.locked and not t.due and p.var.get(ev[0].res) == "Ok"
            if good:
                m, k, a = [plain(show(x)) for x in ev[0].args[:3]]
                good = m.endswith(".unconstrained_value") and (m2 := re.match(r"elem\((.*)\)\.0$", k)) and a == f"elem({m2[1]}).1" and "from_inputs" in m2[1] and any(f"out0[" in show(v) and v.tag == "upd" for v in p.next.values())
            c.ob("inputs#due", good, "each amount that is due is taken off the unlocked inputs", loc, repr(p)[:500] + str([show(x.res) for x in ev])[:500])
            paid += 1
    c.ob("inputs#pays", paid, "what is due is taken off", loc)


def through(c, t):
    """what a chain of adaptors makes of an element: [(conditions, result or None if left out)]"""
    if t.tag in ("map", "filter", "filter_map"):
        out = []
        for cond, x in through(c, t.args[0]):
            if x is None:
                out.append((cond, None))
                continue
            for p in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(t.args[1], [x]):
                if p.kind != "ret":
                    continue
                now = cond | {f"{plain(show(k))} is {v}" for k, v in p.var.items()} | {("" if v else "!") + plain(show(k)) for k, v in p.truth.items()}
                r = p.ret
                if t.tag == "map":
                    out.append((now, r))
                elif t.tag == "filter_map":
                    if r.tag == "adt":
                        out.append((now, r.args[3][0] if r.args[1] == "Some" else None))
                    else:
                        out += [(now | {plain(show(r)) + " is Some"}, field(r, "Some", "0")), (now | {plain(show(r)) + " is None"}, None)]
                else:
                    s = show(r)
                    if s in ("true", "false"):
                        out.append((now, x if s == "true" else None))
                    else:
                        a, pol = norm(r)
                        a = plain(show(a))
                        out += [(now | {a if pol else "!" + a}, x), (now | {"!" + a if pol else a}, None)]
        return out
    if t.tag == "iter":
        return [(set(), mk("elem", t.args[0]))]
    return [({"?" + show(t)}, None)]


def taken(c, key, t, over, rows, loc):
    """the sequence t takes from `over` exactly the rows (condition, value); everything else is left out"""
    n = set()
    b = t
    while b.tag in ("map", "filter", "filter_map"):
        b = b.args[0]
    c.ob(key + "#over", show(b) == over, "what is gone through", loc, show(t)[:300])
    for cond, x in through(c, t):
        hit = [i for i, (a, w) in enumerate(rows) if all(y in cond for y in a.split(" & "))]
        n.update(hit)
        c.ob(key, (not hit and x is None) or any(x is not None and match(rows[i][1], plain(show(x))) or x is None and rows[i][1] is None for i in hit), "exactly the specified elements count, with their values", loc, f"{sorted(cond)} gives {x is not None and show(x)}"[:600])
    for i, x in enumerate(rows):
        c.ob(f"{key}#row{i}", i in n, "this must count: " + str(x)[:200], loc)


def isvar(p, x, *names):
    """which of its variants x is on this path, whether matched or compared"""
    got = []
    for n in names:
        v = next((w == n for t, w in p.var.items() if plain(show(t)) == x), None)
        for t, w in p.truth.items():
            m = re.match(r"[\w:]*eq\((.*), [\w:]*::(\w+)\)$", plain(show(t))) or re.match(r"[\w:]*eq\([\w:]*::(\w+), (.*)\)$", plain(show(t)))
            if m and x in m.groups() and set(m.groups()) <= {x} | set(names):
                k = next(y for y in m.groups() if y != x)
                v = w if k == n else not w if len(names) == 2 else v
        got.append(bool(v))
    return got


def find(t, tag, out=None):
    out = [] if out is None else out
    if t.__class__ is tuple:
        for x in t:
            find(x, tag, out)
    elif t.__class__ is T:
        if t.tag == tag and t not in out:
            out.append(t)
        for x in t.args:
            find(x, tag, out)
    return out


def sums(c):
    """additions and deductions are exact, and never wrap"""
    a = lambda x, y: [f"Amount::add({x}, {y})", f"Amount::add({y}, {x})"]
    m = "mapget($0, $1)"
    for fid, rows in ((V + "insert_or_increase", [(f"{m} is Some", m + ".Some.0"), (f"{m} is None", ZERO)]),):
        loc = c.loc(fid)
        n = 0
        for p in c.paths(fid, stop=CLOSED):
            old = next((y for x, y in rows if holds(p, x)), None)
            w = [x for x in a(old, "$2") if any(show(t) == x for t in p.var)] if old else []
            if old == ZERO and not w and success(p):
                c.ob("add#new", show(p.out(mk("arg", 0))) == "mapset($0, $1, $2)", "the first amount is itself", loc, repr(p)[:300])
                n += 1
                continue
            good = w and (success(p) and holds(p, w[0] + " is Some") and show(p.out(mk("arg", 0))) == f"mapset($0, $1, {w[0]}.Some.0)" or sret(p).startswith("Err(") and holds(p, w[0] + " is None"))
            c.ob("add", good, "the amount is added to what is there, and an overflow is an error", loc, repr(p)[:400] + show(p.out(mk("arg", 0)))[:200])
            n += success(p)
        c.ob("add#works", n >= 2, "must be able to add", loc)
    d = f"Amount::sub({m}.Some.0, $2)"
    ps = c.paths(A + "decrease_or", stop=CLOSED)
    used = {show(t) for p in ps for t in p.truth}
    some = next(("!" + x for x in ("eq(0, $2.atoms)", "Amount::eq($2, Amount{atoms: 0})", "Amount::eq(Amount{atoms: 0}, $2)", "eq($2, Amount{atoms: 0})", "eq(Amount{atoms: 0}, $2)") if x in used), "lt(0, $2.atoms)")
    none = some[1:] if some[0] == "!" else "!" + some
    c.table("deduct", ps, [(none, "Ok(())"), (f"{some} & {m} is Some & {d} is Some", "Ok(())"), (f"{some} & {m} is Some & {d} is None", "Err($3)"), (f"{some} & {m} is None", "Err($3)")])
    for p in ps:
        if success(p):
            o = show(p.out(mk("arg", 0)))
            c.ob("deduct#left", o == (f"mapset($0, $1, {d}.Some.0)" if holds(p, some) else "$0"), "exactly the amount is taken off", c.loc(A + "decrease_or"), o)
    r = "Amount::add($0.0, $1.0)"
    c.table("reward value", c.paths(CV + "from_block_reward", stop=CLOSED), [
        (f"{r} is Some", f"Some(ConstrainedValueAccumulator{{unconstrained_value: collect(iter([(CoinOrTokenId::Coin, {r}.Some.0)])), timelock_constrained: emptymap()}}) || Some(ConstrainedValueAccumulator{{unconstrained_value: mapset(emptymap(), CoinOrTokenId::Coin, {r}.Some.0), timelock_constrained: emptymap()}})"),
        (f"{r} is None", "None")])


def satisfied(c):
    """outputs take what they hold: from the same currency; locked ones only from coins that need not be locked for longer"""
    fid = CV + "satisfy_with"
    loc = c.loc(fid)
    n = set()
    for p in c.paths(fid, stop=OWN):
        c.ob("satisfy#lost", not dropped(p), "the outcome of a step must not be dropped", loc, str(dropped(p))[:300])
        if p.kind == "panic":
            c.ob("satisfy#panic", "cannot fail" in str(p.msg) or any(v == "None" and show(t).startswith("Amount::sub(") for t, v in p.var.items()), "must not panic", loc, repr(p)[:300])
            continue
        ev = [e for e in p.events if e.name.endswith("::decrease_or")]
        peek = [e for e in p.events if e.name.endswith("::peek_mut")]
        rng = [e for e in p.events if e.name.endswith("::range_mut")]
        if p.kind == "ret" and success(p):
            done = {show(f[1]) for f in p.facts if f[0] == "exh"}
            c.ob("satisfy#all", {"iter($1.unconstrained_value)", "iter($1.timelock_constrained)"} <= done, "all outputs must be satisfied", loc, repr(p)[:500])
            r = p.ret.args[3][0] if p.ret.tag == "adt" and p.ret.args[3] else p.ret
            m = re.match(r"AccumulatedFee::from_data\((phi<[^>]*>)\.unconstrained_value, (phi<[^>]*>)\.timelock_constrained\)$|AccumulatedFee\{unconstrained_value: (phi<[^>]*>)\.unconstrained_value, timelock_constrained: (phi<[^>]*>)\.timelock_constrained\}$", show(r))
            c.ob("satisfy#left", m, "what is left over of both kinds is the result", loc, show(p.ret)[:300])
            n.add("ok")
            continue
        if p.kind == "ret":
            c.ob("satisfy#refused", any(p.var.get(e.res) == "Err" for e in ev) or any(p.var.get(e.res) == "None" for e in peek), "refused only when something is missing", loc, repr(p)[:400])
            n.add("short" if peek else "missing")
            continue
        if ev:
            e = "elem($1.unconstrained_value)"
            a = [show(x) for x in ev[0].args[:3]]
            nxt = [v for k, v in p.next.items() if v.tag == "upd"]
            c.ob("satisfy#plain", len(ev) == 1 and p.var.get(ev[0].res) == "Ok" and re.match(r"phi<.*>\.unconstrained_value$", a[0]) and a[1:] == [e + ".0", e + ".1"] and len(nxt) == 1 and "unconstrained_value:=out0[" in show(nxt[0]), "each unlocked output is taken from the same currency", loc, repr(p)[:300] + str(a))
            n.add("plain")
            continue
        if not rng:
            c.ob("satisfy#other", False, "a turn that takes nothing", loc, repr(p)[:400])
            continue
        lock = "elem($1.timelock_constrained)"
        c.ob("satisfy#range", re.match(r"phi<.*>\.timelock_constrained$", show(rng[0].args[0])) and show(rng[0].args[1]) in (f"(Bound::Unbounded, Bound::Included({lock}.0))", f"RangeToInclusive{{end: {lock}.0}}", f"RangeToInclusive({lock}.0)"),
             "a locked output may use only coins to be locked for at most as long", loc, show(rng[0].res)[:300])
        out = [t for t in p.truth if re.match(r"lt\(0, phi<[^>]*>\.atoms\)$", show(t))]
        left = out[0].args[1].args[0] if out and out[0].args[1].tag == "fld" else None
        c.ob("satisfy#until", left is not None and show(initially(p, left)) == lock + ".1", "the whole of a locked output is to be satisfied", loc, repr(p)[:400] + (show(initially(p, left)) if left is not None else ""))
        if left is None:
            continue
        if not p.truth[out[0]]:
            n.add("done")
            continue
        it = peek[0].args[0]
        src = show(initially(p, it))
        coins = r"(mapget\(\$0\.unconstrained_value, CoinOrTokenId::Coin\)\.Some\.0|\[\])"
        lockd = r"(map\()?(iter\()?BTreeMap::range_mut\(\$0\.timelock_constrained, .*"
        c.ob("satisfy#source", re.match(r"rev\(chain\(iter\((Some\()?" + coins + r"\)*, " + lockd, src) or re.match(r"chain\(rev\(" + lockd + coins, src), "the coins locked for longest are used first, those not locked last", loc, src[:400])
        x = field(peek[0].res, "Some", "0")
        have, want = show(x), show(left)
        now, new = show(p.out(x)), show(p.next.get(left, left))
        nx = [e for e in p.events if e.name.endswith("::next") and "peek_mut" in show(e.res)]
        more = p.truth.get(mk("lt", field(x, "", "atoms"), field(left, "", "atoms")))
        if more is None:
            less = p.truth.get(mk("lt", field(left, "", "atoms"), field(x, "", "atoms")))
            more = None if less is None else not less
        if more:
            c.ob("satisfy#drain", new == f"Amount::sub({want}, {have}).Some.0" and now == ZERO and len(nx) == 1, "coins that do not suffice are used up, and the next are taken", loc, f"{now} ; {new} ; {len(nx)} " + repr(p)[:300])
            n.add("drain")
        else:
            c.ob("satisfy#part", more is not None and now == f"Amount::sub({have}, {want}).Some.0" and new == ZERO, "of coins that suffice only what is needed is taken", loc, f"{now} ; {new} " + repr(p)[:300])
            n.add("part")
    c.ob("satisfy#ways", n == {"ok", "short", "missing", "plain", "done", "drain", "part"}, "every case exists", loc, str(sorted(n)))


def fees(c):
    """the fee of a block is what its transactions leave over, counting of the locked coins only those that unlock in time"""
    fid = V + "accumulated_fee::AccumulatedFee::map_into_block_fees"
    loc = c.loc(fid)
    n = set()
    g = "mapget($0.unconstrained_value, CoinOrTokenId::Coin)"
    mat = "ChainConfig::staking_pool_spend_maturity_block_count($1, $2)"
    for p in c.paths(fid, stop=CLOSED):
        if p.kind == "back":
            continue
        c.ob("fees#panic", p.kind == "ret", "must not panic", loc, repr(p)[:300])
        if p.kind == "ret" and success(p):
            ss = find(p.ret, "sum")
            free = g + ".Some.0" if holds(p, g + " is Some") else ZERO
            c.ob("fees", len(ss) == 1 and any(match(x, show(p.ret)) for q in (show(ss[0]) + ".Some.0",) for x in (f"Ok(Fee(Amount::add({free}, {q}).Some.0))", f"Ok(Fee(Amount::add({q}, {free}).Some.0))")), "the fee is the unlocked coins left, and the locked ones that count", loc, show(p.ret)[:400])
            n.add(free)
            if len(ss) == 1 and "sum" not in n:
                n.add("sum")
                e = "elem($0.timelock_constrained)"
                ways = through(c, ss[0].args[0])
                for cond, x in ways:
                    late = any(f"lt({m}, NonZero::get({e}.0))" in cond for m in (f"BlockCount::to_int({mat})", mat + ".0"))
                    early = any(f"!lt({m}, NonZero::get({e}.0))" in cond for m in (f"BlockCount::to_int({mat})", mat + ".0"))
                    c.ob("fees#locked", late and x is None or early and x is not None and show(x) == e + ".1", "locked coins count if they are locked for no longer than the network requires", loc, f"{cond} {x is not None and show(x)}")
        elif p.kind == "ret":
            c.ob("fees#refused", any(v == "None" and show(t) != g for t, v in p.var.items()), "fails only on overflow", loc, repr(p)[:300])
    c.ob("fees#ways", n == {g + ".Some.0", ZERO, "sum"}, "every case exists", loc, str(n))
    f = "AccumulatedFee::combine"
    merge = lambda x: f"accumulated_fee::merge_amount_maps($0.{x}, $1.{x})"
    gate(c, "combine", V + "accumulated_fee::" + f, need=[merge("unconstrained_value"), merge("timelock_constrained")],
         result=f"Ok(AccumulatedFee{{unconstrained_value: {merge('unconstrained_value')}.Ok.0, timelock_constrained: {merge('timelock_constrained')}.Ok.0}})")
    fid = V + "accumulated_fee::merge_amount_maps"
    loc = c.loc(fid)
    n = 0
    for p in c.paths(fid, stop=CLOSED):
        ev = evs(p, r"::insert_or_increase$")
        c.ob("merge#lost", not dropped(p), "the outcome of a step must not be dropped", loc, str(dropped(p))[:300])
        if p.kind == "back":
            good = len(ev) == 1 and p.var.get(ev[0].res) == "Ok" and show(initially(p, ev[0].args[0])) in ("$0",) and [show(x) for x in ev[0].args[1:3]] == ["elem($1).0", "elem($1).1"]
            c.ob("merge", good, "each amount is added to the one of the same kind", loc, repr(p)[:400])
            n += 1
        elif success(p):
            c.ob("merge#all", any(f[0] == "exh" and show(f[1]) == "iter($1)" for f in p.facts) and show(p.ret.args[3][0]).startswith("phi<"), "all are merged", loc, repr(p)[:300])
    c.ob("merge#loop", n, "amounts are merged", loc)
    # a block's
    fid = next((x for x in c.F.ids() if x.endswith("DefaultTransactionVerificationStrategy as chainstate::detail::tx_verification_strategy::TransactionVerificationStrategy>::connect_block")), None)
    if not c.ob("block", fid, "the connecting of a block must be found"):
        pass
    if fid:
        loc = c.loc(fid)
        n = set()
        h = "BlockIndex::block_height($4)"
        for p in c.paths(fid, stop=CLOSED):
            c.ob("block#lost", not dropped(p), "the outcome of a step must not be dropped", loc, str(dropped(p))[:300])
            ev = [(e, plain(show(initially(p, e.res)))) for e in p.events if re.search(r"::(connect_transaction|combine|map_into_block_fees|check_block_reward|connect_block_reward|set_best_block)$", e.name)]
            if p.kind == "panic":
                c.ob("block#panic", False, "must not panic", loc, repr(p)[:300])
            elif p.kind == "back":
                tx = "TransactionVerifier::connect_transaction(_, TransactionSourceForConnect::Chain{new_block_index: $4}, elem(Block::transactions($5)), $6)"
                got = [s for e, s in ev]
                good = len(ev) == 2 and match(tx, got[0]) and all(p.var.get(e.res) == "Ok" for e, s in ev) and got[1].endswith(got[0] + ".Ok.0)")
                res = plain(show(ev[1][0].res)) + ".Ok.0" if len(ev) == 2 else ""
                into = ev[1][0].args[0] if len(ev) == 2 else None
                good = good and (into.tag == "acc" or show(initially(p, into)) == "AccumulatedFee::new()") and (p.ret is not None and plain(show(p.ret)) == res or any(plain(show(v)) == res for v in (p.next or {}).values()))
                c.ob("block#each", good, "each transaction is connected, and what it leaves over is added to the block's fees", loc, repr(p)[:300] + str(got)[:500])
                n.add("tx")
            elif success(p):
                got = [s for e, s in ev]
                m = ev[0][0].args[0] if ev else None
                tot = m is not None and (m.tag == "fold" and show(m.args[1]) == "AccumulatedFee::new()" or show(initially(p, m)) == "AccumulatedFee::new()")
                f = got[0] if got else "?"
                want = [f"AccumulatedFee::map_into_block_fees(_, $3, {h})", f"TransactionVerifier::check_block_reward(_, $5, {f}.Ok.0, {h})", f"TransactionVerifier::connect_block_reward(_, $4, Block::block_reward_transactable($5), {f}.Ok.0, $6)", "TransactionVerifier::set_best_block(_, T::into(WithId::get_id($5)))"]
                c.ob("block#end", tot and len(got) == 4 and all(match(x, y) for x, y in zip(want, got)) and any(x[0] == "exh" and show(x[1]) == "iter(Block::transactions($5))" for x in p.facts), "the reward is checked against the fees of all transactions", loc, " ; ".join(got)[:900])
                n.add("ok")
            else:
                c.ob("block#refused", any(v == "Err" for v in p.var.values()), "fails only if a step does", loc, repr(p)[:300])
        c.ob("block#ways", n == {"tx", "ok"}, "every case exists", loc, str(n))


IO = "tx_verifier::transaction_verifier::input_output_policy::"
PC = IO + "purposes_check::"


def transaction(c):
    """a transaction leaves over what its inputs hold more than its outputs take, under the rules of the height"""
    fid = IO + "check_tx_inputs_outputs_policy"
    loc = c.loc(fid)
    up = "NetUpgrades::version_at_height(ChainConfig::chainstate_upgrades($1), $2).1"
    old, zero = f"ChainstateUpgrade::token_issuance_version({up})", f"ChainstateUpgrade::zero_token_transfer_forbidden({up})"
    own = "input_output_policy::collect_inputs_utxos($6, Transaction::inputs($0))"
    ps = c.paths(fid, stop=CLOSED)
    n = set()
    for p in ps:
        c.ob("tx#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        if p.kind == "panic":
            c.ob("tx#panic", False, "must not panic", loc, repr(p)[:300])
        if p.kind != "ret":
            continue
        got = {plain(show(e.res)): p.var.get(e.res) for e in p.events}
        if not success(p):
            c.ob("tx#refused", any(v == "Err" for v in got.values()) or any(v == "None" and "UtxosView::utxo($6, elem(Transaction::inputs($0))" in show(t) for t, v in p.var.items()), "refused only if a check fails", loc, repr(p)[:400])
            continue
        v0, v1 = isvar(p, old, "V0", "V1")
        yes, no = isvar(p, zero, "Yes", "No")
        req = [own, f"purposes_check::check_tx_inputs_outputs_purposes($0, {own}.Ok.0)"]
        if v0:
            req.append("input_output_policy::check_issuance_fee_burn_v0($1, $0)")
            n.add("V0")
        if yes:
            req.append("input_output_policy::check_zero_token_transfers($0)")
            n.add("Yes")
        n.update(x for x, y in (("V1", v1), ("No", no)) if y)
        c.ob("tx#known", (v0 or v1) and (yes or no), "what the height requires must be asked", loc, repr(p)[:400])
        for x in req:
            c.ob("tx#need", got.get(x) == "Ok", "may pass only after " + x, loc, repr(p)[:300])
        i = next((e for e in p.events if e.name.endswith("::from_inputs")), None)
        o = "ConstrainedValueAccumulator::from_outputs($1, $2, Transaction::outputs($0))"
        if i is None:
            c.ob("tx#inputs", False, "the inputs must be counted", loc, repr(p)[:300])
            continue
        c.ob("tx#inputs", [plain(show(x)) for x in i.args[:6]] == ["$1", "$2", "$3", "$4", "$5", "Transaction::inputs($0)"], "the inputs are counted at this height, with these accounts", loc, show(i.res)[:500])
        r = f"ConstrainedValueAccumulator::satisfy_with({plain(show(i.res))}.Ok.0, {o}.Ok.0)"
        c.ob("tx#result", plain(sret(p)) in (f"Ok({r}.Ok.0)", r) and got.get(r) in ("Ok", None), "what is left over is the result", loc, sret(p)[:300])
        if "spent" not in n:
            n.add("spent")
            t = i.args[6]
            e = "elem(Transaction::inputs($0))"
            u = f"UtxosView::utxo($6, {e}.Utxo.0)"
            good = t.tag == "collect"
            c.ob("tx#spent", good, "the outputs spent are looked up", loc, show(t)[:300])
            if good:
                taken(c, "tx#output", t.args[0], "iter(Transaction::inputs($0))", [(f"{e} is Utxo & {u} is Ok & {u}.Ok.0 is Some", f"Ok(Some(Utxo::take_output({u}.Ok.0.Some.0))) || Ok(Some(Utxo::output({u}.Ok.0.Some.0)))"), (f"{e} is Utxo & {u} is Ok & {u}.Ok.0 is None", "Err(_)"),
                      (f"{e} is Utxo & {u} is Err", "Err(_)")] + [(f"{e} is {k}", "Ok(None)") for k in ("Account", "AccountCommand", "OrderAccountCommand")], loc)
    c.ob("tx#ways", n == {"V0", "V1", "Yes", "No", "spent"}, "every case exists", loc, str(n))
    fid = IO + "collect_inputs_utxos"
    e = "elem($1)"
    u = f"UtxosView::utxo($0, {e}.Utxo.0)"
    done = 0
    for p in c.paths(fid, stop=CLOSED):
        if p.kind == "ret" and success(p):
            t = find(p.ret, "collect")
            done += 1
            c.ob("spent#all", len(t) == 1 and show(p.ret) == f"Ok({show(t[0])})", "all are collected", c.loc(fid), show(p.ret)[:300])
            if t:
                taken(c, "spent", t[0].args[0], "iter($1)", [(f"{e} is Utxo & {u} is Ok & {u}.Ok.0 is Some", f"Ok(Utxo::output({u}.Ok.0.Some.0)) || Ok(Utxo::take_output({u}.Ok.0.Some.0))"), (f"{e} is Utxo & {u} is Ok & {u}.Ok.0 is None", "Err(_)"), (f"{e} is Utxo & {u} is Err", "Err(_)")], c.loc(fid))
    c.ob("spent#ends", done, "must be able to succeed", c.loc(fid))


def purposes(c):
    """which outputs may be spent, and how many of a kind a transaction may have"""
    fid = PC + "check_tx_inputs_outputs_purposes"
    loc = c.loc(fid)
    can = {"Transfer", "LockThenTransfer", "CreateStakePool", "ProduceBlockFromStake", "IssueNft", "Htlc"}
    ps = c.paths(fid, stop=CLOSED)
    counts = {}                                    # counter -> kinds it counts
    spend = set()
    eo = "elem(Transaction::outputs($0))"
    for p in ps:
        if p.kind == "panic":
            c.ob("purposes#panic", "overflow" in str(p.msg), "must not panic", loc, repr(p)[:300])
        if p.kind != "back":
            continue
        kind = {show(t): v for t, v in p.var.items()}
        if "elem($1)" in kind and eo not in kind:
            spend.add(kind["elem($1)"])
        if eo in kind:
            for k, v in (p.next or {}).items():
                if v.tag == "add" and k in v.args and any(x.tag == "int" and x.args[0] == 1 for x in v.args if x.__class__ is T):
                    counts.setdefault(show(k), set()).add(kind[eo])
                elif v is not k and show(v) != f"adv({show(k)})":
                    c.ob("purposes#counter", False, "counters count one by one", loc, show(v)[:200])
    c.ob("purposes#spend", spend == can, "only these kinds of outputs may be spent: " + ", ".join(sorted(can)), loc, str(sorted(spend)))
    want = {"ProduceBlockFromStake": 0, "CreateStakePool": 1, "CreateDelegationId": 1, "CreateOrder": 1}
    good = 0
    for p in ps:
        if p.kind != "ret":
            continue
        most = {}
        for t, v in p.truth.items():
            n, x = None, None
            if t.tag == "lt" and t.args[0].tag == "int" and not v:
                n, x = t.args[0].args[0], t.args[1]
            elif t.tag == "eq" and any(y.tag == "int" for y in t.args) and v:
                n, x = [y.args[0] for y in t.args if y.tag == "int"][0], [y for y in t.args if y.tag != "int"][0]
            elif t.tag == "lt" and t.args[1].tag == "int" and v:
                n, x = t.args[1].args[0] - 1, t.args[0]
            if x is None:
                continue
            if x.tag == "count":
                e = show(find(x, "iter")[0].args[0])
                ks = set()
                for cond, y in through(c, x.args[0]):
                    k = [re.match(re.escape(f"elem({e}) is ") + r"(\w+)$", z) for z in cond]
                    if y is not None:
                        ks.update(z[1] for z in k if z)
                most[("in " if e == "Transaction::inputs($0)" else "") + "+".join(sorted(ks))] = n
                if e == "Transaction::outputs($0)":
                    for k in ks:
                        most[k] = min(n, most.get(k, n))
            else:
                for k in counts.get(show(x), ()):
                    most[k] = min(n, most.get(k, n))
        done = {show(f[1]) for f in p.facts if f[0] == "exh"}
        full = all(most.get(k) == n for k, n in want.items()) and most.get("in AccountCommand+OrderAccountCommand") == 1
        if success(p):
            good += 1
            c.ob("purposes", full and "iter($1)" in done, "may pass only with at most one command, one new pool, one new delegation and one new order, and no staked block", loc, repr(p)[:400] + str(most))
        else:
            c.ob("purposes#refused", not full, "refused only for these reasons", loc, repr(p)[:300])
    c.ob("purposes#passes", good, "must be able to pass", loc)
    for k, x in counts.items():
        c.ob("purposes#one", len(x) == 1, "each kind is counted on its own", loc, str(x))
    # zero tokens
    fid = IO + "check_zero_token_transfers"
    loc = c.loc(fid)
    e = "elem(Transaction::outputs($0))"
    seen = set()
    for p in c.paths(fid, stop=CLOSED):
        k = next((v for t, v in p.var.items() if show(t) == e), None)
        tok = any(v == "TokenV1" for v in p.var.values())
        z = [v for t, v in p.truth.items() if show(t) in (f"eq(0, {e}.{k}.0.TokenV1.1.atoms)", f"eq({e}.{k}.0.TokenV1.1.atoms, 0)")] + [not v for t, v in p.truth.items() if show(t) == f"lt(0, {e}.{k}.0.TokenV1.1.atoms)"]
        if p.kind == "back":
            if k in ("Transfer", "LockThenTransfer", "Burn", "Htlc"):
                v = next((v for t, v in p.var.items() if show(t) == f"{e}.{k}.0"), None)
                other = any("TokenV1" in vs for t, vs in p.notvar.items() if show(t) == f"{e}.{k}.0")
                c.ob("zero#let", other or v in ("Coin", "TokenV0") or v == "TokenV1" and z == [False], "no tokens may not be transferred", loc, repr(p)[:300])
        elif p.kind == "ret" and success(p):
            c.ob("zero#all", any(f[0] == "exh" and show(f[1]) == "iter(Transaction::outputs($0))" for f in p.facts), "all outputs are looked at", loc, repr(p)[:300])
        elif p.kind == "ret":
            c.ob("zero#refused", tok and z == [True] and k in ("Transfer", "LockThenTransfer", "Burn", "Htlc"), "refused only if no tokens are transferred", loc, repr(p)[:300])
            seen.add(k)
        else:
            c.ob("zero#panic", False, "must not panic", loc, repr(p)[:300])
    c.ob("zero#kinds", seen == {"Transfer", "LockThenTransfer", "Burn", "Htlc"}, "every kind of transfer is looked at", loc, str(seen))
    # issuing used to be paid for by burning
    fid = IO + "check_issuance_fee_burn_v0"
    loc = c.loc(fid)
    cnt = "lt(0, tokens_utils::get_tokens_issuance_count(Transaction::outputs($1)))"
    n = set()
    for p in c.paths(fid, stop=CLOSED):
        if p.kind == "back":
            continue
        c.ob("burn#panic", p.kind == "ret", "must not panic", loc, repr(p)[:300])
        if p.kind != "ret":
            continue
        iss = p.truth.get(next((t for t in p.truth if show(t) in (cnt, cnt.replace("lt(0", "eq(0"))), None))
        iss = None if iss is None else iss != any(show(t).startswith("eq(0, tokens_utils") for t in p.truth)
        ss = [t for x in list(p.truth) + list(p.var) for t in find(x, "sum")]
        ss = ss[:1]
        less = next((v for t, v in p.truth.items() if ss and show(t) == f"lt({show(ss[0])}.Some.0.atoms, ChainConfig::fungible_token_issuance_fee($0).atoms)"), None)
        if success(p):
            c.ob("burn", iss is False or iss and less is False, "passes only if nothing is issued, or the fee is burned", loc, repr(p)[:400])
            n.add(iss)
            if ss and "sum" not in n:
                n.add("sum")
                e = "elem(Transaction::outputs($1))"
                v = f"OutputValue::coin_amount({e}.Burn.0)"
                taken(c, "burn#sum", ss[0].args[0], "iter(Transaction::outputs($1))", [(f"{e} is Burn & {v} is Some", v + ".Some.0")], loc)
        else:
            c.ob("burn#refused", iss and (less or any(v == "None" for v in p.var.values())), "refused only if the fee is not burned", loc, repr(p)[:400])
    c.ob("burn#ways", n == {True, False, "sum"}, "every case exists", loc, str(n))
    fid = IO + "calculate_tokens_burned_in_outputs"
    e = "elem(Transaction::outputs($0))"
    k = 0
    for p in c.paths(fid, stop=CLOSED):
        if p.kind == "ret" and success(p):
            t = find(p.ret, "sum")
            c.ob("burned#result", len(t) == 1 and show(p.ret) == f"Ok({show(t[0])}.Some.0)", "the sum is the result", c.loc(fid), show(p.ret)[:300])
            k += 1
            if t:
                b = f"{e}.Burn.0.TokenV1"
                q = [x for cond, _ in through(c, t[0].args[0]) for x in cond if x in (f"eq($1, {b}.0)", f"eq({b}.0, $1)")]
                taken(c, "burned", t[0].args[0], "iter(Transaction::outputs($0))", [(f"{e} is Burn & {e}.Burn.0 is TokenV1 & {q[0] if q else '?'}", b + ".1")], c.loc(fid))
    c.ob("burned#ends", k, "must be able to succeed", c.loc(fid))


def reward(c):
    """a block reward makes no more than the subsidy and fees, or moves one stake on"""
    fid = PC + "check_reward_inputs_outputs_purposes"
    loc = c.loc(fid)
    i, o = "BlockRewardTransactable::inputs($1)", "BlockRewardTransactable::outputs($1)"
    got = f"input_output_policy::collect_inputs_utxos($2, {i}.Some.0)"
    a, b = f"{got}.Ok.0[0]", f"{o}.Some.0[0]"
    ver = "ChainstateUpgrade::staker_destination_update_forbidden(NetUpgrades::version_at_height(ChainConfig::chainstate_upgrades($0), $4).1)"
    eq = lambda p, x, y: next((v for t, v in p.truth.items() if plain(show(t)) in (f"eq({x}, {y})", f"eq({y}, {x})")), None)
    seen = set()
    for p in c.paths(fid, stop=CLOSED):
        c.ob("reward#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        if p.kind == "panic":
            c.ob("reward#panic", False, "must not panic", loc, repr(p)[:300])
            continue
        if p.kind == "back":
            k = next((v for t, v in p.var.items() if plain(show(t)) == f"elem({i}.Some.0)"), None)
            l = next((v for t, v in p.var.items() if plain(show(t)) == f"elem({o}.Some.0)"), None)
            c.ob("reward#turn", k == "Utxo" or k is None and l == "LockThenTransfer", "a reward spends outputs only, and without any makes only locked ones", loc, repr(p)[:300])
            seen.add(k or l)
            continue
        done = {plain(show(f[1])) for f in p.facts if f[0] == "exh"}
        one = eq(p, "1", f"len({got}.Ok.0)"), eq(p, "1", f"len({o}.Some.0)")
        ka, kb = [next((v for t, v in p.var.items() if plain(show(t)) == x), None) for x in (a, b)]
        pool, dest = {"CreateStakePool": (f"{a}.CreateStakePool.0", f"StakePoolData::staker({a}.CreateStakePool.1)"), "ProduceBlockFromStake": (f"{a}.ProduceBlockFromStake.1", f"{a}.ProduceBlockFromStake.0")}.get(ka, (None, None))
        same, staker = eq(p, pool, f"{b}.ProduceBlockFromStake.1"), eq(p, dest, f"{b}.ProduceBlockFromStake.0")
        forb = next((v for t, v in p.truth.items() if plain(show(t)) in (f"StakerDestinationUpdateForbidden::eq({ver}, StakerDestinationUpdateForbidden::Yes)", f"StakerDestinationUpdateForbidden::eq(StakerDestinationUpdateForbidden::Yes, {ver})")), None)
        if forb is None:
            forb = {"Yes": True, "No": False}.get(next((v for t, v in p.var.items() if plain(show(t)) == ver), None))
        if success(p):
            if under(p, i + " is Some"):
                c.ob("reward#kernel", f"iter({i}.Some.0)" in done and one == (True, True) and pool and kb == "ProduceBlockFromStake" and same and (forb is False or forb and staker),
                     "a stake is moved on to one output of the same pool, and the same staker where that is required", loc, repr(p)[:500])
                seen.add((ka, forb))
            else:
                c.ob("reward#new", under(p, i + " is None") and f"iter({o}.Some.0)" in done, "all outputs must be locked", loc, repr(p)[:400])
                seen.add("new")
        else:
            why = any(v == "Err" for v in p.var.values()) or under(p, o + " is None") or any(plain(show(t)) == f"elem({i}.Some.0)" and v != "Utxo" or plain(show(t)) == f"elem({o}.Some.0)" and v != "LockThenTransfer" for t, v in p.var.items()) \
                or False in one or eq(p, "0", f"len({got}.Ok.0)") or eq(p, "0", f"len({o}.Some.0)") or ka and not pool or kb not in (None, "ProduceBlockFromStake") or same is False or forb and staker is False
            c.ob("reward#refused", why and sret(p).startswith("Err("), "refused only for these reasons", loc, repr(p)[:500])
    c.ob("reward#ways", seen == {"Utxo", "LockThenTransfer", "new"} | {(k, f) for k in ("CreateStakePool", "ProduceBlockFromStake") for f in (True, False)}, "every case exists", loc, str(seen))
    fid = IO + "check_reward_inputs_outputs_policy"
    loc = c.loc(fid)
    o = "BlockRewardTransactable::outputs($2)"
    n = set()
    mine = "ConstrainedValueAccumulator::from_block_reward($6, Subsidy(ChainConfig::block_subsidy_at_height($0, $4)))"
    outs = f"ConstrainedValueAccumulator::from_outputs($0, $4, {o}.Some.0)"
    for p in c.paths(fid, stop=CLOSED):
        c.ob("subsidy#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        if p.kind != "ret":
            c.ob("subsidy#panic", p.kind == "back", "must not panic", loc, repr(p)[:300])
            continue
        got = {plain(show(e.res)): p.var.get(e.res) for e in p.events}
        one = eq(p, "1", f"len({o}.Some.0)")
        k = next((v for t, v in p.var.items() if show(t) == "$5"), None)
        if success(p):
            c.ob("subsidy#purposes", got.get("purposes_check::check_reward_inputs_outputs_purposes($0, $2, $1, $3, $4)") == "Ok", "may pass only with its purposes checked", loc, repr(p)[:300])
            if k == "PoS":
                c.ob("subsidy#stake", under(p, o + " is Some") and one, "a staked block's reward has one output", loc, repr(p)[:300])
            elif under(p, o + " is Some"):
                w = f"ConstrainedValueAccumulator::satisfy_with({mine}.Some.0, {outs}.Ok.0)"
                c.ob("subsidy#new", k in ("None", "PoW") and got.get(outs) == "Ok" and got.get(w) == "Ok" and under(p, mine + " is Some"), "new outputs take no more than subsidy and fees", loc, repr(p)[:500])
            else:
                c.ob("subsidy#none", k in ("None", "PoW") and under(p, o + " is None"), "nothing is made", loc, repr(p)[:300])
            n.add((k, under(p, o + " is Some")))
        else:
            c.ob("subsidy#refused", any(v == "Err" for v in got.values()) or under(p, mine + " is None") or k == "PoS" and (under(p, o + " is None") or one is False or eq(p, "0", f"len({o}.Some.0)")), "refused only for these reasons", loc, repr(p)[:400])
    c.ob("subsidy#ways", n == {("PoS", True), ("PoW", True), ("PoW", False), ("None", True), ("None", False)}, "every case exists", loc, str(n))


PARTS = [outputs, inputs, sums, satisfied, fees, transaction, purposes, reward]
