"""Staking accounting: every operation on pools and delegations changes exactly what it is named for, only in a state that allows it, keeps balances and shares in step, and its undo
data is its inverse."""
from ..rule import *
CRATES = ["pos-accounting", "accounting"]
T = "pos_accounting::pool::"
OPS = f"{T}delta::operator_impls::<impl {T}operations::PoSAccountingOperations<{T}operations::PoSAccountingUndo> for {T}delta::PoSAccountingDelta<P>>::"
VIEW = f"{T}delta::view_impl::<impl {T}view::PoSAccountingView for {T}delta::PoSAccountingDelta<P>>::"
STOP = r"PoSAccountingView for .*::get_|^<?accounting::|^<?common::primitives|PoSAccountingStorage\w+>?::"
W = r"merge_delta_data_element|(add|sub)_unsigned$|merge_delta_(data|amounts)$|::(set|del)_\w+$"
FRESH = {"get_pool_data$": "pool_data", "get_pool_balance$": "pool_balances", "get_delegation_data$": "delegation_data", "get_delegation_balance$": "delegation_balances",
         "get_pool_delegation_share$": "pool_delegation_shares"}
AMOUNTS = ("pool_balances", "pool_delegation_shares", "delegation_balances")


def put(what, i, a, b):
    return f"DeltaDataCollection::merge_delta_data_element($0.data.{what}, {i}, DataDelta::new({a}, {b}))"


def back(what, i, u):
    return f"DeltaDataCollection::undo_merge_delta_data_element($0.data.{what}, {i}, {u})"


def amount(f, what, i, a):
    return f"DeltaAmountCollection::{f}_unsigned($0.data.{what}, {i}, {a})"


def moves(f, pool, deleg, a, alive=True):
    return [amount(f, "pool_delegation_shares", f"({pool}, {deleg})", a), amount(f, "delegation_balances", deleg, a)] + ([amount(f, "pool_balances", pool, a)] if alive else [])


def names(i, x="", pool=None):
    """P pool data, B pool balance, G delegation data, L delegation balance, S share, E pool exists"""
    n = {"P": f"view_impl::get_pool_data($0, {i})", "B": f"view_impl::get_pool_balance($0, {i})", "G": f"view_impl::get_delegation_data($0, {i})", "L": f"view_impl::get_delegation_balance($0, {i})"}
    n = {k + x: v for k, v in n.items()}
    n["O" + x] = pool or f"view_impl::get_delegation_data($0, {i}).Ok.0.Some.0.source_pool"
    n |= {"E" + x: f"view_impl::get_pool_data($0, @O{x}).Ok.0", "S" + x: f"view_impl::get_pool_delegation_share($0, @O{x}, {i})"}
    return n


def operations(c):
    def op(n, ok, err, nm=None):
        operation(c, n, OPS + n, W, ok, err, nm or names("$1"), partial=False, fresh=FRESH, stop=STOP)
    undo = lambda v, **k: f"Ok(PoSAccountingUndo::{v}({v}Undo{{" + ", ".join(f"{a}: {b}" for a, b in k.items()) + "}))"
    some, none = "@P.Ok.0 is Some", "@P.Ok.0 is None"
    w = put("pool_data", "$1", "None", "Some($2)")
    op("create_pool", [(f"{none} & !lt(0, @B.Ok.0.atoms)", [amount("add", "pool_balances", "$1", "$2.pledge_amount"), w], undo("CreatePool", pool_id="$1", pledge_amount="$2.pledge_amount", data_undo=w + ".Ok.0"))],
       [some, f"{none} & lt(0, @B.Ok.0.atoms)"])
    w = put("pool_data", "$1", "Some(@P.Ok.0.Some.0)", "None")
    op("decommission_pool", [(some, [amount("sub", "pool_balances", "$1", "@B.Ok.0"), w], undo("DecommissionPool", pool_id="$1", pool_balance="@B.Ok.0", data_undo=w + ".Ok.0"))], [none])
    d = "@P.Ok.0.Some.0"
    new = f"PoolData{{decommission_destination: {d}.decommission_destination, pledge_amount: {d}.pledge_amount, staker_rewards: @R.Some.0, vrf_public_key: {d}.vrf_public_key, " \
          f"margin_ratio_per_thousand: {d}.margin_ratio_per_thousand, cost_per_block: {d}.cost_per_block}}"
    ws = [put("pool_data", "$1", f"Some({d})", f"Some({x})") for x in (new, d + "{staker_rewards:=@R.Some.0}")]
    operation(c, "increase_staker_rewards", OPS + "increase_staker_rewards", W, [(f"{some} & @R is Some", [amount("add", "pool_balances", "$1", "$2"), " || ".join(ws)],
              " || ".join(undo("IncreaseStakerRewards", pool_id="$1", amount_added="$2", data_undo=w + ".Ok.0") for w in ws))], [none, f"{some} & @R is None"], names("$1") | {"R": f"Amount::add({d}.staker_rewards, $2)"},
              partial=True, fresh=FRESH, stop=STOP)
    w = put("delegation_data", "$2", "None", "Some(DelegationData{spend_destination: $3, source_pool: $1})")
    op("create_delegation_id", [("@E is Some & @G.Ok.0 is None", [w], undo("CreateDelegationId", delegation_id="$2", data_undo=w + ".Ok.0"))],
       ["@E is None", "@E is Some & @G.Ok.0 is Some"], names("$2", pool="$1"))
    some, none = "@G.Ok.0 is Some", "@G.Ok.0 is None"
    w = put("delegation_data", "$1", "Some(@G.Ok.0.Some.0)", "None")
    op("delete_delegation_id", [(f"{some} & !lt(0, @L.Ok.0.atoms) & !lt(0, @S.Ok.0.atoms) & @E is None", [w], undo("DeleteDelegationId", delegation_id="$1", data_undo=w + ".Ok.0"))],
       [none, some + " & lt(0, @L.Ok.0.atoms)", some + " & lt(0, @S.Ok.0.atoms)", some + " & @E is Some"])
    op("delegate_staking", [(some, moves("add", "@O", "$1", "$2"), undo("DelegateStaking", delegation_target="$1", amount_to_delegate="$2"))], [none])
    r = undo("SpendFromShare", delegation_id="$1", amount="$2")
    op("spend_share_from_delegation_id", [(some + " & @E is Some", moves("sub", "@O", "$1", "$2"), r), (some + " & @E is None", moves("sub", "@O", "$1", "$2", False), r)], [none])


def undo(c):
    n, ok, err = {}, [], []

    def add(v, field, key, rows, bad, pool=None):
        i = f"$1.{v}.0.{field}"
        n.update(names(i, v))
        sub = lambda s: s.replace("@V", "@").replace("%", v).replace("#", f"$1.{v}.0.")
        ok.extend((sub(f"$1 is {v}" + (" & " + a if a else "")), [sub(x) for x in w], "Ok(())") for a, w in rows)
        err.extend(sub(f"$1 is {v} & {a}") for a in bad)
    some, none = "@P%.Ok.0 is Some", "@P%.Ok.0 is None"
    same = "Amount::eq(@B%.Ok.0, #pledge_amount)"
    add("CreatePool", "pool_id", None, [(f"{some} & {same}", [amount("sub", "pool_balances", "#pool_id", "#pledge_amount"), back("pool_data", "#pool_id", "#data_undo")])], [none, "!" + same])
    add("DecommissionPool", "pool_id", None, [(f"{none} & !lt(0, @B%.Ok.0.atoms)", [amount("add", "pool_balances", "#pool_id", "#pool_balance"), back("pool_data", "#pool_id", "#data_undo")])],
        [some, "lt(0, @B%.Ok.0.atoms)"])
    add("IncreaseStakerRewards", "pool_id", None, [("", [amount("sub", "pool_balances", "#pool_id", "#amount_added"), back("pool_data", "#pool_id", "#data_undo")])], [])
    some, none = "@G%.Ok.0 is Some", "@G%.Ok.0 is None"
    add("CreateDelegationId", "delegation_id", None, [(some, [back("delegation_data", "#delegation_id", "#data_undo")])], [none])
    add("DeleteDelegationId", "delegation_id", None, [("!lt(0, @L%.Ok.0.atoms)", [back("delegation_data", "#delegation_id", "#data_undo")])], ["lt(0, @L%.Ok.0.atoms)"])
    add("DelegateStaking", "delegation_target", None, [(some, moves("sub", "@O%", "#delegation_target", "#amount_to_delegate"))], [none])
    add("SpendFromShare", "delegation_id", None, [(some + " & @E% is Some", moves("add", "@O%", "#delegation_id", "#amount")), (some + " & @E% is None", moves("add", "@O%", "#delegation_id", "#amount", False))], [none])
    operation(c, "undo", OPS + "undo", W, ok, err, n, partial=True, fresh=FRESH, stop=STOP)


def views(c):
    par = "PoSAccountingView::get_%s($0.parent, $1)"
    data_view(c, "get_pool_data", VIEW + "get_pool_data", "$0.data.pool_data", par % "pool_data")
    data_view(c, "get_delegation_data", VIEW + "get_delegation_data", "$0.data.delegation_data", par % "delegation_data")
    amount_view(c, "get_pool_balance", VIEW + "get_pool_balance", "$0.data.pool_balances", par % "pool_balance")
    amount_view(c, "get_delegation_balance", VIEW + "get_delegation_balance", "$0.data.delegation_balances", par % "delegation_balance")
    amount_view(c, "get_pool_delegation_share", VIEW + "get_pool_delegation_share", "$0.data.pool_delegation_shares", "PoSAccountingView::get_pool_delegation_share($0.parent, $1, $2)", "($1, $2)")


def merge(c):
    """changes on top of changes, and their undoing, go field by field"""
    D = T + "delta::data::PoSAccountingDeltaData::"
    U = {"pool_data": "pool_data_undo", "delegation_data": "delegation_data_undo", "pool_balances": "pool_balances_undo", "delegation_balances": "delegation_balances_undo",
         "pool_delegation_shares": "pool_delegation_shares_undo"}
    m = {f: f"Delta{'Amount' if f in AMOUNTS else 'Data'}Collection::%smerge_delta_{'amounts' if f in AMOUNTS else 'data'}($0.{f}, $1.%s)" for f in U}
    ws = [m[f] % ("", f) for f in U]
    r = "Ok(DeltaMergeUndo{" + ", ".join(f"{U[f]}: " + (f"$1.{f}" if f in AMOUNTS else m[f] % ("", f) + ".Ok.0") for f in ("pool_data", "delegation_data", "pool_balances", "pool_delegation_shares", "delegation_balances")) + "})"
    operation(c, "merge", D + "merge_with_delta", W, [("", ws, r)], stop=STOP)
    operation(c, "undo_merge", D + "undo_delta_merge", W, [("", [m[f] % ("undo_", U[f]) for f in U], "Ok(())")], stop=STOP)


def stored(c):
    S = T + "storage::PoSAccountingDB::<S, T>::"
    F = {"pool_data": ("pool_data", "data", "pool_data_undo"), "delegation_data": ("delegation_data", "data", "delegation_data_undo"), "pool_balances": ("pool_balance", "amount", "pool_balances_undo"),
         "delegation_balances": ("delegation_balance", "amount", "delegation_balances_undo"), "pool_delegation_shares": ("pool_delegation_share", "amount", "pool_delegation_shares_undo")}
    keep = r".*helpers::Borrowed|.*_generic"
    applied(c, "stored", S + "merge_with_delta", F, "$0.store", panics=True, keep=keep)
    applied(c, "unstored", S + "undo_merge_with_delta", {f + "_undo": x for f, x in F.items()}, "$0.store", result=False, panics=True, keep=keep)


def pool(c):
    f = T + "pool_data::PoolData::"
    s = "Amount::add($0.pledge_amount, $0.staker_rewards)"
    c.table("staker_balance", c.paths(f + "staker_balance", stop="^<?common::primitives"), [(s + " is Some", f"Ok({s}.Some.0)"), (s + " is None", "Err(_)")])
    for g in ("decommission_destination", "pledge_amount", "staker_rewards", "vrf_public_key", "margin_ratio_per_thousand", "cost_per_block"):
        c.table(g, c.paths(f + g), [("", "$0." + g)])
    c.table("new", c.paths(f + "new"), [("", "PoolData{decommission_destination: $0, pledge_amount: $1, staker_rewards: $2, vrf_public_key: $3, margin_ratio_per_thousand: $4, cost_per_block: $5}")])


PARTS = [operations, undo, views, merge, stored, pool]
