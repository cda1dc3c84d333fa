"""Token accounting: every operation changes exactly what it is named for, only in a state that allows it, and its undo data is its inverse."""
from ..rule import *
CRATES = ["tokens-accounting", "accounting"]
T = "tokens_accounting::"
OPS = f"<{T}cache::TokensAccountingCache<P> as {T}operations::TokensAccountingOperations>::"
STOP = r"TokensAccountingView>?::|^<?accounting::|^<?common::primitives|TokensAccountingStorage\w+>?::"
W = r"merge_delta_data_element|(add|sub)_unsigned$|merge_delta_(data|amounts)$|::(set|del)_\w+$"
G = "T::get_token_data($0, {})"
DELTA = "$0.data.token_data"
SUP = "$0.data.circulating_supply"
FIELDS = ["token_ticker", "number_of_decimals", "metadata_uri", "total_supply", "locked", "frozen", "authority"]


def data(**ch):
    return "TokenData::FungibleToken(FungibleTokenData{" + ", ".join(f"{f}: {ch.get(f, '@D.' + f)}" for f in FIELDS) + "})"


def names(i):
    g = G.format(i)
    return {"G": g, "D": g + ".Ok.0.Some.0.FungibleToken.0", "S": f"T::get_circulating_supply($0, {i})"}


def put(a, b, i="$1"):
    return f"DeltaDataCollection::merge_delta_data_element({DELTA}, {i}, DataDelta::new({a}, {b}))"


def operations(c):
    known, free = "@G.Ok.0 is Some", "@D.frozen is No"
    none = "@G.Ok.0 is None"

    def op(n, ok, err):
        operation(c, n, OPS + n, W, ok, err, names("$1"), stop=STOP)

    w = put("None", "Some($2)")
    op("issue_token", [("@G.Ok.0 is None & !lt(0, @S.Ok.0.atoms)", [w], f"Ok(TokenAccountingUndo::IssueToken(IssueTokenUndo{{id: $1, undo_data: {w}.Ok.0}}))")],
       ["@G.Ok.0 is Some", "@G.Ok.0 is None & lt(0, @S.Ok.0.atoms)"])
    add, sub = f"DeltaAmountCollection::add_unsigned({SUP}, $1, $2)", f"DeltaAmountCollection::sub_unsigned({SUP}, $1, $2)"
    lim, sum_ = "@D.total_supply.Fixed.0", "Amount::add(@S.Ok.0, $2)"
    r = "Ok(TokenAccountingUndo::MintTokens(MintTokenUndo{id: $1, amount_to_add: $2}))"
    b = f"{known} & {free} & "
    op("mint_tokens", [(b + "@D.total_supply is Unlimited", [add], r), (b + "@D.total_supply is Lockable & !@D.locked", [add], r),
                       (b + f"@D.total_supply is Fixed & {sum_} is Some & !lt({lim}.atoms, {sum_}.Some.0.atoms)", [add], r)],
       [none, known + " & @D.frozen is Yes", b + "@D.total_supply is Lockable & @D.locked", b + f"@D.total_supply is Fixed & {sum_} is None", b + f"@D.total_supply is Fixed & {sum_} is Some & lt({lim}.atoms, {sum_}.Some.0.atoms)"])
    op("unmint_tokens", [(f"{known} & {free} & !@D.locked & !lt(@S.Ok.0.atoms, $2.atoms)", [sub], "Ok(TokenAccountingUndo::UnmintTokens(UnmintTokenUndo{id: $1, amount_to_burn: $2}))")],
       [none, known + " & @D.locked", known + " & @D.frozen is Yes", f"{known} & {free} & !@D.locked & lt(@S.Ok.0.atoms, $2.atoms)"])

    def change(n, v, cond, new, err):
        w = put("Some(TokenData::FungibleToken(@D))", f"Some({new})")
        op(n, [(f"{known} & {cond}", [w], f"Ok(TokenAccountingUndo::{v}({v}Undo{{id: $1, undo_data: {w}.Ok.0}}))")], [none] + [f"{known} & {e}" for e in err])
    change("lock_circulating_supply", "LockSupply", f"!@D.locked & {free} & @D.total_supply is Lockable", data(locked="true"), ["@D.locked", "@D.frozen is Yes", f"!@D.locked & {free} & @D.total_supply is Fixed", f"!@D.locked & {free} & @D.total_supply is Unlimited"])
    change("freeze_token", "FreezeToken", f"{free} & @D.frozen.No.0 is Yes", data(frozen="IsTokenFrozen::Yes($2)"), ["@D.frozen is Yes", f"{free} & @D.frozen.No.0 is No"])
    change("unfreeze_token", "UnfreezeToken", "@D.frozen is Yes & @D.frozen.Yes.0 is Yes", data(frozen="IsTokenFrozen::No(IsTokenFreezable::Yes)"), [free, "@D.frozen is Yes & @D.frozen.Yes.0 is No"])
    change("change_authority", "ChangeTokenAuthority", free, data(authority="$2"), ["@D.frozen is Yes"])
    change("change_metadata_uri", "ChangeTokenMetadataUri", free, data(metadata_uri="$2"), ["@D.frozen is Yes"])


def undo(c):
    ok, err, n = [], [], {}
    back = f"DeltaDataCollection::undo_merge_delta_data_element({DELTA}, $1.%s.0.id, $1.%s.0.undo_data)"
    for v, cond, neg in (("IssueToken", None, None), ("MintTokens", "!@D%s.locked", "@D%s.locked"), ("UnmintTokens", "!@D%s.locked", "@D%s.locked"), ("LockSupply", "@D%s.locked", "!@D%s.locked"), ("FreezeToken", "@D%s.frozen is Yes", "@D%s.frozen is No"),
                         ("UnfreezeToken", "@D%s.frozen is No", "@D%s.frozen is Yes"), ("ChangeTokenAuthority", "@D%s.frozen is No", "@D%s.frozen is Yes"), ("ChangeTokenMetadataUri", "@D%s.frozen is No", "@D%s.frozen is Yes")):
        i = f"$1.{v}.0.id"
        for a, b in names(i).items():
            n[a + v] = b
        w = {"MintTokens": f"DeltaAmountCollection::sub_unsigned({SUP}, {i}, $1.{v}.0.amount_to_add)", "UnmintTokens": f"DeltaAmountCollection::add_unsigned({SUP}, {i}, $1.{v}.0.amount_to_burn)"}.get(v, back % (v, v))
        k = f"$1 is {v} & @G{v}.Ok.0 is "
        ok.append((k + "Some" + (" & " + cond % v if cond else ""), [w], "Ok(())"))
        err += [k + "None"] + ([k + "Some & " + neg % v] if neg else [])
    operation(c, "undo", OPS + "undo", W, ok, err, n, stop=STOP)


def views(c):
    V = f"<{T}cache::TokensAccountingCache<P> as {T}view::TokensAccountingView>::"
    par = "TokensAccountingView::get_%s($0.parent, $1)"
    data_view(c, "get_token_data", V + "get_token_data", DELTA, par % "token_data")
    amount_view(c, "get_circulating_supply", V + "get_circulating_supply", SUP, par % "circulating_supply")


def issued(c):
    f = f"<{T}data::FungibleTokenData as core::convert::From<common::chain::tokens::issuance::TokenIssuance>>::from"
    i = "$0.V1.0."
    x = {"locked": "false", "frozen": f"IsTokenFrozen::No({i}is_freezable)"}
    c.table("issued", c.paths(f), [("", "FungibleTokenData{" + ", ".join(f"{k}: {x.get(k, i + k)}" for k in FIELDS) + "}")])
    D = T + "data::FungibleTokenData::"
    c.table("is_frozen", c.paths(D + "is_frozen"), [("$0.frozen is Yes", "true"), ("$0.frozen is No", "false")])
    for n in FIELDS:
        g = D + {"locked": "is_locked", "frozen": "frozen_state"}.get(n, n)
        c.table(n, c.paths(g), [("", "$0." + n)])



def stored(c):
    applied(c, "stored", c.resolve(T + "storage::db::TokensAccountingDB::<S>::merge_with_delta"), {"token_data": ("token_data", "data", "token_data"), "circulating_supply": ("circulating_supply", "amount", "circulating_supply")}, "$0.0")


PARTS = [operations, undo, views, issued, stored]
