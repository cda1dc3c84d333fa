"""Order accounting: every operation changes exactly what it is named for, only in a state that allows it, never beyond the balances, and its undo data is its inverse."""
from ..rule import *
CRATES = ["orders-accounting", "accounting"]
T = "orders_accounting::"
C = f"<{T}cache::OrdersAccountingCache<P> as {T}"
OPS = f"{C}operations::OrdersAccountingOperations>::"
STOP = r"OrdersAccountingView>?::|^<?accounting::|^<?common::primitives|OrdersAccountingStorage\w+>?::|calculate_fill_order$"
W = r"merge_delta_data_element|(add|sub)_unsigned$|merge_delta_(data|amounts)$|::(set|del)_\w+$"
DELTA = "$0.data.order_data"


def names(i, x=""):
    return {"G" + x: f"T::get_order_data($0, {i})", "A" + x: f"T::get_ask_balance($0, {i})", "B" + x: f"T::get_give_balance($0, {i})", "D" + x: f"T::get_order_data($0, {i}).Ok.0.Some.0"}


def put(a, b, i="$1"):
    return f"DeltaDataCollection::merge_delta_data_element({DELTA}, {i}, DataDelta::new({a}, {b}))"


def amount(f, what, i="$1", a="_"):
    return f"DeltaAmountCollection::{f}_unsigned($0.data.{what}_balances, {i}, {a})"


def operations(c):
    def op(n, ok, err):
        operation(c, n, OPS + n, W, ok, err, names("$1"), stop=STOP)
    known, none = "@G.Ok.0 is Some", "@G.Ok.0 is None"
    zero, notzero = "Amount::eq(@A.Ok.0, Amount{atoms: 0})", "!Amount::eq(@A.Ok.0, Amount{atoms: 0})"
    w = put("None", "Some($2)")
    some = lambda x, v: f"{x} is {v} & lt(0, {x}.{v}.atoms)"
    ok, err = [], [known, f"{none} & {notzero}"]
    val = {"Coin": "Coin.0", "TokenV1": "TokenV1.1"}
    for x, a in val.items():
        for y, b in val.items():
            cond = f"{none} & {zero} & $2.ask is {x} & $2.give is {y}"
            ok.append((f"{cond} & lt(0, $2.ask.{a}.atoms) & lt(0, $2.give.{b}.atoms)", [w, amount("add", "ask", a="$2.ask." + a), amount("add", "give", a="$2.give." + b)],
                       f"Ok(OrdersAccountingUndo::CreateOrder(CreateOrderUndo{{id: $1, undo_data: {w}.Ok.0, ask_balance: $2.ask.{a}, give_balance: $2.give.{b}}}))"))
            err += [f"{cond} & !lt(0, $2.ask.{a}.atoms)", f"{cond} & lt(0, $2.ask.{a}.atoms) & !lt(0, $2.give.{b}.atoms)"]
    err += [f"{none} & {zero} & $2.{x} is TokenV0" for x in ("ask", "give")]
    op("create_order", ok, err)
    w = put("Some(@D)", "None")
    op("conclude_order", [(known, [w, amount("sub", "ask", a="@A.Ok.0"), amount("sub", "give", a="@B.Ok.0")],
                           f"Ok(OrdersAccountingUndo::ConcludeOrder(ConcludeOrderUndo{{id: $1, undo_data: {w}.Ok.0, ask_balance: @A.Ok.0, give_balance: @B.Ok.0}}))")], [none])
    filled = "price_calculation::calculate_fill_order($0, $1, $2, $3)"
    op("fill_order", [(f"{known} & !@D.is_frozen & {filled} is Ok", [amount("sub", "give", a=filled + ".Ok.0"), amount("sub", "ask", a="$2")],
                       f"Ok(OrdersAccountingUndo::FillOrder(FillOrderUndo{{id: $1, ask_balance: $2, give_balance: {filled}.Ok.0}}))")], [none, f"{known} & @D.is_frozen"])
    w = put("Some(@D)", "Some(OrderData{conclude_key: @D.conclude_key, ask: @D.ask, give: @D.give, is_frozen: true})")
    op("freeze_order", [(f"{known} & !@D.is_frozen", [w], f"Ok(OrdersAccountingUndo::FreezeOrder(FreezeOrderUndo{{id: $1, undo_data: {w}.Ok.0}}))")], [none, f"{known} & @D.is_frozen"])


def undo(c):
    ok, err, n = [], [], {}
    for v in ("CreateOrder", "ConcludeOrder", "FillOrder", "FreezeOrder"):
        i = f"$1.{v}.0.id"
        n |= {"G" + v: f"T::get_order_data($0, {i})", "A" + v: f"T::get_ask_balance($0, {i})", "B" + v: f"T::get_give_balance($0, {i})"}
        data = f"DeltaDataCollection::undo_merge_delta_data_element({DELTA}, {i}, $1.{v}.0.undo_data)"
        move = lambda f: [amount(f, x, i, f"$1.{v}.0.{x}_balance") for x in ("ask", "give")]
        k = f"$1 is {v}"
        eq = lambda x, y: f"Amount::eq(@{x}{v}.Ok.0, {y})"
        if v == "CreateOrder":
            a, b = eq("A", f"$1.{v}.0.ask_balance"), eq("B", f"$1.{v}.0.give_balance")
            ok.append((f"{k} & @G{v}.Ok.0 is Some & {a} & {b}", move("sub") + [data], "Ok(())"))
            err += [f"{k} & @G{v}.Ok.0 is None", f"{k} & !{a}", f"{k} & !{b}"]
        elif v == "ConcludeOrder":
            a, b = eq("A", "Amount{atoms: 0}"), eq("B", "Amount{atoms: 0}")
            ok.append((f"{k} & @G{v}.Ok.0 is None & {a} & {b}", move("add") + [data], "Ok(())"))
            err += [f"{k} & @G{v}.Ok.0 is Some", f"{k} & !{a}", f"{k} & !{b}"]
        elif v == "FillOrder":
            ok.append((k, move("add"), "Ok(())"))
        else:
            ok.append((f"{k} & @G{v}.Ok.0 is Some", [data], "Ok(())"))
            err.append(f"{k} & @G{v}.Ok.0 is None")
    operation(c, "undo", OPS + "undo", W, ok, err, n, partial=True, fresh={"get_order_data$": "order_data", "get_ask_balance$": "ask_balances", "get_give_balance$": "give_balances"}, stop=STOP)


def price(c):
    """what a fill gives: floor(give * fill / ask), on the remaining balances or at the original price, never more asked than remains"""
    f = T + "price_calculation::calculate_filled_amount"
    u = lambda x: rf"Uint256::from_u128\((?:Amount::into_atoms\()?\${x}(?:\.atoms|\))\)"
    mul = rf"Uint256::mul\((?:{u(1)}, {u(2)}|{u(2)}, {u(1)})\)"
    div = rf"Uint256::div\({mul}\.Some\.0, {u(0)}\)"
    small = rf"[\w: <>]*try_from\({div}\.Some\.0\)"
    for p in c.paths(f, stop=r"^<?common::uint"):
        v = {show(t): x for t, x in p.var.items()}
        st = tuple(next((x for t, x in v.items() if re.fullmatch(rx, t)), None) for rx in (mul, div, small))
        r = sret(p)
        if p.kind == "panic":
            c.ob("filled#overflow", st == ("None", None, None), "a product of two amounts fits", c.loc(f), repr(p)[:300])
        elif st == ("Some", "Some", "Ok"):
            c.ob("filled", re.fullmatch(rf"Some\(Amount(?:\{{atoms: |::from_atoms\(){small}\.Ok\.0[)}}]\)", r), "the filled amount is floor(give * fill / ask)", c.loc(f), r[:300])
        else:
            c.ob("filled#none", r == "None" and st in (("Some", "None", None), ("Some", "Some", "Err")), "there is no filled amount only if nothing is asked or it does not fit", c.loc(f), repr(p)[:300])
    f = T + "price_calculation::calculate_fill_order"
    V = "OrdersAccountingView::get_%s($0, $1)"
    D, A, B = V % "order_data", V % "ask_balance", V % "give_balance"
    d = D + ".Ok.0.Some.0"
    val = {"Coin": "Coin.0", "TokenV1": "TokenV1.1"}
    over = f"{A} is Ok & lt({A}.Ok.0.atoms, $2.atoms)"
    fits = f"{A} is Ok & !lt({A}.Ok.0.atoms, $2.atoms)"
    fill = "price_calculation::calculate_filled_amount({}, {}, $2)"
    x = fill.format(A + ".Ok.0", B + ".Ok.0")
    k = "$3 is V0 & "
    rows = [(k + f"{A} is Err", "Err(_)"), (k + f"{B} is Err", "Err(_)"), (k + over, "Err(_)"), (k + f"{fits} & {B} is Ok & {x} is Some", f"Ok({x}.Some.0)"), (k + f"{fits} & {B} is Ok & {x} is None", "Err(_)")]
    k = "$3 is V1 & "
    rows += [(k + f"{A} is Err", "Err(_)"), (k + f"{D} is Err", "Err(_)"), (k + f"{D} is Ok & {D}.Ok.0 is None", "Err(_)"), (k + f"{D} is Ok & {D}.Ok.0 is Some & {d}.ask is TokenV0", "Err(_)"),
             (k + f"{D} is Ok & {D}.Ok.0 is Some & {d}.give is TokenV0", "Err(_)"), (k + over, "Err(_)")]
    for a, ai in val.items():
        for b, bi in val.items():
            x = fill.format(f"{d}.ask.{ai}", f"{d}.give.{bi}")
            ok = k + f"{D} is Ok & {D}.Ok.0 is Some & {d}.ask is {a} & {d}.give is {b} & {fits} & "
            rows += [(ok + f"{x} is None", "Err(_)"), (ok + f"{x} is Some & lt(0, {x}.Some.0.atoms)", f"Ok({x}.Some.0)"), (ok + f"{x} is Some & !lt(0, {x}.Some.0.atoms)", "Err(_)")]
    c.table("price", c.paths(f, stop=r"calculate_filled_amount$"), rows, strict=False)


def views(c):
    V = f"{C}view::OrdersAccountingView>::"
    par = "OrdersAccountingView::get_%s($0.parent, $1)"
    data_view(c, "get_order_data", V + "get_order_data", DELTA, par % "order_data")
    for a in ("ask", "give"):
        amount_view(c, f"get_{a}_balance", V + f"get_{a}_balance", f"$0.data.{a}_balances", par % (a + "_balance"))
    allp = "OrdersAccountingView::get_all_order_ids($0.parent)"
    here, there = "elem(keys(DeltaDataCollection::data($0.data.order_data)))", f"elem({allp}.Ok.0)"
    got = lambda x: f"DeltaDataCollection::get_data($0.data.order_data, {x})"
    seen = set()
    for p in c.paths(V + "get_all_order_ids", stop=r"^<?accounting::|View>?::get_"):
        r = sret(p) if p.ret is not None else ""
        if p.kind == "back":
            for x, want in ((here, "Present"), (there, "Missing")):
                for v in ("Present", "Missing", "Deleted"):
                    if holds(p, got(x) + f" is {v}"):
                        seen.add((x, v))
                        c.ob("ids", r == x if v == want else r in ("", "()"), "an order is listed if it is in the changes, or unchanged in the parent", c.loc(p.fid), repr(p)[:300])
        elif r.startswith("Ok("):
            c.ob("ids#all", "data($0.data.order_data)" in r and allp in r, "orders of both are listed", c.loc(p.fid), r[:300])
        elif p.kind == "ret":
            c.ob("ids#err", holds(p, allp + " is Err") and r.startswith("Err("), "the listing fails only when that of the parent does", c.loc(p.fid), repr(p)[:300])
    c.ob("ids#seen", len(seen) == 6, "all cases must be listed", c.loc(V + "get_all_order_ids"), str(seen)[:300])


def stored(c):
    applied(c, "stored", c.resolve(T + "storage::db::OrdersAccountingDB::<S>::merge_with_delta"), {"order_data": ("order_data", "data", "order_data"),
            "ask_balances": ("ask_balance", "amount", "ask_balances"), "give_balances": ("give_balance", "amount", "give_balances")}, "$0.0", panics=True)
    f = T + "data::OrderData::"
    c.table("new", c.paths(f + "new"), [("", "OrderData{conclude_key: $0, ask: $1, give: $2, is_frozen: false}")])
    for g in ("conclude_key", "ask", "give", "is_frozen"):
        c.table(g, c.paths(f + g), [("", "$0." + g)])


PARTS = [operations, undo, price, views, stored]
