"""Amounts, block heights/distances/counts and times: each operator and conversion is summarised path by path; the only
accepted behaviour is 'exact result, or a reported failure when (and only when) the exact result does not exist'."""
from ..rule import *
CRATES = ["common", "mlwitness"]
P = "common::primitives::"
A, S = P + "amount::Amount", P + "amount::signed::SignedAmount"
OPS = "core::ops::arith::"


def op(c, fid, ty, w, a, b, name, fail="None", ok="Some({}({}))", ctor=None):
    """checked binary operator: row for overflow, row for the exact value"""
    res = ok.replace("{v}", f"{name}({a}, {b})")
    c.table(fid.rsplit(" as ", 1)[-1] + "/" + ty, c.paths(fid), [(f"ovf({name}, {w}, {a}, {b})", fail), (f"!ovf({name}, {w}, {a}, {b})", res)])


def amounts(c):
    for name, T_, w, fld, con in (("Amount", A, "u128", "atoms", "Amount{atoms: {v}}"), ("SignedAmount", S, "i128", "val", "SignedAmount{val: {v}}")):
        for tr, nm in (("Add", "add"), ("Sub", "sub")):
            op(c, f"<{T_} as {OPS}{tr}>::{nm}", name, w, f"$0.{fld}", f"$1.{fld}", nm, ok=f"Some({con})")
        for tr, nm in (("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
            op(c, f"<{T_} as {OPS}{tr}<{w}>>::{nm}", name, w, f"$0.{fld}", "$1", nm, ok=f"Some({con})")
        m = "common::primitives::amount::" + ("signed::" if name == "SignedAmount" else "")
        summ = f"{m}<impl core::iter::traits::accum::Sum<{T_}> for core::option::Option<{T_}>>::sum"
        summing(c, summ, name, w, fld)
        c.table(name + "::from_atoms", c.paths(T_ + "::from_atoms"), [("", con.replace("{v}", "$0"))])
        c.table(name + "::into_atoms", c.paths(T_ + "::into_atoms"), [("", f"$0.{fld}")])
        lo, hi = (0, 2**128 - 1) if w == "u128" else (-2**127, 2**127 - 1)
        c.table(name + "::MAX", c.paths(T_ + "::MAX"), [("", con.replace("{v}", str(hi)))])
        c.table(name + "::ZERO", c.paths(T_ + "::ZERO"), [("", con.replace("{v}", "0"))])
    n = "num(checked_neg, i128, $0.val)"
    c.table("SignedAmount::neg", c.paths(f"<{S} as {OPS}Neg>::neg"), [(f"{n} is None", "None"), (f"{n} is Some", f"Some(SignedAmount{{val: {n}.Some.0}})")])
    for fid, w, src, con in ((A + "::from_signed", "u128", "$0.val", "Amount{atoms: $0.val}"), (S + "::into_unsigned", "u128", "$0.val", "Amount{atoms: $0.val}"),
                             (A + "::into_signed", "i128", "$0.atoms", "SignedAmount{val: $0.atoms}"), (S + "::from_unsigned", "i128", "$0.atoms", "SignedAmount{val: $0.atoms}")):
        t = f"tryint({w}, {src})"
        c.table(fid.rsplit("::", 2)[-2] + "::" + fid.rsplit("::", 1)[-1], c.paths(fid), [(f"{t} is Err", "None"), (f"{t} is Ok", f"Some({con})")])
    c.table("Amount::abs_diff", c.paths(A + "::abs_diff"), [("lt($1.atoms, $0.atoms)", "Amount{atoms: sub($0.atoms, $1.atoms)}"),
                                                           ("lt($0.atoms, $1.atoms)", "Amount{atoms: sub($1.atoms, $0.atoms)}"),
                                                           ("eq($0.atoms, $1.atoms)", "Amount{atoms: sub($1.atoms, $0.atoms)} || Amount{atoms: sub($0.atoms, $1.atoms)} || Amount{atoms: 0}")])
    c.table("Amount::as_non_zero", c.paths(A + "::as_non_zero"), [("eq(0, $0.atoms)", "None"), ("!eq(0, $0.atoms)", "Some($0)")])
    for nm in ("shl", "shr"):
        t = f"num(checked_{nm}, u128, $0.atoms, $1)"
        c.table("Amount::" + nm, c.paths(f"<{A} as core::ops::bit::{nm.capitalize()}<u32>>::{nm}"), [(f"{t} is None", "None"), (f"{t} is Some", f"Some(Amount{{atoms: {t}.Some.0}})")])


def summing(c, fid, name, w, fld):
    """zero plus each element in turn, every partial sum a checked addition; a failing one stops the sum, success only when the iterator is exhausted"""
    nb = 0
    el = r"(elem\(\$0\)|elem\(iter\(\$0\)\)|Iterator::next\((\$0|phi<[^>]*>|iter\(\$0\)|out0\[.*\])\)\.Some\.0)"
    zero = "|".join(re.escape(x) for x in ("0", f"acc(iter($0), {name}{{{fld}: 0}}).{fld}", f"acc($0, {name}{{{fld}: 0}}).{fld}", f"acc(iter($0), Some({name}{{{fld}: 0}})).Some.0.{fld}", f"acc($0, Some({name}{{{fld}: 0}})).Some.0.{fld}"))
    for p in c.paths(fid):
        over = [a for a, v in p.truth.items() if a.tag == "ovf"]
        show_ = repr(p)[:500] + "".join(f" {show(k)}: {show(v)} -> {show((p.next or {}).get(k, k))}" for k, v in p.phi.items())
        if p.kind == "back":
            nb += 1
            ok = len(over) == 1 and over[0].args[0] == "add" and over[0].args[1] == w and p.truth[over[0]] is False
            if c.ob(f"{name}::sum#checked", ok, f"sum of {name}: every partial sum must be a checked {w} addition", c.loc(fid), show_):
                ab = over[0].args[2:]
                x = [t for t in ab if re.fullmatch(el + r"\." + fld, show(unphi(p, t))) or re.fullmatch(el + r"\." + fld, show(t))]
                c.ob(f"{name}::sum#element", len(x) == 1, f"sum of {name}: the next element itself must be added", c.loc(fid), show_)
                y = [t for t in ab if t not in x]
                c.ob(f"{name}::sum#start", len(y) == 1 and re.fullmatch(zero, show(initially(p, y[0]))), f"sum of {name}: the sum must start at zero", c.loc(fid), show_)
                if len(y) == 1:
                    n = show(stepped(p, y[0]))
                    want = f"add({show(ab[0])}, {show(ab[1])})"
                    c.ob(f"{name}::sum#step", match(want, n) or match(want + " || " + con(name, fld, want), sret(p)), f"sum of {name}: the sum carried on must be the one just checked", c.loc(fid), show_ + " / " + n)
        elif p.kind == "ret":
            r = show(p.ret)
            if any(v for a, v in p.truth.items() if a.tag == "ovf"):
                c.ob(f"{name}::sum#fail", r == "None", f"sum of {name}: an overflowing partial sum must give None", c.loc(fid), show_)
            else:
                done = any(f[0] == "exh" for f in p.facts) or any(v == "None" and re.fullmatch(el[1:-1].replace(r"\.Some\.0", ""), show(a)) for a, v in p.var.items())
                c.ob(f"{name}::sum#done", r.startswith("Some(") and done, f"sum of {name}: success only after the last element", c.loc(fid), show_)
        else:
            c.ob(f"{name}::sum#panic", False, f"sum of {name} can panic", c.loc(fid), show_)
    c.ob(f"{name}::sum#loop", nb == 1, f"sum of {name}: one per-element path expected", c.loc(fid))


def con(name, fld, v):
    return f"{name}{{{fld}: {v}}} || Some({name}{{{fld}: {v}}})"


def heights(c):
    H, D, N = P + "height::BlockHeight", P + "height::BlockDistance", P + "height::BlockCount"
    op(c, f"<{D} as {OPS}Add>::add", "BlockDistance", "i64", "$0.0", "$1.0", "add", ok="Some(BlockDistance({v}))")
    op(c, f"<{D} as {OPS}Sub>::sub", "BlockDistance", "i64", "$0.0", "$1.0", "sub", ok="Some(BlockDistance({v}))")
    op(c, f"<{N} as {OPS}Add>::add", "BlockCount", "u64", "$0.0", "$1.0", "add", ok="Some(BlockCount({v}))")
    op(c, f"<{N} as {OPS}Sub>::sub", "BlockCount", "u64", "$0.0", "$1.0", "sub", ok="Some(BlockCount({v}))")
    op(c, H + "::checked_add", "BlockHeight", "u64", "$0.0", "$1", "add", ok="Some(BlockHeight({v}))")
    op(c, H + "::next_height", "BlockHeight", "u64", "$0.0", "1", "add", ok="BlockHeight({v})", fail="panic")
    c.table("BlockHeight::prev_height", c.paths(H + "::prev_height"), [("eq($0.0, 0)", "None"), ("lt(0, $0.0)", "Some(BlockHeight(sub($0.0, 1)))")])
    h = "tryint(i64, $0.0)"
    o = "ovf(add, i64, $0.0, $1.0)"
    s = "tryint(u64, add($0.0, $1.0))"
    c.table("BlockHeight+BlockDistance", c.paths(f"<{H} as {OPS}Add<{D}>>::add"), [
        (f"{h} is Err", "None"), (f"{h} is Ok & {o}", "None || panic"), (f"{h} is Ok & !{o} & {s} is Err", "None"), (f"{h} is Ok & !{o} & {s} is Ok", "Some(BlockHeight(add($0.0, $1.0)))")])
    o, s, nn = "ovf(sub, i64, $0.0, $1.0)", "tryint(u64, sub($0.0, $1.0))", "lt(-1, sub($0.0, $1.0))"
    # success only with the exact difference, and only when it was found to be representable
    for p in c.paths(f"<{H} as {OPS}Sub<{D}>>::sub"):
        r = sret(p)
        if r == "None":
            bad = not any(holds(p, x) for x in (f"{h} is Err", "!lt(-1, $0.0)", o, f"{s} is Err", "!" + nn))
        else:
            bad = r != "Some(BlockHeight(sub($0.0, $1.0)))" or not holds(p, f"{h} is Ok & !{o}") or not (holds(p, f"{s} is Ok") or holds(p, nn))
        c.ob("BlockHeight-BlockDistance", not bad, "BlockHeight - BlockDistance must be the exact difference, or None exactly when it is no height", c.loc(p.fid), repr(p)[:600])
    g = "tryint(i64, $1.0)"
    c.table("BlockHeight-BlockHeight", c.paths(f"<{H} as {OPS}Sub>::sub"), [
        (f"{h} is Err", "None"), (f"{g} is Err", "None"), (f"{h} is Ok & {g} is Ok & {o}", "None"), (f"{h} is Ok & {g} is Ok & !{o}", "Some(BlockDistance(sub($0.0, $1.0)))")])
    for T_, n in ((H, "BlockHeight"), (D, "BlockDistance"), (N, "BlockCount")):
        c.table(n + "::new", c.paths(T_ + "::new"), [("", n + "($0)")])
        c.table(n + "::to_int", c.paths(T_ + ("::into_int" if n == "BlockHeight" else "::to_int")), [("", "$0.0")])


def times(c):
    T_ = P + "time::Time"
    for tr, nm in (("Add", "add"), ("Sub", "sub")):
        t = f"Duration::checked_{nm}($0.time, $1)"
        c.table(f"Time {nm} Duration", c.paths(f"<{T_} as {OPS}{tr}<core::time::Duration>>::{nm}"), [(f"{t} is None", "None"), (f"{t} is Some", f"Some(Time{{time: {t}.Some.0}})")])
    t = "Duration::checked_sub($0.time, $1.time)"
    c.table("Time-Time", c.paths(f"<{T_} as {OPS}Sub>::sub"), [(f"{t} is None", f"None || {t}"), (f"{t} is Some", f"Some({t}.Some.0) || {t}")])
    for n, arg, out in (("saturating_duration_add", "$1", "Time{time: Duration::saturating_add($0.time, $1)}"), ("saturating_duration_sub", "$1", "Time{time: Duration::saturating_sub($0.time, $1)}"),
                        ("saturating_sub", "$1", "Duration::saturating_sub($0.time, $1.time)")):
        c.table("Time::" + n, c.paths(T_ + "::" + n), [("", out)])
    t = "tryint(u64, Duration::as_millis($0))"
    c.table("duration_to_int", c.paths(P + "time::duration_to_int"), [(f"{t} is Err", "Err(_)"), (f"{t} is Ok", "Ok(Duration::as_millis($0))")])
    c.table("duration_from_int", c.paths(P + "time::duration_from_int"), [("", "Duration::from_millis($0)")])


    as_, sub = "Duration::as_secs($0.time)", "Duration::subsec_nanos($0.time)"
    c.table("Time::as_absolute_time", c.paths(T_ + "::as_absolute_time"), [(f"tryint(i64, {as_}) is Err", "None"), (f"tryint(i64, {as_}) is Ok", f"LocalResult::single(TimeZone::timestamp_opt(Utc, {as_}, {sub}))")])
    ns, ts = "DateTime::timestamp_subsec_nanos($0)", "DateTime::timestamp($0)"
    c.table("Time::from_absolute_time", c.paths(T_ + "::from_absolute_time"), [
        (f"!eq(0, {ns})", "None"), (f"eq(0, {ns}) & tryint(u64, {ts}) is Err", "None"), (f"eq(0, {ns}) & tryint(u64, {ts}) is Ok", f"Some(Time{{time: Duration::from_secs({ts})}})")])
    c.table("Time::as_duration_since_epoch", c.paths(T_ + "::as_duration_since_epoch"), [("", "$0.time")])
    c.table("Time::as_secs_since_epoch", c.paths(T_ + "::as_secs_since_epoch"), [("", as_)])
    c.table("Time::from_duration_since_epoch", c.paths(T_ + "::from_duration_since_epoch"), [("", "Time{time: $0}")])
    c.table("Time::from_secs_since_epoch", c.paths(T_ + "::from_secs_since_epoch"), [("", "Time{time: Duration::from_secs($0)}")])


def conversions(c):
    """conversions to and from the integer, bitwise operators, ranges of heights, orderings and sums written with amount_sum!"""
    H, D, N = P + "height::BlockHeight", P + "height::BlockDistance", P + "height::BlockCount"
    for T_, n, w in ((H, "BlockHeight", "u64"), (D, "BlockDistance", "i64")):
        m = P + "height::"
        c.table(f"{n} from {w}", c.paths(f"<{T_} as core::convert::From<{w}>>::from"), [("", n + "($0)")])
        c.table(f"{w} from {n}", c.paths(f"{m}<impl core::convert::From<{T_}> for {w}>::from"), [("", "$0.0")])
    for n, v in (("zero", 0), ("one", 1), ("max", 2**64 - 1)):
        c.table("BlockHeight::" + n, c.paths(H + "::" + n), [("", f"BlockHeight({v})")])
    for n, extra in (("iter_up_to", ""), ("iter_up_to_including", ", incl()")):
        c.table("BlockHeight::" + n, c.paths(H + "::" + n), [("", f"map(range($0.0, $1.0{extra}), fn BlockHeight::new) || map(range($0.0, $1.0{extra}), fn BlockHeight) || map(range($0.0, $1.0{extra}), fn <BlockHeight as From>::from)")])
    c.table("BlockHeight from text", c.paths(f"<{H} as core::str::traits::FromStr>::from_str"), [("parse_u64($0) is Err", "Err(_)"), ("parse_u64($0) is Ok", "Ok(BlockHeight(parse_u64($0).Ok.0))")])
    for nm in ("bitand", "bitor", "bitxor"):
        tr = "Bit" + nm[3:].capitalize()
        c.table("Amount::" + nm, c.paths(f"<{A} as core::ops::bit::{tr}>::{nm}"), [("", f"Amount{{atoms: {nm}($0.atoms, $1.atoms)}} || Amount{{atoms: {nm}($1.atoms, $0.atoms)}}")])
        for p in c.paths(f"<{A} as core::ops::bit::{tr}Assign>::{nm}_assign"):
            o = sout(0, "atoms")(p)
            c.ob(f"Amount::{nm}_assign", match(f"{nm}($0.atoms, $1.atoms)", o), f"the operator must store the {nm} of both amounts", c.loc(p.fid), repr(p)[:300] + o)
    c.table("Amount::not", c.paths(f"<{A} as core::ops::bit::Not>::not"), [("", "Amount{atoms: bitnot($0.atoms)} || Amount{atoms: not($0.atoms)}")])
    for T_, fld in ((A, "atoms"), (S, "val"), (H, "0"), (D, "0"), (N, "0"), (P + "time::Time", "time")):
        n = T_.rsplit("::", 1)[-1]
        c.table(n + " order", c.paths(f"<{T_} as core::cmp::Ord>::cmp"), [("", f"cmp($0.{fld}, $1.{fld})")])
        c.table(n + " partial order", c.paths(f"<{T_} as core::cmp::PartialOrd>::partial_cmp"), [("", f"Some(cmp($0.{fld}, $1.{fld})) || partial_cmp($0.{fld}, $1.{fld})")])
        c.table(n + " equality", c.paths(f"<{T_} as core::cmp::PartialEq>::eq"), [(f"eq($0.{fld}, $1.{fld})", f"true || eq($0.{fld}, $1.{fld})"), (f"!eq($0.{fld}, $1.{fld})", f"false || eq($0.{fld}, $1.{fld})")])
    x = "Amount::add($0, $1)"
    c.table("amount_sum! of two", c.paths("mlwitness::sums::two"), [(f"{x} is None", f"None || {x}"), (f"{x} is Some", f"{x} || Some({x}.Some.0)")])
    x = "SignedAmount::add($0, $1)"
    y = f"SignedAmount::add({x}.Some.0, $2)"
    c.table("amount_sum! of three", c.paths("mlwitness::sums::three"), [(f"{x} is None", "None"), (f"{x} is Some & {y} is None", f"None || {y}"), (f"{x} is Some & {y} is Some", f"{y} || Some({y}.Some.0)")])


PARTS = [amounts, heights, times, conversions]
