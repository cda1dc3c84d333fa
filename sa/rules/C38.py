"""Decimal amounts: scaling to a number of decimals, padding removal, subtraction and parsing either yield the value denoted
by the input exactly or are refused; decided on the path summaries (loop bodies by their one-step transition)."""
from ..rule import *
CRATES = ["common"]
D = "common::primitives::amount::decimal::"
DA = D + "DecimalAmount::"
STR = "str::split_once({s}, 46)"


def pow10(e):
    return f"num(checked_pow, u128, 10, {e})"


def scaling(c):
    k = pow10("sub($1, $0.decimals)")
    o = f"ovf(mul, u128, $0.mantissa, {k}.Some.0)"
    c.table("with_decimals", c.paths(DA + "with_decimals"), [
        ("lt($1, $0.decimals)", "None"),
        (f"!lt($1, $0.decimals) & {k} is None", "None"),
        (f"!lt($1, $0.decimals) & {k} is Some & {o}", "None"),
        (f"!lt($1, $0.decimals) & {k} is Some & !{o}", f"Some(DecimalAmount{{mantissa: mul($0.mantissa, {k}.Some.0), decimals: $1}})"),
    ])
    w = "DecimalAmount::without_padding($0)"
    x = f"DecimalAmount::with_decimals({w}, $1)"
    st = "DecimalAmount::(without_padding|with_decimals)$"
    c.table("to_amount", c.paths(DA + "to_amount", stop=st), [(f"{x} is None", "None"), (f"{x} is Some", f"Some(Amount{{atoms: {x}.Some.0.mantissa}})")])
    c.table("from_uint_decimal", c.paths(DA + "from_uint_decimal"), [("", "DecimalAmount{mantissa: $0, decimals: $1}")])
    c.table("from_uint_integral", c.paths(DA + "from_uint_integral"), [("", "DecimalAmount{mantissa: $0, decimals: 0}")])
    c.table("from_amount_full_padding", c.paths(DA + "from_amount_full_padding"), [("", "DecimalAmount{mantissa: $0.atoms, decimals: $1}")])
    c.table("from_amount_no_padding", c.paths(DA + "from_amount_no_padding", stop=st), [
        ("", "DecimalAmount::without_padding(DecimalAmount{mantissa: $0.atoms, decimals: $1})")])
    r = "RpcAmountIn"
    c.table("RpcAmountIn::to_amount", c.paths("common::primitives::amount::rpc::RpcAmountIn::to_amount", stop="DecimalAmount::to_amount$"), [
        ("$0.0 is Atoms", "Some($0.0.Atoms.0)"),
        ("$0.0 is Decimal", "DecimalAmount::to_amount($0.0.Decimal.0, $1) || Some(DecimalAmount::to_amount($0.0.Decimal.0, $1).Some.0) || None")])
    y = "DecimalAmount::to_amount(parse($0).Ok.0, $1)"
    c.table("Amount::from_fixedpoint_str", c.paths("common::primitives::amount::Amount::from_fixedpoint_str", stop="DecimalAmount::to_amount$|FromStr>::from_str$|str::parse"), [
        ("", lambda p: bool(re.fullmatch(r"None|Some\((.*)\.Some\.0\)|DecimalAmount::to_amount\((.*)\.Ok\.0, \$1\)", sret(p))) and "DecimalAmount::to_amount(" in sret(p) + "".join(p.fact_strs()) or sret(p) == "None")])


def padding(c):
    """one step divides the mantissa by ten (only when the remainder is zero and decimals are left) and drops one decimal"""
    ps = c.paths(DA + "without_padding")
    rs = [p for p in ps if p.kind == "ret"]
    bs = [p for p in ps if p.kind == "back"]
    c.ob("without_padding#shape", rs and bs and all(p.kind in ("ret", "back") for p in ps), "without_padding: a loop with a single exit value and no panic expected", c.loc(DA + "without_padding"))
    for p in rs:
        m, d = fields(p, p.ret, "mantissa", "decimals")
        c.ob("without_padding#start", fields(p, started(p, p.ret), "mantissa", "decimals") == ["$0.mantissa", "$0.decimals"], "without_padding must start from its input", c.loc(p.fid), repr(p)[:300])
        v = view(p)
        t = {canon(show(a)): x for a, x in p.truth.items()}
        done = t.get(canon(f"lt(0, {d})")) is False or t.get(canon(f"eq(0, {d})")) or t.get(canon(f"eq(0, rem({m}, 10))")) is False
        c.ob("without_padding#exit", done, "without_padding must stop exactly when no decimals are left or the last digit is not zero", c.loc(p.fid), repr(p)[:300])
        for b in bs:
            t = {canon(show(a)): x for a, x in b.truth.items()}
            go = (t.get(canon(f"lt(0, {d})")) is True or t.get(canon(f"eq(0, {d})")) is False) and t.get(canon(f"eq(0, rem({m}, 10))")) is True
            n = fields(b, stepped(b, p.ret), "mantissa", "decimals")
            c.ob("without_padding#step", go and n == [f"div({m}, 10)", f"sub({d}, 1)"], "without_padding: one step must remove exactly one trailing zero digit and one decimal", c.loc(b.fid), repr(b)[:300] + str(n))


def widest(p, d, a, b):
    """d is the larger number of decimals of the two, so that neither loses digits"""
    a, b = a + ".decimals", b + ".decimals"
    if d in (f"max({a}, {b})", f"max({b}, {a})"):
        return True
    return any(d == x and (holds(p, f"!lt({x}, {y})") or holds(p, f"lt({y}, {x})")) for x, y in ((a, b), (b, a)))


def subtraction(c):
    w = "DecimalAmount::without_padding"
    wd = "DecimalAmount::with_decimals"
    ps = c.paths(D + "subtract_decimal_amounts_of_same_currency", stop="DecimalAmount::(without_padding|with_decimals)$")
    good = 0
    for p in ps:
        if p.kind != "ret" or sret(p) == "None":
            c.ob("subtract#refusal", p.kind == "ret" and any(v in (True, "None") and ("with_decimals" in show(a)) for a, v in list(p.truth.items()) + list(p.var.items())),
                 "subtract: may be refused only because an operand cannot be scaled or the difference is negative", c.loc(p.fid), repr(p)[:600])
            continue
        good += 1
        m = re.fullmatch(r"Some\(DecimalAmount::without_padding\(DecimalAmount\{mantissa: sub\((.*)\.mantissa, (.*)\.mantissa\), decimals: (.*)\}\)\)", sret(p))
        ok_ = False
        if m:
            a, b, d = m.groups()
            base = r"(DecimalAmount::without_padding\(\$%d\)|\$%d)"
            la = re.fullmatch(r"DecimalAmount::with_decimals\(" + base % (0, 0) + r", (.*)\)\.Some\.0", a)
            lb = re.fullmatch(r"DecimalAmount::with_decimals\((DecimalAmount::without_padding\(\$1\)), (.*)\)\.Some\.0", b)
            ok_ = bool(la and lb) and la[2] == lb[2] == d and widest(p, d, la[1], lb[1]) and holds(p, f"!lt({a}.mantissa, {b}.mantissa)")
        c.ob("subtract#exact", ok_, "subtract: the difference of both mantissas scaled to the same number of decimals", c.loc(p.fid), repr(p)[:600])
    c.ob("subtract#some", good, "subtract: no successful path", c.loc(ps[0].fid))


def parsing(c):
    fid = "<common::primitives::amount::decimal::DecimalAmount as core::str::traits::FromStr>::from_str"
    ps = c.paths(fid)
    good = 0
    for p in ps:
        if p.kind == "panic":
            c.ob("parse#panic", re.match(r"overflow:Add", str(p.msg)) and any(v and a.tag == "ovf" and a.args[1] == "usize" for a, v in p.truth.items()),
                 "parse: text must be refused with an error, never with a panic", c.loc(fid), repr(p)[:900])
        if p.kind != "ret":
            continue
        digit = [(show(a), v) for a, v in p.truth.items() if "is_ascii_digit(" in show(a)]
        if any(v is False for _, v in digit):
            c.ob("parse#digits", sret(p).startswith("Err("), "parse: a character that is not a digit must be refused", c.loc(fid), repr(p)[:500])
        r = sret(p)
        if not r.startswith("Ok("):
            continue
        good += 1
        m = re.fullmatch(r"Ok\(DecimalAmount\{mantissa: (.*), decimals: (.*)\}\)", r)
        if not c.ob("parse#value", m, "parse: result is not a decimal amount", c.loc(fid), r):
            continue
        man, dec = m.groups()
        exh = [show(f[1]) for f in p.facts if f[0] == "exh"]
        s = None
        for a, v in p.var.items():
            x = show(a)
            if x.startswith("str::split_once("):
                s = (x, v)
        if not c.ob("parse#split", s, "parse: the text is not split at the decimal point", c.loc(fid), repr(p)[:500]):
            continue
        whole = s[0][len("str::split_once("):-len(", 46)")]
        ip, fp = (f"{s[0]}.Some.0.0", f"{s[0]}.Some.0.1") if s[1] == "Some" else (whole, "''")
        alld = " ".join(exh)
        c.ob("parse#alldigits", f"chars({ip})" in alld and (fp == "''" or f"chars({fp})" in alld), "parse: success before every character was checked to be a digit", c.loc(fid), repr(p)[:700])
        nd = "0" if fp == "''" else f"len({fp})"
        c.ob("parse#decimals", dec in (nd, f"tryint(u8, {nd}).Ok.0") or (dec == "0" and holds(p, f"eq({fp}, '')")), "parse: the number of decimals must be the length of the fraction", c.loc(fid), dec)
        iv = [f"parse_u128({ip}).Ok.0"] + (["parse_u128('0').Ok.0", "0"] if holds(p, f"eq({ip}, '')") else [])
        fv = [f"parse_u128({fp}).Ok.0"] + (["parse_u128('0').Ok.0", "0"] if fp == "''" or holds(p, f"eq({fp}, '')") else [])
        k = pow10(dec) + ".Some.0"
        zero = any(holds(p, f"eq(0, {x})") for x in iv) or "0" in iv
        okv = (man in fv and zero) or any(match(f"add({f}, mul({i}, {k}))", man) and holds(p, f"!ovf(mul, u128, {i}, {k}) & !ovf(add, u128, {f}, mul({i}, {k}))") for i in iv for f in fv) \
            or any(match(f"mul({i}, {k})", man) and holds(p, f"!ovf(mul, u128, {i}, {k})") for i in iv if "0" in fv)
        c.ob("parse#mantissa", okv, "parse: the mantissa must be the integer part scaled by the fraction's length plus the fraction, all checked", c.loc(fid), man)
        nonempty = any(holds(p, x) for x in (f"!eq({ip}, '')", f"!eq({fp}, '')", f"lt(0, len({ip}))", f"lt(0, len({fp}))", f"lt(0, add(len({ip}), len({fp})))", f"lt(0, add(0, len({ip})))",
                                             f"!eq(0, add(len({ip}), len({fp})))", f"!eq(0, len({ip}))"))
        c.ob("parse#nonempty", nonempty, "parse: text without any digit must be refused", c.loc(fid), repr(p)[:700])
    c.count("parse", good, 4)


def writing(c):
    """the digits with a point before the last `decimals` of them; the same text for the same digits"""
    fid = "<common::primitives::amount::decimal::DecimalAmount as core::fmt::Display>::fmt"
    seen = set()
    for p in c.paths(fid):
        r = re.sub(r"(?<=[)\]])@\d+", "", sret(p))
        if p.kind == "panic":
            tiny = any(v and a.tag == "ovf" and a.args[1] == "usize" for a, v in p.truth.items())
            short = any(re.match(r"lt\(\$0\.decimals, len\(out0\[Write::write_fmt\(", show(a)) and not v for a, v in p.truth.items())
            c.ob("write#panic", tiny or short, "write: must not panic", c.loc(fid), repr(p)[:500])
            continue
        if p.kind != "ret":
            c.ob("write#loop", False, "write: one text", c.loc(fid), repr(p)[:300])
            continue
        if holds(p, "lt(0, $0.decimals)"):
            if any(v == "Err" for a, v in p.var.items() if "write_fmt(" in show(a)):
                continue
            b = r"out0\[Write::write_fmt\(String::(?:with_capacity\(\w+\)|new\(\)|default\(\)), Arguments::new\(\[211, 48, 0, 0, 40, 1, 0, 0\], \[Argument::new_display\(\$0\.mantissa\), Argument::from_usize\(add\(1, \$0\.decimals\)\)\]\)\)\]"
            m = re.fullmatch(rf"Formatter::(?:pad|write_str)\(\$1, out0\[String::insert\(({b}), sub\(len\((.*)\), \$0\.decimals\), 46\)\]\)", r)
            c.ob("write#point", m and m[1] == m[2], "write: at least one digit more than decimals, with the point before the last `decimals` digits", c.loc(fid), r[:700])
            seen.add("point")
        else:
            c.ob("write#whole", r == "num::fmt($0.mantissa, $1)" or match("Formatter::write_fmt($1, Arguments::new(_, [Argument::new_display($0.mantissa)]))", r), "write: without decimals the digits as they are", c.loc(fid), r[:300])
            seen.add("whole")
    c.count("write", len(seen), 2)
    D = "common::primitives::amount::decimal::D"
    same = [("eq($0.mantissa, $1.mantissa) & eq($0.decimals, $1.decimals)", "true"), ("!eq($0.mantissa, $1.mantissa)", "false"), ("!eq($0.decimals, $1.decimals)", "false")]
    c.table("same", c.paths(D + "ecimalAmount::is_same"), same)
    c.table("same shown", c.paths(f"<{D}isplayAmount as core::cmp::PartialEq>::eq"), [(x.replace("$0", "$0.0").replace("$1", "$1.0"), y) for x, y in same])
    c.table("shown", c.paths(f"<{D}isplayAmount as core::fmt::Display>::fmt", stop=r"DecimalAmount as"), [("", "DecimalAmount::fmt($0.0, $1)")])


def signed(c):
    """a minus sign, then the magnitude"""
    A = "common::primitives::amount::"
    opt = dict(stop=r"amount::Amount::(into|from)_fixedpoint_str$")
    mag = "Amount::into_fixedpoint_str(Amount{atoms: num(unsigned_abs, i128, $0.val)}, $1)"
    c.table("signed text", c.paths(A + "signed::SignedAmount::into_fixedpoint_str", **opt), [("lt(-1, $0.val)", mag), ("!lt(-1, $0.val)", f"String::add('-', {mag})")])
    fid = A + "signed::SignedAmount::from_fixedpoint_str"
    HALF = 1 << 127
    seen = set()
    for p in c.paths(fid, **opt):
        neg = holds(p, "str::strip_prefix($0, 45) is Some")
        pos = holds(p, "str::strip_prefix($0, 45) is None")
        if not c.ob("signed parse#case", neg != pos and p.kind == "ret", "the sign must be looked at, without panic", c.loc(fid), repr(p)[:500]):
            continue
        u = "Amount::from_fixedpoint_str(" + ("str::strip_prefix($0, 45).Some.0" if neg else "$0") + ", $1)"
        n = u + ".Some.0.atoms"
        r = sret(p)
        if holds(p, u + " is None"):
            good, k = r == "None", "none"
        elif neg and holds(p, f"eq({HALF}, {n})"):
            good, k = r == "Some(SignedAmount{val: -%d})" % HALF, "min"
        else:
            fits = f"lt({n}, {HALF})"
            fits = holds(p, fits) or holds(p, f"tryint(i128, {n}) is Ok") or holds(p, f"lt({n}, {HALF + 1})") and neg and holds(p, f"!eq({HALF}, {n})")
            w = r.replace(f"tryint(i128, {n}).Ok.0", n)
            good = fits and (w == "Some(SignedAmount{val: %s})" % (f"neg({n})" if neg else n)) or not fits and r == "None" and (holds(p, f"!lt({n}, {HALF})") or holds(p, f"tryint(i128, {n}) is Err"))
            k = ("neg" if neg else "pos") + ("" if fits else " out")
        c.ob("signed parse", good, "a minus sign must negate the amount that follows, and what does not fit be refused", c.loc(fid), repr(p)[:600])
        seen.add(k)
    c.count("signed parse", len(seen), 6)
    c.table("text", c.paths(A + "Amount::into_fixedpoint_str", stop=r"DecimalAmount::from_amount_no_padding$"), [("", "T::to_string(DecimalAmount::from_amount_no_padding($0, $1))")])
    x = "DecimalAmount::from_str($0)"
    c.table("parse text", c.paths(A + "Amount::from_fixedpoint_str", stop=r"DecimalAmount::to_amount$|DecimalAmount as "), [(x + " is Err", "None"), (x + " is Ok", f"DecimalAmount::to_amount({x}.Ok.0, $1)")])


def rpc(c):
    """amounts in requests and replies"""
    R = "common::primitives::amount::rpc::Rpc"
    opt = dict(stop=r"DecimalAmount::\w+$|get_token_decimals$|coin_decimals$")
    c.table("atoms in", c.paths(R + "AmountIn::from_atoms"), [("", "RpcAmountIn(RpcAmountInData::Atoms($0))")])
    c.table("decimal in", c.paths(R + "AmountIn::from_decimal"), [("", "RpcAmountIn(RpcAmountInData::Decimal($0))")])
    c.table("in", c.paths(R + "AmountIn::to_amount", **opt), [("$0.0 is Decimal", "DecimalAmount::to_amount($0.0.Decimal.0, $1)"), ("$0.0 is Atoms", "Some($0.0.Atoms.0)")])
    d = "DecimalAmount::from_amount_no_padding($0, $1)"
    both = lambda x: "RpcAmountOut{atoms: $0, decimal: %s}" % x
    for f in ("from_amount", "from_amount_no_padding"):
        c.table(f, c.paths(R + "AmountOut::" + f, **opt), [("", both(d))])
    c.table("padded", c.paths(R + "AmountOut::from_amount_full_padding", **opt), [("", both("DecimalAmount::from_amount_full_padding($0, $1)"))])
    t = "TokenDecimalsProvider::get_token_decimals($3, $1.Token.0)"
    no = lambda k: "Ok(" + both(d.replace("$1", k)) + ")"
    c.table("currency", c.paths(R + "AmountOut::from_currency_amount", **opt), [("$1 is Coin", no("ChainConfig::coin_decimals($2)")), (f"$1 is Token & {t} is Ok", no(f"{t}.Ok.0.0")), (f"$1 is Token & {t} is Err", f"Err({t}.Err.0)")])
    same = lambda a: f"eq({a}.mantissa, {a.replace('$0', '$1')}.mantissa)", lambda a: f"eq({a}.decimals, {a.replace('$0', '$1')}.decimals)"
    D_, A_ = "$0.0.Decimal.0", "eq($0.0.Atoms.0.atoms, $1.0.Atoms.0.atoms)"
    m, d = same[0](D_), same[1](D_)
    both_ = "$0.0 is Decimal & $1.0 is Decimal & "
    atoms = "$0.0 is Atoms & $1.0 is Atoms & "
    c.table("in same", c.paths(R + "AmountIn::is_same"), [(both_ + f"{m} & {d}", "true"), (both_ + "!" + m, "false"), (both_ + "!" + d, "false"), (atoms + A_, "true"), (atoms + "!" + A_, "false"),
                                                          ("$0.0 is Decimal & $1.0 is Atoms", "false"), ("$0.0 is Atoms & $1.0 is Decimal", "false")])
    A_, m, d = "eq($0.atoms.atoms, $1.atoms.atoms)", same[0]("$0.decimal"), same[1]("$0.decimal")
    c.table("out same", c.paths(R + "AmountOut::is_same"), [(f"{A_} & {m} & {d}", "true"), ("!" + A_, "false"), ("!" + m, "false"), ("!" + d, "false")])
    c.table("amount out", c.paths(R + "AmountOut::amount"), [("", "$0.atoms")])
    c.table("decimal out", c.paths(R + "AmountOut::decimal"), [("", "$0.decimal")])
    P_ = "DecimalAmount::from_uint_decimal"
    D = "common::primitives::amount::decimal::DecimalAmount::"
    c.table("full", c.paths(D + "from_amount_full_padding"), [("", "DecimalAmount{mantissa: $0.atoms, decimals: $1}")])
    c.table("minimal", c.paths(D + "from_amount_no_padding", stop=r"without_padding$"), [("", "DecimalAmount::without_padding(DecimalAmount{mantissa: $0.atoms, decimals: $1})")])


def ratios(c):
    """per-mille ratios as a percentage (one decimal is a tenth of a percent) or as a fraction of three decimals"""
    P_ = "common::primitives::per_thousand::PerThousand"
    opt = dict(stop=r"amount::Amount::(into|from)_fixedpoint_str$")
    f = P_ + "::from_decimal_str"
    pct = "str::ends_with(str::trim($0), 37)"
    seen = set()
    for p in c.paths(f, **opt):
        r = sret(p)
        h = holds(p, pct)
        if not c.ob("ratio#kind", p.kind == "ret" and h is not None, "a ratio must be told from a percentage by its sign", c.loc(f), repr(p)[:400]):
            continue
        if r.startswith("Err("):
            seen.add((h, "Err"))
            continue
        texts = ["str::trim_end_matches($0, 37)", "str::trim_end_matches(str::trim($0), 37)", "str::strip_suffix(str::trim($0), 37).Some.0"] if h else ["$0", "str::trim($0)"]
        vs = [f"Amount::from_fixedpoint_str({t}, {1 if h else 3}).Some.0.atoms" for t in texts]
        c.ob("ratio#value", any(match(f"Ok(PerThousand({v}))", r) and holds(p, f"!lt(1000, {v})") for v in vs), "a percentage counts tenths of a percent, anything else thousandths, at most 1000", c.loc(f), repr(p)[:600])
        seen.add((h, "Ok"))
    for p in c.paths(f, **opt):
        if sret(p).startswith("Err("):
            bad = any(v == "None" and "from_fixedpoint_str" in show(a) for a, v in p.var.items()) or any(v == "Err" and show(a).startswith("tryint(u16") for a, v in p.var.items()) \
                or any(v and show(a).startswith("lt(1000, ") for a, v in p.truth.items())
            c.ob("ratio#refused", bad, "only what is no number or above 1000 is refused", c.loc(f), repr(p)[:500])
    c.count("ratio", len(seen), 4)
    c.table("ratio as decimal", c.paths(P_ + "::to_decimal_str", **opt), [("", "Amount::into_fixedpoint_str(Amount{atoms: $0.0}, 3)")])
    displayed(c, "percent", f"<{P_} as core::fmt::Display>::fmt", [("", "{Amount::into_fixedpoint_str(Amount{atoms: $0.0}, 1)}%")], **opt)
    for p in c.paths(P_ + "::to_percentage_str", **opt):
        t = sret(p) + " ".join(show(e.res) for e in p.events)
        if p.kind == "ret":
            c.ob("percent text", "Amount::into_fixedpoint_str(Amount{atoms: $0.0}, 1)" in t or match("T::to_string($0)", sret(p)), "the text of a ratio is its percentage", c.loc(p.fid), t[:400])
        else:
            c.ob("percent text#panic", any(v == "Err" for v in p.var.values()), "writing a ratio must not panic", c.loc(p.fid), repr(p)[:300])


PARTS = [scaling, padding, subtraction, parsing, writing, signed, rpc, ratios]
