"""Range-restricted types: every place that puts a value of the type together is found in the type-checked program, and on
each path the range analysis must bound the payload; the field must be private and no derive may bypass the constructors."""
from ..rule import *
from ..decide import Point, Undecided
CRATES = ["common"]
PT, U31, UA = "common::primitives::per_thousand::PerThousand", "crypto::key::hdkd::u31::U31", "common::primitives::user_agent::UserAgent"
PTD = "common::primitives::amount::decimal::DecimalAmount::"


def within(lo, hi):
    def pred(p, t):
        x = t.args[3][0]
        a, b = p.m.range(p.st, x)
        if a is not None and b is not None and lo <= a and b <= hi:
            return True
        m = re.match(r"^[\w:]*random_range\(.*, range\((\d+), (\d+)(, incl\(\))?\)\)", show(x)) or re.match(r"^[\w:]*random_range\(.*, Range\{start: (\d+), end: (\d+)()\}\)", show(x))
        if m and int(m[1]) >= lo and int(m[2]) - (not m[3]) <= hi:
            return True
        # the payload of another value of the same type
        return x.tag in ("f", "field") and False or copied(p, x, t)
    return pred


def copied(p, x, t):
    s = show(x)
    return bool(re.fullmatch(r"\$\d(\.\w+)*\.0", s)) and str(t.args[0]).rsplit("::", 1)[-1] in str(p.m.F.fn(p.fid)["sig"].split(" -> ")[0]) and not re.search(r"\(u(16|32)\)", p.m.F.fn(p.fid)["sig"])


def private(c, ty, derives=("Deserialize", "Decode")):
    a = c.F.adts.get(ty)
    if not c.ob(f"{ty}#type", a, f"{ty} not found", ""):
        return
    for v in a["v"]:
        for f in v["f"]:
            c.ob(f"{ty}#private", f[2] != "pub", f"{ty}: its field must not be writable from outside its module", a.get("file", ""))
    for r in c.F.parsed_impls():
        t = c.F.ty(r["crate"], r["self"])
        if t[0] == "adt" and t[1] == ty and (r.get("trait") or "").rsplit("::", 1)[-1].split("<")[0] in ("DerefMut", "AsMut", "BorrowMut", "IndexMut"):
            c.ob(f"{ty}#mut", False, f"{ty}: {r['trait']} gives unchecked write access", "")


def per_thousand(c):
    private(c, PT)
    invariant(c, "PerThousand#built", PT, within(0, 1000), "a per-mille ratio above 1000 can be built", 1)
    c.table("PerThousand::new", c.paths(PT + "::new"), [("lt(1000, $0)", "None"), ("!lt(1000, $0)", "Some(PerThousand($0))")])
    c.table("PerThousand::value", c.paths(PT + "::value"), [("", "$0.0")])
    c.table("PerThousand::denominator", c.paths(PT + "::denominator"), [("", "1000")])


def plain(p, s, x):
    """the text with the top bit's mask left out where the bit is clear anyway"""
    if PRED["bit31"](p, x) is False or PRED["bit31"](p, canon(x)) is False:
        for a in (f"bitand({x}, 2147483647)", f"bitand(2147483647, {x})"):
            s = s.replace(a, x)
    return s


def u31(c):
    private(c, U31)
    invariant(c, "U31#built", U31, within(0, 2**31 - 1), "a 31-bit index of 32 bits can be built", 1)
    for fid in (U31 + "::from_u32", f"<{U31} as core::convert::TryFrom<u32>>::try_from"):
        for p in rets(c.paths(fid)):
            lo, hi = p.m.range(p.st, mk("arg", 0))
            top = PRED["bit31"](p, "$0")
            big = lo is not None and lo >= 2**31 or top is True
            small = hi is not None and hi < 2**31 or top is False
            r = plain(p, sret(p), "$0")
            c.ob(fid.rsplit("::", 1)[-1] + "#exact", small and re.fullmatch(r"(Some|Ok)\(U31\(\$0\)\)", r) or big and re.match(r"None|Err\(", r), f"{fid}: exactly the values below 2^31 are accepted, unchanged", c.loc(fid), repr(p)[:300])
    c.table("U31::into_u32", c.paths(U31 + "::into_u32"), [("", "$0.0")])
    for p in rets(c.paths(U31 + "::from_u32_with_msb")):
        t = p.ret
        good = t.tag == "tup" and len(t.args[0]) == 2
        if good:
            v, b = plain(p, show(t.args[0][0]), "$0"), show(t.args[0][1])
            top = PRED["bit31"](p, "$0")
            good = (v in ("U31(bitand($0, 2147483647))", "U31(bitand(2147483647, $0))", "U31(rem($0, 2147483648))") or v == "U31($0)" and top is False) and (
                b in ("ne(bitand($0, 2147483648), 0)", "ne(0, bitand($0, 2147483648))", "ge($0, 2147483648)", "lt(2147483647, $0)", "gt($0, 2147483647)", "le(2147483648, $0)", "eq(shr($0, 31), 1)", "ne(shr($0, 31), 0)",
                      "eq(bitand($0, 2147483648), 2147483648)", "eq(1, shr($0, 31))", "eq(2147483648, bitand($0, 2147483648))", "not(eq(0, bitand($0, 2147483648)))", "not(lt($0, 2147483648))") or b == {True: "true", False: "false"}.get(top))
        c.ob("from_u32_with_msb", good, "the low 31 bits and the top bit must be split exactly", c.loc(p.fid), repr(p)[:300])
    for p in c.paths(U31 + "::plus_one"):
        r = plain(p, sret(p), "add(1, $0.0)")
        okp = r == "Ok(U31(add(1, $0.0)))" if r.startswith("Ok") else p.kind == "panic" and str(p.msg).startswith("overflow") or r.startswith("Err(")
        c.ob("plus_one", okp, "the successor of an index must be index + 1 or an error", c.loc(p.fid), repr(p)[:300])


def user_agent(c):
    private(c, UA)

    def whole(p, x):
        """a loop over every character of x has ended"""
        for f in p.facts:
            if f[0] == "exh":
                y = f[1]
                while y.tag in ("iter", "map", "copied", "cloned", "enumerate", "rev") and y.args[0].__class__ is T:
                    y = y.args[0]
                if y is x or show(y) == show(x):
                    return True
        return False

    def pred(p, t):
        x = t.args[3][0]
        if x.tag == "str":
            b = x.args[0].encode()
            return 1 <= len(b) <= 24 and all(33 <= k <= 126 for k in b)
        lo, hi = p.m.range(p.st, p.m.length(x))
        return lo is not None and lo >= 1 and hi is not None and hi <= 24 and whole(p, x)
    roots = invariant(c, "UserAgent#built", UA, pred, "a user agent that is empty, longer than 24 bytes or not fully checked can be built", 1, skip="mintlayer_core_user_agent|_::<impl")
    n = 0
    for i in roots:
        for p in c.paths(i):
            conds = [(a, v) for a, v in p.truth.items() if "elem(" in show(a)]
            chars = {show(y) for a, _ in conds for y in subterms(a) if y.tag == "elem"}
            if p.kind != "back" and not (p.kind == "ret" and sret(p).startswith("Err(")):
                continue
            # the bytes for which this path is taken
            taken = []
            try:
                for b in range(256) if len(chars) == 1 else []:
                    pt = Point({k: b for k in chars})
                    if all(pt.of(a) == v for a, v in conds):
                        taken.append(b)
            except Undecided as e:
                taken = None
            if p.kind == "back":
                n += 1
                c.ob("UserAgent#char", taken and all(33 <= b <= 126 for b in taken), "a character outside ASCII letters, digits and punctuation is let through", c.loc(i), repr(p)[:500])
            else:
                lo, hi = p.m.range(p.st, p.m.length(mk("arg", 0)))
                c.ob("UserAgent#refused", hi == 0 or lo is not None and lo > 24 or len(chars) == 1 and taken is not None and not any(33 <= b <= 126 for b in taken), "a user agent of 1 to 24 printable characters is refused",
                     c.loc(i), repr(p)[:400])
    c.ob("UserAgent#loop", n, "no per-character check found", "")


PARTS = [per_thousand, u31, user_agent]
