"""Bytes, bits and words of fixed-width integers: every conversion, shift, mask and bit test is followed over symbolic inputs of
the exact width, and each result bit must be the input bit its position stands for."""
from ..rule import *
from ..vf import Machine
from ..terms import *
from ..unroll import bits, Unknown, UNROLL
CRATES = ["common"]
E_ = "common::uint::endian::"
U = "common::uint::impls::"


def sym(n):
    return mk("sym", n)


def seq(n, p="b"):
    return mk("arr", tuple(sym(f"{p}{i}") for i in range(n)))


def wide(n, p="w", words=None):
    return adt(f"{U}Uint{64 * n}", f"Uint{64 * n}", ("0",), (words or seq(n, p),))


def words(t, n):
    """word terms of a wide integer value"""
    if t.tag == "adt" and t.args[0].startswith(U + "Uint") and t.args[3]:
        t = t.args[3][0]
    return list(t.args[0]) if t.tag == "arr" and len(t.args[0]) == n else None


class Run:
    def __init__(self, c, w=64, zero=lambda t: None):
        self.c, self.w, self.zero = c, w, zero

    def width(self, t):
        if t.tag == "sym":
            z = self.zero(t)
            return z if z is not None else 8 if t.args[0].startswith("b") else self.w
        return None

    def bits(self, t, n):
        try:
            return bits(t, n, self.width)
        except Unknown:
            return None

    def impossible(self, p):
        """the partition assumes an overflow of an addition of disjoint bits, or a bit count above 64"""
        for t, v in p.truth.items():
            if v and t.tag == "ovf" and t.args[0] == "add":
                x, y = self.bits(t.args[2], 64), self.bits(t.args[3], 64)
                if x and y and not any(a != 0 and b != 0 for a, b in zip(x, y)):
                    return True
            if v and t.tag in ("ovf", "lt") and re.search(r"(leading|trailing)_zeros", show(t)):
                z = [x for x in t.args if x.__class__ is T and x.tag == "num"]
                k = [x.args[0] for x in t.args if x.__class__ is T and x.tag == "int"]
                if z and k and (t.tag == "lt" and t.args[1] is z[0] and k[0] >= 64 or t.tag == "ovf" and (t.args[0] == "add" and k[0] < 2 ** 20 or t.args[0] == "sub" and k[0] >= 64)):
                    return True
        return False

    def paths(self, f, args, models=None):
        c = self.c
        f = c.resolve(f)
        m = Machine(c.F, inline=lambda x: True, unroll=True, models=models, maxpaths=300, maxsteps=40000)
        m.width = self.width
        ps = [p for p in m.run(f, args=args) if not self.impossible(p)]
        c.fns |= m.visited
        c.npaths += len(ps)
        for p in ps:
            p.fid = f
        return ps

    def value(self, key, f, args, want, n, msg, unwrap=None):
        """the function returns, on every input, the words / bytes whose bits are `want` (a list of lists of bits)"""
        ps = self.paths(f, args)
        good = bool(ps)
        why = ""
        for p in ps:
            t = p.ret if p.kind == "ret" else None
            if t is not None and unwrap:
                t = unwrap(t)
            got = None
            if t is not None:
                xs = words(t, len(want)) if len(want) > 1 or t.tag in ("adt", "arr") else [t]
                got = [self.bits(x, n) for x in xs] if xs else None
            if got != want:
                good, why = False, repr(p)[:500]
        self.c.ob(key, good, msg, self.c.loc(self.c.resolve(f)), why)


def inbits(names, n):
    return [(sym(x), i) for x in names for i in range(n)]


def chunk(bs, n):
    return [bs[i:i + n] for i in range(0, len(bs), n)]


def impl(c, rx):
    r = [i for i in c.F.ids() if re.fullmatch(rx, i)]
    if len(r) != 1:
        raise MissingAnchor(f"{rx}: {len(r)} candidates")
    return r[0]


def endian(c):
    r = Run(c)
    for n in (16, 32, 64):
        k = n // 8
        for o in ("be", "le"):
            bs = [f"b{i}" for i in range(k)]
            src = inbits(bs[::-1] if o == "be" else bs, 8)
            r.value(f"slice_to_u{n}_{o}", f"{E_}slice_to_u{n}_{o}", [seq(k)], [src], n, "the bytes of the result must be those of the slice, in this order")
            for bad in {k - 1, k + 1, 2 * k}:
                ps = r.paths(f"{E_}slice_to_u{n}_{o}", [seq(bad)])
                c.ob(f"slice_to_u{n}_{o}#len", ps and all(p.kind == "panic" for p in ps), "a slice of another length must not be read as an integer", c.loc(f"{E_}slice_to_u{n}_{o}"), str(bad))
            v = Run(c, n)
            by = chunk(inbits(["v"], n), 8)
            v.value(f"u{n}_to_array_{o}", f"{E_}u{n}_to_array_{o}", [sym("v")], by[::-1] if o == "be" else by, 8, "the bytes of the integer must be written in this order")
        bs = [f"b{i}" for i in range(k)]
        r.value(f"slice_to_i{n}_le", f"{E_}slice_to_i{n}_le", [seq(k)], [inbits(bs, 8)], n, "the bytes of the result must be those of the slice, in this order")
        Run(c, n).value(f"i{n}_to_array_le", f"{E_}i{n}_to_array_le", [sym("v")], chunk(inbits(["v"], n), 8), 8, "the bytes of the integer must be written in this order")


def conversions(c):
    for n in (2, 4, 8):
        name, k = f"Uint{64 * n}", 8 * n
        T_ = f"{U}{name}"
        r = Run(c)
        bs = [f"b{i}" for i in range(k)]
        le, be = chunk(inbits(bs, 8), 64), chunk(inbits(bs[::-1], 8), 64)
        for f, want in (("from_bytes", le), ("from_be_bytes", be)):
            r.value(f"{name}::{f}", f"{T_}::{f}", [seq(k)], want, 64, "every byte must keep its weight")
        for f, want in (("from_slice", le), ("from_be_slice", be)):
            okv = lambda t: t.args[3][0] if t.tag == "adt" and t.args[1] == "Ok" else t
            r.value(f"{name}::{f}", f"{T_}::{f}", [seq(k)], want, 64, "every byte must keep its weight", okv)
            for bad in (0, k - 1, k + 1):
                ps = r.paths(f"{T_}::{f}", [seq(bad)])
                c.ob(f"{name}::{f}#len", ps and all(p.kind == "ret" and sret(p).startswith("Err(") for p in ps), "a slice of another length must be refused", c.loc(f"{T_}::{f}"), str(bad))
        r.value(f"{name}::from[u8]", impl(c, rf"<{T_} as core::convert::From<\[u8; [^\]]*\]>>::from"), [seq(k)], le, 64, "every byte must keep its weight")
        r.value(f"{name}::from&[u8]", impl(c, rf"<{T_} as core::convert::From<&'a \[u8; [^\]]*\]>>::from"), [seq(k)], le, 64, "every byte must keep its weight")
        by = chunk(inbits([f"w{i}" for i in range(n)], 64), 8)
        r.value(f"{name}::to_bytes", f"{T_}::to_bytes", [wide(n)], by, 8, "every byte must keep its weight")
        r.value(f"{name}::to_be_bytes", f"{T_}::to_be_bytes", [wide(n)], by[::-1], 8, "every byte must keep its weight")
        z = [[0] * 64]
        w64, w128 = [inbits(["v"], 64)] + z * (n - 1), chunk(inbits(["v"], 128), 64) + z * (n - 2)
        for f in (f"{T_}::from_u64", f"<{T_} as core::convert::From<u64>>::from"):
            r.value(f"{name}::from_u64", f, [sym("v")], w64, 64, "a smaller integer must keep its value")
        am = adt("common::primitives::amount::Amount", "Amount", ("atoms",), (sym("v"),))
        for f, a in ((f"{T_}::from_u128", sym("v")), (f"<{T_} as core::convert::From<u128>>::from", sym("v")), (f"{T_}::from_amount", am), (f"<{T_} as core::convert::From<common::primitives::amount::Amount>>::from", am)):
            Run(c, 128).value(f"{name}::from_u128", f, [a], w128, 64, "a smaller integer must keep its value")
        r.value(f"{name}::low_u32", f"{T_}::low_u32", [wide(n)], [[(sym("w0"), i) for i in range(32)]], 32, "the low bits are those of the lowest word")
        r.value(f"{name}::low_u64", f"{T_}::low_u64", [wide(n)], [[(sym("w0"), i) for i in range(64)]], 64, "the low bits are those of the lowest word")
        r.value(f"{name}::zero", f"<{T_} as common::uint::BitArray>::zero", [], z * n, 64, "zero is zero")
        r.value(f"{name}::one", f"<{T_} as common::uint::BitArray>::one", [], [[1] + [0] * 63] + z * (n - 1), 64, "one is one")
        for k_, v in (("ZERO", z * n), ("ONE", [[1] + [0] * 63] + z * (n - 1)), ("MAX", [[1] * 64] * n)):
            x = c.F.consts.get(f"{T_}::{k_}")
            if x and x.get("v") is not None:
                m = Machine(c.F)
                ws = words(m.cv(x["v"]), n)
                c.ob(f"{name}::{k_}", ws and [r.bits(y, 64) for y in ws] == v, "the constant must have its value", T_, show(m.cv(x["v"])))
        wo = chunk(inbits([f"w{i}" for i in range(n)], 64), 64)
        f = f"<{T_} as core::convert::From<&'a [u64]>>::from"
        r.value(f"{name}::from[u64]", f, [seq(n, "w")], wo, 64, "every word must keep its place")
        for bad in (0, n - 1, n + 1):
            c.ob(f"{name}::from[u64]#len", all(p.kind == "panic" for p in r.paths(f, [seq(bad, "w")])), "words of another number must not be taken", c.loc(f), str(bad))
        for f in ("as_inner", "inner", "into_inner"):
            c.table(f"{name}::{f}", c.paths(f"{T_}::{f}"), [("", "$0.0")])
        c.table(f"{name}::len", c.paths(f"{T_}::len"), [("", str(n))])
        c.table(f"{name}::is_empty", c.paths(f"{T_}::is_empty"), [("", "false")])
        I = f"<{T_} as core::ops::index::Index<"
        c.table(f"{name}[]", c.paths(I + "usize>>::index"), [(f"lt({n - 1}, $1)", "panic"), (f"!lt({n - 1}, $1)", "$0.0[$1]")])
        for R_ in ("Range<usize>", "RangeTo<usize>", "RangeFrom<usize>"):
            c.table(f"{name}[{R_}]", c.paths(f"{I}core::ops::range::{R_}>>::index"), [("", "$0.0[$1]")])
        c.table(f"{name}[..]", c.paths(I + "core::ops::range::RangeFull>>::index"), [("", "$0.0 || $0.0[_]")])
    r = Run(c)
    lo = lambda n: chunk(inbits([f"w{i}" for i in range(n)], 64), 64)
    r.value("Uint256::low_128", f"{U}Uint256::low_128", [wide(4)], lo(2), 64, "the low bits are those of the lowest words")
    r.value("u128::from", impl(c, r".*<impl core::convert::From<common::uint::impls::Uint128> for u128>::from"), [wide(2)], [sum(lo(2), [])], 128, "the value must be kept")
    r.value("Uint512::from", f"<{U}Uint512 as core::convert::From<{U}Uint256>>::from", [wide(4)], lo(4) + [[0] * 64] * 4, 64, "the value must be kept")
    r.value("Uint256::from", f"<{U}Uint256 as core::convert::From<{U}Uint128>>::from", [wide(2)], lo(2) + [[0] * 64] * 2, 64, "the value must be kept")


def shifts(c):
    for n in (2, 4, 8):
        name, top = f"Uint{64 * n}", 64 * n
        T_ = f"<{U}{name} as "
        r = Run(c)
        src = inbits([f"w{i}" for i in range(n)], 64)
        for s in list(range(0, top)) + [top, top + 1, top + 63, top + 64]:
            r.value(f"{name}::shl", f"{T_}core::ops::bit::Shl<usize>>::shl", [wide(n), integer(s)], chunk(([0] * s + src)[:top], 64), 64, f"shifting left by {s} must move every bit up by {s}")
            r.value(f"{name}::shr", f"{T_}core::ops::bit::Shr<usize>>::shr", [wide(n), integer(s)], chunk((src + [0] * s)[s:s + top], 64), 64, f"shifting right by {s} must move every bit down by {s}")
            if s <= top:
                r.value(f"{name}::mask", f"{T_}common::uint::BitArray>::mask", [wide(n), integer(s)], chunk((src[:s] + [0] * top)[:top], 64), 64, f"a mask of {s} bits keeps exactly the low {s} bits")
            if s < top:
                f = f"{T_}common::uint::BitArray>::bit"
                ps = r.paths(f, [wide(n), integer(s)])
                good = bool(ps)
                for p in ps:
                    good = good and p.kind == "ret" and is_bit(r, p, src[s])
                c.ob(f"{name}::bit", good, f"bit {s} must be tested", c.loc(f), sret(ps[0])[:200] if ps else "")
        for a, b in ((0, top), (0, 0), (top - 1, top), (3, 7), (7, 77), (60, 70), (64, 128), (1, top - 1), (top // 2, top // 2 + 65)):
            if b <= top:
                r.value(f"{name}::bit_slice", f"{T_}common::uint::BitArray>::bit_slice", [wide(n), integer(a), integer(b)], chunk((src[a:b] + [0] * top)[:top], 64), 64, f"a bit slice holds bits {a} to {b}")
        for f, key in ((f"{U}{name}::bits", "bits"), (f"{T_}common::uint::BitArray>::trailing_zeros", "tz")):
            ps = r.paths(f, [wide(n)])
            for p in ps:
                c.ob(f"{name}::{key}", p.kind == "ret" and counts(p, n, key), "the position of the highest (lowest) set bit must be that of the first nonzero word from that end", c.loc(f), repr(p)[:400])
            c.ob(f"{name}::{key}#n", len(ps) >= n, "every word must be looked at", c.loc(f))


def is_bit(r, p, want):
    """the boolean the path returns is `want is set`"""
    t = p.ret
    if t.tag in ("ne", "eq", "lt"):
        x, y = t.args
        if t.tag == "lt" and x.tag == "int" and x.args[0] == 0:
            x, y = y, x
            tag = "ne"
        else:
            tag = t.tag
        for x, y in ((x, y), (y, x)):
            if y.tag == "int":
                v = r.bits(x, 64)
                ones = [i for i, b in enumerate(v or []) if b != 0]
                if v and len(ones) == 1 and v[ones[0]] == want:
                    if y.args[0] == 0:
                        return tag == "ne"
                    return tag == "eq" and y.args[0] == 1 << ones[0]
    return False


def zeroness(p, w):
    for t, v in p.truth.items():
        if t.tag == "lt" and t.args[0].tag == "int" and t.args[0].args[0] == 0 and t.args[1] is w:
            return not v
        if t.tag in ("eq", "ne") and w in t.args and any(x.tag == "int" and x.args[0] == 0 for x in t.args):
            return v == (t.tag == "eq")
    return None


def counts(p, n, key):
    order_ = list(range(n - 1, -1, -1)) if key == "bits" else list(range(n))
    last = order_[-1]
    for j in order_:
        w = sym(f"w{j}")
        z = zeroness(p, w)
        if z and j != last:
            continue
        if z is None and j != last:
            return False
        if key == "bits":
            want = {f"sub({64 * (j + 1)}, num(leading_zeros, u64, sym(w{j})))", f"add({64 * j}, sub(64, num(leading_zeros, u64, sym(w{j}))))"}
        else:
            want = {f"add({64 * j}, num(trailing_zeros, u64, sym(w{j})))"} if j else {f"num(trailing_zeros, u64, sym(w0))"}
        if z and j == last:
            want = want | {"0"} if key == "bits" else want | {str(64 * n)}
        return sret(p) in want
    return False


def order(c):
    for n in (2, 4, 8):
        name = f"Uint{64 * n}"
        r = Run(c)
        for op, fn in (("bitand", "BitAnd>::bitand"), ("bitor", "BitOr>::bitor"), ("bitxor", "BitXor>::bitxor")):
            f = f"<{U}{name} as core::ops::bit::{fn}"
            ps = r.paths(f, [wide(n), wide(n, "v")])
            for p in ps:
                ws = words(p.ret, n) if p.kind == "ret" else None
                good = ws and all(x.tag == op and set(x.args) == {sym(f"w{i}"), sym(f"v{i}")} for i, x in enumerate(ws))
                c.ob(f"{name}::{op}", good, "the operation applies word by word", c.loc(f), repr(p)[:300])
            c.ob(f"{name}::{op}#n", ps, "never returns", c.loc(f))


def compact(c):
    """the compact target: a byte count and a 23-bit mantissa"""
    f = impl(c, r".*<impl core::convert::TryFrom<common::primitives::compact::Compact> for common::uint::impls::Uint256>::try_from")
    src = mk("sym", "b_word")          # the low 24 bits
    bad = 0
    for size in range(256):
        r = Run(c, 32, lambda t: 24 if t is src else None)
        full = mk("cat", integer(size), mk("byte", src, 2), mk("byte", src, 1), mk("byte", src, 0))
        ps = r.paths(f, [adt("common::primitives::compact::Compact", "Compact", ("0",), (full,))])
        m = [(src, i) for i in range(23)]
        val = m[8 * (3 - size):] if size <= 3 else [0] * 8 * (size - 3) + m
        val = (val + [0] * 256)[:256]
        over = size > 32                # some 23-bit mantissa does not fit 256 bits
        n = 0
        for p in ps:
            if p.kind != "ret":
                c.ob("target#panic", False, "reading a compact target must not panic", c.loc(f), f"size {size}: " + repr(p)[:400])
                continue
            k = p.ret.args[1]
            x = p.ret.args[3][0]
            if k == "Err":
                x = x.args[3][0] if x.tag == "adt" and x.args[3] else x
            fact = facts(r, p, src, size)
            if fact is None:
                continue
            zero, neg, fits = fact
            want = None if zero is None else False if zero else True if neg or fits is False else False if neg is False and fits else None
            n += 1
            good = want is not None and (k == "Err") == want
            if k == "Ok":
                ws = words(x, 4)
                got = sum([r.bits(y, 64) or [None] for y in ws], []) if ws else None
                if zero and size < 256:
                    good = good and got is not None and all(b == v or b == 0 or b in [(src, i) for i in range(23)] for b, v in zip(got, val))
                else:
                    good = good and got == val
            c.ob("target", good, f"a compact target of {size} bytes must be its mantissa in place, and refused exactly when negative or over 256 bits", c.loc(f), f"zero={zero} negative={neg} fits={fits}: {repr(p)[:500]}")
        c.ob("target#n", n >= (2 if size else 1), "compact targets of every size must be read", c.loc(f), str(size))
    f = impl(c, r"<common::primitives::compact::Compact as core::convert::From<common::uint::impls::Uint256>>::from")
    for nb in range(257):
        def zw(t, nb=nb):
            m = re.fullmatch(r"w(\d)", t.args[0])
            return max(0, min(64, nb - 64 * int(m[1]))) if m else None
        r = Run(c, 64, zw)
        ps = r.paths(f, [wide(4)], models={U + "Uint256::bits": lambda m, st, g, ta, a, l: [(st, ("ret", integer(nb)))]})
        size = (nb + 7) // 8
        src_ = [(sym(f"w{i // 64}"), i % 64) if i < nb else 0 for i in range(256)]
        man = ([0] * 8 * (3 - size) + src_)[:24] if size <= 3 else (src_[8 * (size - 3):] + [0] * 24)[:24]
        seen = set()
        for p in ps:
            hi = None
            for t, v in p.truth.items():
                b = bit_fact(r, t, v)
                if b and b[0] == man[23]:
                    hi = b[1]
            if man[23] == 0:
                hi = False if hi is None else hi
            if man[23] == 0 and hi:
                continue
            t = p.ret if p.kind == "ret" else None
            x = t.args[3][0] if t is not None and t.tag == "adt" and t.args[3] else None
            got = r.bits(x, 32) if x is not None else None
            want = None
            if hi is not None:
                m_, s_ = (man[8:] + [0] * 8, size + 1) if hi else (man, size)
                want = [0 if not hi and i == 23 else b for i, b in enumerate(m_)] + [s_ >> i & 1 for i in range(8)]
                if got and not hi and got[23] == man[23]:
                    got = got[:23] + [0] + got[24:]
            seen.add(hi)
            c.ob("compact", got is not None and got == want, f"a number of {nb} bits must be stored as its byte count and leading bytes, the sign bit kept clear", c.loc(f), repr(p)[:500])
        c.ob("compact#n", seen >= ({False, True} if man[23] != 0 and nb % 8 else {False} if man[23] == 0 else {True}), "both forms must be possible", c.loc(f), f"{nb}: {seen}")


def bit_fact(r, t, v):
    """(bit, is it set) when the fact is a test of one bit"""
    if t.tag in ("eq", "ne", "lt"):
        for x, y in (t.args, t.args[::-1]):
            if y.tag == "int" and y.args[0] == 0:
                b = r.bits(x, 64)
                on = [z for z in b or [] if z != 0]
                if b and len(on) == 1:
                    if t.tag == "lt" and t.args[0] is not y:
                        return None
                    return on[0], v != (t.tag == "eq")
    return None


def facts(r, p, src, size):
    """(mantissa zero, sign set, value fits) as far as the path decides them; None when contradictory"""
    zero = neg = None
    lo, hi = 0, 2 ** 23 - 1             # range of the mantissa as compared on the path
    sh = 8 * (3 - size) if size <= 3 else 0
    mask = [(src, i) for i in range(sh, 23)]
    for t, v in p.truth.items():
        b = bit_fact(r, t, v)
        if b and b[0] == (src, 23):
            neg = b[1]
            continue
        if t.tag in ("eq", "ne", "lt"):
            for i, (x, y) in enumerate((t.args, t.args[::-1])):
                if y.tag != "int":
                    continue
                bs = r.bits(x, 32)
                if bs is None or [z for z in bs if z != 0] != mask or bs[:len(mask)] != mask:
                    continue
                k = y.args[0]
                if t.tag in ("eq", "ne"):
                    e = v == (t.tag == "eq")
                    if e:
                        lo, hi = max(lo, k), min(hi, k)
                    elif k == 0:
                        lo = max(lo, 1)
                elif i == 0:            # x < k
                    lo, hi = (lo, min(hi, k - 1)) if v else (max(lo, k), hi)
                else:                   # k < x
                    lo, hi = (max(lo, k + 1), hi) if v else (lo, min(hi, k))
    if lo > hi:
        return None
    if not mask:
        lo, hi = 0, 0
    zero = True if hi == 0 else False if lo > 0 else None
    room = 256 - (8 * (size - 3) if size > 3 else 0)      # bits left for the mantissa
    cap = 2 ** max(room, 0) - 1
    fits = True if hi <= cap else False if lo > cap else None
    return zero, neg, fits


PARTS = [endian, conversions, shifts, order, compact]
