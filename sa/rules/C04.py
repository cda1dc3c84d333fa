"""Wide unsigned integers: every checked operation yields nothing exactly when its helper signals that the result does not fit,
the operators are the checked operations, the wrapping helpers are private, and narrowing conversions are guarded."""
from ..rule import *
from ..terms import *
CRATES = ["common"]
U = "common::uint::impls::"
OPAQUE = r"overflowing_|unchecked_|div_rem|widening_mul|::cmp$|partial_cmp$|::low_\d+$|to_bytes$|to_be_bytes$|from_u128$|from_u64$|PartialEq|::eq$|::ne$"


def relation(p, a, b):
    """the orderings of a and b a path leaves possible, from the comparisons it made"""
    s = {"<", "=", ">"}
    T = {"ge": ">=", "gt": ">", "le": "<=", "lt": "<", "eq": "=", "ne": "<>"}
    swap = {"<": ">", ">": "<", "=": "="}

    def cut(x, y, op):
        nonlocal s
        if re.fullmatch(a, x) and re.fullmatch(b, y):
            s = s & set(op)
        elif re.fullmatch(a, y) and re.fullmatch(b, x):
            s = s & {swap[o] for o in op}
    for t, v in list(p.truth.items()):
        m = re.fullmatch(r"(?:PartialOrd|PartialEq|Ord|Uint\d+)::(ge|gt|le|lt|eq|ne)\((.*)\)|(eq|lt)\((.*)\)", show(t))
        if m:
            xs = [unparse((x,)) for x in parse(m[2] or m[4])]
            if len(xs) == 2:
                op = T[m[1] or m[3]]
                cut(xs[0], xs[1], op if v else {"<", "=", ">"} - set(op))
    for t, v in list(p.var.items()):
        m = re.fullmatch(r"(?:PartialOrd::partial_cmp|Ord::cmp|cmp|Uint\d+::cmp|Uint\d+::partial_cmp)\((.*)\)(\.Some\.0)?", show(t))
        if m and v in ("Less", "Equal", "Greater"):
            xs = [unparse((x,)) for x in parse(m[1])]
            if len(xs) == 2:
                cut(xs[0], xs[1], {"Less": "<", "Equal": "=", "Greater": ">"}[v])
        elif m and v == "None":
            return set()
    return s


def zero(n):
    return rf"Uint\d+\(\[{', '.join(['0'] * n)}\]\)|Uint\d+::ZERO|BitArray::zero\(\)|\[{', '.join(['0'] * n)}\]"


def ops(c):
    for name, n in (("Uint128", 2), ("Uint256", 4), ("Uint512", 8)):
        T_ = U + name + "::"
        tr = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
        for op in tr:
            for f in (T_ + "checked_" + op, f"<{U}{name} as core::ops::arith::{tr[op]}>::{op}"):
                k = {"some": 0, "none": 0}
                for p in c.paths(f, stop=OPAQUE):
                    r = sret(p)
                    if p.kind != "ret":
                        c.ob(f + "#panic", False, "a checked operation must not panic", c.loc(f), repr(p)[:300])
                        continue
                    A, B = r"\$0", r"\$1"
                    if op == "add":
                        t = r"Uint\d+::overflowing_add(?:_with_carry)?\((?:\$0, \$1|\$1, \$0)(?:, false)?\)"
                        cs = [v for a, v in p.truth.items() if re.fullmatch(t + r"\.1", show(a))]
                        over = bool(cs and cs[0]) if cs else None
                        val = re.fullmatch(rf"Some\({t}\.0\)", r)
                    elif op == "mul":
                        m = r"Uint\d+::widening_mul\((\$0, \$1|\$1, \$0)\)"
                        rel = relation(p, m + r"\.1(\.0)?", zero(n))
                        over = None if rel == {"<", "=", ">"} else rel != {"="}
                        val = re.fullmatch(rf"Some\({m}\.0\)", r)
                    elif op == "sub":
                        rel = relation(p, A, B)
                        if not rel:
                            continue
                        over = True if rel == {"<"} else False if "<" not in rel else None
                        val = re.fullmatch(r"Some\(Uint\d+::unchecked_sub\(\$0, \$1\)\)", r)
                    else:
                        rel = relation(p, B + r"(\.0)?", zero(n))
                        over = None if rel == {"<", "=", ">"} else rel == {"="}
                        i = {"div": "0", "rem": "1"}[op]
                        val = re.fullmatch(rf"Some\((Uint\d+::unchecked_{op}\(\$0, \$1\)|Uint\d+::div_rem\(\$0, \$1\)\.{i})\)", r)
                    k["none" if r == "None" else "some"] += 1
                    c.ob(f"{name}.{op}", over is not None and (r == "None") == over and (over or val), f"{op} of wide integers must yield nothing exactly when the result does not fit or is undefined", c.loc(f), repr(p)[:400])
                c.ob(f"{name}.{op}#both", k["some"] and k["none"], "both outcomes must be possible", c.loc(f), str(k))
        for h, i in (("div", 0), ("rem", 1)):
            c.every(f"{name}.unchecked_{h}", [p for p in c.paths(T_ + "unchecked_" + h, stop=r"div_rem") if c.F.fn(T_ + "unchecked_" + h)] if c.F.fn(T_ + "unchecked_" + h) else [], lambda p, i=i: sret(p) == f"{name}::div_rem($0, $1).{i}", "quotient and remainder come from the division", 0)
        # helpers which may wrap are not reachable from elsewhere
        for f in c.F.ids():
            if f.startswith(T_) and re.search(r"::(overflowing|unchecked|wrapping)_\w+$|::div_rem$", f):
                c.ob("private", c.F.fn(f)["vis"] != "pub", "arithmetic that may wrap or panic must not be public", c.loc(f), f)


def narrowing(c):
    big = r"Uint512\(\[18446744073709551615, 18446744073709551615, 18446744073709551615, 18446744073709551615, 0, 0, 0, 0\]\)|(T::into\()?Uint256\(\[18446744073709551615, 18446744073709551615, 18446744073709551615, 18446744073709551615\]\)\)?|(Uint512::from|T::into|from)\((Uint512, )?Uint256::MAX\)"
    m128 = r"Uint256::from_u128\((340282366920938463463374607431768211455|.*MAX)\)"
    fs = {f"<{U}Uint256 as core::convert::TryFrom<{U}Uint512>>::try_from": (big, r"Ok\(Uint256\(\[\$0\.0\[0\], \$0\.0\[1\], \$0\.0\[2\], \$0\.0\[3\]\]\)\)"),
          f"{U}<impl core::convert::TryFrom<{U}Uint256> for u128>::try_from": (m128, r"Ok\((T::into|from)\((u128, )?Uint256::low_128\(\$0\)\)\)|Ok\(num\(from_le_bytes, u128, Uint128::to_bytes\(.*\)\)\)")}
    for f, (lim, val) in fs.items():
        k = set()
        hi = int(bool("u128" in f)) * 2 or 4
        top = 4 if hi == 2 else 8
        for p in c.paths(f, stop=OPAQUE):
            r = sret(p)
            rel = relation(p, r"\$0", lim)
            if not rel:
                continue
            words = [v for a, v in p.truth.items() if re.fullmatch(rf"eq\(0, \$0\.0\[[{hi}-{top - 1}]\]\)", show(a))]
            over = True if rel == {">"} or False in words else False if ">" not in rel or len(words) == top - hi and all(words) else None
            good = p.kind == "ret" and over is not None and (r.startswith("Err(") if over else re.fullmatch(val, r))
            c.ob(f + "#narrow", good, "a conversion to a narrower integer must fail exactly when the value does not fit", c.loc(f), repr(p)[:400])
            k.add(r[:2])
        c.ob(f + "#both", k == {"Ok", "Er"}, "both outcomes must be possible", c.loc(f))
    c.table("widen512", c.paths(f"<{U}Uint512 as core::convert::From<{U}Uint256>>::from"), [("", "Uint512([$0.0[0], $0.0[1], $0.0[2], $0.0[3], 0, 0, 0, 0])")])
    c.table("widen256", c.paths(f"<{U}Uint256 as core::convert::From<{U}Uint128>>::from"), [("", "Uint256([$0.0[0], $0.0[1], 0, 0])")])
    for name, n in (("Uint128", 2), ("Uint256", 4), ("Uint512", 8)):
        z = ", 0" * (n - 1)
        c.table(name + ".from_u64", c.paths(U + name + "::from_u64"), [("", f"{name}([$0{z}])")])
        c.table(name + ".from_u128", c.paths(U + name + "::from_u128"), [("", f"{name}([cast(u64, $0), cast(u64, shr($0, 64)){', 0' * (n - 2)}])")])


def order(c):
    """comparison decides by the most significant word that differs"""
    for name, n in (("Uint128", 2), ("Uint256", 4), ("Uint512", 8)):
        idx = [rf"sub\({n - 1}, elem\(range\(0, {n}\)\)\)", rf"elem\(rev\(range\(0, {n}\)\)\)", rf"sub\({n}, elem\(range\(1, {n + 1}\)\)\)", rf"sub\(sub\({n}, 1\), elem\(range\(0, {n}\)\)\)", rf"sub\(sub\({n}, elem\(range\(0, {n}\)\)\), 1\)"]
        words = [(rf"\$0\.0\[{i}\]", rf"\$1\.0\[{i}\]") for i in idx]
        back = [(rf"\$0\.0\[elem\(range\(0, {n}\)\)\]", rf"\$1\.0\[elem\(range\(0, {n}\)\)\]"), (r"elem\(\$0\.0\)", r"elem\(\$1\.0\)")]
        for f, some in ((f"<{U}{name} as core::cmp::Ord>::cmp", False), (f"<{U}{name} as core::cmp::PartialOrd>::partial_cmp", True)):
            got = set()
            ps = c.paths(f)
            down = any(x[0] == "exh" and "rev(" in show(x[1]) for p in ps for x in p.facts)
            pairs = words + (back if down else [])
            for p in ps:
                r = sret(p)
                if p.kind == "panic" and ("bounds" in str(p.msg) or "overflow" in str(p.msg)):
                    continue
                if re.fullmatch(r"(Some\()?(Iterator::)?cmp\(rev\((iter\()?\$0\.0\)*, rev\((iter\()?\$1\.0\)*", r):
                    got |= {"Less", "Greater", "Equal", "back"}
                    continue
                rels = [x for x in (relation(p, a, b) for a, b in pairs) if x != {"<", "=", ">"}]
                rel = rels[0] if rels else None
                o = "back" if p.kind == "back" else (re.search(r"Ordering::(Less|Greater|Equal)", r) or [None, None])[1]
                if o is None and any(re.fullmatch(rf"(Some\()?cmp\({a}, {b}\)\)?", r) for a, b in pairs):
                    # the ordering of the differing words is returned as it is
                    good, o = True, "Less"
                    got |= {"Greater"}
                elif p.kind == "ret" and o == "Equal":
                    good = any(x[0] == "exh" for x in p.facts)
                else:
                    good = rel == {"Less": {"<"}, "Greater": {">"}, "back": {"="}}.get(o)
                got.add(o)
                c.ob(f"{name}.cmp", good and (not some or p.kind != "ret" or r.startswith("Some(")), "wide integers compare by their most significant differing word", c.loc(f), repr(p)[:400])
            c.ob(f"{name}.cmp#all", {"Less", "Greater", "Equal", "back"} <= got, "every outcome of a comparison must be possible", c.loc(f), str(got))


def flat(p, t, atoms, acc):
    """t as a sum of atoms and constants modulo 2^64; acc collects [atoms], constant, overflows, undecided"""
    for a in atoms:
        if t is a or t.tag == "not" and show(t.args[0]) == show(a):
            acc[0].append(show(t))
            return
    if t.tag == "int":
        acc[1] += t.args[0]
        return
    if t.tag == "b2i":
        v = p.truth.get(t.args[0])
        acc[1] += int(v or 0)
        acc[3] = acc[3] or v is None
        return
    w = t.tag == "num" and t.args[0] == "wrapping_add"
    if w or t.tag == "add":
        x, y = t.args[2:] if w else t.args
        f = [p.truth.get(mk("ovf", "add", "u64", a, b)) for a, b in ((x, y), (y, x))]
        v = next((z for z in f if z is not None), None)
        if v is None:
            # adding nothing, or a carry that was found absent
            v = False if integer(0) in (x, y) else None
        acc[2] += int(bool(v))
        acc[3] = acc[3] or v is None or v != w
        flat(p, x, atoms, acc)
        flat(p, y, atoms, acc)
        return
    acc[3] = True


def exact(c):
    """sums and differences, limb by limb: the carry into a word is the number of times the word below it overflowed"""
    from .C18 import wide, words, sym
    from ..vf import Machine
    for name, n, op in (("Uint128", 2, "add"), ("Uint128", 2, "sub"), ("Uint256", 4, "add")):
        if True:
            f = U + f"{name}::checked_{op}"
            m = Machine(c.F, inline=lambda x: True, unroll=True, maxpaths=6000, maxsteps=4000000)
            ps = m.run(f, args=[wide(n), wide(n, "v")])
            c.fns |= m.visited
            c.npaths += len(ps)
            k = 0
            for p in ps:
                if p.kind != "ret":
                    c.ob(f"{name}.{op}#panic", False, "a checked operation must not panic", c.loc(f), repr(p)[:400])
                    continue
                if show(p.ret) == "None":
                    top = {sym(f"w{n - 1}"), sym(f"v{n - 1}")}
                    c.ob(f"{name}.{op}#none", op == "sub" or any(v and t.tag == "ovf" and top <= set(subterms(t)) for t, v in p.truth.items()), "a sum may be refused only when the top word overflows", c.loc(f), repr(p)[:400])
                    continue
                k += 1
                ws = words(p.ret.args[3][0], n)
                carry, good, why = 1 if op == "sub" else 0, ws is not None, ""
                for i, x in enumerate(ws or []):
                    acc = [[], 0, 0, False]
                    flat(p, x, [sym(f"w{i}"), sym(f"v{i}")], acc)
                    want = sorted([f"sym(w{i})", f"sym(v{i})" if op == "add" else f"not(sym(v{i}))"])
                    if acc[3] or sorted(acc[0]) != want or acc[1] != carry:
                        good, why = False, f"word {i}: {acc} carry {carry}"
                    carry = acc[2]
                    if good and carry > 1 and acc[1] < 2:
                        # two words and a carry of one are below twice 2^64: cannot overflow twice
                        break
                if op == "add" and good and carry == 1:
                    good, why = False, "carry out of the top word"
                c.ob(f"{name}.{op}#exact", good, "each word must be the words of the operands plus the carry out of the word below", c.loc(f), why + " " + repr(p)[:400])
            c.ob(f"{name}.{op}#n", k >= 2, "no result", c.loc(f))


class Value:
    """the integer a word expression denotes, as a polynomial over the operands' words; what is cut off by a cast or kept by a shift is an unknown of its own,
    named by the polynomial it was cut from, and an overflowed addition lost 2^64"""
    def __init__(self, p):
        self.p, self.memo = p, {}

    def add(self, x, y, k=1):
        r = dict(x)
        for m, v in y.items():
            r[m] = r.get(m, 0) + k * v
            if not r[m]:
                del r[m]
        return r

    def high(self, x):
        if set(x) <= {()}:
            k = x.get((), 0) >> 64
            return {(): k} if k else {}
        if len(x) == 1 and all(v == 1 and len(m) == 1 for m, v in x.items()):        # one word, or what was kept by a shift
            return {}
        return {(("hi", frozenset(x.items())),): 1}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.of1(t)
        return r

    def small(self, t):
        return t.tag in ("sym", "b2i") or t.tag == "shr" and show(t.args[1]) == "64" or t.tag == "cast" and cast_to(t) == "u64" or t.tag == "num" or t.tag == "int" and 0 <= t.args[0] < 2**64

    def of1(self, t):
        if t.tag == "int":
            return {(): t.args[0]} if t.args[0] else {}
        if t.tag == "sym":
            return {(t.args[0],): 1}
        if t.tag == "b2i":
            v = self.p.truth.get(t.args[0])
            if v is None:
                raise ValueError(show(t))
            return {(): 1} if v else {}
        if t.tag == "cast":
            ty = cast_to(t)
            x = self.of(t.args[-1])
            if ty in ("u128", "usize") or ty == "u64" and self.small(t.args[-1]):
                return x
            if ty == "u64":
                return self.add(x, self.high(x), -2**64)
        if t.tag == "shr" and show(t.args[1]) == "64":
            return self.high(self.of(t.args[0]))
        if t.tag == "mul":
            r = {}
            for a, x in self.of(t.args[0]).items():
                for b, y in self.of(t.args[1]).items():
                    m = tuple(sorted(a + b, key=repr))
                    r[m] = r.get(m, 0) + x * y
            return {m: v for m, v in r.items() if v}
        if t.tag == "add" or t.tag == "num" and t.args[0] == "wrapping_add":
            a, b = t.args[-2:]
            r = self.add(self.of(a), self.of(b))
            v = [self.p.truth.get(mk("ovf", "add", "u64", x, y)) for x, y in ((a, b), (b, a))]
            if t.tag == "num" and True not in v:
                raise ValueError(show(t))
            return self.add(r, {(): -2**64}) if True in v else r
        raise ValueError(show(t))


def cast_to(t):
    for a in t.args[:-1]:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "prim":
            return a[1]
        if isinstance(a, str):
            return a
    return None


def products(c):
    """the two halves of a product add up to the product of the operands: for all words of 128-bit integers, for the wider ones with all words of one operand and any one or two
    neighbouring words of the other"""
    from .C18 import wide, words, sym
    from ..vf import Machine
    for n, cases in ((2, [(range(2), range(2))]), (4, [(range(4), (j,)) for j in range(4)] + [((i, i + 1), (j, j + 1)) for i in range(3) for j in range(3)]), (8, [(range(8), (j,)) for j in range(8)])):
        name = f"Uint{64 * n}"
        f = U + f"{name}::widening_mul"
        for ws, vs in cases:
            arr = lambda q, ix: wide(n, q, mk("arr", tuple(sym(f"{q}{i}") if i in ix else integer(0) for i in range(n))))
            m = Machine(c.F, inline=lambda x: True, unroll=True, maxpaths=20000, maxsteps=9000000)
            ps = m.run(f, args=[arr("w", ws), arr("v", vs)])
            c.fns |= m.visited
            c.npaths += len(ps)
            want = {tuple(sorted((f"w{i}", f"v{j}"))): 2 ** (64 * (i + j)) for i in ws for j in vs}
            k = 0
            for p in ps:
                if p.kind == "panic":           # sums and carries that cannot be: below the largest product of two words and a carry
                    k2 = any(v and a.tag == "ovf" and a.args[1] == "u128" or a.tag in ("lt", "le") for a, v in p.truth.items()) or any(v and a.tag == "ovf" for a, v in p.truth.items())
                    c.ob(f"{name}.mul#panic", k2, "a product must not panic", c.loc(f), repr(p)[-400:])
                    continue
                if any(v and a.tag == "ovf" and a.args[0] == "add" and any(x.tag == "num" and x.args[0] == "wrapping_add" and y == integer(1)
                       and any(p.truth.get(mk("ovf", "add", "u64", g, h)) for g, h in ((x.args[-2], x.args[-1]), (x.args[-1], x.args[-2])))
                       for x, y in ((a.args[2], a.args[3]), (a.args[3], a.args[2]))) for a, v in p.truth.items()):
                    continue                    # two words and a carry do not overflow twice
                good, why = p.kind == "ret" and p.ret.tag == "tup", ""
                if good:
                    k += 1
                    try:
                        V, tot = Value(p), {}
                        for h, half in enumerate(p.ret.args[0]):
                            for i, x in enumerate(words(half, n)):
                                tot = V.add(tot, V.of(x), 2 ** (64 * (i + n * h)))
                        good = tot == want
                        why = str({k_: v for k_, v in V.add(tot, want, -1).items()})[:300]
                    except (ValueError, TypeError) as e:
                        good, why = False, "undecided: " + str(e)[:200]
                c.ob(f"{name}.mul#exact", good, "the words of a product must add up to the product of the operands", c.loc(f), why + " " + repr(p)[-300:])
            c.ob(f"{name}.mul#n", k, "no product", c.loc(f))
        for p in c.paths(U + f"{name}::mul_u32", stop=r"widening_mul"):
            c.ob(f"{name}.mul_u32", p.kind != "ret" or re.fullmatch(r"Uint\d+::widening_mul_u64\(\$0, \$1\)\.0|Uint\d+::widening_mul\(\$0, .*\$1.*\)\.0", sret(p)), "the low words of the product with the small integer", c.loc(p.fid), repr(p)[:300])


def quotients(c):
    """long division: each step takes the shifted divisor off the remainder exactly if it fits, and sets the quotient's bit for it"""
    for n in (2, 4, 8):
        name = f"Uint{64 * n}"
        W = name + "::"
        stop = r"::cmp$|partial_cmp$|PartialEq|::eq$|::ne$|Uint\d+::bits$|Sh[lr]<|unchecked_sub$|Uint\d+ as core::ops::arith::Sub"
        for op, i in (("checked_div", 0), ("checked_rem", 1)):
            f = U + W + op
            seen = set()
            for p in c.paths(f, stop=stop):
                r = re.sub(r"(?<=[)\]])@\d+", "", sret(p))
                key = f"{name}.{op}"
                if any("partial_cmp(" in show(a) and v == "None" for a, v in p.var.items()):       # the order is total: #order
                    continue
                bits0, bits1 = W + "bits($0)", W + "bits($1)"
                d0 = f"{W}shl($1, sub({bits0}, {bits1}))"
                def role(x):
                    return next((show(k) for k, v in p.phi.items() if re.sub(r"@\d+", "", show(v)) == x), None)
                R, D, S = role("$0"), role(d0), role(f"sub({bits0}, {bits1})")
                rg = f"range(0, sub({bits0}, {bits1}), incl())"
                each = role(f"rev({rg})")       # the shifts counted down by an iterator
                S = f"elem({rg})" if each else S
                Q = role("[" + ", ".join(["0"] * n) + "]") or role(name + "([" + ", ".join(["0"] * n) + "])")
                if p.kind == "panic":
                    c.ob(key + "#panic", holds(p, f"eq(0, {bits1})") or any(v and re.match(rf"lt\(63, rem\(.*, 64\)\)$|lt\({n - 1}, div\(.*, 64\)\)$", show(a)) for a, v in p.truth.items()),
                         "division must not panic", c.loc(f), repr(p)[-400:])
                    continue
                if not (R or D or S) and p.kind == "ret":
                    if r == "None":
                        seen.add("zero")
                        continue
                    want = "Some(" + ("$0" if i else name + "([" + ", ".join(["0"] * n) + "])") + ")"
                    c.ob(key + "#small", r == want and holds(p, f"lt({bits0}, {bits1})"), "a smaller number is its own remainder", c.loc(f), repr(p)[-400:])
                    seen.add("small")
                    continue
                if not c.ob(key + "#state", R and D and S and Q and holds(p, f"!lt({bits0}, {bits1})"), "division starts from the whole number and the divisor shifted to its length", c.loc(f), str({show(k): show(v) for k, v in p.phi.items()})[:500]):
                    continue
                t = {re.sub(r"@\d+", "", show(a)): v for a, v in list(p.var.items()) + list(p.truth.items())}
                pc, pr = f"{W}partial_cmp({R}, {D})", f"{W}partial_cmp({D}, {R})"
                ge = {"Greater": True, "Equal": True, "Less": False}.get(t.get(pc + ".Some.0") or t.get(f"{W}cmp({R}, {D})")) if t.get(pc + ".Some.0") or t.get(f"{W}cmp({R}, {D})") else \
                    {"Less": True, "Equal": True, "Greater": False}.get(t.get(pr + ".Some.0") or t.get(f"{W}cmp({D}, {R})"))
                q = f"{Q}[div({S}, 64):=bitor(shl(1, rem({S}, 64)), {Q}[div({S}, 64)])]" if ge else Q
                rem = [f"{W}unchecked_sub({R}, {D})", f"{W}sub({R}, {D})", f"{W}sub({R}, {D}).Some.0"] if ge else [R]
                last = t.get(f"eq(0, {S})")
                r = re.sub(r"@\d+", "", show(p.ret)) if p.kind == "ret" else r
                if p.kind == "ret" and each:
                    c.ob(key + "#end", any(x[0] == "exh" and show(x[1]) == f"rev({rg})" for x in p.facts) and r == (f"Some({name}({Q}))" if i == 0 else f"Some({R})"), "division ends with the quotient and remainder of the last step, at shift zero", c.loc(f), repr(p)[-500:])
                    seen |= {("end", True), ("end", False)}
                elif p.kind == "ret":
                    good = last and (r == f"Some({name}({q}))" if i == 0 else r in [f"Some({x})" for x in rem]) and ge is not None
                    c.ob(key + "#end", good, "division ends with the quotient and remainder of the last step, at shift zero", c.loc(f), repr(p)[-500:])
                    seen.add(("end", ge))
                elif p.kind == "back":
                    nx = {show(k): re.sub(r"@\d+", "", show(v)) for k, v in p.next.items()}
                    good = (each or last is False and nx.get(S) == f"sub({S}, 1)") and ge is not None and nx.get(R) in rem and nx.get(D, D) == f"{W}shr({D}, 1)" and nx.get(Q, Q) == q
                    c.ob(key + "#step", good, "a step must take the shifted divisor off the remainder exactly if it fits, set that bit of the quotient, and halve the divisor", c.loc(f), str(nx)[:600] + repr(p)[-300:])
                    seen.add(("step", ge))
            c.ob(f"{name}.{op}#n", {"zero", "small", ("end", True), ("end", False), ("step", True), ("step", False)} <= seen, "every case of a division must be possible", c.loc(f), str(seen))


PARTS = [order, ops, narrowing, exact, products, quotients]
