"""Reading and writing scripts: how bytes are split into instructions, how data and numbers are written, and the text form."""
from ..rule import *
from ..scriptvm import *
CRATES = ["script"]
S = "script::script::"
NEXT = "<script::script::Instructions<'a> as core::iter::traits::iterator::Iterator>::next"
SIZE = {"OP_PUSHDATA1": (1, 76), "OP_PUSHDATA2": (2, 256), "OP_PUSHDATA4": (4, 65536)}
L = {"len($0.data)": 1}


def split(c):
    f = NEXT
    got = set()
    for p in c.paths(f, stop="All::classify|read_uint"):
        loc = c.loc(f)
        cls = next((t for t in list(p.var) + list(p.notvar) if show(t) in ("All::classify(All{code: $0.data[0]})", "opcodes::All::classify(opcodes::All{code: $0.data[0]})")), None)
        cv = p.var.get(cls) if cls is not None else None
        k = next((SIZE[v] for t, v in p.var.items() if cls is not None and v in SIZE), None)
        B = Bytes(lambda t: "n" if t.tag == "fld" and t.args[0] is cls and t.args[1] == "PushBytes" else "N" if t.tag == "fld" and t.args[1] == "Ok" and t.args[0].tag == "call" and t.args[0].args[0].endswith("read_uint") else None)
        fs = B.facts(p)
        p1 = lambda d, x: B.plus(d, {"": x} if x else {})
        empty = next((v for t, v in p.truth.items() if show(t) == "eq(0, len($0.data))"), None)
        for e in p.events:
            if e.name.endswith("read_uint"):
                v = B.view(e.args[0])
                c.ob("size", k and v == ("$0.data", {"": 1}, L) and show(e.args[1]) == str(k[0]), "the length of the data must be read from all its length bytes", loc, str(e)[:200])
        if p.kind == "panic":
            c.ob("panic", any("ovf(" in show(t) and v for t, v in p.truth.items()) or "bounds" in str(p.msg), "no panic", loc, repr(p)[:300])
            continue
        r = sret(p)
        out = p.m.project(p.out(mk("arg", 0)), ("f", "data"))
        ov = B.view(out)
        if r == "None":
            c.ob("end", empty is True, "instructions end exactly with the bytes", loc, repr(p)[:300])
            got.add("end")
            continue
        c.ob("start", empty is False and cls is not None, "every instruction starts with its opcode", loc, repr(p)[:300])
        if r.startswith("Some(Err("):
            killed = ov[0] == "" or ov[1] == ov[2]
            c.ob("killed", killed, "after an error no further instruction may be read", loc, show(out))
            e = r[len("Some(Err("):-2]
            if e == "Error::NonMinimalPush":
                enf = next((v for t, v in p.truth.items() if show(t) == "$0.enforce_minimal"), None)
                c.ob("nonminimal", enf is True and (cv == "PushBytes" and small(p, B, fs) is True or k and at_least(fs, {"N": -1, "": k[1] - 1})), "a push is refused as not minimal only if it could have been shorter and this is enforced", loc, repr(p)[:500])
                got.add(("nonminimal", cv))
            elif e == "Error::EarlyEndOfScript":
                c.ob("early", cv == "PushBytes" and at_least(fs, diff({"n": 1}, L)) or k and (at_least(fs, diff({"": k[0]}, L)) or at_least(fs, diff({"N": 1, "": k[0]}, L))), "a push is refused as cut short only if it is", loc, repr(p)[:500])
                got.add(("early", cv))
            else:
                c.ob("readerr", k and any(v == "Err" and t.tag == "call" and t.args[0].endswith("read_uint") for t, v in p.var.items()), "unexpected error", loc, repr(p)[:400])
            continue
        m = re.match(r"Some\(Ok\(Instruction::(PushBytes|Op)\(", r)
        if not m:
            c.ob("result?", False, "an instruction is data or an operation", loc, r[:200])
            continue
        val = p.ret.args[3][0].args[3][0].args[3][0]
        if m[1] == "Op":
            c.ob("op", cv not in ("PushBytes", "PushData") and (cv or {"PushBytes", "PushData"} <= set(p.notvar.get(cls, ()))) and show(val) == "All{code: $0.data[0]}" and ov == ("$0.data", {"": 1}, L), "an operation is its one byte", loc, repr(p)[:300])
            got.add("op")
            continue
        size = {"n": 1} if cv == "PushBytes" else {"N": 1} if k else None
        head = 1 if cv == "PushBytes" else 1 + k[0] if k else 0
        if size is None:
            c.ob("data?", False, "only push operations push data", loc, r[:200])
            continue
        end = p1(size, head)
        c.ob("data", B.view(val) == ("$0.data", {"": head}, end) and ov == ("$0.data", end, L), "a push must yield exactly its data and go on behind it", loc, f"{show(val)[:200]} / {show(out)[:200]}")
        c.ob("bounds", at_least(fs, diff(L, end)) and (not k or at_least(fs, diff(L, {"": head}))), "data must lie within the script", loc, repr(p)[:500])
        enf = next((v for t, v in p.truth.items() if show(t) == "$0.enforce_minimal"), None)
        c.ob("minimal", enf is False or (small(p, B, fs) is False if cv == "PushBytes" else at_least(fs, {"N": 1, "": -k[1]})), "where minimal pushes are enforced, others must be refused", loc, repr(p)[:500])
        got.add(("data", cv, k))
    want = {"end", "op", ("nonminimal", "PushBytes"), ("nonminimal", "PushData"), ("early", "PushBytes"), ("early", "PushData"), ("data", "PushBytes", None)} | {("data", "PushData", x) for x in SIZE.values()}
    c.ob("all", want <= got, "every kind of instruction must be readable", c.loc(f), str(sorted(map(str, got))))


def small(p, B, fs):
    """whether the pushed data is a single byte that has an opcode of its own; None when the path does not say"""
    one = at_least(fs, {"n": 1, "": -1}) and at_least(fs, {"n": -1, "": 1}) or None
    if any(v is False and t.tag == "eq" and {tuple(B.lin(x).items()) for x in t.args} == {(("n", 1),), (("", 1),)} for t, v in p.truth.items()):
        return False
    byte = "$0.data[1]"
    t = {show(a): v for a, v in p.truth.items()}
    lo, hi = at_least(fs, {byte: 1, "": -1}), at_least(fs, {byte: -1, "": 16})
    below, above = at_least(fs, {byte: -1}), at_least(fs, {byte: 1, "": -17})
    is81, zero = t.get(f"eq(129, {byte})"), t.get(f"eq(0, {byte})")
    if one and (is81 or (lo or zero is False) and hi):
        return True
    if is81 is False and (below or zero or above):
        return False
    return None


def reader(c):
    f = S + "read_uint"
    n = set()
    for p in c.paths(f):
        t = {show(a): v for a, v in p.truth.items()}
        short = t.get("lt(len($0), $1)")
        if p.kind == "ret":
            r = sret(p)
            c.ob("uint#err", (r == "Err(Error::EarlyEndOfScript)") == (short is True), "a number is refused exactly if bytes are missing", c.loc(f), repr(p)[:300])
            n.add(r.startswith("Err"))
        elif p.kind == "back":
            for ph, v in p.next.items():
                if v is ph or v.tag not in ("add", "bitor"):
                    continue
                e = r"elem\((?:\$0|take\(.*\)|iter\(\$0\)|slice\(\$0, RangeTo\{end: \$1\}\))\)"
                pos = r"pos\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)"
                good = re.fullmatch(rf"(add|bitor)\({re.escape(show(ph))}, shl\((cast\(usize, )?{e}\)?, (mul\(8, {pos}\)|shl\({pos}, 3\))\)\)|(add|bitor)\(shl\((cast\(usize, )?{e}\)?, mul\(8, {pos}\)\), {re.escape(show(ph))}\)", show(v))
                c.ob("uint#le", good and show(p.phi.get(ph)) == "0", "a number is read with its lowest byte first", c.loc(f), show(v))
                n.add("le")
    c.ob("uint#all", {True, False} <= n, "numbers are read or refused", c.loc(f), str(n))
    for fn, i in (("data_size_bytes", 0), ("data_size_min", 1)):
        f = f"script::opcodes::PushData::{fn}"
        got = {}
        for p in c.paths(f):
            got.setdefault(next(iter(p.var.values()), None), sret(p))
        c.ob(fn, got == {k: str(v[i]) for k, v in SIZE.items()}, f"{fn} must be {[v[i] for v in SIZE.values()]}", c.loc(f), str(got))


def byte_of(s, n, width):
    """which byte (0 lowest) of n, known to be below 256**width, a text denotes"""
    s = re.sub(r"^cast\(u8, (.*)\)$", r"\1", s)
    for i in range(width):
        d = 256 ** i
        base = {n} if i == 0 else {f"div({n}, {d})", f"shr({n}, {8 * i})"}
        forms = set()
        for b in base:
            forms |= {b, f"rem({b}, 256)", f"bitand({b}, 255)", f"bitand(255, {b})"}
            forms |= {f"cast(u16, {b})", f"cast(u32, {b})"}
        if s in forms:
            return i
    return None


def writer(c):
    f = S + "Builder::push_slice"
    n = "len($1)"
    got = set()
    for p in c.paths(f):
        loc = c.loc(f)
        B = Bytes()
        fs = B.facts(p)
        up = lambda m: at_least(fs, {n: -1, "": m})
        lo = lambda m: at_least(fs, {n: 1, "": -m})
        if p.kind == "panic":
            c.ob("write#panic", lo(1 << 32) or any("ovf(" in show(t) and v for t, v in p.truth.items()), "only data of 4 GiB may be refused", loc, repr(p)[:200])
            continue
        v = Stk().N(p.m.project(p.ret, ("f", "0")))
        m = show(v)
        x = re.fullmatch(r"out0\[Vec::(?:extend|extend_from_slice|append)\((stk\(\$0\.0, 0, \(.*\)\)), (?:iter\()?\$1\)?\)\]", m)
        items = []
        le = re.search(r"Vec::(?:extend|extend_from_slice)\(stk\(\$0\.0, 0, \((\d+)\)\), (?:iter\()?num\(to_le_bytes, (u8|u16|u32), (?:cast\(\w+, )?len\(\$1\)\)?\)\)?\)", m)
        if x:
            items = [unparse((y,)) for y in parse(x[1])][0]
            inner = re.fullmatch(r"stk\(\$0\.0, 0, \((.*)\)\)", x[1])[1]
            items = [unparse((y,)) for y in parse(inner)]
        w = None
        if le and m.count("extend") == 2:
            w, op = {"u8": 1, "u16": 2, "u32": 4}.get(le[2]), le[1]
        elif items:
            op = items[0] if len(items) > 1 else None
            w = len(items) - 1
            for i, it in enumerate(items[1:] if w else items):
                if byte_of(it, n, w or 1) != i:
                    w = None
                    break
        good = {0: up(75), 1: up(255) and op == "76", 2: up(65535) and op == "77", 4: up((1 << 32) - 1) and op == "78"}.get(w)
        mini = {0: True, 1: lo(76), 2: lo(256), 4: lo(65536)}.get(w)
        c.ob("write", good and mini, "data must be written behind the shortest push operation that can hold its length", loc, m[:400])
        c.ob("write#last", show(p.m.project(p.ret, ("f", "1"))) == "None", "data is not an operation to be verified", loc)
        got.add(w)
    c.ob("write#all", got == {0, 1, 2, 4}, "data of any length below 4 GiB", c.loc(f), str(got))
    f = S + "Builder::push_slice_minimal"
    got = set()
    for p in c.paths(f, stop="push_slice$|push_int"):
        if p.kind != "ret":
            c.ob("min#panic", False, "no panic", c.loc(f), repr(p)[:200])
            continue
        t = {show(a): v for a, v in p.truth.items()}
        B = Bytes()
        fs = B.facts(p)
        one, x81 = t.get("eq(1, len($1))"), t.get("eq(129, $1[0])")
        lo, hi = at_least(fs, {"$1[0]": 1, "": -1}) or t.get("eq(0, $1[0])") is False, at_least(fs, {"$1[0]": -1, "": 16})
        out = at_least(fs, {"$1[0]": -1}) or t.get("eq(0, $1[0])") or at_least(fs, {"$1[0]": 1, "": -17})
        r = sret(p).replace("script::", "")
        good = {"Builder::push_slice($0, $1)": one is False or x81 is False and out, "Builder::push_int($0, $1[0])": one and lo and hi, "Builder::push_int($0, -1)": one and x81}.get(r)
        c.ob("min", good, "data is written as a number exactly if it is a single byte that has its own opcode", c.loc(f), repr(p)[:300])
        got.add(r)
    c.ob("min#all", len(got) == 3, "data and numbers", c.loc(f), str(got))
    f = S + "Builder::push_opcode"
    for p in c.paths(f):
        v = Stk().N(p.ret)
        c.ob("opcode", show(Stk().N(p.m.project(p.ret, ("f", "0")))) == "stk($0.0, 0, ($1.code))" and show(p.m.project(p.ret, ("f", "1"))) == "Some($1)", "an operation is written as its byte", c.loc(f), show(v))
    f = S + "Builder::push_verify"
    V = {135: 136, 156: 157, 172: 173, 174: 175}
    got = set()
    for p in c.paths(f):
        t = {show(a): v for a, v in p.truth.items()}
        x = next((k for k in V if t.get(f"eq({k}, $0.1.Some.0.code)")), None)
        want = (f"stk($0.0, 1, ({V[x]}))", f"Some(All{{code: {V[x]}}})") if x else ("stk($0.0, 0, (105))", "Some(All{code: 105})")
        r = (show(Stk().N(p.m.project(p.ret, ("f", "0")))), show(p.m.project(p.ret, ("f", "1")))) if p.kind == "ret" else p.kind
        none = x is not None or any(v == "None" for v in p.var.values()) or all(t.get(f"eq({k}, $0.1.Some.0.code)") is False for k in V)
        c.ob("verify", r == want and none, "a verification replaces the last operation exactly if that has a verifying variant", c.loc(f), repr(p)[:300] + str(r))
        got.add(x)
    c.ob("verify#all", got == {None} | set(V), "verification", c.loc(f), str(got))
    f = "<script::script::Builder as core::convert::From<alloc::vec::Vec<u8>>>::from"
    n = 0
    for p in c.paths(f, stop="Instructions"):
        last = next((show(t) for t, v in p.var.items() if v == "Op"), None)
        r = sret(p)
        if last:
            n += bool(re.search(r"last|fold", last))
        c.ob("from", r == (f"Builder($0, Some({last}.Op.0))" if last else "Builder($0, None)"), "a builder made from a script must know the last instruction of that script, if it is an operation", c.loc(f), repr(p)[:300])
    c.ob("from#op", n, "the last instruction may be an operation", c.loc(f))
    f = S + "Builder::push_int"
    from ..decide import Undecided, outcome
    ps = c.paths(f, stop="push_slice|push_scriptint|push_opcode")
    codes = {f"const(static script::opcodes::{x}).code": int(re.fullmatch(r"All\{code: (\d+)\}", sret(c.paths(f"script::opcodes::{x}")[0]))[1]) for x in ("OP_TRUE", "OP_FALSE") if f"script::opcodes::{x}" in set(c.F.ids("script"))}
    codes.update({k.removesuffix(".code"): ("script::opcodes::All", "All", v) for k, v in codes.items()})
    for v in list(range(-20, 40)) + [75, 76, 127, 128, 255, 256, -128, -129, 2 ** 31, 2 ** 63 - 1, -2 ** 63]:
        want = {-1: 79, 0: 0, **{k: 80 + k for k in range(1, 17)}}.get(v)
        got = []
        try:
            hit, pt = outcome(ps, {"$1": v, **codes})
            for p in hit:
                r = sret(p)
                if p.kind != "ret":
                    got.append(p.msg)
                elif r.startswith("Builder::push_opcode($0, "):
                    x = p.ret.args[1][1]
                    got.append(pt.of(x)[-1])
                else:
                    got.append(None if r in ("Builder::push_scriptint($0, $1)", "Builder::push_slice($0, script::build_scriptint($1))") else r)
        except (Undecided, IndexError) as e:
            got = ["undecided " + str(e)[:200]]
        c.ob("int", got == [want], "small numbers have their own opcode, others are written as data", c.loc(f), f"{v}: {got}")


def text(c):
    f = S + "Script::bytes_to_asm_fmt"
    sizes = set()
    for p in c.paths(f, stop="All::classify|read_uint"):
        k = next((SIZE[v] for t, v in p.var.items() if v in SIZE), None)
        # the position is the only number carried from one instruction to the next
        idx = next((t for t in p.phi if show(p.phi[t]) == "0"), None)
        if idx is None:
            continue
        cls = next((t for t in list(p.var) + list(p.notvar) if t.tag == "call" and t.args[0].endswith("classify")), None)
        B = Bytes(lambda t: "i" if t is idx else "n" if t.tag == "fld" and t.args[0] is cls and t.args[1] == "PushBytes" else "N" if t.tag == "fld" and t.args[1] == "Ok" and t.args[0].tag == "call" and t.args[0].args[0].endswith("read_uint") else None)
        loc = c.loc(f)
        for e in p.events:
            if e.name.endswith("read_uint"):
                v = B.view(e.args[0])
                c.ob("asm#size", k and v[:2] == ("$0", {"i": 1, "": 1}) and show(e.args[1]) == str(k[0]), "the length of the data must be read from all its length bytes", loc, str(e)[:200])
                sizes.add(show(e.args[1]))
        if p.kind == "back" and idx in p.next:
            cv = p.var.get(cls) if cls is not None else None
            step = B.lin(p.next[idx])
            want = [{"i": 1, "": 1}] if cv not in ("PushBytes", "PushData") else [{"i": 1, "n": 1, "": 1}] if cv == "PushBytes" else [{"i": 1, "N": 1, "": 1 + k[0]}] if k else []
            if cv in ("PushBytes", "PushData") and any(v is False and show(t).startswith("lt(0, ") or v and show(t).startswith("eq(0, ") for t, v in p.truth.items()):
                want.append({"i": 1, "": want[0][""]})
            c.ob("asm#next", step in want, "the text of a script must go on behind each instruction and its data", loc, f"{step} {repr(p)[:300]}")
    c.ob("asm#sizes", sizes == {"1", "2", "4"}, "data of every length must be shown", c.loc(f), str(sizes))


def names(c):
    """each of the 256 operations has its own code, and is shown under its own name"""
    from ..decide import Undecided, outcome
    from ..models import pieces
    f = "<script::opcodes::All as core::fmt::Debug>::fmt"
    ps = c.paths(f)
    codes = {}
    for i in c.F.ids("script"):
        m = re.fullmatch(r"script::opcodes::all::(OP_\w+)", i)
        for p in c.paths(i) if m else []:
            k = re.fullmatch(r"All\{code: (\d+)\}", sret(p))
            if c.ob("code", k, "an operation is one byte", c.loc(i), repr(p)[:200]):
                codes.setdefault(int(k[1]), []).append(m[1])
    c.ob("codes", sorted(codes) == list(range(256)) and all(len(v) == 1 for v in codes.values()), "each byte stands for one operation", c.loc(f), str({k: v for k, v in codes.items() if len(v) > 1})[:300])

    def text(pt, t):
        if t.tag == "str":
            return str(t.args[0])
        x = pieces(t)
        if x is None:
            return str(pt.of(t.args[1][0] if t.tag == "call" and "new_display" in t.args[0] else t))
        return "".join(text(pt, y) if y.tag in ("str", "fmt") else str(pt.of(y)) for y in x.args)

    for k in range(256):
        got = []
        try:
            hit, pt = outcome([p for p in ps if all(v in ("Ok", "Some", "Continue") for v in p.var.values())], {"$0.code": k})
            for p in hit:
                got.append("".join(text(pt, e.args[1]) for e in p.events if re.search(r"::(write_fmt|write_str|pad)$", e.name)) if p.kind == "ret" else p.msg)
        except (Undecided, IndexError) as e:
            got = ["undecided " + str(e)[:200]]
        c.ob("name", len(got) == 1 and got[0] in codes.get(k, []), "an operation must be shown under its own name", c.loc(f), f"{k}: {got} for {codes.get(k)}")


PARTS = [names, split, reader, writer, text]
