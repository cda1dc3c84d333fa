"""A block's ancestors are the blocks it descends from: the walk to a height follows parents and recorded ancestors and never passes the height asked for, the common
ancestor of two blocks is found in lockstep, a new block's record tells its place under its parent, and the marks of a status are kept apart."""
from ..rule import *
CRATES = ["chainstate-types", "chainstate"]
X = "chainstate_types::"
R = "chainstate::detail::chainstateref::ChainstateRef::<'a, S, V>::"
BI, GI, CR, CFG = "BlockIndex::", "GenBlockIndex::", "ChainstateRef::", "$0.chain_config"
OWN = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|chainstate_types::|<chainstate_types::)"
kw = dict(stop=CLOSED)
plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
txt = lambda t: plain(show(bare(t)))


class Bits:
    """64 bits, each 0, 1 or the name of an unknown"""
    def __init__(self, b):
        self.b = tuple(b)

    @staticmethod
    def num(n):
        return Bits([(n >> i) & 1 for i in range(64)])

    def known(self):
        return sum(x << i for i, x in enumerate(self.b)) if all(x in (0, 1) for x in self.b) else None


def named(t):
    return dict(zip(t.args[2], t.args[3]))


class Unclear(Exception):
    pass


def value(t, known):
    """the value of a term, with the bits of its inputs followed"""
    s = txt(t)
    if s in known:
        return known[s]
    k, a = t.tag, t.args
    v = lambda x: value(x, known)

    def n(x):
        x = v(x)
        r = x.known() if x.__class__ is Bits else x
        if r is None:
            raise Unclear(s)
        return r
    if k == "int":
        return Bits.num(a[0])
    if k == "bool":
        return str(a[0]).lower() == "true"
    if k in ("bitand", "bitor", "bitxor"):
        x, y = v(a[0]), v(a[1])
        r = []
        for i, j in zip(x.b, y.b):
            if k == "bitand":
                r.append(0 if 0 in (i, j) else j if i == 1 else i if j == 1 or i == j else None)
            elif k == "bitor":
                r.append(1 if 1 in (i, j) else j if i == 0 else i if j == 0 or i == j else None)
            else:
                r.append(0 if i == j else j if i == 0 else i if j == 0 else None)
        if None in r:
            raise Unclear(s)
        return Bits(r)
    if k == "not":
        x = v(a[0])
        if x.__class__ is bool:
            return not x
        if any(i not in (0, 1) for i in x.b):
            raise Unclear(s)
        return Bits([1 - i for i in x.b])
    if k in ("shl", "shr"):
        x, m = v(a[0]), n(a[1])
        return Bits((0,) * m + x.b[:64 - m] if k == "shl" else x.b[m:] + (0,) * m)
    sub = k == "sub" or k == "num" and str(a[0]).endswith("_sub")
    if sub or k == "add" or k == "num" and str(a[0]).endswith("_add"):
        x, y = [v(z) for z in (a if k in ("sub", "add") else a[2:])]
        if y.known() is None:
            x, y = y, x
        if x.known() is not None and y.known() is not None:
            return Bits.num((x.known() - y.known() if sub else x.known() + y.known()) & (2 ** 64 - 1))
        if y.known() != 1 or sub and s.startswith("sub(1,"):
            raise Unclear(s)
        r = list(x.b)                                   # the borrow or carry runs up to the first bit that takes it
        for i in range(64):
            if r[i] not in (0, 1):
                raise Unclear(s)
            r[i] ^= 1
            if r[i] == (0 if sub else 1):
                return Bits(r)
        raise Unclear(s)
    if k == "len":
        return Bits.num(n(named(a[0])["end"]) - n(named(a[0])["start"])) if a[0].tag == "adt" else v(a[0])
    if k == "ovf":
        (l1, h1), (l2, h2) = [(sum((i if i in (0, 1) else 0) << m for m, i in enumerate(z.b)), sum((i if i in (0, 1) else 1) << m for m, i in enumerate(z.b))) for z in (v(a[2]), v(a[3]))]
        lo, hi = {"add": (l1 + l2, h1 + h2), "sub": (l1 - h2, h1 - l2), "mul": (l1 * l2, h1 * h2)}[str(a[0])]
        if 0 <= lo and hi < 2 ** 64:
            return False
        if hi < 0 or lo >= 2 ** 64:
            return True
        raise Unclear(s)
    if k == "ne":
        r = value(mk("eq", *a), known)
        return not r if r.__class__ is bool else ("ne" if r[0] == "eq" else "eq", r[1])
    if k in ("lt", "le", "eq"):
        x, y = v(a[0]), v(a[1])
        if x.__class__ is not Bits or y.__class__ is not Bits:
            if k == "eq" and x.__class__ is y.__class__:
                return x == y
            raise Unclear(s)
        if k == "eq":
            if x.b == y.b:
                return True
            if any({i, j} == {0, 1} for i, j in zip(x.b, y.b)):
                return False
            return ("eq", frozenset((i, j) for i, j in zip(x.b, y.b) if i != j))
        lo = lambda z: sum((i if i in (0, 1) else 0) << n for n, i in enumerate(z.b))
        hi = lambda z: sum((i if i in (0, 1) else 1) << n for n, i in enumerate(z.b))
        if (hi(x) < lo(y)) if k == "lt" else (hi(x) <= lo(y)):
            return True
        if (lo(x) >= hi(y)) if k == "lt" else (lo(x) > hi(y)):
            return False
        if k == "lt" and x.known() == 0:
            return ("ne", frozenset((0, j) for j in y.b if j != 0))
        raise Unclear(s)
    if k == "call" and str(a[0]).endswith("::is_empty"):
        f = named(a[1][0])
        return n(f["start"]) >= n(f["end"])
    if k == "discr_int" and a[0].tag == "adt":
        return Bits.num(known["#discr"][(a[0].args[0], a[0].args[1])])
    raise Unclear(s)


def taken(ps, known):
    """the paths taken for these inputs (more than one if a branch depends on the unknown part)"""
    r = []
    for p in ps:
        open_, out = [], False
        for t, v in p.truth.items():
            try:
                w = value(t, known)
            except Unclear:
                w = ("open", txt(t))
            if w.__class__ is bool:
                out = out or w != v
            else:
                open_.append((w, v))
        for t, v in p.var.items():
            w = known.get(txt(t) + " is")
            if w is not None and w != v:
                out = True
        if not out:
            r.append((p, open_))
    return r


def skips(c):
    """the height whose block is recorded: the lowest bit of an even height cleared; of an odd one, the lowest two above the last; all heights, by their bits"""
    f = X + "height_skip::get_skip_height"
    loc, ps, n = c.loc(f), c.paths(f, stop=OWN), 0
    h = "T::into($0)"

    def case(bits, want):
        nonlocal n
        n += 1
        q = taken(ps, {h: Bits(bits), "$0.0": Bits(bits)})
        ok = len(q) == 1 and not q[0][1] and q[0][0].kind == "ret"
        if ok:
            t = bare(q[0][0].ret)
            t = t.args[1][0] if t.tag == "call" else list(named(t).values())[0] if t.tag == "adt" else t
            try:
                ok = value(t, {h: Bits(bits), "$0.0": Bits(bits)}).b == tuple(want)
            except (Unclear, AttributeError):
                ok = False
        if not ok:
            c.ob("skip", False, "the height recorded for a height is the one its bits give", loc, "".join("." if x not in (0, 1) else str(x) for x in reversed(bits)).lstrip("0") + " -> " + ", ".join(repr(x[0])[:200] for x in q))
            return False
        return True
    up = lambda i: [f"h{j}" for j in range(i, 64)]
    good = case([0] * 64, [0] * 64) and case([1] + [0] * 63, [0] * 64)
    for k in range(1, 64):
        if not good:
            break
        good = case([0] * k + [1] + up(k + 1), [0] * (k + 1) + up(k + 1))       # even
        if good:
            good = case([1] + [0] * (k - 1) + [1] + [0] * (63 - k), [1] + [0] * 63)     # odd, one bit above the last
        for j in range(k + 1, 64):
            if not good:
                break
            good = case([1] + [0] * (k - 1) + [1] + [0] * (j - k - 1) + [1] + up(j + 1), [1] + [0] * j + up(j + 1))
    c.ob("skip#all", good, "every height has been decided", loc)
    c.count("heights", n, 100)


def walk(c):
    f = X + "ancestor::block_index_ancestor_getter"
    loc, seen = c.loc(f), {"found": 0, "skip": 0, "step": 0, "above": 0, "unknown": 0, "parent": 0}
    get = lambda i: f"apply($0, $1, $2, {i})"
    uncow = lambda s: re.sub(r"Cow::(Owned|Borrowed)\(", "(", s)
    for p in c.paths(f, stop=CLOSED + "|::get_skip_height$"):
        low = lambda t: re.sub(r"\((\$3\.BlockIndex\.0|apply\(\$0, \$1, \$2, \$3\.BlockId\.0\)\.Ok\.0\.Some\.0)\)", r"(\1)", uncow(txt(t)))
        start = get("$3.BlockId.0") + ".Ok.0.Some.0" if any(txt(t) == "$3" and v == "BlockId" for t, v in p.var.items()) else "$3.BlockIndex.0"
        same = lambda s, want: s.replace("(" + start + ")", start).replace("GenBlockIndex::block_height" + start, f"GenBlockIndex::block_height({start})") == want
        at = next((t for t in p.phi if same(low(p.phi[t]), start)), None)
        ht = next((t for t in p.phi if same(low(p.phi[t]), f"{GI}block_height({start})")), None)
        a = txt(at) if at is not None else "?"
        h = txt(ht) if ht is not None else f"{GI}block_height({a})"
        fact, tr = {low(t): v for t, v in p.var.items()}, {}
        for t, v in p.truth.items():
            tr[re.sub(r"\.0(?=[,)])", "", low(t)).replace("BlockHeight::eq(", "eq(")] = v
        strip = lambda s: re.sub(r"\.0(?=[,)])", "", s + ")")[:-1]
        over = [v for s, v in tr.items() if re.fullmatch(r"lt\((.*), \$4\)", s) and re.fullmatch(r"lt\((.*), \$4\)", s)[1].replace("((", "(").replace("))", ")") in
                [strip(f"{GI}block_height({x})").replace("((", "(").replace("))", ")") for x in (start, f"({start})")]]
        T = lambda s: tr.get(re.sub(r"\.0(?=[,)])", "", s))
        eq = lambda x, y: T(f"eq({x}, {y})") if T(f"eq({x}, {y})") is not None else T(f"eq({y}, {x})")
        below = lambda x, y: T(f"lt({x}, {y})") or (T(f"lt({y}, {x})") is False and eq(x, y) is False)     # x < y
        H = f"height_skip::get_skip_height({h})"
        if p.kind == "back" or p.kind == "ret" and txt(p.ret).startswith("Ok("):
            c.ob("walk#begun", False in over, "begun only if the height asked for is not above the start", loc, repr(p)[:300])
        err = lambda i: fact.get(get(i)) == "Err"
        c.ob("walk#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        if p.kind == "panic":
            some = get(f"{BI}some_ancestor({a}.Block.0)")
            c.ob("walk#panic", T(f"lt({h}, $4)") or fact.get(some + ".Ok.0") == "None" or fact.get(f"BlockHeight::prev_height({h})") == "None", "gives up only if the records are broken", loc, repr(p)[:300])
        elif p.kind == "back":
            n_at = txt(p.next.get(at)) if at in p.next else ""
            n_ht = txt(p.next.get(ht)) if ht in p.next else None
            skip = n_at == get(f"{BI}some_ancestor({a}.Block.0)") + ".Ok.0.Some.0" and n_ht in (H, None)
            step = n_at == get(f"{BI}prev_block_id({a}.Block.0)") + ".Ok.0.Some.0" and n_ht in (f"BlockHeight::prev_height({h}).Some.0", None)
            c.ob("walk#turn", skip or step, "each turn goes to the parent, one lower, or to the recorded ancestor, at its height", loc, f"{n_at} at {n_ht}")
            if skip:
                seen["skip"] += 1
                c.ob("walk#passed", eq(H, "$4") or T(f"lt($4, {H})") or T(f"lt({H}, $4)") is False, "never skips below the height asked for", loc, repr(p)[:500])
            seen["step"] += step
            c.ob("walk#there", eq(h, "$4") is False or T(f"lt($4, {h})"), "goes on only above the height asked for", loc, repr(p)[:400])
        else:
            r = low(p.ret)
            if r.startswith("Ok("):
                there = eq(h, "$4") or T(f"lt($4, {h})") is False
                c.ob("walk#found", at is not None and r == f"Ok({a})" and (there or fact.get(a) == "Genesis"), "the block found is the one at the height asked for", loc, r + " " + repr(p)[:300])
                seen["found"] += bool(there)
            else:
                why = [k for k, y in (("unknown", fact.get(get("$3.BlockId.0") + ".Ok.0") == "None"), ("parent", fact.get(get(f"{BI}prev_block_id({a}.Block.0)") + ".Ok.0") == "None"),
                                      ("above", True in over)) if y]
                for k in why:
                    seen[k] += 1
                c.ob("walk#refused", why or "Err" in fact.values(), "fails only for an unknown start, a height above it, a missing parent or a storage failure", loc, r[:200])
                c.ob("walk#why", not why or {"unknown": "StartingPointNotFound", "parent": "PrevBlockIndexNotFound", "above": "InvalidAncestorHeight"}[why[0]] in r, "says what is missing", loc, r[:200])
    for k, v in seen.items():
        c.ob("walk#" + k, v, f"a way of the walk is missing: {k}", loc)
    cl = "gen_block::classify($2, $1)"
    for fid, tr in ((X + "ancestor::gen_block_index_getter", "BlockIndexHandle"), ("chainstate::detail::chainstateref::tx_verifier_storage::gen_block_index_getter", "BlockchainStorageRead")):
      i = f"{tr}::get_block_index($0, {cl}.Block.0)"
      c.table("record", c.paths(fid, **kw), [
        (f"{cl} is Genesis", f"Ok(Some({GI}genesis($1)))"), (f"{cl} is Block & {i} is Err", "Err(_)"), (f"{cl} is Block & {i} is Ok & {i}.Ok.0 is None", "Ok(None)"),
        (f"{cl} is Block & {i} is Ok & {i}.Ok.0 is Some", f"Ok(Some({GI}Block({i}.Ok.0.Some.0)))")])


ITEMS = [("block_id", "block_id"), ("prev_block_id", None), ("block_timestamp", None), ("chain_timestamps_max", "chain_time_max"), ("block_height", "height"), ("chain_trust", "chain_trust"),
         ("chain_transaction_count", "chain_transaction_count"), ("block_header", "block_header"), ("some_ancestor", "some_ancestor"), ("status", "status"), ("is_persisted", "is_persisted")]


def one(c, key, fid, want, out=None, **k):
    ps = [p for p in c.paths(fid, **dict(kw, **k)) if p.kind != "panic"]
    got = [plain(show(p.ret)) if out is None else plain(show(p.out(mk("arg", out)))) for p in ps]
    c.ob(key, got and all(match(want, g) for g in got), f"must be {want}", c.loc(fid), " | ".join(got)[:400])


def records(c):
    """what a record says is what it was made from"""
    B = X + "block_index::BlockIndex::"
    new = [bare(p.ret) for p in c.paths(B + "new", **kw) if p.kind == "ret"]
    loc = c.loc(B + "new")
    want = {"block_id": "Block::get_id($0)", "prev_block_id": "SignedBlockHeader::prev_block_id(Block::header($0))", "block_timestamp": "SignedBlockHeader::timestamp(Block::header($0))",
            "chain_timestamps_max": "$4", "block_height": "$3", "chain_trust": "T::into(T::into($1)) || $1", "chain_transaction_count": "$5", "block_header": "Block::header($0)", "some_ancestor": "$2",
            "status": "$6", "is_persisted": "false"}
    c.ob("new", len(new) == 1 and new[0].tag == "adt", "a record is made in one way", loc, str([show(x)[:200] for x in new]))
    if len(new) != 1 or new[0].tag != "adt":
        return
    fs = {k: plain(show(v)) for k, v in named(new[0]).items()}
    for a, _ in ITEMS:
        fid = B + a
        got = {plain(show(bare(p.ret))) for p in c.paths(fid, **kw)}
        full = {re.sub(r"\$0\.(\w+)", lambda m: fs.get(m[1], m[0]), g).replace("SignedBlockHeader::header(Block::header($0))", "Block::header($0)").replace("BlockHeader::", "SignedBlockHeader::").replace("SignedSigned", "Signed") for g in got}
        c.ob("item:" + a, len(full) == 1 and all(match(want[a], g.replace("::Block::header", "Block::header")) for g in full), f"tells what the record was made with: {want[a]}", c.loc(fid), str(full)[:300])
    st = next((k for k in fs if fs[k] == "$6"), "status")
    pe = [k for k in fs if fs[k] == "false"]
    one(c, "with status", B + "with_status", f"$0{{{st}:=$1}}")
    one(c, "set status", B + "set_status", f"$0{{{st}:=$1}}", out=0)
    one(c, "persisted", B + "make_persisted", " || ".join(f"$0{{{k}:=true}}" for k in pe))
    one(c, "header", B + "into_block_header", "$0.block_header || BlockIndex::block_header($0)")
    f, n = B + "is_identical_to", 0
    for p in c.paths(f, stop=OWN):
        same = {m[1] for t, v in p.truth.items() if v for m in [re.fullmatch(r"eq\(\$0\.(\w+), \$1\.\1\)", txt(t))] if m}
        diff = [1 for t, v in p.truth.items() if not v and re.fullmatch(r"eq\(\$0\.(\w+), \$1\.\1\)", txt(t))]
        n += 1
        c.ob("identical", (txt(p.ret) == "true" and same == set(fs)) or (txt(p.ret) == "false" and diff), "two records are identical exactly if all they say is", c.loc(f), repr(p)[:300])
    c.count("identical", n, 1)
    # a record of a block or of the genesis
    G = X + "gen_block_index::GenBlockIndex::"
    gen = {"block_id": "WithId::id($0.Genesis.0)", "block_timestamp": "Genesis::timestamp($0.Genesis.0)", "chain_timestamps_max": "Genesis::timestamp($0.Genesis.0)", "block_height": "BlockHeight::zero() || BlockHeight(0)",
           "chain_trust": "const(common::uint::Uint256::ZERO) || Uint256::ZERO || _ZERO_", "prev_block_id": "None", "status": "BlockStatus::new_fully_checked()", "is_persisted": "true", "chain_transaction_count": "0"}
    for ty, deep in ((X + "gen_block_index::GenBlockIndex::", "Block.0"), (X + "gen_block_index::GenBlockIndexRef::<'a>::", "Block.0")):
        for a, g in gen.items():
            fid = ty + a
            got = {}
            for p in c.paths(fid, stop=OWN + "|::BlockIndex::|::BlockStatus::"):
                if p.kind == "ret":
                    v = next((v for t, v in p.var.items() if txt(t) == "$0"), "?")
                    s = re.sub(r"\b(T::into|Id::from|AsRef::as_ref|T::as_ref|Deref::deref|Option::copied|Clone::clone)\(((?:[^()]|\([^()]*\))*)\)", r"\2", re.sub(r"\b(T::into|Id::from)\(((?:[^()]|\([^()]*\))*)\)", r"\2", txt(p.ret)))
                    got.setdefault(v, set()).add(s)
            b = f"Some({BI}{a}($0.{deep}))" if a == "prev_block_id" else f"{BI}{a}($0.{deep})"
            c.ob(f"general:{a}", got.get("Block") == {b}, "tells what the record of the block says", c.loc(fid), str(got)[:300])
            ok = len(got.get("Genesis", ())) == 1 and any(match(g, s) or (a == "chain_trust" and re.search(r"\bZERO\b|Uint256.*\b0\b", s)) for s in got["Genesis"])
            c.ob(f"genesis:{a}", ok, f"of the genesis: {g}", c.loc(fid), str(got)[:300])
    one(c, "genesis", G + "genesis", f"{GI}Genesis(ChainConfig::genesis_block($0))")
    c.table("general identical", [p for p in c.paths(G + "is_identical_to", stop=OWN + "|::BlockIndex::")], [
        ("$0 is Block & $1 is Block", f"{BI}is_identical_to($0.Block.0, $1.Block.0)"), ("$0 is Block & $1 is Genesis", "false"), ("$0 is Genesis & $1 is Block", "false"),
        ("$0 is Genesis & $1 is Genesis", "Arc::ptr_eq($0.Genesis.0, $1.Genesis.0) || true")], kinds=("ret",))


def history(c):
    H = X + "block_index_history_iter::BlockIndexHistoryIterator"
    f = f"<{H}<'_, H> as core::iter::traits::iterator::Iterator>::next"
    g = "BlockIndexHandle::get_gen_block_index($0.block_index_handle, $0.next_id.Some.0)"
    loc = c.loc(f)
    rows = {"block": 0, "genesis": 0, "end": 0, "broken": 0}
    for p in c.paths(f, **kw):
        fact = {txt(t): v for t, v in p.var.items()}
        out, r = plain(show(p.out(mk("arg", 0)))), txt(p.ret) if p.kind == "ret" else ""
        if p.kind == "panic":
            c.ob("history#panic", fact.get(g) == "Err", "fails only if storage cannot be read", loc, repr(p)[:200])
        elif fact.get("$0.next_id") == "None":
            rows["end"] += 1
            c.ob("history#end", r == "None" and out in ("$0", "$0{next_id:=None}"), "ended, it stays so", loc, r + " " + out)
        elif fact.get(g + ".Ok.0") == "None":
            rows["broken"] += 1
            c.ob("history#broken", r == "None" and out == "$0{next_id:=None}", "ends at a missing record", loc, r + " " + out)
        else:
            v = fact.get(g + ".Ok.0.Some.0")
            nxt = "$0{next_id:=None}" if v == "Genesis" else f"$0{{next_id:=Some({BI}prev_block_id({g}.Ok.0.Some.0.Block.0))}}"
            if v is None:
                nxt = f"$0{{next_id:={GI}prev_block_id({g}.Ok.0.Some.0)}}"
                rows["genesis"] += 1
            rows["genesis" if v == "Genesis" else "block"] += 1
            c.ob("history#next", r == f"Some({g}.Ok.0.Some.0)" and out == nxt, "yields the block it is at, and goes on to its parent", loc, r + " " + out)
    for k, v in rows.items():
        c.ob("history#" + k, v, f"a way of the history is missing: {k}", loc)
    one(c, "history start", f"{H}::<'a, H>::new", "BlockIndexHistoryIterator{next_id: Some($0), block_index_handle: $1} || BlockIndexHistoryIterator{block_index_handle: $1, next_id: Some($0)}")
    M = "chainstate::detail::median_time::calculate_median_time_past"
    few = "Itertools::sorted(take(iter($0), 11))"
    loc, q = c.loc(M + "_from_blocktimestamps"), c.paths(M + "_from_blocktimestamps", **kw)
    for p in q:
        if p.kind == "panic":
            continue
        s = show(p.ret)
        m = re.fullmatch(r"(.*)\[div\(len\((.*)\), 2\)\]|(.*)\[shr\(len\((.*)\), 1\)\]", s)
        a, b = ((m[1], m[2]) if m and m[1] else (m[3], m[4])) if m else ("", "-")
        taken_ = re.search(r"take\(iter\(\$0\), 11\)", s)
        c.ob("median", a == b and taken_ and re.search(r"sort", s), "the middle one of the last eleven times in order", loc, s[:300])
    c.count("median", len(q), 1)
    ps = c.paths(M, **kw)
    clo = [t for p in ps for t in [next(iter(bare(p.ret).args[1]))]] if ps and bare(ps[0].ret).tag == "call" else []
    for t in clo:
        s = plain(show(t))
        c.ob("median of", re.match(r"map\(iter\(BlockIndexHistoryIterator::new\(\$1, \$0\)\)", s), "the times are those of the blocks from the one given down", c.loc(M), s[:200])
        cl = next((x for x in subterms(t) if x.tag == "clos"), None)
        ok = cl is not None and all(txt(x.ret) == f"{GI}block_timestamp($?0)" for x in Machine(c.F, stop=CLOSED, inline=c.F.crates).run_closure(cl, [mk("arg", "?0")]))
        c.ob("median of#time", ok or "::block_timestamp" in s, "the time of each block", c.loc(M), s[:200])
    c.count("median of", len(clo), 1)


def status(c):
    """each mark has its place; setting one leaves all else; the stage goes up one by one"""
    S = X + "block_status::BlockStatus::"
    adts = {k: a for k, a in c.F.adts.items() if k.startswith(X + "block_status::")}
    discr, follow = {}, {}
    for k, a in adts.items():
        if a.get("kind") != "enum":
            continue
        for i, v in enumerate(a["v"]):
            discr[(k, v["n"])] = v["d"]
            follow[(k, v["n"])] = a["v"][i + 1]["n"] if i + 1 < len(a["v"]) else None
    stages = [(v["n"], v["d"]) for v in adts[X + "block_status::BlockValidationStage"]["v"]]
    c.ob("stages", [n for n, _ in stages] == ["Unchecked", "CheckBlockOk", "FullyChecked"] and len({d for _, d in stages}) == 3, "the stages, in their order", detail=str(stages))
    known0 = {"#discr": discr, "$0.0": Bits([f"b{i}" for i in range(64)])}
    nx = r"<.*block_status::\w+ as enum_iterator::Sequence>::next$"

    for (k, n), m in follow.items():
        s = k.rsplit("::", 1)[1]
        known0[f"{s}::next({s}::{n}) is"] = "Some" if m else "None"
        if m:
            known0[f"discr_int({s}::next({s}::{n}).Some.0)"] = Bits.num(discr[(k, m)])
        known0[f"discr_int({s}::{n})"] = Bits.num(discr[(k, n)])
    stop = OWN + r"|" + nx

    def run(name, **more):
        known = dict(known0, **more)
        q = taken(c.paths(S + name, stop=stop), known)
        return [(p, o, known) for p, o in q]

    def single(name, **more):
        q = [(p, k) for p, o, k in run(name, **more)]
        if len(q) != 1 or q[0][0].kind != "ret":
            c.ob("mark:" + name, False, "must do one thing, whatever the status", c.loc(S + name), " | ".join(repr(p)[:150] for p, _ in q)[:500])
            return None, None
        return q[0]

    def bits(t, known):
        """the marks a truth value tells of: (is it that all are clear, the bits)"""
        neg = False
        while t.tag == "not":
            t, neg = t.args[0], not neg
        w = value(t, known)
        if w.__class__ is bool:
            return None
        if w[0] == "ne":
            w, neg = ("eq", w[1]), not neg
        if w[0] == "eq" and all(0 in x for x in w[1]):
            return (not neg, {next(i for i in x if i != 0) for x in w[1]})
        if w[0] == "eq" and len(w[1]) == 1 and 1 in next(iter(w[1])):
            return (neg, {next(i for i in next(iter(w[1])) if i != 1)})
        return None

    def written(p, known):
        o = p.out(mk("arg", 0))
        if o.tag == "upd":
            return value(next(v for v in [x for x in fields_of(o)]), known)
        return known["$0.0"] if show(o) == "$0" else None

    def fields_of(o):
        r = []

        def go(x):
            if x.__class__ is T:
                r.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(o.args[1])
        return r
    place = {}
    for name in ("validation_failed", "has_invalid_parent", "is_explicitly_invalidated"):
        p, known = single(name)
        b = None
        if p is not None:
            try:
                b = bits(bare(p.ret), known)
            except (Unclear, KeyError):
                pass
        c.ob("tells:" + name, b and not b[0] and len(b[1]) == 1, "tells whether its mark is set", c.loc(S + name), repr(p)[:300] if p is not None else "")
        place[name] = next(iter(b[1])) if b else name
    stagebits = [f"b{i}" for i in range(8)]
    c.ob("places", len(set(place.values())) == 3 and not set(place.values()) & set(stagebits), "each mark has a place of its own, outside the stage's", detail=str(place))
    base = known0["$0.0"].b
    for name, of in (("set_validation_failed", "validation_failed"), ("set_has_invalid_parent", "has_invalid_parent"), ("set_explicitly_invalidated", "is_explicitly_invalidated")):
        p, known = single(name)
        if p is None:
            continue
        try:
            w = written(p, known)
            good = w.b == tuple(1 if b == place[of] else b for b in base)
        except (Unclear, StopIteration, AttributeError, KeyError) as e:
            good = False
        c.ob("sets:" + name, good, "sets its mark and nothing else", c.loc(S + name), show(p.out(mk("arg", 0)))[:300])
    p, known = single("is_ok")
    try:
        b = bits(bare(p.ret), known) if p is not None else None
    except (Unclear, KeyError):
        b = None
    c.ob("is_ok", b and b[0] and b[1] == set(place.values()), "a block is in order exactly if no mark is set", c.loc(S + "is_ok"), str(b))
    p, known = single("with_cleared_fail_bits")
    if p is not None:
        r = p.ret
        try:
            t = fields_of(r)[0] if r.tag == "upd" else list(named(r).values())[0] if r.tag == "adt" else None
            good = value(t, known).b == tuple(0 if b in place.values() else b for b in base)
        except (Unclear, AttributeError, IndexError, TypeError, KeyError):
            good = False
        c.ob("cleared", good, "clears the marks and nothing else", c.loc(S + "with_cleared_fail_bits"), show(r)[:300])

    def staged(d):
        return Bits([(d >> i) & 1 for i in range(8)] + [f"b{i}" for i in range(8, 64)])
    for n, d in stages:
        more = {"$0.0": staged(d)}
        for p, o, known in run("last_valid_stage", **more):
            if p.kind == "panic":
                c.ob("stage#panic", "Corrupted" in str(p.msg) or "expect" in str(p.msg), "must not panic", c.loc(S + "last_valid_stage"), repr(p)[:200])
                continue
            m = re.fullmatch(r"(?:\w+|_)::from_u64\((.*)\)\.Some\.0", txt(p.ret))
            t = next((x for x in subterms(bare(p.ret)) if x.tag == "call" and str(x.args[0]).endswith("from_u64")), None)
            try:
                good = m and value(t.args[1][0], known).known() == d
            except (Unclear, AttributeError):
                good = False
            c.ob("stage", good, f"the stage read is the one kept: {n}", c.loc(S + "last_valid_stage"), txt(p.ret)[:300])
        for n2, d2 in stages:
            f = S + "advance_validation_stage_to"
            q = run("advance_validation_stage_to", **{"$0.0": staged(d), "discr_int($1)": Bits.num(d2)})
            rets = [(p, k) for p, o, k in q if p.kind == "ret"]
            goods = []
            for p, known in rets:
                s = " & ".join(txt(t) + ("" if v is True else f"={v}") for t, v in list(p.truth.items()) + list(p.var.items()))
                asked = [t for t in p.truth if p.truth[t] and re.search(r"eq\(", txt(t)) and "BlockValidationStage::next(" in txt(t) and "$1" in txt(t)] or \
                        [t for t, v in p.var.items() if v == "Some" and "BlockValidationStage::next(" in txt(t)]
                fu = next((x for t in list(p.truth) + list(p.var) for x in subterms(bare(t)) if x.tag == "call" and str(x.args[0]).endswith("from_u64")), None)
                try:
                    goods.append(bool(asked) and fu is not None and value(fu.args[1][0], known).known() == d and written(p, known).b == staged(d2).b)
                except (Unclear, AttributeError, StopIteration, KeyError):
                    goods.append(False)
            c.ob("advance", goods and all(goods), "the stage becomes the one given, if it is the next one, and nothing else changes", c.loc(f), " | ".join(show(p.out(mk("arg", 0)))[:150] for p, _ in rets))
    one(c, "new", S + "new", "BlockStatus{0: 0} || BlockStatus(0)")
    ps = c.paths(S + "new_at_stage", stop=stop)
    for n, d in stages:
        q = taken(ps, dict(known0, **{"discr_int($0)": Bits.num(d)}))
        try:
            good = len(q) == 1 and q[0][0].kind == "ret"
            r = q[0][0].ret
            t = fields_of(r)[0] if r.tag == "upd" else list(named(r).values())[0]
            good = good and value(t, dict(known0, **{"discr_int($0)": Bits.num(d)})).known() == d
        except (Unclear, IndexError, AttributeError, TypeError, KeyError):
            good = False
        c.ob("at stage", good, f"made at a stage, it says so: {n}", c.loc(S + "new_at_stage"), " | ".join(repr(x[0])[:200] for x in q)[:400])
    one(c, "fully checked", S + "new_fully_checked", "BlockStatus::new_at_stage(BlockValidationStage::FullyChecked)")
    fully(c, S + "is_fully_valid")


def fully(c, f):
    n = 0
    for p in c.paths(f, **kw):
        s = {txt(t).replace("BlockValidationStage::eq(", "eq("): v for t, v in p.truth.items()}
        s.update({txt(t): v for t, v in p.var.items()})
        full = [v for k, v in s.items() if re.fullmatch(r"eq\((BlockStatus::last_valid_stage\(\$0\), BlockValidationStage::FullyChecked|BlockValidationStage::FullyChecked, BlockStatus::last_valid_stage\(\$0\))\)", k)]
        full = full or [s.get("BlockStatus::last_valid_stage($0)") == "FullyChecked"] if "BlockStatus::last_valid_stage($0)" in s else full
        full = full[0] if full else None
        ok, r = s.get("BlockStatus::is_ok($0)"), txt(p.ret).replace("BlockValidationStage::eq(", "eq(")
        n += 1
        good = (full and r == "BlockStatus::is_ok($0)" and ok is None) or (full and ok and r == "true") or (r == "false" and (full is False or ok is False)) or \
            (ok and full is None and re.fullmatch(r"eq\(.*last_valid_stage\(\$0\).*FullyChecked.*\)|eq\(.*FullyChecked.*last_valid_stage\(\$0\).*\)", r))
        c.ob("fully valid", good, "fully valid: checked to the end, and no mark set", c.loc(f), repr(p)[:200] + r)
    c.count("fully valid", n, 1)


def tree(c):
    """what is asked of the tree of blocks"""
    g = f"{CR}get_gen_block_index($0, "
    walk_ = "ancestor::block_index_ancestor_getter(ancestor::gen_block_index_getter, $0.db_tx, $0.chain_config, T::into($1), $2)"
    q = c.paths(R + "get_ancestor", **kw)
    for p in q:
        t = next((plain(show(bare(e.res))) for e in p.events if e.name.endswith("block_index_ancestor_getter")), "")
        c.ob("ancestor", re.fullmatch(r"ancestor::block_index_ancestor_getter\(.*gen_block_index_getter.*, \$0\.db_tx, \$0\.chain_config, (T::into\(\$1\)|AncestorGetterStartingPoint::(from|BlockIndex)\(\$1\)), \$2\)", t) and
             (txt(p.ret) == t or txt(p.ret).startswith("Err(") or txt(p.ret) == f"Ok({t}.Ok.0)"), "the ancestor of a block is found by the walk from it", c.loc(c.resolve(R + "get_ancestor")), t + " => " + txt(p.ret)[:200])
    c.count("ancestor", len(q), 1)
    bid = "BlockchainStorageRead::get_best_block_id($0.db_tx)"
    for nm, call, err in (("get_block_index", "BlockchainStorageRead::get_block_index($0.db_tx, $1)", None), ("get_block_id_by_height", "BlockchainStorageRead::get_block_id_by_height($0.db_tx, $1)", None),
                          ("get_gen_block_index", "tx_verifier_storage::gen_block_index_getter($0.db_tx, $0.chain_config, $1)", None)):
        for p in c.paths(R + nm, **kw):
            r = txt(p.ret)
            c.ob("asks:" + nm, r in (call, f"Ok({call}.Ok.0)") or (r.startswith("Err(") and call in r) or r.startswith(f"Result::map_err({call}"), "what storage says of it", c.loc(c.resolve(R + nm)), r[:200])
    for nm, call, fn in (("get_existing_block_index", f"{CR}get_block_index($0, $1)", "get_existing_block_index"), ("get_existing_gen_block_index", g + "$1)", ""), ("get_existing_block_id_by_height", f"{CR}get_block_id_by_height($0, $1)", ""),
                         ("get_best_block_index", g + f"{CR}get_best_block_id($0).Ok.0)", ""), ("get_previous_block_index", g + "BlockHeader::prev_block_id(BlockInfo::get_header($1)))", "")):
        f, n = c.resolve(R + nm), [0, 0]
        for p in c.paths(R + nm, **kw):
            fact, r = {txt(t): v for t, v in p.var.items()}, txt(p.ret)
            if fact.get(call + ".Ok.0") == "Some":
                n[0] += 1
                c.ob("given:" + nm, r == f"Ok({call}.Ok.0.Some.0)", "yields what is there", c.loc(f), r[:200])
            else:
                n[1] += fact.get(call + ".Ok.0") == "None"
                c.ob("missing:" + nm, r.startswith("Err(") and (fact.get(call + ".Ok.0") == "None" or "Err" in fact.values()), "fails only if there is none, or storage fails", c.loc(f), r[:200])
        c.ob("given:" + nm + "#n", all(n), "there or missing", c.loc(f))
    for p in c.paths(R + "get_best_block_id", **kw):
        r = txt(p.ret) if p.kind == "ret" else ""
        c.ob("best", p.kind == "panic" or r == f"Ok({bid}.Ok.0.Some.0)" or r.startswith("Err("), "the best block is the one storage names", c.loc(c.resolve(R + "get_best_block_id")), r[:200])


def common(c):
    f = c.resolve(R + "last_common_ancestor")
    loc, seen = c.loc(f), {"met": 0, "on": 0, "first": 0, "second": 0}
    h1, h2 = f"{GI}block_height($1)", f"{GI}block_height($2)"
    down = {"1": f"{CR}get_ancestor($0, $1, {h2}).Ok.0", "2": f"{CR}get_ancestor($0, $2, {h1}).Ok.0"}
    for p in c.paths(f, **kw):
        fact, tr = {txt(t): v for t, v in p.var.items()}, {txt(t).replace("Id::eq(", "eq("): v for t, v in p.truth.items()}
        c.ob("common#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        tr.update({re.sub(r"\.0(?=[,)])", "", k): v for k, v in tr.items() if k.startswith("lt(")})
        order = fact.get(f"BlockHeight::cmp({h1}, {h2})") or {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}.get(fact.get(f"BlockHeight::cmp({h2}, {h1})"))
        if order is None:
            lt = lambda x, y: tr.get(f"BlockHeight::lt({x}, {y})", tr.get(f"lt({x}, {y})", tr.get(f"BlockHeight::gt({y}, {x})", tr.get(f"PartialOrd::gt({y}, {x})"))))
            order = "Less" if lt(h1, h2) else "Greater" if lt(h2, h1) else "Equal" if lt(h1, h2) is False and lt(h2, h1) is False else None
        init = {t: txt(p.phi[t]) for t in p.phi}
        one_ = next((t for t in init if init[t] in ("$1", down["1"])), None)
        two = next((t for t in init if init[t] in ("$2", down["2"])), None)
        if one_ is None or two is None:
            c.ob("common#before", p.kind == "ret" and "Err" in fact.values(), "fails only if storage or the walk does", loc, repr(p)[:300])
            continue
        a, b = txt(one_), txt(two)
        want = {"Greater": (down["1"], "$2"), "Less": ("$1", down["2"]), "Equal": ("$1", "$2")}.get(order)
        c.ob("common#level", want and (init[one_], init[two]) == want, "the two start at the same height, the lower of theirs", loc, f"{order}: {init[one_]}, {init[two]}")
        seen["first"] += order == "Greater"
        seen["second"] += order == "Less"
        ids = tr.get(f"eq({GI}block_id({a}), {GI}block_id({b}))", tr.get(f"eq({GI}block_id({b}), {GI}block_id({a}))"))
        pr = lambda x: f"{CR}get_previous_block_index($0, {x}.Block.0)"
        if p.kind == "back":
            seen["on"] += 1
            c.ob("common#turn", ids is False and (txt(p.next[one_]), txt(p.next[two])) == (pr(a) + ".Ok.0", pr(b) + ".Ok.0"), "each turn goes to the parents of both", loc, txt(p.next[one_]) + ", " + txt(p.next[two]))
        elif p.kind == "ret" and txt(p.ret).startswith("Ok("):
            seen["met"] += 1
            c.ob("common#met", ids and txt(p.ret) in (f"Ok({a})", f"Ok({b})"), "the common ancestor is the block at which they meet", loc, repr(p)[:300])
        elif p.kind == "ret":
            c.ob("common#failed", "Err" in fact.values(), "fails only if storage does", loc, repr(p)[:300])
        else:
            c.ob("common#panic", ids is False and "Genesis" in fact.values(), "gives up only at a genesis that is not shared", loc, repr(p)[:300])
    for k, v in seen.items():
        c.ob("common#" + k, v, f"a way is missing: {k}", loc)
    best = f"{CR}get_best_block_index($0)"
    for p in c.paths(R + "last_common_ancestor_in_main_chain", **kw):
        r = txt(p.ret)
        call = [f"{CR}last_common_ancestor($0, $1, {best}.Ok.0)", f"{CR}last_common_ancestor($0, {best}.Ok.0, $1)"]
        c.ob("with tip", r in call or r in [f"Ok({x}.Ok.0)" for x in call] or r.startswith("Err("), "the common ancestor with the best block", c.loc(c.resolve(R + "last_common_ancestor_in_main_chain")), r[:200])


def fresh(c):
    """the record of a new block"""
    f = c.resolve(R + "create_block_index_for_new_block")
    loc, n = c.loc(f), 0
    pid = "SignedBlockHeader::prev_block_id(Block::header($1))"
    par = f"{CR}get_gen_block_index($0, {pid}).Ok.0.Some.0"
    ht = f"BlockHeight::next_height({GI}block_height({par}))"
    anc = f"{CR}get_ancestor($0, {par}, height_skip::get_skip_height({ht})).Ok.0"
    proof = f"{CR}get_block_proof($0, {GI}block_timestamp({par}), $1)"
    trust = [f"Uint256::add({GI}chain_trust({par}), {proof}.Ok.0).Some.0", f"Uint256::add({proof}.Ok.0, {GI}chain_trust({par})).Some.0"]
    count = [f"add({GI}chain_transaction_count({par}), len(Block::transactions($1)))", f"add(len(Block::transactions($1)), {GI}chain_transaction_count({par}))"]
    t1, t2 = f"{GI}chain_timestamps_max({par})", "Block::timestamp($1)"
    for p in c.paths(f, **kw):
        fact = {txt(t): v for t, v in p.var.items()}
        c.ob("fresh#lost", not dropped(p), "no failure is dropped", loc, str(dropped(p))[:200])
        if p.kind == "panic":
            continue
        r = bare(p.ret)
        if txt(r).startswith("Err("):
            c.ob("fresh#refused", "Err" in fact.values() or fact.get(f"{CR}get_gen_block_index($0, {pid}).Ok.0") == "None", "refused only for a missing parent or a failure", loc, repr(p)[:300])
            continue
        n += 1
        call = next((x for x in subterms(r) if x.tag == "call" and str(x.args[0]).endswith("BlockIndex::new")), None)
        a = [txt(x) for x in call.args[1]] if call is not None else []
        names = ["block", "trust", "ancestor", "height", "time", "transactions", "status"]
        later = {f"Ord::max({x}, {y})" for x, y in ((t1, t2), (t2, t1))} | {f"cmp::max({x}, {y})" for x, y in ((t1, t2), (t2, t1))} | {f"max({x}, {y})" for x, y in ((t1, t2), (t2, t1))}
        tr = {txt(t): v for t, v in p.truth.items()}
        if len(a) == 7 and a[4] in (t1, t2):
            x, y = (t1, t2) if a[4] == t1 else (t2, t1)
            cmp_ = {s.replace("BlockTimestamp::", "").replace("PartialOrd::", ""): v for s, v in tr.items()}
            ok_time = cmp_.get(f"lt({x}, {y})") is False or cmp_.get(f"lt({y}, {x})") or cmp_.get(f"gt({x}, {y})") or cmp_.get(f"ge({x}, {y})") or any(
                v in w for s, v in fact.items() for q, w in ((f"BlockTimestamp::cmp({x}, {y})", ("Greater", "Equal")), (f"BlockTimestamp::cmp({y}, {x})", ("Less", "Equal"))) if s == q)
        else:
            ok_time = len(a) == 7 and (a[4] in later or any(a[4].endswith(z) for z in later))
        good = [len(a) == 7] + ([a[0] == "$1", a[1] in trust, a[2] == f"{GI}block_id({anc})", a[3] == ht, ok_time, any(match(z, a[5]) for z in count) or a[5] in count, a[6] == "$2"] if len(a) == 7 else [])
        for nm, g in zip(["form"] + names, good):
            c.ob("fresh:" + nm, g, "the record of a new block tells its place under its parent: " + nm, loc, str(a)[:900])
    c.count("fresh", n, 1)
    pf = "ConsensusData::get_block_proof(SignedBlockHeader::consensus_data(Block::header($2)), $1, Block::timestamp($2))"
    c.table("proof", c.paths(R + "get_block_proof", **kw), [(f"{pf} is Some", f"Ok({pf}.Some.0)"), (f"{pf} is None", "Err(_)")])


PARTS = [skips, walk, records, history, status, tree, common, fresh]
