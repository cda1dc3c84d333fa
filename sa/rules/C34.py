"""The rolling bloom filter: an item goes to the newest part, a full part is followed by a fresh one in place of the oldest, and
membership looks into every part; so the last `size` items are always found."""
from ..rule import *
from ..terms import *
CRATES = ["utils"]
B = "utils::bloom_filters::bloom_filter::BloomFilter::<T>::"
R = "utils::bloom_filters::rolling_bloom_filter::RollingBloomFilter::<T>::"
LIB = "probabilistic_collections::bloom::bloom_filter::BloomFilter::<T, B>::"
N = 3
# at least half of size, rounded up
HALF = ["div(add(1, $0), 2)", "div(add($0, 1), 2)", "num(usize, div_ceil, $0, 2)", "usize::div_ceil($0, 2)", "sub($0, div($0, 2))", "add(1, div($0, 2))", "$0"]
HALF += [f"max(1, {x})" for x in HALF] + [f"max({x}, 1)" for x in HALF]


def valid(p, size, fpp):
    return holds(p, f"!lt(0, {size})") or holds(p, f"!lt(0.0, {fpp})") or holds(p, f"!lt({fpp}, 1.0)") or holds(p, f"eq(0, {size})") or holds(p, f"le({fpp}, 0.0)") or holds(p, f"le(1.0, {fpp})")


def plain(c):
    for f, args in (("insert", ["$0.0", "$1"]), ("contains", ["$0.0", "$1"]), ("clear", ["$0.0"])):
        for p in c.paths(B + f):
            es = [(e.name, [show(a) for a in e.args]) for e in p.events]
            c.ob(f, p.kind == "ret" and es == [(LIB + f, args)] and (f != "contains" or p.ret is p.events[0].res), f"{f} must be that of the filter", c.loc(B + f), repr(p)[:300])
    for p in c.paths(B + "new"):
        if p.kind == "panic":
            c.ob("new#panic", valid(p, "$0", "$1"), "a filter with a size and a rate must be possible", c.loc(B + "new"), repr(p)[:300])
        else:
            fresh(c, "new", p, p.ret, "$0", "$1", c.loc(B + "new"))


def fresh(c, name, p, t, size, fpp, loc):
    """t is a new filter of this size and rate whose seeds come from the random number generator"""
    s = show(t)
    m = re.match(r"BloomFilter\(BloomFilter::with_hashers\((.*), (.*?), \[SipHasherBuilder::from_seed", s)
    rnd = [e for e in p.events if e.name.endswith("RngExt::random")]
    w = [e for e in p.events if e.name.endswith("with_hashers")]
    ok = len(w) == 1 and [show(a) for a in w[0].args[:2]] == [size, fpp] and s == f"BloomFilter({show(w[0].res)})" and w[0].args[2].tag == "arr"
    seeds = [show(x) for k in w[0].args[2].args[0] for x in (k.args[1] if k.tag == "call" else ())] if ok else []
    c.ob(name + "#fresh", ok, "a new filter must be empty and have the size and rate asked for", loc, s[:300])
    c.ob(name + "#seeds", len(seeds) == 4 and len(set(seeds)) == 4 and set(seeds) == {show(e.res) for e in rnd}, "the seeds of a filter must be four new random numbers", loc, str(seeds)[:400])


def rolling(c):
    f = R + "new"
    n = 0
    for p in c.paths(f):
        if p.kind == "panic":
            c.ob("rolling-new#panic", valid(p, "$0", "$1") or "overflow" in str(p.msg) and holds(p, "lt(0, $0)"), "a filter with a size and a rate must be possible", c.loc(f), repr(p)[:300])
            continue
        n += 1
        subs, count, most, fpp = (p.m.project(p.ret, ("f", x)) for x in ("subfilters", "subfilter_inserted_count", "subfilter_inserted_max", "fpp_subfilter"))
        c.ob("rolling-new#max", show(most) in HALF, "two full parts must hold at least the size asked for", c.loc(f), show(most))
        c.ob("rolling-new#count", show(count) == "0", "a new filter is empty", c.loc(f), show(count))
        c.ob("rolling-new#rate", show(fpp) in ("div($1, cast(f64, 3))", "div($1, 3.0)"), "the rate of a part is a third of the rate", c.loc(f), show(fpp))
        idx, lst = p.m.project(subs, ("f", "current_index")), p.m.project(subs, ("f", "list"))
        c.ob("rolling-new#index", idx.tag == "int" and 0 <= idx.args[0] < N, "the newest part must be one of the parts", c.loc(f), show(idx))
        m = re.match(r"array::(map|from_fn)\(", show(lst))
        k = lst.args[1] if m else ()
        clos = next((x for x in k if x.tag == "clos"), None)
        ok = m and clos is not None and (m[1] == "from_fn" or k[0].tag == "arr" and len(k[0].args[0]) == N)
        c.ob("rolling-new#parts", ok, "a new filter has three empty parts", c.loc(f), show(lst)[:300])
        if ok:
            from ..vf import Machine
            mm = Machine(c.F, inline=lambda i: True)
            for q in mm.run_closure(clos, [mk("sym", "i")]):
                if q.kind == "ret":
                    fresh(c, "rolling-new", q, q.ret, show(most), show(fpp), c.loc(f))
            c.fns |= mm.visited
    c.ob("rolling-new#n", n, "no filter can be made", c.loc(f))


def insert(c):
    f = R + "insert"
    S, K, M, L = "$0.subfilters", "$0.subfilter_inserted_count", "$0.subfilter_inserted_max", "$0.fpp_subfilter"
    cur = S + ".current_index"
    full = kept = 0
    for p in c.paths(f):
        if p.kind == "panic":
            # the index is below three and the count below the maximum in every filter (see below)
            c.ob("insert#panic", p.msg == "bounds" or holds(p, f"ovf(add, usize, {K}, 1)") or valid(p, M, L) or "rem0" == p.msg, "inserting must not panic", c.loc(f), repr(p)[:400])
            if p.msg == "bounds":
                b = [show(t) for t, v in p.truth.items() if v and show(t).startswith(f"lt({N - 1}, ")]
                c.ob("insert#bounds", b and cur in b[-1], "inserting must stay within the parts", c.loc(f), repr(p)[:400])
            continue
        if holds(p, f"lt(2, {cur})") or holds(p, f"lt(2, rem(add(1, {cur}), 3))"):
            continue
        o = p.out(mk("arg", 0))
        ins = [e for e in p.events if e.name == LIB + "insert"]
        c.ob("insert#item", len(ins) == 1 and [show(a) for a in ins[0].args] == [f"{S}.list[{cur}].0", "$1"], "the item must be put into the newest part", c.loc(f), repr(p)[:400])
        w = [e for e in p.events if e.name == LIB + "with_hashers"]
        isfull = anyof(p, f"eq({M}, add(1, {K}))", f"eq(add(1, {K}), {M})", f"le({M}, add(1, {K}))", f"!lt(add(1, {K}), {M})")
        c.ob("insert#when", isfull is not None and bool(w) == isfull, "a part must be followed by a new one exactly when it is full", c.loc(f), repr(p)[:400])
        c.ob("insert#keep", fields(p, o, "subfilter_inserted_max", "fpp_subfilter") == [M, L], "the parameters must not change", c.loc(f), show(o)[:300])
        got = fields(p, o, "subfilter_inserted_count")[0]
        subs = p.m.project(o, ("f", "subfilters"))
        idx, lst = p.m.project(subs, ("f", "current_index")), show(p.m.project(subs, ("f", "list")))
        upd = f"{S}.list[{cur}:={S}.list[{cur}]{{0:=out0[BloomFilter::insert({S}.list[{cur}].0, $1)]}}]"
        if w:
            full += 1
            nxt = show(idx)
            c.ob("insert#next", nxt in (f"rem(add(1, {cur}), 3)", "0") and (nxt != "0" or holds(p, f"eq(2, {cur})") or holds(p, f"eq(3, add(1, {cur}))")) or nxt == f"add(1, {cur})" and (refuted(p, f"eq(3, add(1, {cur}))") or refuted(p, f"eq(2, {cur})")),
                 "the new part must take the place of the oldest", c.loc(f), nxt)
            c.ob("insert#count0", got == "0", "a new part is empty", c.loc(f), got)
            c.ob("insert#list1", lst == f"{upd}[{nxt}:=BloomFilter({show(w[0].res)})]", "only the oldest part may be given up", c.loc(f), lst[:600])
            t = mk("adt", "utils::bloom_filters::bloom_filter::BloomFilter", "BloomFilter", ("0",), (w[0].res,))
            fresh(c, "insert", p, t, M, L, c.loc(f))
        else:
            kept += 1
            c.ob("insert#count", got in (f"add(1, {K})",), "the items of the part must be counted", c.loc(f), got)
            c.ob("insert#same", show(idx) == cur and lst == upd, "nothing else may change", c.loc(f), show(idx) + " " + lst[:400])
    c.ob("insert#n", full and kept, "both ways must be possible", c.loc(f))
    f = R + "contains"
    e = "BloomFilter::contains(elem($0.subfilters.list).0, $1)"
    for p in c.paths(f):
        n = len([x for x in p.events if x.name == LIB + "contains" and [show(a) for a in x.args] == ["elem($0.subfilters.list).0", "$1"]])
        if p.kind == "back":
            c.ob("contains#each", n == 1 and holds(p, "!" + e), "every part must be looked into", c.loc(f), repr(p)[:300])
        elif p.kind == "ret":
            exh = any(x[0] == "exh" and show(x[1]) == "iter($0.subfilters.list)" for x in p.facts)
            r = sret(p)
            c.ob("contains", r == "true" and n == 1 and holds(p, e) or r == "false" and exh and n == 0, "an item is contained exactly if one of the parts contains it", c.loc(f), repr(p)[:300])
        else:
            c.ob("contains#panic", False, "asking must not panic", c.loc(f), repr(p)[:300])


PARTS = [plain, rolling, insert]
