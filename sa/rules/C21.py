"""Storage overlay: what a transaction of the locking adaptor (the in-memory backend) reads, what it buffers, when the buffered
changes reach the store, and which lock it holds while it lives."""
from ..rule import *
CRATES = ["storage-core", "storage-inmemory"]
L = "storage_core::adaptor::locking::"
RW, RO = f"<{L}TxRw<'_, T> as storage_core::backend::", f"<{L}TxRo<'_, T> as storage_core::backend::"
M = "<storage_inmemory::StorageMaps as storage_core::backend::"
INL = {"storage_core"}


def clos(t):
    return [x.args[0] for x in subterms(t) if x.tag == "clos"]


def reading(c):
    d = "mapget($0.deltas.0[$1.0], $2)"
    c.table("rw.get", c.paths(RW + "ReadOps>::get"), [
        (f"{d} is None", "ReadOps::get($0.db, $1, $2)"),
        (f"{d} is Some & {d}.Some.0 is None", "Ok(None)"),
        (f"{d} is Some & {d}.Some.0 is Some", f"Ok(Some(from(Cow<[u8]>, {d}.Some.0.Some.0))) || Ok(Some(Cow::Borrowed({d}.Some.0.Some.0)))"),
    ])
    for nm, it in (("prefix_iter", r"MapPrefixIter\{inner: BTreeMap::range\(\$0\.deltas\.0\[\$1\.0\], (SliceRange\{start: Bound::Included\(\$2\), end: Bound::Unbounded\}|RangeFrom\{start: \$2\})\), prefix: \$2\}"),
                   ("greater_equal_iter", r"BTreeMap::range\(\$0\.deltas\.0\[\$1\.0\], (RangeFrom\{start: \$2\}|SliceRange\{start: Bound::Included\(\$2\), end: Bound::Unbounded\})\)")):
        f = RW + "ReadOps>::" + nm
        n = 0
        for p in c.paths(f):
            r = sret(p)
            base = f"ReadOps::{nm}($0.db, $1, $2)"
            if p.kind == "ret" and holds(p, base + " is Err"):
                c.ob(f"rw.{nm}#err", r == f"Err({base}.Err.0)", "a failing store must be reported", c.loc(f), r)
                continue
            n += 1
            m = re.fullmatch(r"Ok\(filter_map\(iter\(merge_join::merge_join_by\(" + re.escape(base) + r"\.Ok\.0, " + it + r", (closure<.*>\(\))\)\), (closure<.*>\(\))\)\)", r)
            ok = c.ob(f"rw.{nm}", p.kind == "ret" and m, "iteration must merge the stored entries from the given key on with the transaction's own changes from that key on, by key", c.loc(f), repr(p)[:900])
            cl = clos(p.ret) if ok else []
            if len(cl) == 2:
                merge(c, nm, cl)
        c.ob(f"rw.{nm}#ok", n, "iteration never succeeds", c.loc(f))
    for nm in ("get", "prefix_iter", "greater_equal_iter"):
        c.table("ro." + nm, c.paths(RO + "ReadOps>::" + nm), [("", f"ReadOps::{nm}($0.0, $1, $2)")])
    pfx = "Range::next($0.inner)"
    st = f"anyof"
    f = "<storage_core::util::MapPrefixIter<'m, T> as core::iter::traits::iterator::Iterator>::next"
    s = f"slice::starts_with({pfx}.Some.0.0, slice($0.prefix, RangeFull))"
    s2 = f"slice::starts_with({pfx}.Some.0.0, $0.prefix)"
    for p in c.paths(f):
        r = sret(p)
        if holds(p, f"{pfx} is None"):
            c.ob("prefix#end", r == "None", "the iteration ends with the map", c.loc(f), r)
        else:
            t = anyof(p, s, s2)
            c.ob("prefix#next", r == (f"Some(({pfx}.Some.0.0, {pfx}.Some.0.1))" if t else "None") or t and r == f"Some({pfx}.Some.0)" if t is not None else False, "an entry is yielded exactly when its key starts with the prefix", c.loc(f), repr(p)[:500])
    c.table("prefix#new", c.paths("storage_core::util::MapPrefixIter::<'m, T>::new"), [("", "MapPrefixIter{inner: BTreeMap::range($0, SliceRange{start: Bound::Included($1), end: Bound::Unbounded}), prefix: $1} || MapPrefixIter{inner: BTreeMap::range($0, RangeFrom{start: $1}), prefix: $1}")])


def merge(c, nm, cl):
    cmp_, pick = cl[0], cl[1]
    order = {c_: c.paths(c_) for c_ in cl}
    a, b = (cmp_, pick) if any("cmp(" in sret(p) for p in order[cmp_]) else (pick, cmp_)
    c.table(f"rw.{nm}#order", order[a], [("", "cmp($1.0, $2.0)")])
    for p in order[b]:
        v = next((p.var[t] for t in p.var if show(t) == "$1"), None)
        if not c.ob(f"rw.{nm}#case", p.kind == "ret" and v in ("Left", "Right", "Both"), "every entry is from the store, from the changes, or from both", c.loc(b), repr(p)[:300]):
            continue
        r = sret(p)
        if v == "Left":
            c.ob(f"rw.{nm}#left", r == "Some($1.Left.0)", "an unchanged stored entry must be shown as it is", c.loc(b), repr(p)[:300])
            continue
        e = "$1.Right.0" if v == "Right" else "$1.Both.1"
        if holds(p, f"{e}.1 is None"):
            c.ob(f"rw.{nm}#deleted", r == "None", "a deleted entry must be hidden", c.loc(b), repr(p)[:300])
        else:
            c.ob(f"rw.{nm}#changed", r == f"Some(({e}.0, {e}.1.Some.0))", "a changed entry must be shown with its new value", c.loc(b), repr(p)[:300])
    c.ob(f"rw.{nm}#cases", {p.var[t] for p in order[b] for t in p.var if show(t) == "$1"} == {"Left", "Right", "Both"}, "all three origins must be handled", c.loc(b))


def writing(c):
    m = "$0{{deltas:=$0.deltas{{0:=$0.deltas.0[$1.0:=mapset($0.deltas.0[$1.0], $2, {})]}}}}"
    for nm, v in (("put", "Some($3)"), ("del", "None")):
        ps = c.paths(RW + "WriteOps>::" + nm)
        c.table("rw." + nm, ps, [("", "Ok(()) ; " + m.format(v))], out=sboth(sret, sout(0)))
        for p in ps:
            c.ob(f"rw.{nm}#buffer", not evs(p, r"WriteOps::(put|del)$"), "a write must not reach the store before commit", c.loc(p.fid), repr(p)[:300])
    # nothing else in the adaptor writes to the store
    com = RW + "TxRw>::commit"
    for i, u in c.F.callers(r"WriteOps::(put|del)$", crates={"storage_core"}):
        c.ob(f"writes[{i}]", i.split("::{closure")[0] == com or "::adaptor::" not in i, "only commit may write to the store", c.loc(i), u)
    ps = c.paths(com)
    seen = set()
    for p in ps:
        if p.kind == "panic":
            c.ob("commit#panic", False, "commit must not panic", c.loc(com), repr(p)[:300])
            continue
        w = evs(p, r"WriteOps::(put|del)$")
        if not w:
            if p.kind == "ret":
                c.ob("commit#all", sret(p) != "Ok(())" or any(x[0] == "exh" and "$0.deltas.0" in show(x[1]) and "elem(" not in show(x[1]) for x in p.facts), "commit succeeds only after every map was written", c.loc(com), repr(p)[:400])
            else:
                c.ob("commit#map", any(x[0] == "exh" and "elem($0.deltas.0)" in show(x[1]) for x in p.facts), "a map may be left only when all its changes were written", c.loc(com), repr(p)[:400])
            continue
        good = len(w) == 1
        e = w[0]
        el = "elem(elem($0.deltas.0))"
        nm = e.name.rsplit("::", 1)[-1]
        a = [show(unphi(p, x)) for x in e.args]
        good = good and a[0].endswith(".db") and a[1] == "DbMapId(pos(iter($0.deltas.0)))" and a[2] == el + ".0"
        if nm == "put":
            good = good and a[3] == el + ".1.Some.0" and holds(p, el + ".1 is Some")
        else:
            good = good and holds(p, el + ".1 is None")
        seen.add(nm)
        c.ob("commit#each", good, "each recorded change must be applied to its own map under its key: a put with its value, or a deletion", c.loc(com), repr(p)[:600])
        ok = p.var.get(e.res) == "Ok"
        c.ob("commit#error", ok if p.kind == "back" else success(p) is False and not ok, "an error of the store must end the commit with that error", c.loc(com), repr(p)[:400])
    c.ob("commit#both", seen == {"put", "del"}, "commit must write both puts and deletions", c.loc(com))


def locks(c):
    for ty, fld, guard in (("TxRo", None, "RwLockReadGuard"), ("TxRw", "db", "RwLockWriteGuard")):
        a = c.F.adts.get(L + ty)
        fs = [x for v in a["v"] for x in v["f"]] if a else []
        c.ob(f"{ty}#guard", any(guard in str(c.F.ty(a["crate"], x[1])) for x in fs) if fs else False, f"{ty} must hold the {guard} for as long as it lives", a and a.get("file", ""), str(fs)[:200])
    B = f"<{L}TransactionLockImpl<T> as storage_core::backend::"
    for f, nm, res in ((B + "BackendImpl>::transaction_ro", "read", "Ok(TxRo({g}.Ok.0))"), (B + "BackendImpl>::transaction_rw", "write", None), (B + "SharedBackendImpl>::transaction_rw", "write", None)):
        n = 0
        for p in c.paths(f):
            g = f"RwLock::{nm}($0.db)"
            if p.kind == "panic":
                c.ob(f"{nm}#panic", holds(p, g + " is Err"), "starting a transaction may only panic on a poisoned lock", c.loc(f), repr(p)[:300])
            elif p.kind == "ret":
                n += 1
                r = sret(p)
                if res:
                    good = r == res.format(g=g)
                else:
                    good = re.fullmatch(r"Ok\(TxRw\{db: " + re.escape(g) + r"\.Ok\.0, deltas: DbMapsData\(collect\(.*range\(0, \$0\.num_maps(\.value)?\.0\).*\)\)\}\)", r)
                c.ob(f"tx#{nm}", good, f"a transaction must start with the {nm} lock of the store" + ("" if res else " and no recorded changes, one set per map"), c.loc(f), r)
            else:
                c.ob(f"tx#empty", sret(p) == "emptymap()", "a transaction must start without recorded changes", c.loc(f), repr(p)[:300])
        c.ob(f"tx#{f[-14:]}", n == 1, "transaction cannot be started", c.loc(f))


def inmemory(c):
    g = "mapget($0.0.0[$1.0], $2)"
    ps = lambda nm, tr="ReadOps": c.paths(M + tr + ">::" + nm, inline=INL)
    c.table("mem.get", ps("get"), [(f"{g} is None", "Ok(None)"), (f"{g} is Some", f"Ok(Some(from(Cow<[u8]>, {g}.Some.0))) || Ok(Some(Cow::Borrowed({g}.Some.0)))")])
    mp = "$0{{0:=$0.0{{0:=$0.0.0[$1.0:={}]}}}}"
    c.table("mem.put", ps("put", "WriteOps"), [("", "Ok(()) ; " + mp.format("mapset($0.0.0[$1.0], $2, $3)"))], out=sboth(sret, sout(0)))
    c.table("mem.del", ps("del", "WriteOps"), [("", "Ok(()) ; " + mp.format("mapdel($0.0.0[$1.0], $2)"))], out=sboth(sret, sout(0)))
    rng = r"BTreeMap::range\(\$0\.0\.0\[\$1\.0\], (RangeFrom\{start: \$2\}|SliceRange\{start: Bound::Included\(\$2\), end: Bound::Unbounded\})\)"
    for nm, rx in (("prefix_iter", r"Ok\(map\((iter\()?MapPrefixIter\{inner: " + rng + r", prefix: \$2\}\)?, closure<.*>\(\)\)\)"), ("greater_equal_iter", r"Ok\(map\((iter\()?" + rng + r"\)?, closure<.*>\(\)\)\)")):
        for p in ps(nm):
            if c.ob("mem." + nm, p.kind == "ret" and re.fullmatch(rx, sret(p)), "iteration starts at the given key of the given map", c.loc(p.fid), repr(p)[:500]):
                for cl in clos(p.ret):
                    c.table(f"mem.{nm}#entry", c.paths(cl), [("", "($1.0, $1.1) || $1")])


PARTS = [reading, writing, locks, inmemory]
