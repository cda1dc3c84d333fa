"""Typed key-value maps over one store: each operation goes to the map it names, under the encoded key, and is decoded as what
was stored; maps get the index of their place in the schema."""
from ..rule import *
from ..vf import Machine
from ..terms import *
CRATES = ["storage", "mlwitness", "wallet-types"]
D = "storage::database::"
OPS_ = r"ReadOps|WriteOps|Backend|TxRw|DbMapId|DbMapDesc|endian"
MAP, K, V = "$0.map_id", "Encode::encode($1)", "Encode::encode($2)"


def ident(c, rx):
    r = [i for i in c.F.ids() if re.fullmatch(rx, i)]
    if not r:
        raise MissingAnchor(rx)
    return r


def element(c, t, pair):
    """what the iterator term yields for one stored entry; None when entries may be dropped or changed otherwise"""
    if t.tag == "iter":
        return pair, t.args[0]
    if t.tag == "call" and not t.tag == "map":
        return pair, t
    if t.tag != "map":
        return None
    r = element(c, t.args[0], pair)
    if r is None:
        return None
    x, src = r
    m = Machine(c.F, inline=lambda i: True, stop=OPS_)
    ps = m.run_closure(t.args[1], [x])
    c.fns |= m.visited
    ps = [p for p in ps if not (p.kind == "panic" and "expect" in str(p.msg))]
    if len(ps) != 1 or ps[0].kind != "ret":
        return None
    return ps[0].ret, src


DEC = r"(?:Encoded::decode\()?(?:DecodeAll::decode_all\()?KEY\)?\)?(?:\.Ok\.0)?"


def maps(c):
    # single-entry operations
    for ty in ("MapRef", "MapMut"):
        f, = ident(c, rf"{D}{ty}::<.*>::get")
        g = f"ReadOps::get($0.dbtx, {MAP}, {K})"
        for p in c.paths(f):
            r = sret(p)
            v = {show(t): x for t, x in p.var.items()}
            if v.get(g) == "Err":
                c.ob(f"{ty}.get#err", r == f"Err({g}.Err.0)", "an error of the store must be reported", c.loc(f), r)
            elif v.get(g) == "Ok" and v.get(g + ".Ok.0") == "None":
                c.ob(f"{ty}.get#none", r == "Ok(None)", "an absent key must read as absent", c.loc(f), r)
            else:
                c.ob(f"{ty}.get#some", v.get(g) == "Ok" and v.get(g + ".Ok.0") == "Some" and r == f"Ok(Some(Encoded::from_bytes_unchecked({g}.Ok.0.Some.0)))", "a read must return the value stored in this map under this key", c.loc(f), repr(p)[:400])
    f, = ident(c, rf"{D}MapMut::<.*>::put")
    c.every("put", c.paths(f), lambda p: sret(p) == f"WriteOps::put($0.dbtx, {MAP}, {K}, {V})", "a write must store the encoded value in this map under the encoded key")
    f, = ident(c, rf"{D}MapMut::<.*>::del")
    c.every("del", c.paths(f), lambda p: sret(p) == f"WriteOps::del($0.dbtx, {MAP}, {K})", "a removal must remove the encoded key from this map")
    # iteration
    kx, vx = mk("sym", "k"), mk("sym", "v")
    for ty in ("MapRef", "MapMut"):
        for f in ident(c, rf"{D}{ty}::<.*>::(prefix_iter|greater_equal_iter)\w*"):
            name = f.rsplit("::", 1)[-1]
            op = "prefix_iter" if name.startswith("prefix") else "greater_equal_iter"
            src = f"ReadOps::{op}($0.dbtx, {MAP}, {K})"
            n = 0
            for p in c.paths(f):
                r = sret(p)
                if p.kind == "ret" and p.ret.tag == "adt" and p.ret.args[1] == "Err":
                    c.ob(f"{ty}.{name}#err", r == f"Err({src}.Err.0)", "an error of the store must be reported", c.loc(f), r)
                    continue
                n += 1
                e = element(c, p.ret.args[3][0], mk("tup", (kx, vx))) if p.kind == "ret" and p.ret.tag == "adt" else None
                key, val = r"Encoded::from_bytes_unchecked\(sym\(k\)\)", r"(?:Encoded::from_bytes_unchecked\(sym\(v\)\)|Encoded\{bytes: sym\(v\),[^{}]*\})"
                dk = rf"(?:\w+::decode_all\(sym\(k\)\)\.Ok\.0|Encoded::decode\({key}\)|\w+::decode_all\({key}[^()]*\)\.Ok\.0)"
                dv = dk.replace(r"sym\(k\)", r"sym\(v\)")
                want = dk if name.endswith("_keys") else rf"\({dk}, {dv}\)" if name.endswith("_decoded") else rf"\({dk}, {val}\)"
                got = show(e[0]) if e else "?"
                c.ob(f"{ty}.{name}", e and show(e[1]) == f"{src}.Ok.0" and re.fullmatch(want, got), "iteration must yield each entry of this map from this key or prefix on, its own key with its own value", c.loc(f), got + " <- " + r[:300])
            c.ob(f"{ty}.{name}#n", n, "iteration never succeeds", c.loc(f))


def access(c):
    for f in ident(c, rf"<{D}Transaction(Ro|Rw)<.*> as {D}MakeMapRef<.*>>::get") + ident(c, rf"{D}TransactionRw::<.*>::get_mut"):
        c.every("access", c.paths(f), lambda p: re.match(r"Map(Ref|Mut)\{dbtx: \$0\.dbtx, map_id: const\(storage::schema::HasDbMap::INDEX, Sch\),", sret(p)), "a map must be accessed at its own index of the schema, in this transaction")
    f, = ident(c, rf"{D}TransactionRw::<.*>::commit")
    c.every("commit", c.paths(f), lambda p: sret(p) == "TxRw::commit($0.dbtx)", "committing must commit the backend's transaction and report its result")
    for ty in ("Ro", "Rw"):
        for f in ident(c, rf"{D}Storage::<B, Sch>::transaction_{ty.lower()}|<{D}Storage<B, Sch> as .*>::transaction_{ty.lower()}"):
            for p in c.paths(f):
                r = sret(p)
                t = rf"(Shared)?BackendImpl::transaction_{ty.lower()}\(\$0\.backend(, \$1)?\)"
                c.ob("transaction", re.fullmatch(rf"Err\({t}\.Err\.0\)|Ok\(Transaction{ty}\{{dbtx: {t}\.Ok\.0, _schema: .*\}}\)", r), "a transaction must be the backend's, its failure reported", c.loc(f), r)
    f, = ident(c, rf"{D}Storage::<B, Sch>::new")
    o = "Backend::open($0, construct::db_desc(Schema::desc_iter()))"
    c.every("open", c.paths(f), lambda p: sret(p) == f"Err({o}.Err.0)" or sret(p).startswith(f"Ok(Storage{{backend: {o}.Ok.0,"), "the store must be opened with the maps of its schema", 2)
    # loading a dump writes every entry where it came from, and commits
    f, = ident(c, rf"{D}Storage::<B, Sch>::new_from_dump")
    n = 0
    for p in c.paths(f):
        puts = [e for e in p.events if e.name.endswith("WriteOps::put")]
        for e in puts:
            n += 1
            a = [show(x) for x in e.args]
            c.ob("load#put", a[1:] == ["elem($1).0.idx", "elem(elem($1).1).0", "elem(elem($1).1).1"], "each dumped entry must be written to its own map", c.loc(f), str(a[1:]))
        if success(p):
            c.ob("load#commit", any(e.name.endswith("TxRw::commit") for e in p.events) and any(v == "Ok" and "TxRw::commit" in show(t) for t, v in p.var.items()), "a loaded store must have been committed", c.loc(f), repr(p)[:400])
        if p.kind == "back" and puts:
            c.ob("load#err", any(v == "Ok" and "WriteOps::put" in show(t) for t, v in p.var.items()), "a failed write must not be passed over", c.loc(f), repr(p)[:300])
    c.ob("load#n", n, "nothing is written", c.loc(f))


def schema(c):
    """the index of a map is its position in the schema, which is also the order of creation"""
    f, = ident(c, r"<\(M, Rest\) as storage::schema::Schema>::desc_iter")
    c.every("desc", c.paths(f), lambda p: re.fullmatch(r"chain\(iter\(\[DbMapDesc::new_with_details\(const\(storage::schema::DbMap::NAME, M\), const\(storage::schema::DbMap::SIZE_HINT, M\)\)\]\), (iter\()?Schema::desc_iter\(\)\)*", sret(p)), "maps must be created in the order of the schema")
    base = ident(c, r"<\((\w+), \w+\) as storage::schema::HasDbMap<\1, \(\)>>::INDEX")
    c.every("index0", c.paths(base[0]), lambda p: sret(p) == "DbMapId::new(0)", "the first map has index 0")
    vals = {}
    for i, m in enumerate("ABC"):
        r = c.F.consts.get(f"mlwitness::schema::{m}_INDEX")
        vals[m] = r["v"] if r else None
    flat_ = {m: re.findall(r"\d+", str(v)) for m, v in vals.items()}
    c.ob("index", [flat_[m][-1:] for m in "ABC"] == [["0"], ["1"], ["2"]], "the index of a map must be its position in the schema (instance: three maps)", "storage/src/schema.rs", str(vals))
    R = D + "raw::"
    f, = ident(c, R + r"DbMapId::<Sch>::from_usize")
    n = r"count\((iter\()?Schema::desc_iter\(\)\)*"
    for p in c.paths(f):
        lt = [v for t, v in p.truth.items() if re.fullmatch(rf"lt\(\$0, {n}\)", show(t))]
        c.ob("from_usize", lt and (re.match(r"Some\(DbMapId\{idx: DbMapId::new\(\$0\)", sret(p)) if lt[0] else sret(p) == "None"), "only indices of the schema name a map", c.loc(f), repr(p)[:300])
    f, = ident(c, R + r"DbMapId::<Sch>::from_name")
    for p in c.paths(f):
        r = sret(p)
        if p.kind == "ret" and r != "None":
            c.ob("from_name", re.match(r"Some\(DbMapId\{idx: DbMapId::new\(pos\((iter\()?Schema::desc_iter\(\)\)*,", r) and any(v and re.fullmatch(r"eq\(.*DbMapDesc::name\(elem\(Schema::desc_iter\(\)\)\).*\)", show(t)) for t, v in p.truth.items()), "a name must give the map of that name", c.loc(f), repr(p)[:300])
    f, = ident(c, R + r"DbMapId::<Sch>::new")
    c.every("raw.new", c.paths(f), lambda p: "idx: const(storage::schema::HasDbMap::INDEX, Sch)" in sret(p), "a map type must give its own index")
    f, = ident(c, R + r"DbMapId::<Sch>::info")
    c.every("raw.info", [p for p in c.paths(f) if p.kind == "ret"], lambda p: re.match(r"Iterator::nth\(Schema::desc_iter\(\), (DbMapId::as_usize\(\$0\.idx\)|\$0\.idx\.0)\)", sret(p)), "an index must give the map at that place")


def prefixes(c):
    """a prefix type's encoding is the beginning of the key's encoding"""
    n = 0
    for im in c.F.parsed_impls():
        if im.get("tr") != D + "HasPrefix":
            continue
        n += 1
        ty = lambda i: c.F.ty(im["crate"], i)
        key, pre = ty(im["tra"][0]), ty(im["tra"][1])
        good = False
        why = f"{key} has prefix {pre}"
        if pre and pre[0] == "tuple" and not pre[1]:
            good = True
        elif pre and pre[0] == "tuple" and key[0] == "tuple":
            good = len(pre[1]) < len(key[1]) and key[1][:len(pre[1])] == pre[1]
        elif pre and key[0] == "adt":
            a = c.F.adts.get(key[1])
            enc = [i for i in c.F.ids() if re.search(rf"impl parity_scale_codec::Encode for {re.escape(key[1])}.*::encode_to|<{re.escape(key[1])}.* as parity_scale_codec::Encode>::encode_to", i)]
            fs = a["v"][0]["f"] if a else []
            for e in enc:
                for p in c.paths(e):
                    ev = [x for x in p.events if "encode_to" in x.name]
                    good = bool(ev) and bool(fs) and re.fullmatch(rf"\$0\.{fs[0][0]}(\.0)*", show(ev[0].args[0])) and c.F.ty(a["crate"], fs[0][1]) == pre
                    why = str([show(x.args[0]) for x in ev])
        c.ob("prefix", good, "a declared prefix must be the beginning of the encoded key", D + "HasPrefix", why)
    c.ob("prefix#n", n, "no prefixes are declared", D + "HasPrefix")


def order_preserving(c):
    P = "storage::order_preserving_value::"
    for w in (16, 32, 64):
        f, = ident(c, rf"<{P}OrderPreservingValue<u{w}> as parity_scale_codec::Encode>::using_encoded")
        c.every(f"opv.encode{w}", c.paths(f), lambda p: re.fullmatch(rf"apply\(\$1, (endian::u{w}_to_array_be\(\$0\.0\)|num\(to_be_bytes, u{w}, \$0\.0\))\)", sret(p)), "an ordered value must be encoded most significant byte first")
        f, = ident(c, rf"<{P}OrderPreservingValue<u{w}> as parity_scale_codec::Decode>::decode")
        for p in c.paths(f):
            r = sret(p)
            z = r"Input::read\(\$0, \[" + ", ".join(["0"] * (w // 8)) + r"\]\)"
            good = re.fullmatch(rf"Err\({z}\.Err\.0\)|Ok\(OrderPreservingValue\((endian::slice_to_u{w}_be\(|num\(from_be_bytes, u{w}, )out1\[{z}\]\)\)\)", r)
            if not good:
                d = rf"Decode::decode\(\$0\)"
                good = re.fullmatch(rf"Err\({d}\.Err\.0\)|Ok\(OrderPreservingValue\((endian::slice_to_u{w}_be\(|num\(from_be_bytes, u{w}, ){d}\.Ok\.0\)\)\)", r)
            c.ob(f"opv.decode{w}", good, "an ordered value must be decoded from the bytes it was encoded to", c.loc(f), r)
    f, = ident(c, rf"<{P}OrderPreservingValue<T> as core::cmp::Ord>::cmp")
    c.every("opv.cmp", c.paths(f), lambda p: sret(p) in ("cmp($0.0, $1.0)", "Ord::cmp($0.0, $1.0)"), "ordered values compare as what they wrap")
    for f, w in (("new", "OrderPreservingValue($0)"), ("inner", "$0.0")):
        g, = ident(c, rf"{P}OrderPreservingValue::<T>::{f}")
        c.every("opv." + f, c.paths(g), lambda p: sret(p) == w, "the wrapped value must be kept")


def core(c):
    """the per-map data of the backends is indexed by the map's own id"""
    T_ = "storage_core::types::"
    tab = [(T_ + "DbMapId::new", "DbMapId($0)"), (T_ + "DbMapId::as_usize", "$0.0"), (T_ + "DbMapCount::as_usize", "$0.0"), (T_ + r"DbMapsData::<T>::db_map_count", "DbMapCount(len($0.0))"),
           (rf"<{T_}DbMapsData<T> as core::ops::index::Index<.*>>::index", "$0.0[$1.0]"), (rf"<{T_}DbMapsData<T> as core::ops::index::IndexMut<.*>>::index_mut", "$0.0[$1.0]"),
           (T_ + "DbMapDesc::name", "$0.name"), (T_ + "DbDesc::db_maps", "$0.map_descs"), (T_ + "DbDesc::db_map_count", "DbMapCount(len($0.map_descs.0))")]
    for rx, want in tab:
        f, = ident(c, rx)
        c.every("core:" + want, c.paths(f), lambda p: sret(p) == want, "map ids and per-map data must correspond")
    f, = ident(c, T_ + "DbMapDesc::new_with_details")
    c.every("core:name", c.paths(f), lambda p: re.fullmatch(r"DbMapDesc\{name: (from\(String, |T::into\()?\$0\)?, value_size_hint: \$1\}", sret(p)), "the name given must be the map's")
    f, = ident(c, T_ + "DbMapCount::indices")
    c.every("core:indices", c.paths(f), lambda p: re.fullmatch(r"map\(range\(0, \$0\.0\), (fn DbMapId::new|fn DbMapId|closure.*)\)", sret(p)), "every map has an index")
    f, = ident(c, T_ + r"DbMapsData::<T>::new")
    c.every("core:new", [p for p in c.paths(f) if p.kind == "ret"], lambda p: re.fullmatch(r"DbMapsData\(collect\(map\((map\(range\(0, \$0\.0\), (fn DbMapId::new|fn DbMapId|closure.*)\)), \$1\)\)\)", sret(p)), "data must be made for each map in order")
    f, = ident(c, T_ + r"DbMapsData::<T>::transform")
    c.every("core:transform", [p for p in c.paths(f) if p.kind == "ret"], lambda p: re.fullmatch(r"DbMapsData\(collect\(map\((iter\()?\$0\.0\)?, \$1\)\)\)", sret(p)), "transforming keeps each map's place")
    f, = ident(c, T_ + r"DbMapsData::<T>::try_transform")
    ps = [p for p in c.paths(f) if p.kind == "ret"]
    for p in ps:
        r = sret(p)
        q = r"(try_collect|collect)\(map\((iter\()?\$0\.0\)?, \$1\)\)"
        c.ob("core:try_transform", re.fullmatch(rf"Ok\(DbMapsData\({q}(\.Ok\.0)?\)\)|Err\(.*\)", r), "transforming keeps each map's place", c.loc(f), r)
    f, = ident(c, T_ + "construct::db_desc")
    for p in c.paths(f):
        if p.kind == "ret":
            uniq = [t for t, v in p.truth.items() if v and t.tag == "eq" and "len(" in show(t) or not v and t.tag == "lt" and "len(" in show(t)]
            c.ob("core:unique", uniq, "two maps of the same name must not be accepted", c.loc(f), repr(p)[:400])
            c.ob("core:desc", re.fullmatch(r"DbDesc\{map_descs: DbMapsData\(collect\((iter\()?\$0\)*\}", sret(p)), "every map described must be created, in order", c.loc(f), sret(p))


PARTS = [maps, access, schema, prefixes, order_preserving, core]
