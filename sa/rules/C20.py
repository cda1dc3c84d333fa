"""Tagged encodings: the tag byte selects the variant and is part of its encoding; looking at the tag consumes nothing;
an optional list has one form."""
from ..rule import *
CRATES = ["mlwitness", "serialization-tagged", "serialization-tagged-derive", "serialization", "common"]
T = "serialization_tagged::"
PK = T + "derive_support::Peekable::"
IN = "<" + T + "derive_support::Peekable<'_, I> as parity_scale_codec::Input>::"


def inv(p, *names):
    """the calls of a path on the wrapped input"""
    return [e.name.rsplit("::", 1)[-1] for e in p.events if e.name.rsplit("::", 1)[-1] in ("read", "read_byte", "remaining_len", "skip", "decode", "ascend_ref", "descend_ref") and e.args and "$0.inner" in show(e.args[0])]


def peekable(c):
    I = "$0.inner"
    S, N, B = "$0.init is Some", "$0.init is None", f"Input::read_byte({I})"
    at0 = lambda x: lambda p: peeked(p) == x
    c.table("new", c.paths(PK + "<'a, I>::new"), [("", "Peekable{init: None, inner: $0}")])
    ps = c.paths(PK + "<'a, I>::peek")
    c.table("peek", ps, [(S, "Ok($0.init.Some.0)"), (f"{N} & {B} is Err", "Err(_)"), (f"{N} & {B} is Ok", f"Ok({B}.Ok.0)")])
    c.table("peek-state", ps, [(S, lambda p: peeked(p) == "same" and not inv(p)), (f"{N} & {B} is Err", lambda p: peeked(p) in ("same", "None")),
                               (f"{N} & {B} is Ok", lambda p: peeked(p) == f"Some({B}.Ok.0)" and inv(p) == ["read_byte"])], out=sout(0))
    ps = c.paths(IN + "read_byte")
    c.table("read_byte", ps, [(S, "Ok($0.init.Some.0)"), (N, B)])
    c.table("read_byte-state", ps, [(S, lambda p: peeked(p) == "None" and not inv(p)), (N, lambda p: peeked(p) in ("same", "None") and inv(p) == ["read_byte"])], out=sout(0))
    ps = [p for p in c.paths(IN + "read") if p.kind == "ret"]
    c.ob("read#paths", ps, "reading must be possible", c.loc(IN + "read"))
    for p in ps:
        r, o, k = sret(p), sout(1)(p), peeked(p)
        if holds(p, N):
            c.ob("read#plain", r == f"Input::read({I}, $1)" and o == f"out1[Input::read({I}, $1)]" and k in ("same", "None"), "without a peeked byte a read goes to the input unchanged", c.loc(p.fid), repr(p)[:600])
        elif holds(p, S) and holds(p, "eq(0, len($1))"):
            c.ob("read#nothing", r == "Ok(())" and o == "$1" and k in ("same", "Some($0.init.Some.0)") and not inv(p), "reading zero bytes must change nothing", c.loc(p.fid), repr(p)[:600])
        elif holds(p, S) and refuted(p, "eq(0, len($1))"):
            m = re.fullmatch(r"Input::read\(\$0\.inner, (subslice\((?:\$1|\$1\[0:=\$0\.init\.Some\.0\]), 1, 0, True\)|\$1\[0:=\$0\.init\.Some\.0\]\[RangeFrom\{start: 1\}\]|slice\((?:\$1|\$1\[0:=\$0\.init\.Some\.0\]), RangeFrom\{start: 1\}\))\)", r)
            c.ob("read#rest", m and k == "None" and o.startswith("$1[0:=$0.init.Some.0]") and f"out1[{r}]" in o and inv(p) == ["read"], "a read must give the peeked byte first, then as many further bytes as are missing", c.loc(p.fid), repr(p)[:900])
        else:
            c.ob("read#case", False, "reading must depend on whether a byte was peeked and whether anything is asked for", c.loc(p.fid), repr(p)[:600])
    L = f"Input::remaining_len({I})"
    one = lambda p: (sret(p) in (f"Ok(Some(add(1, {L}.Ok.0.Some.0)))", f"Ok(Some(add(len(iter($0.init)), {L}.Ok.0.Some.0)))", f"Ok(Some(add({L}.Ok.0.Some.0, 1)))")) if p.kind == "ret" else (p.msg or '').startswith("overflow")
    zero = lambda p: sret(p) in (f"Ok(Some({L}.Ok.0.Some.0))", f"Ok(Some(add(len(iter($0.init)), {L}.Ok.0.Some.0)))", f"Ok({L}.Ok.0)", L, f"Ok(Some(add(0, {L}.Ok.0.Some.0)))") if p.kind == "ret" else (p.msg or '').startswith("overflow")
    c.table("remaining_len", c.paths(IN + "remaining_len"), [(f"{L} is Err", f"Err(_) || {L}"), (f"{L} is Ok & {L}.Ok.0 is None", f"{L} || Ok(None) || Ok({L}.Ok.0)"), (f"{L} is Ok & {L}.Ok.0 is Some & {S}", one), (f"{L} is Ok & {L}.Ok.0 is Some & {N}", zero)])
    D = f"<{T}derive_support::Peekable<I> as core::ops::drop::Drop>::drop"
    D = next((i for i in c.F.ids("serialization_tagged") if re.fullmatch(r"<.*Peekable<.*> as core::ops::drop::Drop>::drop", i)), D)
    c.table("left", c.paths(D), [(S, lambda p: p.kind == "panic"), (N, lambda p: p.kind == "ret")])
    for f in ("ascend_ref", "descend_ref"):
        c.table(f, c.paths(IN + f), [("", lambda p: inv(p) == [f] and (f[0] == "a" or sret(p) == f"Input::{f}({I})"))])


def peeked(p):
    """what is remembered of the peeked byte at the end"""
    o = sout(0)(p)
    if "init:=" not in o:
        return "same"
    return fields(p, p.out(mk("arg", 0)), "init")[0]


def tag(c):
    b = "<" + T + "Tag<N> as parity_scale_codec::"
    N = "const(%s)" % c.F.fn(b + "Decode>::decode")["gen"][0]
    ends = {sret(p)[:3] for p in c.paths(b + "Decode>::decode") if p.kind == "ret"}
    c.ob("tag-decode#both", ends == {"Ok(", "Err"}, "a tag must be read, and another byte refused", c.loc(b + "Decode>::decode"), str(ends))
    for p in c.paths(b + "Decode>::decode"):
        if p.kind != "ret":
            c.ob("tag-decode#panic", False, "decoding a tag must not panic", c.loc(p.fid), repr(p)[:300])
            continue
        r = sret(p)
        x = "u8::decode($0)" if holds(p, "u8::decode($0) is Ok") or holds(p, "u8::decode($0) is Err") else "Input::read_byte($0)"
        same = holds(p, f"{x} is Ok") and holds(p, f"eq({N}, {x}.Ok.0)")
        c.ob("tag-decode", r.startswith("Ok(") == bool(same) and (r.startswith("Ok(") or r.startswith("Err(")) and len([e for e in p.events if e.name.endswith(("decode", "read_byte"))]) == 1,
             "a tag is decoded exactly from its own byte", c.loc(p.fid), repr(p)[:500])
    c.table("tag-encode", c.paths(b + "Encode>::using_encoded"), [("", f"apply($1, [{N}])")])
    for f in ("size_hint", "encoded_size"):
        c.table("tag-" + f, c.paths(b + "Encode>::" + f), [("", "1")])
    c.table("tag-fixed", c.paths(b + "Decode>::encoded_fixed_size"), [("", "Some(1)")])
    c.table("tag-skip", c.paths(b + "Decode>::skip"), [("Input::read_byte($0) is Ok", "Ok(())"), ("Input::read_byte($0) is Err", "Err(_)")])
    c.table("tag-tag", c.paths("<" + T + "Tag<N> as " + T + "Tagged>::TAG"), [("", N)])
    n = 0
    for i in c.F.ids("serialization_tagged"):
        m = re.fullmatch(r"<(.*) as serialization_tagged::Tagged>::TAG", i)
        if not m or m[1] == T + "Tag<N>":
            continue
        n += 1
        first = re.fullmatch(r"(?:&mut |&|alloc::boxed::Box<|\()(\w+).*", m[1])[1]
        c.table("tag:" + m[1], c.paths(i), [("", f"const(serialization_tagged::Tagged::TAG, {first})")])
    c.count("forwarded tags", n, 11)
    c.table("tag_of", c.paths(T + "tag_of"), [("", "const(serialization_tagged::Tagged::TAG, T)")])


def enums(c, ty, variants):
    """variants: [(tag, variant, field names)]"""
    short = ty.rsplit("::", 1)[-1].split("<")[0]
    mod = ty.rsplit("::", 1)[0]
    b = f"{mod}::_::<impl parity_scale_codec::{{}} for {ty}>::"
    pk = "Peekable::peek(Peekable::new($0))"
    tup = lambda fs: "(A,)" if len(fs) == 1 else "(" + ", ".join("ABCDEF"[:len(fs)]) + ")"
    con = lambda v, fs, vals: f"{short}::{v}(" + ", ".join(vals) + ")" if fs[0].isdigit() else f"{short}::{v}{{" + ", ".join(f"{f}: {x}" for f, x in zip(fs, vals)) + "}"
    rows = [(f"{pk} is Err", "Err(_)")]
    other = f"{pk} is Ok"
    for t, v, fs in variants:
        d = f"{tup(fs)}::decode(out0[{pk}])"
        is_ = f"{pk} is Ok & eq({t}, {pk}.Ok.0)"
        rows += [(f"{is_} & {d} is Err", "Err(_)"), (f"{is_} & {d} is Ok", f"Ok({con(v, fs, [f'{d}.Ok.0.{i}' for i in range(len(fs))])})")]
        other += f" & !eq({t}, {pk}.Ok.0)"
    ps = c.paths(b.format("Decode") + "decode")
    # a tag decides the variant: paths that know the tag equal to one value know it different from the others
    c.table(short + "#decode", [p for p in ps if not clash(p, pk, variants)], rows + [(other, "Err(_)")])
    for p in ps:
        if p.kind == "ret" and holds(p, f"{pk} is Ok"):
            c.ob(short + "#consumed", any(e.args and show(e.args[0]) == f"out0[{pk}]" and e.name.rsplit("::", 1)[-1] in ("decode", "read_byte", "read") for e in p.events),
                 "a tag that was looked at must be read in the end, also when it is unknown (or dropping the input panics)", c.loc(p.fid), repr(p)[:600])
    enc = c.paths(b.format("Encode") + "encode_to")
    c.table(short + "#encode", enc, [(f"$0 is {v}", f"{tup(fs)}::encode_to((" + ", ".join(f"$0.{v}.{f}" for f in fs) + "), $1)") for t, v, fs in variants])


def clash(p, pk, variants):
    return sum(holds(p, f"eq({t}, {pk}.Ok.0)") for t, v, fs in variants) > 1


def derived(c):
    W = "mlwitness::tagged::"
    for ty, t in (("Plain", 25), ("Nested", 25), ("ByDiscriminant", 55), ("ByIndex", 42)):
        c.table("derive:" + ty, c.paths(f"{W}_::<impl {T}Tagged for {W}{ty}>::TAG"), [("", str(t))])
    enums(c, W + "Many", [(55, "A", ["0"]), (42, "B", ["0", "1"]), (7, "C", ["tag", "bytes"]), (25, "D", ["0"])])
    enums(c, W + "Two<T>", [(1, "X", ["0", "1"]), (2, "Y", ["0", "1", "2"])])
    enums(c, "common::chain::transaction::Transaction", [(1, "V1", ["0"])])
    enums(c, "common::chain::block::Block", [(1, "V1", ["0"])])
    ex = {}
    for r in c.F.parsed_impls():
        if r["id"].find("MutuallyExclusive") >= 0 and r["crate"] == "mlwitness":
            ex.setdefault(r["line"], set()).add((r["id"].split("Tag<")[1].split(">")[0], r["self"]))
    kinds = {}
    for l, xs in ex.items():
        for k, s in xs:
            kinds.setdefault(k, set()).add(s)
    c.ob("disjoint", sorted(map(len, kinds.values())) == [4, 4], "distinct tags of the variants of an enum must be enforced when it is compiled, for encoding and for decoding", "serialization/tagged/derive/src/direct.rs", str(kinds))


def lists(c):
    D = "serialization::extras::non_empty_vec::DataOrNoVec"
    b = f"<{D}<U> as parity_scale_codec::"
    c.table("encode", c.paths(b + "Encode>::encode_to"), [("$0.0 is Some", "X::encode_to($0.0.Some.0, $1) || Vec::encode_to($0.0.Some.0, $1)"), ("$0.0 is None", "X::encode_to(Vec::new(), $1) || Vec::encode_to(Vec::new(), $1)")])
    c.table("size", c.paths(b + "Encode>::encoded_size"), [("$0.0 is Some", "Encode::encoded_size($0.0.Some.0)"), ("$0.0 is None", "Encode::encoded_size(Vec::new()) || 1")])
    v = "Vec::decode($0)"
    c.table("decode", c.paths(b + "Decode>::decode"), [(f"{v} is Err", "Err(_)"), (f"{v} is Ok & eq(0, len({v}.Ok.0))", f"Ok(DataOrNoVec(None))"), (f"{v} is Ok & !eq(0, len({v}.Ok.0))", f"Ok(DataOrNoVec(Some({v}.Ok.0)))")])
    rows = lambda x, w: [(f"{x} is None", w.format("DataOrNoVec(None)")), (f"{x} is Some & eq(0, len({x}.Some.0))", w.format("DataOrNoVec(None)")),
                                (f"{x} is Some & !eq(0, len({x}.Some.0))", w.format(f"DataOrNoVec({x})") + " || " + w.format(f"DataOrNoVec(Some({x}.Some.0))"))]
    c.table("from", c.paths(f"<{D}<T> as core::convert::From<core::option::Option<alloc::vec::Vec<T>>>>::from"), rows("$0", "{}"))
    s = "impls::deserialize($0)"
    f = "serialization::extras::non_empty_vec::_::<impl serde_core::de::Deserialize<'de> for " + D + "<T>>::deserialize"
    c.table("deserialize", c.paths(f), [(f"{s} is Err", "Err(_)")] + [(f"{s} is Ok & {a}", o) for a, o in rows(s + ".Ok.0", "Ok({})")])
    def some(p, t):
        x = show(t.args[3][0])
        v = x[5:-1] if x.startswith("Some(") else x + ".Some.0"
        return x == "None" or holds(p, f"{x} is None") or holds(p, f"!eq(0, len({v}))")
    invariant(c, "nonempty", D, some, "a list may be present only if it is not empty", skip=r"Clone>::clone$")


PARTS = [peekable, tag, derived, lists]
