"""RPC text values and results: what is read from and written to JSON for hexadecimal and binary strings, and how results of calls
become replies."""
from ..rule import *
CRATES = ["rpc-types", "rpc"]
S = "rpc_types::string::"
HX, RS = S + "RpcHexString", S + "RpcString"


def de(t):
    return f"{S}_::<impl serde_core::de::Deserialize<'de> for {t}>::deserialize"


def ser(t):
    return f"{S}_::<impl serde_core::ser::Serialize for {t}>::serialize"


def hexes(c):
    for f, x in ((f"<{HX} as core::str::traits::FromStr>::from_str", "$0"),):
        d = f"hex::decode({x})"
        c.table("hex.from_str", c.paths(f), [(f"{d} is Err", "Err(_)"), (f"{d} is Ok", f"Ok(RpcHexString({d}.Ok.0))")])
    for f in ("Display", "LowerHex"):
        c.every("hex." + f, c.paths(f"<{HX} as core::fmt::{f}>::fmt"), lambda p: re.fullmatch(r"\w+::(fmt|write_str|pad)\((hex::encode\(\$0\.0\), \$1|\$1, hex::encode\(\$0\.0\))\)", sret(p)), "a hexadecimal string must be shown as all of its bytes")
    # the JSON form is the hexadecimal text, both ways
    c.every("hex.ser", c.paths(ser(HX)), lambda p: re.fullmatch(r"Serializer::serialize_(newtype_struct\(\$1, '\w+', |str\(\$1, )hex::encode\(\$0\.0\)\)", sret(p)), "a hexadecimal string must be written as the hexadecimal text of all of its bytes")
    n = 0
    for p in c.paths(de(HX)):
        dec = [t for t in p.var if t.tag == "call" and show(t).startswith("hex::decode(")]
        if p.kind == "ret" and p.ret.tag == "adt" and p.ret.args[1] == "Ok":
            n += 1
            c.ob("hex.de", len(dec) == 1 and p.var[dec[0]] == "Ok" and sret(p) == f"Ok(RpcHexString({show(dec[0])}.Ok.0))" and re.fullmatch(r"hex::decode\((Deserializer::deserialize_\w+|impls::deserialize)\(\$0[^()]*\)\.Ok\.0(\.0)?\)", show(dec[0])), "a hexadecimal string must hold exactly the bytes of the text", c.loc(de(HX)), sret(p))
        elif dec:
            c.ob("hex.de#err", p.var[dec[0]] == "Err" and sret(p).startswith("Err("), "a text that is not hexadecimal must be refused", c.loc(de(HX)), repr(p)[:300])
    c.ob("hex.de#n", n, "no hexadecimal string is accepted", c.loc(de(HX)))


def plain(c):
    """conversions keep the bytes"""
    def each(f, want):
        c.every(f.rsplit("::", 2)[-2] + "::" + f.rsplit("::", 1)[-1], c.paths(f), lambda p: sret(p) == want, "the bytes must be kept")
    for t, n in ((HX, "RpcHexString"), (RS, "RpcString")):
        each(t + "::from_bytes", f"{n}($0)")
        each(t + "::into_bytes", "$0.0")
        each(t + "::as_bytes", "$0.0")
        each(f"<{t} as core::convert::AsRef<[u8]>>::as_ref", "$0.0")
        each(f"<{t} as core::convert::From<alloc::vec::Vec<u8>>>::from", f"{n}($0)")
    for f in c.F.ids():
        if re.fullmatch(r"<alloc::vec::Vec<u8> as core::convert::From<rpc_types::string::RpcHexString>>::from", f):
            each(f, "$0.0")
    each(RS + "::from_string", "RpcString($0)")
    each(f"<{RS} as core::convert::From<alloc::string::String>>::from", "RpcString($0)")
    each(f"<{RS} as core::convert::From<{HX}>>::from", "RpcString($0.0)")
    for p in c.paths(RS + "::try_into_string"):
        r, d = sret(p), "String::from_utf8($0.0)"
        good = r == f"Ok({d}.Ok.0)" if p.var.get(parse_of(p, d)) == "Ok" else r.startswith("Err((RpcString(") and d + ".Err.0" in r
        c.ob("try_into_string", good, "a text must be given exactly if the bytes are UTF-8, and the bytes must not be lost otherwise", c.loc(RS + "::try_into_string"), repr(p)[:300])
    c.every("try_as_str", c.paths(RS + "::try_as_str"), lambda p: re.fullmatch(r"(\w+::)?from_utf8\(\$0\.0\)", sret(p)) or re.fullmatch(r"(Ok|Err)\((\w+::)?from_utf8\(\$0\.0\)\.\1\.0\)", sret(p)), "a text must be given exactly if the bytes are UTF-8")


def parse_of(p, text):
    for t in p.var:
        if show(t) == text:
            return t
    return None


def texts(c):
    """the reader of the two forms"""
    f = f"<{RS} as core::convert::TryFrom<{S}RpcStringDe>>::try_from"
    t, h = "$0.Obj.text", "$0.Obj.hex"
    same = [f"eq({t}.Some.0, {h}.Some.0.0)", f"eq({h}.Some.0.0, {t}.Some.0)"]

    def got(p):
        v = {show(k): x for k, x in p.var.items()}
        eq = [x for k, x in p.truth.items() if show(k) in same]
        r = sret(p)
        T, H = v.get(t), v.get(h)
        if v.get("$0") == "Bare":
            return r == "Ok(RpcString($0.Bare.0))"
        if (T, H) == ("None", "None"):
            return r.startswith("Err(")
        if (T, H) == ("None", "Some"):
            return r == f"Ok(RpcString({h}.Some.0.0))"
        if (T, H) == ("Some", "None"):
            return r == f"Ok(RpcString({t}.Some.0))"
        if (T, H) == ("Some", "Some") and eq:
            return r in (f"Ok(RpcString({h}.Some.0.0))", f"Ok(RpcString({t}.Some.0))") if eq[0] else r.startswith("Err(")
        return False
    ps = c.paths(f)
    for p in ps:
        c.ob("de", p.kind == "ret" and got(p), "a binary string is the bare text, or the text, or the hexadecimal data; both only if they agree, and not neither", c.loc(f), repr(p)[:400])
    c.ob("de#n", len({sret(p)[:3] for p in ps}) == 2 and len(ps) >= 6, "every form must be handled", c.loc(f))
    # the same decision is behind deserialization, and what is serialized holds both
    n = 0
    for p in c.paths(de(RS)):
        if p.kind == "ret" and p.ret.tag == "adt" and p.ret.args[1] == "Ok":
            n += 1
            r = sret(p)
            m = re.fullmatch(r"Ok\(RpcString\((.*)\.(Bare\.0|Obj\.text\.Some\.0|Obj\.hex\.Some\.0\.0|Ok\.0)\)\)", r)
            good = m
            if m and m[2].startswith("Obj"):
                v = {show(k): x for k, x in p.var.items()}
                pre = m[1] + ".Obj."
                T, H = v.get(pre + "text"), v.get(pre + "hex")
                eq = [x for k, x in p.truth.items() if k.tag == "eq" and pre + "text.Some.0" in show(k) and pre + "hex.Some.0.0" in show(k)]
                good = (T, H) in (("Some", "None"), ("None", "Some")) or (T, H) == ("Some", "Some") and eq == [True]
            c.ob("de.serde", good, "reading must go through the same decision", c.loc(de(RS)), r[-300:])
    c.ob("de.serde#n", n >= 3, "every form must be readable", c.loc(de(RS)))
    n = 0
    for p in c.paths(ser(RS)):
        fs = [tuple(show(x) for x in e.args[1:]) for e in p.events if e.name.endswith("SerializeStruct::serialize_field")]
        ok = next((v for k, v in p.var.items() if re.fullmatch(r"(\w+::)?from_utf8\(\$0\.0\)", show(k))), None)
        u = next((show(k) for k, v in p.var.items() if re.fullmatch(r"(\w+::)?from_utf8\(\$0\.0\)", show(k))), "")
        want = {("'text'", f"Some({u}.Ok.0)" if ok == "Ok" else "None"), ("'hex'", "RpcHexString($0.0)")}
        if re.match(r"SerializeStruct::end\(|Ok\(SerializeStruct::end\(", sret(p)):
            n += 1
            c.ob("ser", set(fs) == want and len(fs) == 2, "all bytes are written as hexadecimal, the text with them exactly if they are UTF-8", c.loc(ser(RS)), str(fs))
        else:
            c.ob("ser#part", set(fs) <= want and sret(p).startswith("Err("), "nothing else is written", c.loc(ser(RS)), str(fs) + sret(p)[:100])
    c.ob("ser#n", n, "nothing is ever written", c.loc(ser(RS)))


def results(c):
    E = "rpc::error::HandleResult<R, "
    c.every("result", c.paths("rpc::error::handle_result"), lambda p: sret(p) == "HandleResult::handle_result($0)", "the result must be handled")
    c.every("result.value", c.paths(f"<R as {E}()>>::handle_result"), lambda p: sret(p) == "Ok($0)", "a value must be replied as it is")
    c.table("result.nested", c.paths(f"<core::result::Result<T, E> as {E}(I,)>>::handle_result"), [
        ("$0 is Err", lambda p: re.fullmatch(r"Err\(ErrorObject::owned\(-32000, ToString::to_string\(\$0\.Err\.0\), None\)\)", sret(p))),
        ("$0 is Ok", lambda p: sret(p) == "HandleResult::handle_result($0.Ok.0)")])


PARTS = [hexes, plain, texts, results]
