"""Encoded texts: an object is read from a hex or address text only if all of the text's bytes make up its encoding; what is
written is the encoding of the object itself."""
from ..rule import *
CRATES = ["serialization", "common"]
S = "serialization::"
DEC = "T::decode_all({0}) || Self::decode_all({0}) || DecodeAll::decode_all({0})"


def hexes(c):
    def rows(text, ok):
        h = f"hex::decode({text})"
        d = f"T::decode_all({h}.Ok.0)"
        return [(f"{h} is Err", "Err(_)"), (f"{h} is Ok & {d} is Err", "Err(_)"), (f"{h} is Ok & {d} is Ok", f"Ok({ok.format(d + '.Ok.0')})")]
    c.table("hex_decode_all", c.paths(S + "hex::HexDecode::hex_decode_all"), rows("$0", "{}"))
    c.table("hex_encode", c.paths(S + "hex::HexEncode::hex_encode"), [("", "hex::encode(Encode::encode($0))")])
    H = S + "hex_encoded::"
    c.table("from_str", c.paths(f"<{H}HexEncoded<T> as core::str::traits::FromStr>::from_str"), rows("$0", "HexEncoded({})"))
    D = "impls::deserialize($0)"
    for f, ok in ((f"<{H}HexEncoded<T> as serde_core::de::Deserialize<'de>>::deserialize", "HexEncoded({})"), (H + "hex_encoded_serialization::deserialize", "{}")):
        c.table(f, c.paths(f), [(f"{D} is Err", "Err(_)")] + [(f"{D} is Ok & " + a, b) for a, b in rows(D + ".Ok.0", ok)])
    c.table("serialize", c.paths(f"<{H}HexEncoded<T> as serde_core::ser::Serialize>::serialize"), [("", "Serializer::serialize_str($1, hex::encode(Encode::encode($0.0)))")])
    c.table("serialize_mod", c.paths(H + "hex_encoded_serialization::serialize"), [("", "Serializer::serialize_str($1, hex::encode(Encode::encode($0)))")])
    displayed(c, "display", f"<{H}HexEncoded<T> as core::fmt::Display>::fmt", [("", "{hex::encode(Encode::encode($0.0))}")])
    for f in ("new", "take"):
        c.table("hexencoded_" + f, c.paths(H + "HexEncoded::<T>::" + f), [("", "HexEncoded($0)" if f == "new" else "$0.0")])
    c.table("hex_from", c.paths(f"<{H}HexEncoded<T> as core::convert::From<T>>::from"), [("", "HexEncoded($0)")])
    c.table("hex_as_ref", c.paths(f"<{H}HexEncoded<T> as core::convert::AsRef<T>>::as_ref"), [("", "$0.0")])


def encoded(c):
    E = S + "encoded::Encoded::"
    c.every("new", [p for p in c.paths(E + "<alloc::vec::Vec<u8>, T>::new") if p.kind == "ret"], lambda p: fields(p, p.ret, "bytes") == ["Encode::encode($0)"], "a value's bytes must be its encoding")
    c.every("unchecked", [p for p in c.paths(E + "<E, T>::from_bytes_unchecked") if p.kind == "ret"], lambda p: fields(p, p.ret, "bytes") == ["$0"], "the bytes must be kept as given")
    c.table("take", c.paths(E + "<E, T>::take_bytes"), [("", "$0.bytes")])
    c.table("bytes", c.paths(E + "<E, T>::bytes"), [("", "$0.bytes")])
    c.table("as_ref", c.paths(f"<{S}encoded::Encoded<E, T> as core::convert::AsRef<[u8]>>::as_ref"), [("", "$0.bytes")])
    d = "T::decode_all($0.bytes)"
    c.table("decode", c.paths(E + "<E, T>::decode"), [(f"{d} is Ok", d + ".Ok.0")], kinds=("ret",))


def jsons(c):
    J = f"{S}json_encoded::JsonEncoded<T>"
    d = "de::from_str($0)"
    c.table("json_from_str", c.paths(f"<{J} as core::str::traits::FromStr>::from_str"), [(d + " is Ok", f"Ok(JsonEncoded({d}.Ok.0))"), (d + " is Err", "Err(_)")])
    c.table("json_slice", c.paths(S + "json_encoded::JsonEncoded::<T>::from_string_slice"), [("", d)])
    d = "Deserialize::deserialize($0)"
    c.table("json_de", c.paths(f"<{J} as serde_core::de::Deserialize<'de>>::deserialize"), [(d + " is Ok", f"Ok(JsonEncoded({d}.Ok.0))"), (d + " is Err", "Err(_)")])
    c.table("json_ser", c.paths(f"<{J} as serde_core::ser::Serialize>::serialize"), [("", "Serialize::serialize($0.0, $1)")])
    d = "ser::to_string($0.0)"
    displayed(c, "json_display", f"<{J} as core::fmt::Display>::fmt", [(d + " is Ok", f"{{{d}.Ok.0}}"), (d + " is Err", None)])
    c.table("json_new", c.paths(S + "json_encoded::JsonEncoded::<T>::new"), [("", "JsonEncoded($0)")])
    c.table("json_take", c.paths(S + "json_encoded::JsonEncoded::<T>::take"), [("", "$0.0")])


def addresses(c):
    """what an address holds is decoded whole as well"""
    n = 0
    for i in c.F.ids("common"):
        if i.endswith("::decode_from_bytes_from_address") and "Addressable" in i:
            n += 1
            ok = 0
            for p in c.paths(i):
                r = sret(p)
                if p.kind != "ret" or r.startswith("Err("):
                    continue
                m = re.fullmatch(r"Ok\((?:\w+::)?(\w+)::decode_all\(\$0\)\.Ok\.0\)", r) or re.fullmatch(r"\w+::decode_all\(\$0\)", r)
                ok += 1
                c.ob(i, m and [e for e in p.events if e.name.endswith("::decode_all")], "an object must be read from all the data of its address", c.loc(i), repr(p)[:400])
            c.ob(i + "#some", ok, "an address must be readable", c.loc(i))
    c.count("addressable objects", n, 5)


PARTS = [hexes, encoded, jsons, addresses]
