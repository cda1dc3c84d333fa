"""Text addresses: accepted only as bech32m with a valid checksum, whole payload, and the prefix of the object and chain; every
kind of object has a prefix of its own on every chain."""
from ..rule import *
CRATES = ["common"]
B = "common::primitives::bech32_encoding::"
A = "common::address::"


def encoding(c):
    for p in c.paths(B + "bech32m_decode"):
        chk = [t for t, v in p.var.items() if re.fullmatch(r"CheckedHrpstring::new\(Bech32m, \$0\)|bech32::decode::CheckedHrpstring::new\(Bech32m, \$0\)", show(t)) and v == "Ok"]
        r = sret(p)
        if success(p):
            d = r"bech32::decode\(\$0\)\.Ok\.0|CheckedHrpstring::new\(Bech32m, \$0\)\.Ok\.0"
            ok = re.fullmatch(rf"Ok\(DecodedBech32\{{hrp: (ToString::to_string\(|T::to_string\()?(Hrp::as_str\()?(?:CheckedHrpstring::hrp\()?(?:{d})(\.0)?\)*, data: (?:collect\(CheckedHrpstring::byte_iter\()?(?:{d})(\.1)?\)*\}}\)", r)
            c.ob("decode#checked", chk, "text is accepted without its bech32m checksum having been verified", c.loc(p.fid), repr(p)[:500])
            c.ob("decode#value", ok, "the decoded prefix and payload must be those of the given text", c.loc(p.fid), r)
        else:
            c.ob("decode#refuse", p.kind == "ret" and r.startswith("Err(") and any(v == "Err" for t, v in p.var.items()), "valid text is refused, or decoding panics", c.loc(p.fid), repr(p)[:400])
    n = 0
    for p in c.paths(B + "bech32m_encode"):
        r = sret(p)
        if success(p):
            n += 1
            c.ob("encode", r == "Ok(bech32::encode(Bech32m, Hrp::parse($0).Ok.0, $1).Ok.0)", "text must be produced as bech32m of exactly the given prefix and payload", c.loc(p.fid), r)
        else:
            c.ob("encode#refuse", p.kind == "ret" and any(v == "Err" for t, v in p.var.items()), "encoding may fail only when the encoder does", c.loc(p.fid), repr(p)[:400])
    c.ob("encode#ok", n, "encoding never succeeds", c.loc(B + "bech32m_encode"))
    for f, w in (("new", "DecodedBech32{hrp: $0, data: $1}"), ("hrp", "$0.hrp"), ("data", "$0.data")):
        c.every("Decoded::" + f, c.paths(B + "DecodedBech32::" + f), lambda p: sret(p) == w, "prefix and payload must not be mixed up")
    # no other decoder of such text is in use
    for x, u in c.F.callers(r"^bech32::", crates=None):
        if not x.startswith(B):
            c.ob("only", False, "bech32 text must go through the bech32m functions", c.loc(x), x)


def address(c):
    if not c.F.fn(A + "decode_address"):
        c.note("the address module is not part of this build")
        return
    st = r"bech32m_decode|bech32m_encode"
    D = "bech32_encoding::bech32m_decode($1)"
    O = f"Addressable::decode_from_bytes_from_address({D}.Ok.0.data)"
    hrp = f"Addressable::address_prefix({O}.Ok.0, $0)"

    def out(p):
        return sret(p)
    eqs = [f"eq({D}.Ok.0.hrp, {hrp})"]
    for p in c.paths(A + "decode_address", stop=st):
        r = sret(p)
        d, o = p.var.get, None
        v = {show(t): x for t, x in p.var.items()}
        e = next((x for a, x in p.truth.items() if show(a) in (eqs[0], f"eq({hrp}, {D}.Ok.0.hrp)")), None)
        if r == f"Ok({O}.Ok.0)":
            c.ob("address#accept", v.get(D) == "Ok" and v.get(O) == "Ok" and e is True, "an address is accepted without its text, payload and prefix all having been checked", c.loc(p.fid), repr(p)[:500])
        else:
            c.ob("address#refuse", r.startswith("Err(") and (v.get(D) == "Err" or v.get(O) == "Err" or e is False), "a valid address is refused or read as another object", c.loc(p.fid), repr(p)[:500])
    enc = "bech32_encoding::bech32m_encode(Addressable::address_prefix($1, $0), Addressable::encode_to_bytes_for_address($1))"
    new = [i for i in c.F.ids() if re.fullmatch(r"common::address::Address(::<T>)?::new", i)][0]
    c.table("new", c.paths(new, stop=st), [(f"{enc} is Ok", f"Ok(Address{{address: {enc}.Ok.0, object: $1}})"), (f"{enc} is Err", "Err(_)")])
    fs = [i for i in c.F.ids() if re.fullmatch(r"common::address::Address(::<T>)?::from_string", i)][0]
    for p in c.paths(fs, stop=st + "|decode_address"):
        r = sret(p)
        c.ob("from_string", r.startswith("Err(") or re.fullmatch(r"Ok\(Address\{address: (?:(?:T::into\(|from\(String, ))?\$1\)?, object: address::decode_address\(\$0, (?:(?:T::into\(|from\(String, ))?\$1\)?\)\.Ok\.0\}\)", r), "an address read from text must keep the text and what it decodes to", c.loc(fs), repr(p)[:400])
    # the prefixes
    seen, kinds = {}, set()
    for i in sorted(c.F.ids()):
        m = re.fullmatch(r"<(.*) as common::address::traits::Addressable>::(\w+)", i)
        if not m:
            continue
        if m[2] == "address_prefix":
            for p in c.paths(i):
                v = view(p)
                net = next((x for t, x in p.var.items() if show(t) == "$1.chain_type"), None)
                k = next((x for t, x in p.var.items() if show(t) == "$0"), "")
                s = sret(p)
                kinds.add((m[1], k))
                c.ob("prefix#lit", re.fullmatch(r"'[a-z0-9]{1,83}'", s), "the prefix must be fixed lower-case text", c.loc(i), s)
                who = (m[1], k, net)
                c.ob("prefix#net", net is not None, "the prefix must depend on the chain", c.loc(i), s)
                c.ob("prefix#own", seen.setdefault(s, who) == who, "every kind of object needs a prefix of its own on every chain", c.loc(i), f"{s}: {seen.get(s)} and {who}")
        elif m[2] == "decode_from_bytes_from_address" and c.F.fn(i) and "closure" not in i:
            for p in c.paths(i):
                r = sret(p)
                c.ob("payload#all", r.startswith("Err(") or re.fullmatch(r"Ok\(\w+::decode_all\(\$0\)\.Ok\.0\)", r), "the whole payload must be decoded", c.loc(i), repr(p)[:300])
        elif m[2] == "encode_to_bytes_for_address":
            for p in c.paths(i):
                c.ob("payload#enc", sret(p) == "Encode::encode($0)", "the payload is the encoded object", c.loc(i), sret(p))
    c.count("prefix", len(seen), 4)
    nets = {}
    for s, (t, k, n) in seen.items():
        nets.setdefault((t, k), set()).add(n)
    allnets = set().union(*nets.values())
    for tk, ns in nets.items():
        c.ob("prefix#all", ns == allnets, "every kind of object needs a prefix on every chain", "", f"{tk} {ns}")


PARTS = [encoding, address]
