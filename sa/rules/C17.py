"""Stream hashing: a stream accumulates exactly the bytes written, in order, into one digest of the same kind as the one-shot
hash; finishing yields that digest and starts afresh; composed hashes are the composition."""
from ..rule import *
CRATES = ["crypto"]
KIND = {"Blake2b32": "Blake2bVarCore", "Blake2b": "Blake2bVarCore", "Sha1": "Sha1Core", "Sha256": "Sha256VarCore", "Sha3_512": "Sha3_512Core", "Ripemd160": "Ripemd160Core", "Sha256Ripmd160": "Sha256VarCore"}
H = "crypto::hash::"
WIDE = {"Blake2b32": "UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm;B1>;B0>;B0>;B0>;B0>;B0>;B0>"}


def new(c, f, kind, wrapped=True):
    """the digest type a constructor builds"""
    ps = [p for p in c.paths(f) if p.kind == "ret"]
    return [re.search(r"Digest::new\(([^()]*)\)", sret(p)) for p in ps]


def streams(c):
    fs = [i for i in c.F.ids() if re.fullmatch(r"<crypto::hash::\w+Stream as crypto::hash::StreamHasher>::new", i)]
    c.count("streams", len(fs), 7)
    for f in fs:
        n = re.match(r"<crypto::hash::(\w+)Stream as", f)[1]
        ms = new(c, f, n)
        c.ob(f"{n}#new", n in KIND and ms and all(m and KIND[n] in m[1] for m in ms), f"{n}: a new stream starts from an empty digest of its kind", c.loc(f), str(ms)[:200])
        b = f[:-len("new")]
        h = "$0.0.hasher"
        c.table(f"{n}#write", c.paths(b + "write"), [("", f"$0{{0:=$0.0{{hasher:=out0[Digest::update({h}, $1)]}}}}")], out=sout(0))
        c.table(f"{n}#write-self", c.paths(b + "write"), [("", f"$0{{0:=$0.0{{hasher:=out0[Digest::update({h}, $1)]}}}}")])
        c.table(f"{n}#reset", c.paths(b + "reset"), [("", lambda p: bool(re.fullmatch(r"\$0\{0:=\$0\.0\{hasher:=(out0\[Digest::reset\(\$0\.0\.hasher\)\]|Digest::new\([^()]*\))\}\}|\$0\{0:=InternalStreamHasher\{hasher: Digest::new\([^()]*\)\}\}", sout(0)(p))))])
        if n != "Sha256Ripmd160":
            one(c, n, ms)
            c.table(f"{n}#finalize", c.paths(b + "finalize"), [("", f"GenericArray::split(Digest::finalize_reset({h})).0 || GenericArray::split(out_(Digest::finalize_reset({h}))).0")])
        else:
            c.every(f"{n}#finalize", c.paths(b + "finalize"), lambda p: re.fullmatch(r"GenericArray::split\(Digest::finalize\(out0\[Digest::update\(Digest::new\(CoreWrapper<Ripemd160Core>\), Digest::finalize_reset\(\$0\.0\.hasher\)\)\]\)\)\.0", sret(p)), f"{n}: the result is the second hash of the first hash of all the data")
        c.table(f"{n}#finalize-fresh", c.paths(b + "finalize"), [("", f"$0{{0:=$0.0{{hasher:=out0[Digest::finalize_reset({h})]}}}}")], out=sout(0))


def one(c, n, ms):
    f = f"<crypto::hash::{n} as crypto::hash::Hasher>::hash"
    for p in c.paths(f):
        m = re.fullmatch(r"GenericArray::split\(Digest::finalize\(out0\[Digest::update\(Digest::new\(([^()]*)\), \$0\)\]\)\)\.0", sret(p))
        c.ob(f"{n}#oneshot", m and KIND[n] in m[1] and all(x and x[1] == m[1] for x in ms), f"{n}: the one-shot hash digests the whole input with the same digest as the stream", c.loc(f), sret(p)[:300])
    if n in WIDE:
        c.ob(f"{n}#width", all(m and WIDE[n] in m[1] for m in ms), f"{n} is the prefix of the full-width digest", c.loc(f))


PARTS = [streams]
