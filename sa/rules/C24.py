"""Who gets past the RPC server's door: every path on which the authentication layer lets a request through must have
established the scheme, the decoding, and both comparisons; the layer must be installed exactly when credentials are configured."""
from ..rule import *
CRATES = ["rpc"]
HDR = r"HeaderMap::get\(Request::headers\(\$1\), HeaderName\{inner: Repr::Standard\(StandardHeader::Authorization\)\}\)"
# the standard alphabet with its padding
TABLE = show(mk("arr", tuple(integer("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".find(chr(b)) if b < 128 and chr(b) in
                                     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" else 255) for b in range(256))))
PREFIX = r"('Basic '|\[66, 97, 115, 105, 99, 32\])"
DEC = (r"Engine::decode\(GeneralPurpose\{[^{}]*decode_table: " + TABLE + r", config: [^{}]*\{[^{}]*DecodePaddingMode::(RequireCanonical|Indifferent)\}\}, (slice|str|converts)::strip_prefix\("
       r"HeaderValue::as_bytes\(" + HDR + r"\.Some\.0\), " + PREFIX + r"\)\.Some\.0\)")
TEXT = r"\w+::from_utf8\(" + DEC + r"\.Ok\.0\)\.Ok\.0"
AT = r"str::find\(" + TEXT + r", (58|':')\)\.Some\.0"
NAME = r"(str::split_once\(" + TEXT + r", (58|':')\)\.Some\.0\.0|slice\(" + TEXT + r", (RangeTo\{end: |range\(0, )" + AT + r"[})]\)|str::split_at\w*\(" + TEXT + ", " + AT + r"\)(\.Some\.0)?\.0|str::splitn\(" + TEXT + r", 2, (58|':')\)#0)"
WORD = r"(str::split_once\(" + TEXT + r", (58|':')\)\.Some\.0\.1|slice\(" + TEXT + r", RangeFrom\{start: add\(1, " + AT + r"\)\}\))"
EQ = re.compile(r"^SliceEqualityCheckMethod::timing_resistant_equal\((.*)\)$")
VP = re.compile(r"^kdf::verify_password\((" + WORD + r"), \$0\.password_hash, SliceEqualityCheckMethod::TimingResistant\)(\.Ok\.0)?$")


def truths(p):
    """what is known of boolean terms, through the connectives"""
    todo = list(p.truth.items())
    while todo:
        a, v = todo.pop()
        yield a, v
        if a.tag == "not":
            todo.append((a.args[0], not v))
        elif a.tag in ("bitand", "and") and v or a.tag in ("bitor", "or") and not v:
            todo += [(x, v) for x in a.args]
        elif a.tag == "eq" and any(x.tag == "bool" for x in a.args):
            x, y = a.args if a.args[1].tag == "bool" else a.args[::-1]
            todo.append((x, v == (str(y.args[0]).lower() == "true")))


def validate(c):
    fid = next((i for i in c.F.ids() if re.search(r"RpcAuth as .*ValidateRequest<.*>>::validate$", i)), "rpc::rpc_auth::RpcAuth as ValidateRequest::validate")
    ps = c.paths(fid)
    n = ok = 0
    for p in ps:
        user = pw = None
        for a, v in truths(p):
            s = show(a)
            m = EQ.match(s)
            if m:
                x = [unparse((y,)) for y in parse(m[1])]
                if len(x) == 2 and "$0.username" in x:
                    x.remove("$0.username")
                    if re.fullmatch(NAME, x[0]):
                        user = v
            m = VP.match(s)
            if m and s.endswith(".Ok.0"):
                pw = v
        calls = [e.name.rsplit("::", 1)[-1] for e in p.events]
        # neither comparison may be skipped depending on the other
        broken = any(v == "Err" and "verify_password(" in show(a) for a, v in p.var.items())
        c.ob("both-compared", ("timing_resistant_equal" in calls) == ("verify_password" in calls) or broken and not (p.kind == "ret" and sret(p).startswith("Ok(")), "the user name and the password must both be compared on every path that compares one of them",
             c.loc(fid), repr(p)[:1500])
        if p.kind != "ret":
            continue
        n += 1
        r = sret(p)
        if r.startswith("Ok("):
            ok += 1
            c.ob("accept", user is True and pw is True, "a request can pass without both the user name and the password of its Basic authorization header having matched", c.loc(fid), repr(p)[:1500])
        else:
            c.ob("refuse", r.startswith("Err(") and not (user is True and pw is True), "a request with the right credentials is refused, or a refusal is not an error response", c.loc(fid), repr(p)[:1500])
    c.ob("paths", ok >= 1 and n > ok, "validate must have accepting and refusing paths", c.loc(fid))


def stored(c):
    for p in c.paths("rpc::rpc_auth::RpcAuth::new"):
        if p.kind != "ret":
            continue
        u, h = fields(p, p.ret, "username", "password_hash")
        c.ob("RpcAuth::new", u == "$0" and re.fullmatch(r"kdf::hash_password\(randomness::make_true_rng\(\)@\d+, KdfConfig::Argon2id\{.*\}, \$1\)\.Ok\.0", h),
             "the verifier must hold the configured user name and a salted hash of the configured password", c.loc(p.fid), repr(p)[:700])


def installed(c):
    ps = c.paths("rpc::Rpc::new", mode="async")
    some = none = 0
    for p in ps:
        if p.kind != "ret":
            continue
        starts = evs(p, r"Server.*::start$")
        sets = [e for e in p.events if e.name.endswith("set_http_middleware")]
        if not sret(p).startswith("Ok("):
            c.ob("no-server-on-error", not starts, "the server is started on a failing path", c.loc(p.fid), repr(p)[:500])
            continue
        c.ob("start-once", len(starts) == 1, "the server must be started once", c.loc(p.fid), repr(p)[:500])
        for e in starts:
            s = show(e.args[0])
            layer = "RpcAuth{username: $2.Some.0.username, password_hash: kdf::hash_password(" in s and "$2.Some.0.password)" in s and "set_http_middleware(" in s and "ValidateRequestHeaderLayer::custom(RpcAuth{" in s
            if holds(p, "$2 is Some"):
                some += 1
                c.ob("layer", layer, "with credentials configured, the started server must carry the authentication layer for exactly those credentials", c.loc(p.fid), s[:1500])
            elif holds(p, "$2 is None"):
                none += 1
        c.ob("decided", holds(p, "$2 is Some") or holds(p, "$2 is None"), "whether to authenticate must depend on the credentials", c.loc(p.fid), repr(p)[:500])
    c.ob("layer#both", some and none, "both configurations must be handled", "rpc::Rpc::new")


PARTS = [validate, stored, installed]
