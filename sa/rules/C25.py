"""RPC credentials: which combinations of user, password and cookie file are accepted, how the cookie file comes to be (private
mode, complete content, atomic rename, random password), how long it lives, and what clients send."""
from ..rule import *
CRATES = ["rpc", "utils"]
N = "rpc::rpc_creds::RpcCreds::new"
OPEN = re.compile(r"^OpenOptions::open\((.*), (Path::with_extension\(.*)\)$")


def settings(t):
    """the options set on an OpenOptions builder, the last value of each"""
    out = {}
    while t.__class__ is T:
        if t.tag == "call" and re.search(r"OpenOptions(Ext)?[^:]*::\w+$", t.args[0]) and len(t.args[1]) == 2:
            out.setdefault(t.args[0].rsplit("::", 1)[-1], show(t.args[1][1]).lower())
            t = t.args[1][0]
        elif t.tag in ("out", "ref", "deref"):
            t = t.args[0]
        else:
            break
    return out


def config(c):
    ps = c.paths(N)
    c.table("new", ps, [
        ("$1 is Some & $2 is None", "Err(_)"), ("$1 is None & $2 is Some", "Err(_)"),
        ("$1 is Some & $2 is Some & $3 is Some", "Err(_)"),
        ("$1 is Some & $2 is Some & $3 is None", lambda p: explicit(p)),
        ("$1 is None & $2 is None", lambda p: p.kind == "ret" and (not sret(p).startswith("Ok(") or cookie(c, p))),
    ])
    ks = {(view(p).variant("$1"), sret(p)[:2]) for p in ps if p.kind == "ret"}
    c.ob("new#both", ("Some", "Ok") in ks and ("None", "Ok") in ks, "both kinds of credentials must be obtainable", c.loc(N))


    B = "rpc::rpc_creds::RpcCreds::"
    c.every("basic", c.paths(B + "basic"), lambda p: explicit(p, "$0", "$1"), "explicit credentials are kept as given; a colon in the user name is refused", minimum=2)
    for f in ("username", "password"):
        c.table(f, c.paths(B + f), [("", f"$0.{f}")])


def explicit(p, u="$1.Some.0", w="$2.Some.0"):
    colon = None
    for a, v in list(p.truth.items()) + list(p.var.items()):
        m = re.fullmatch(r"(\w+::)?(find|contains|position|split_once|any)\((bytes\(|chars\(|iter\(|str::as_bytes\()*%s\)*, .*58.*\)|(\w+::)?contains\(%s, ':'\)" % (re.escape(u), re.escape(u)), show(a))
        if m:
            colon = v in (True, "Some")
    r = sret(p)
    if colon is None:
        return False
    if colon:
        return r.startswith("Err(")
    return r == f"Ok(RpcCreds{{username: {u}, password: {w}, cookie_file: None}})"


def cookie(c, p):
    """on a successful path without configured credentials"""
    path = ["from(PathBuf, $3.Some.0)", "$3.Some.0"] if holds(p, "$3 is Some") else ["Path::join($0, '.cookie')"]
    user, pw, cf = fields(p, p.ret.args[3][0], "username", "password", "cookie_file")
    w = f"cookie#"
    loc = c.loc(N)
    c.ob(w + "creds", user == "'__cookie__'" and re.fullmatch(r"SampleString::sample_string\(Alphanumeric, randomness::make_true_rng\(\)@\d+, 32\)@\d+", pw),
         "the cookie password must be 32 characters drawn from the secure generator", loc, pw[:300])
    c.ob(w + "path", cf in [f"Some({x})" for x in path], "the credentials must own the cookie file they created", loc, cf[:300])
    op = [e for e in p.events if OPEN.match(show(e.res))]
    wr = evs(p, r"::write_all$")
    rn = evs(p, r"fs::rename$")
    if not c.ob(w + "steps", len(op) == len(wr) == len(rn) == 1, "the cookie must be written to one opened file and renamed once", loc, repr(p)[:900]):
        return True
    o, tmp = OPEN.match(show(op[0].res)).groups()
    c.ob(w + "mode", "OpenOptions::mode(" in o and ", 384)" in o and (p.events.index(op[0]) > ev_index(p, r"OpenOptions::mode$")), "the cookie file must be created readable by its owner only", loc, o)
    st = settings(op[0].args[0])
    c.ob(w + "fresh", st.get("create_new") == "true" or st.get("create") == "true" and st.get("truncate") == "true", "the temporary file must be made if it is not there, and nothing that was in it may survive", loc, o)
    c.ob(w + "write", st.get("write") == "true" and st.get("append") != "true", "the temporary file must be opened for writing from its start", loc, o)
    c.ob(w + "tmp", tmp in [f"Path::with_extension({x}, 'tmp')" for x in path], "the temporary file lies beside the cookie", loc, tmp)
    c.ob(w + "content", show(wr[0].args[0]) in (f"{show(op[0].res)}.Ok.0",) and show(wr[0].args[1]) == f"fmt({user}, ':', {pw})", "the file must hold user:password in full", loc, show(wr[0].args[1])[:400])
    c.ob(w + "rename", [show(a) for a in rn[0].args[:2]] in [[tmp, x] for x in path], "the finished temporary file must replace the cookie", loc, repr(rn[0])[:300])
    c.ob(w + "order", p.events.index(op[0]) < p.events.index(wr[0]) < p.events.index(rn[0]) and all(holds(p, f"{show(e.res)} is Ok") for e in (op[0], wr[0], rn[0])),
         "success requires opening, writing and renaming to have succeeded, in that order", loc, repr(p)[:900])
    return True


def lifetime(c):
    f = "<rpc::rpc_creds::RpcCreds as core::ops::drop::Drop>::drop"
    c.every("drop", rets(c.paths(f)), lambda p: [show(e.args[0]) for e in evs(p, r"fs::remove_file$")] == (["$0.cookie_file.Some.0"] if holds(p, "$0.cookie_file is Some") else [])
            and (holds(p, "$0.cookie_file is Some") or holds(p, "$0.cookie_file is None")), "dropping the credentials removes the cookie file iff they own one", minimum=2)
    ok = oks(c.paths("rpc::Rpc::new", mode="async"))
    c.every("held", ok, lambda p: "$2" in [show(a) for a in p.ret.args[3][0].args[3]], "the running server must hold on to the credentials so that the cookie file lives as long as it")
    c.table("Builder::new", c.paths("rpc::Builder::new"), [("", lambda p: fields(p, p.ret, "http_bind_address", "creds") == ["$0", "$1"])])
    for p in c.paths("rpc::Builder::build", mode="async", stop="rpc::Rpc::new$"):
        for e in evs(p, "Rpc::new$"):
            c.ob("build", show(e.args[0]) == "$0.http_bind_address" and show(e.args[2]) == "$0.creds" and "$0.methods" in show(e.args[1]), "the server must be started with the configured address, methods and credentials", c.loc(p.fid), repr(e)[:400])
        if p.kind == "ret" and sret(p).startswith("Ok("):
            c.ob("build#ok", len(evs(p, "Rpc::new$")) == 1, "a built server must come from the configured parts", c.loc(p.fid), repr(p)[:400])


def client(c):
    st = r"load_cookie$|get_header$"
    u = "utils::cookie::load_cookie"
    t = "fs::read_to_string($0)"
    sp = f"str::split_once({t}.Ok.0, 58)"
    c.table("load_cookie", c.paths(u), [(f"{t} is Err", "Err(_)"), (f"{t} is Ok & {sp} is None", "Err(_)"), (f"{t} is Ok & {sp} is Some", f"Ok(({sp}.Some.0.0, {sp}.Some.0.1)) || Ok({sp}.Some.0)")])
    g = "rpc::RpcAuthData::get_header"

    def hdr(u_, p_):
        rx = r"Some\(HeaderValue::from_str\(fmt\('Basic ', Engine::encode\(GeneralPurpose\{.*\}, fmt\(%s, ':', %s\)\)\)\)\.Ok\.0\)" % (re.escape(u_), re.escape(p_))
        return lambda p: p.kind == "panic" or bool(re.fullmatch(rx, sret(p)))
    k = "cookie::load_cookie($0.Cookie.cookie_file_path)"
    ps = c.paths(g, stop=st)
    c.table("get_header", ps, [("$0 is None", "None"), ("$0 is Basic", hdr("$0.Basic.username", "$0.Basic.password")), (f"$0 is Cookie & {k} is Err", "None"), (f"$0 is Cookie & {k} is Ok", hdr(k + ".Ok.0.0", k + ".Ok.0.1"))])
    for f, mode, arg in (("rpc::new_http_client", "fn", 1), ("rpc::new_ws_client", "async", 1)):
        for p in c.paths(f, mode=mode, stop=r"RpcAuthData::get_header$"):
            if p.kind != "ret":
                continue
            s = sret(p)
            if mode == "fn":
                good = "overriding(HeaderName{inner: Repr::Standard(StandardHeader::Authorization)}, $1)" in s
            elif holds(p, "RpcAuthData::get_header($1) is Some"):
                good = "set_headers(" in s and "(HeaderName{inner: Repr::Standard(StandardHeader::Authorization)}, RpcAuthData::get_header($1).Some.0)" in s
            else:
                good = holds(p, "RpcAuthData::get_header($1) is None")
            c.ob(f + "#auth", good, "the client must send the authorization header for the data it was given", c.loc(f), s[:600])


PARTS = [config, lifetime, client]
