"""What the RPC server answers to, what it says it answers to, and what its subscribers hear: the methods handed to the server
are the ones registered, none lost or replaced; every event received is sent to the subscriber, in order, until one side ends."""
from ..rule import *
CRATES = ["rpc", "utils-networking"]
B = "rpc::Builder::"
SUB = "rpc::subscription::"


def methods(c):
    c.table("new", c.paths(B + "new"), [("", lambda p: fields(p, p.ret, "methods", "method_list_name") == ["Methods::new()", "None"])])
    reg = c.paths(B + "register")
    m = "Methods::merge($0.methods, $1)"
    for p in reg:
        es = evs(p, "Methods::merge$")
        c.ob("register", len(es) == 1 and show(es[0].res) == m, "registering must add the methods to those registered before, once", c.loc(p.fid), repr(p)[:500])
        if p.kind == "ret":
            ms, a, cr, ln = fields(p, p.ret, "methods", "http_bind_address", "creds", "method_list_name")
            c.ob("register#ok", holds(p, m + " is Ok") and ms == f"out0[{m}]" and (a, cr, ln) == ("$0.http_bind_address", "$0.creds", "$0.method_list_name"),
                 "a module whose method names clash must not be dropped or half registered, and a registered one must be kept", c.loc(p.fid), repr(p)[:500])
    c.ob("register#some", any(p.kind == "ret" for p in reg), "registering must be possible", c.loc(B + "register"))
    c.table("with_method_list", c.paths(B + "with_method_list"), [("", lambda p: fields(p, p.ret, "methods", "http_bind_address", "creds", "method_list_name") == ["$0.methods", "$0.http_bind_address", "$0.creds", "Some($1)"])])


def listed(c):
    ps = c.paths(B + "build", mode="async", stop=r"^rpc::Rpc::new$")
    N = "$0.method_list_name.Some.0"
    for p in ps:
        if p.kind != "ret":
            c.ob("no-panic", False, "building the server must not panic", c.loc(p.fid), repr(p)[:400])
            continue
        es = [e for e in p.events if e.name == "rpc::Rpc::new"]
        if not es:
            c.ob("refused", refused(p) and "Err" in p.var.values(), "a server that is not built must be reported", c.loc(p.fid), repr(p)[:500])
            continue
        ms = show(es[0].args[1])
        if holds(p, "$0.method_list_name is None"):
            c.ob("plain", len(es) == 1 and ms == "$0.methods", "the server must serve exactly the registered methods", c.loc(p.fid), ms[:500])
            continue
        c.ob("decided", holds(p, "$0.method_list_name is Some"), "the list method must be there exactly if it was asked for", c.loc(p.fid), repr(p)[:500])
        mg = next((e for e in p.events if e.name.endswith("Methods::merge")), None)
        rx = r"out0\[Methods::merge\(\$0\.methods, out0\[(RpcModule::register_method\(RpcModule::new\(\(\)\), %s, closure<(.*?)>\(.*\)\))\]\)\]" % re.escape(N)
        g = re.fullmatch(rx, ms)
        c.ob("merged", len(es) == 1 and g is not None, "the server must serve the registered methods and the list method under its name", c.loc(p.fid), ms[:700])
        if not g:
            continue
        c.ob("merged#ok", holds(p, f"{g[1]} is Ok") and mg is not None and holds(p, show(mg.res) + " is Ok"), "a list method that could not be registered must be reported", c.loc(p.fid), repr(p)[:700])
        # the handler answers with what it captured
        said = called(c, next((x for x in subterms(es[0].args[1]) if x.tag == "clos"), None), 3)
        c.ob("list", said is not None and complete(said), "the list method must answer with the names of all registered methods and its own", c.loc(p.fid), str(said)[:900])
    c.ob("list#both", {"none", "some"} <= {("none" if holds(p, "$0.method_list_name is None") else "some") for p in ps if p.kind == "ret" and any(e.name == "rpc::Rpc::new" for e in p.events)},
         "the server must be buildable with and without a list", c.loc(B + "build"))


def refused(p):
    return sret(p).startswith("Err(")


def called(c, clo, n):
    """the text of the value a call of the closure (or function) term returns, arguments written ?0, ?1, …"""
    if clo is None:
        return None
    from ..vf import Machine
    from ..terms import mk
    m = Machine(c.F, inline=c.F.crates)
    outs = m.run_closure(clo, [mk("arg", f"?{i}") for i in range(n)])
    rs = {(p.kind, sret(p)) for p in outs}
    c.fns |= m.visited
    return rs.pop()[1] if len(rs) == 1 and all(p.kind == "ret" for p in outs) else None


NAMES = "iter(Methods::method_names($0.methods))"
OWN = "iter([$0.method_list_name.Some.0])"


def complete(s):
    """the text denotes a collection of exactly the registered names and the own one, possibly sorted"""
    s = re.sub(r"^out0\[slice::sort(?:_unstable)?\((.*)\)\]$", r"\1", s)
    m = re.fullmatch(r"collect\((.*)\)", s)
    s = m[1] if m else s
    return s in (f"chain({OWN}, {NAMES})", f"chain({NAMES}, {OWN})", f"out0[Vec::push(collect({NAMES}), $0.method_list_name.Some.0)]")


def served(c):
    ps = c.paths("rpc::Rpc::new", mode="async")
    n = 0
    for p in ps:
        if p.kind != "ret" or not sret(p).startswith("Ok("):
            continue
        n += 1
        st = evs(p, r"Server.*::start$")
        c.ob("served", len(st) == 1 and show(st[0].args[1]) == "$1", "the server must be started with exactly the methods it was given", c.loc(p.fid), repr(p)[:600])
        b = [e for e in p.events if re.search(r"(?:server::)?Builder.*::build$", e.name)]
        c.ob("bound", len(b) == 1 and show(b[0].args[1]) == "$0", "the server must listen on the configured address", c.loc(p.fid), repr(p)[:600])
        h = [show(x) for x in subterms(p.ret)]
        a = next((e for e in p.events if e.name.endswith("::local_addr")), None)
        c.ob("address", a is not None and bool(st) and f"({show(a.res)}.Ok.0, {show(st[0].res)})" in h and show(a.args[0]) == show(st[0].args[0]),
             "the address reported must be the one the started server is bound to, and the handle must be that server's", c.loc(p.fid), repr(p)[:600])
    c.ob("served#some", n >= 1, "the server must be startable", c.loc("rpc::Rpc::new"))
    c.every("http_address", c.paths("rpc::Rpc::http_address"), lambda p: sret(p) == "$0.http.0", "the address reported must be the bound one")


def shutdown(c):
    s = "ServerHandle::stop($0.http.1)"
    for f in ("rpc::Rpc::shutdown", "<rpc::Rpc as subsystem::subsystem::Subsystem>::shutdown"):
        for p in c.paths(f, mode="async"):
            es = [show(e.res) for e in p.events]
            c.ob(f"{f}#stop", p.kind == "ret" and es.count(s) == 1, "shutting down must stop the server", c.loc(f), repr(p)[:400])
            w = "ServerHandle::stopped($0.http.1)"
            c.ob(f"{f}#wait", holds(p, s + " is Err") or (w in es and "()" in es[es.index(w):] and es.index(w) > es.index(s)), "shutting down must wait until the server has stopped", c.loc(f), repr(p)[:400])


def sink(c):
    st = r"Sink::<T>::(message|send|accept)$|Sink::<T>::\w+::\{closure#0\}$"
    a = "await(PendingSubscriptionSink::accept($0))"
    for f in (SUB + "accept",):
        c.table("accept", c.paths(f, mode="async"), [(a + " is Err", f"Err(Error::Accept({a}.Err.0))"), (a + " is Ok", lambda p: sret(p) in (f"Ok(Sink{{sink: {a}.Ok.0, _phantom: PhantomData}})",))])
    m = "SubscriptionMessage::new(SubscriptionSink::method_name($0.sink), SubscriptionSink::subscription_id($0.sink), $1)"
    s = f"await(SubscriptionSink::send($0.sink, {m}.Ok.0))"
    c.table("send", c.paths(SUB + "Sink::<T>::send", mode="async"), [
        (m + " is Err", f"Err(Error::Serialization({m}.Err.0))"), (f"{m} is Ok & {s} is Err", "Err(Error::ConnectionClosed)"), (f"{m} is Ok & {s} is Ok", lambda p: sret(p) in (f"Ok({s}.Ok.0)", "Ok(())", s))])
    c.every("subscription_id", c.paths(SUB + "Sink::<T>::subscription_id"), lambda p: sret(p) == "SubscriptionSink::subscription_id($0.sink)", "the id must be the subscription's")
    c.every("method_name", c.paths(SUB + "Sink::<T>::method_name"), lambda p: sret(p) == "SubscriptionSink::method_name($0.sink)", "the name must be the subscription's")


def relay(c):
    """one turn of the relay: exactly one event is taken, transformed once, and, unless filtered, sent; the loop only ends when the
    events end or the subscriber is gone"""
    acc = "await(PendingSubscriptionSink::accept($1))"
    for f, kind in (("connect_broadcast_filter_map", "filter"), ("connect_broadcast_map", "map"), ("connect_broadcast", "id")):
        ps = c.paths(SUB + f, mode="async")
        seen = set()
        for p in ps:
            L = c.loc(SUB + f)
            R = repr(p)[:900]
            recv = [e for e in p.events if e.name.endswith("Receiver::<T>::recv") or show(e.res).startswith("Receiver::recv(")]
            send = [e for e in p.events if show(e.res).startswith("SubscriptionSink::send(")]
            c.ob(f"{f}#no-panic", p.kind in ("ret", "back"), "relaying events must not panic", L, R)
            if holds(p, acc + " is Err"):
                seen.add("refused")
                c.ob(f"{f}#refused", p.kind == "ret" and sret(p).startswith("Err(") and not recv, "a subscription that cannot be accepted must be reported and take no events", L, R)
                continue
            c.ob(f"{f}#one", len(recv) <= 1 and (p.kind != "back" or len(recv) == 1) and all(show(unphi(p, e.args[0])) == "$0" for e in recv), "each turn must take one event of the given receiver", L, R)
            if not recv:
                c.ob(f"{f}#started", False, "the events must be read", L, R)
                continue
            ev = f"await({show(recv[0].res)})"
            if _is(p, ev, "None"):
                seen.add("end")
                c.ob(f"{f}#end", p.kind == "ret" and sret(p) == "Ok(())" and not send, "when the events end the subscription must end", L, R)
                continue
            c.ob(f"{f}#event", _is(p, ev, "Some"), "each turn must look at whether there is an event", L, R)
            x = ev + ".Some.0"
            ap = [e for e in p.events if show(e.res).startswith("apply(")]
            good, may = True, False
            if ap:
                g = ap[0].args[0]
                g = unphi(p, g)
                y = show(ap[0].res)
                may = _is(p, y, "None") or _is(p, y, "Some")
                says = called(c, g, 1) if g.tag != "arg" else f"apply({show(g)}, $?0)"
                good = len(ap) == 1 and show(ap[0].args[1]) == x
                if kind == "filter":
                    good = good and may and says == "apply($2, $?0)"
                elif kind == "map":
                    good = good and says == ("Some(apply($2, $?0))" if may else "apply($2, $?0)")
                else:
                    good = good and says == ("Some($?0)" if may else "$?0")
                if kind == "filter" and _is(p, y, "None"):
                    seen.add("filtered")
                    c.ob(f"{f}#filtered", p.kind == "back" and not send and good, "a filtered event must be skipped and nothing else", L, R)
                    continue
                x = y + ".Some.0" if may else y
            c.ob(f"{f}#apply", good and (ap or kind == "id"), "each event must be transformed once, by the given function", L, R)
            if may and _is(p, show(ap[0].res), "None"):
                continue    # refuted by what the function returns
            k = f"{acc}.Ok.0"
            msg = f"SubscriptionMessage::new(SubscriptionSink::method_name({k}), SubscriptionSink::subscription_id({k}), {x})"
            if _is(p, msg, "Err"):
                seen.add("unencodable")
                c.ob(f"{f}#unencodable", p.kind == "ret" and sret(p).startswith("Err(") and not send, "an event that cannot be encoded must be reported", L, R)
                continue
            c.ob(f"{f}#send", len(send) == 1 and show(send[0].res) == f"SubscriptionSink::send({k}, {msg}.Ok.0)", "each event must be sent to the subscriber, as it is, once", L, R)
            if p.kind == "ret":
                seen.add("closed")
                c.ob(f"{f}#closed", sret(p).startswith("Err(") and bool(send) and _is(p, f"await({show(send[0].res)})", "Err"), "relaying must only stop when sending failed", L, R)
            else:
                seen.add("sent")
                c.ob(f"{f}#sent", bool(send) and _is(p, f"await({show(send[0].res)})", "Ok"), "relaying must not go on after sending failed", L, R)
        want = {"refused", "end", "sent", "closed"} | ({"filtered"} if kind == "filter" else set())
        c.ob(f"{f}#all", want <= seen, "each way of a subscription's life must be possible", c.loc(SUB + f), str(sorted(want - seen)))


def _is(p, t, v):
    return any(show(a) == t and w == v for a, w in p.var.items())


PARTS = [methods, listed, served, shutdown, sink, relay]
