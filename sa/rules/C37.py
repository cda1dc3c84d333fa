"""Network addresses: what a text denotes, how an address is written, and what it resolves to."""
from ..rule import *
from ..terms import *
CRATES = ["utils-networking", "rpc"]  # rpc: for the features of tokio
N = "utils_networking::network_address::"
A, P, O, D = N + "NetworkAddress", N + "NetworkAddressWithPort", N + "NetworkAddressWithOptionalPort", N + "DomainName"
I = "utils_networking::ip_or_socket_address::IpOrSocketAddress"
R = "utils_networking::resolvable_name::"
FS = "core::str::traits::FromStr>::from_str"


def name(s, w="{}"):
    """rows of reading s as an address: an IP address, else a domain name, else an error"""
    ip, dn = f"parse_IpAddr({s})", f"psl::parse_domain_name({s})"
    return [(f"{ip} is Ok", w.format(f"NetworkAddress::Ip({ip}.Ok.0)")), (f"{ip} is Err & {dn} is Ok", w.format(f"NetworkAddress::Domain(DomainName({s}))")), (f"{ip} is Err & {dn} is Err", None)]


def reading(c):
    dn = "psl::parse_domain_name($0)"
    c.table("domain", c.paths(f"<{D} as {FS}"), [(dn + " is Ok", "Ok(DomainName($0))"), (dn + " is Err", "Err(_)")])
    c.table("address", c.paths(f"<{A} as {FS}"), [(x, w or "Err(_)") for x, w in name("$0", "Ok({})")])
    ip, so, sp = "parse_IpAddr($0)", "parse_SocketAddr($0)", "str::rsplit_once($0, 58)"
    sos = f"NetworkAddress::Ip(SocketAddr::ip({so}.Ok.0))"
    sop = f"SocketAddr::port({so}.Ok.0)"
    port = f"parse_u16({sp}.Some.0.1)"
    for t, k in ((O, "opt"), (P, "port")):
        n = t.rsplit("::", 1)[1]
        mk_ = lambda a, p: f"Ok({n}{{address: {a}, port: {p if k == 'port' else f'Some({p})'}}})"
        none = lambda a: "Err(_)" if k == "port" else f"Ok({n}{{address: {a}, port: None}})"
        rows = [(f"{ip} is Ok", none(f"NetworkAddress::Ip({ip}.Ok.0)")), (f"{ip} is Err & {so} is Ok", mk_(sos, sop))]
        u = f"{ip} is Err & {so} is Err"
        rows += [(f"{u} & {sp} is None & {x.split(' & ')[1]}", none(w) if w else "Err(_)") for x, w in name("$0")[1:]]
        rows += [(f"{u} & {sp} is Some & {port} is Err", "Err(_)")]
        rows += [(f"{u} & {sp} is Some & {port} is Ok & {x}", mk_(w, port + ".Ok.0") if w else "Err(_)") for x, w in name(f"{sp}.Some.0.0")]
        # errors may be found in another order
        rows += [(f"{u} & {sp} is Some & " + name(f"{sp}.Some.0.0")[2][0], "Err(_)")]
        c.table(k, c.paths(f"<{t} as {FS}"), rows, strict=False)
    c.table("ip or socket", c.paths(f"<{I} as {FS}"), [(f"{ip} is Ok", f"Ok(IpOrSocketAddress::Ip({ip}.Ok.0))"), (f"{ip} is Err & {so} is Ok", f"Ok(IpOrSocketAddress::Socket({so}.Ok.0))"), (f"{ip} is Err & {so} is Err", "Err(_)")])


def writing(c):
    w = lambda k, t, rows: displayed(c, k, f"<{t} as core::fmt::Display>::fmt", rows)
    w("show domain", D, [("", "{$0.0}")])
    w("show address", A, [("$0 is Domain", ["{$0.Domain.0}", "{$0.Domain.0.0}"]), ("$0 is Ip", "{$0.Ip.0}")])
    w("show ip or socket", I, [("$0 is Ip", "{$0.Ip.0}"), ("$0 is Socket", "{$0.Socket.0}")])
    a = lambda p: [("$0.address is Ip" + p[0], f"{{SocketAddr::new($0.address.Ip.0, {p[1]})}}"), ("$0.address is Domain" + p[0], [f"{{{x}}}:{{{p[1]}}}" for x in ("$0.address", "$0.address.Domain.0", "$0.address.Domain.0.0")])]
    w("show port", P, a(("", "$0.port")))
    w("show opt", O, a((" & $0.port is Some", "$0.port.Some.0")) + [("$0.port is None", [f"{{{x}}}" for x in ("$0.address", "$0.address.Ip.0", "$0.address.Domain.0", "$0.address.Domain.0.0")])])


def conversions(c):
    c.table("from socket", c.paths(f"<{P} as core::convert::From<core::net::socket_addr::SocketAddr>>::from"), [("", "NetworkAddressWithPort{address: NetworkAddress::Ip(SocketAddr::ip($0)), port: SocketAddr::port($0)}")])
    c.table("from port", c.paths(f"<{O} as core::convert::From<{P}>>::from"), [("", "NetworkAddressWithOptionalPort{address: $0.address, port: Some($0.port)}")])
    c.table("from address", c.paths(f"<{O} as core::convert::From<{A}>>::from"), [("", "NetworkAddressWithOptionalPort{address: $0, port: None}")])
    c.table("as_ip", c.paths(A + "::as_ip_address"), [("$0 is Ip", "Some($0.Ip.0)"), ("$0 is Domain", "None")])
    c.table("new_ip", c.paths(I + "::new_ip"), [("", "IpOrSocketAddress::Ip($0)")])
    c.table("new_socket", c.paths(I + "::new_socket_address"), [("", "IpOrSocketAddress::Socket($0)")])
    c.table("to_socket", c.paths(I + "::to_socket_address"), [("$0 is Ip", "SocketAddr::new($0.Ip.0, $1)"), ("$0 is Socket", "$0.Socket.0")])
    c.table("to_ip", c.paths(I + "::to_ip_address"), [("$0 is Ip", "$0.Ip.0"), ("$0 is Socket", "SocketAddr::ip($0.Socket.0)")])


def resolving(c):
    s = "$0.^self"
    for t, ip, dom in ((D, None, s + ".0"), (A, s, s + ".Domain.0.0"), (O, s + ".address", s + ".address.Domain.0.0")):
        f = f"<{t} as {R}ResolvableName>::resolve::{{closure#0}}"
        look = f"await(lookup_host::lookup_host(({dom}, 0)))"
        got = set()
        for p in c.paths(f):
            r = sret(p) if p.kind == "ret" else ""
            case = "ip" if ip and holds(p, ip + " is Ip") else "Ok" if holds(p, look + " is Ok") else "Err" if holds(p, look + " is Err") else None
            c.ob("resolve#case", case and p.kind == "ret", "a name must be looked up, an IP address must not", c.loc(f), repr(p)[:300])
            if not case:
                continue
            got.add(case)
            if case == "Err":
                c.ob("resolve#failed", r.startswith("Err("), "a failure to look up must be reported", c.loc(f), repr(p)[:300])
                continue
            base = f"iter([{ip}.Ip.0])" if case == "ip" else f"iter({look}.Ok.0)"
            c.ob("resolve#" + case, chain(c, p, r, base, case, t), "every address of the name, and nothing else, must be returned, with the port if there is one", c.loc(f), r[:400])
            if case == "ip":
                c.ob("resolve#none", not any("lookup" in e.name for e in p.events), "an IP address needs no lookup", c.loc(f), repr(p)[:300])
        c.ob("resolve#all", got == ({"Ok", "Err"} | ({"ip"} if ip else set())), "every case", c.loc(f), str(got))


def chain(c, p, r, base, case, t):
    """r is Ok of base under Either and maps; the maps together make the IP of a socket address, and for an address with a port the pair"""
    m = re.fullmatch(r"Ok\((.*)\)", r)
    x = m and m[1]
    maps = []
    while x and x != base:
        m = re.fullmatch(r"Either::(Left|Right)\((.*)\)|iter\((?:Either::\w+\()(.*)\)\)|(?:IntoIterator::into_iter|into_iter)\((.*)\)", x)
        if m:
            x = m[2] or m[3] or m[4]
            continue
        m = re.fullmatch(r"map\(iter\((.*)\), (closure<[^()]*>\(.*\)|fn<.*>|\w+::\w+)\)", x)
        if m and x.startswith("map(" + base + ", "):
            maps.append(x[len("map(" + base + ", "):-1])
            x = base
            continue
        if not m:
            return False
        maps.append(m[2])
        x = m[1]
    return x == base and [kind(y) for y in reversed(maps)] == (["ip"] if case == "Ok" else []) + (["port"] if t == O else [])


def kind(s):
    if "DomainName::" in s or s.endswith("SocketAddr::ip"):
        return "ip"
    if "WithOptionalPort::" in s:
        return "port"
    return s


def closures(c):
    """the mappings used above"""
    n = 0
    for i in sorted(c.F.fnline):
        if re.search(r"ResolvableName>::resolve::\{closure#0\}::.*\{closure#\d+\}$", i):
            for p in c.paths(i):
                r = sret(p) if p.kind == "ret" else ""
                if "CannotResolve" in r:
                    continue
                n += 1
                if "WithOptionalPort" in i:
                    a = "$1"
                    ok = holds(p, "$0.^self.port is Some") and r in [f"IpOrSocketAddress::Socket({x})" for x in (f"SocketAddr::new({a}, $0.^self.port.Some.0)", f"from(SocketAddr, ({a}, $0.^self.port.Some.0))")] or holds(p, "$0.^self.port is None") and r == f"IpOrSocketAddress::Ip({a})"
                else:
                    ok = r == "SocketAddr::ip($1)"
                c.ob("mapping", ok, "an address must be the one found, with the port given", c.loc(i), repr(p)[:300])
    c.ob("mapping#n", n, "no mapping", "utils/networking/src/network_address.rs")


def refused(p, e, v):
    return holds(p, f"await({show(e.args[0])}) is {v}")


def lists(c):
    for n, first in (("resolve_all", False), ("resolve_all_take_first", True)):
        f = R + n + "::{closure#0}"
        got = set()
        for p in c.paths(f):
            rs = [e for e in p.events if e.name.endswith("ResolvableName::resolve")]
            aw = [e for e in p.events if e.name == "await"]
            e = show(rs[0].args[0]) if rs else None
            if p.kind == "ret" and sret(p).startswith("Err("):
                got.add("err")
                c.ob(n + "#err", len(rs) == 1 and aw and refused(p, aw[-1], "Err"), "only a failed lookup may be an error", c.loc(f), repr(p)[:300])
            elif p.kind == "back":
                ext = [x for x in p.events if re.search(r"Extend<.*>>::extend$|Vec.*::(push|extend\w*)$", x.name)]
                nx = [x for x in p.events if x.name.endswith("Iterator::next")]
                got.add("step")
                a = f"await({show(aw[0].args[0])}).Ok.0" if aw else "?"
                w = [f"Iterator::next({a})", f"Iterator::next({a}).Some.0", f"take({a}, 1)"] if first else [a]
                none = first and nx and p.var.get(nx[0].res) == "None"
                ok = len(rs) == 1 and e == "elem($0.^resolvables)" and show(aw[0].args[0]) == show(rs[0].res) and refused(p, aw[0], "Ok") and (none and not ext or len(ext) == 1 and show(ext[0].args[1]).replace("iter(" + a + ")", a) in w and ext[0].args[0].tag == "phi")
                c.ob(n + "#step", ok, "the addresses of every name must be added" + (", only the first of each" if first else ""), c.loc(f), repr(p)[:500])
            elif p.kind == "ret":
                got.add("end")
                c.ob(n + "#end", any(x[0] == "exh" and show(x[1]) == "iter($0.^resolvables)" for x in p.facts) and re.fullmatch(r"Ok\((Vec::(with_capacity|new)\(.*\)|\[\])\)", sret(p)), "what was found must be returned when all names are resolved", c.loc(f), repr(p)[:300])
        c.ob(n + "#all", got == {"err", "step", "end"}, "every case", c.loc(f), str(got))


PARTS = [reading, writing, conversions, resolving, closures, lists]
