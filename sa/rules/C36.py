"""The clock: the time set if there is one, else that of the system since the epoch; getters ask the function they were made with;
the time can be set on regtest only."""
from ..rule import *
from ..terms import *
CRATES = ["common", "node-lib"]
T_ = "common::primitives::time::"
G = "common::time_getter::"
UNIX = re.compile(r"SystemTime\(SystemTime\{t: Timespec\{tv_sec: 0, tv_nsec: Nanoseconds\(0\)\}\}\)")


def source(c):
    S = set()
    f = T_ + "get_time"
    got = set()
    for p in c.paths(f):
        es = p.events
        l = [e for e in es if re.search(r"Atomic.*::load$", e.name)]
        s = show(l[0].args[0]) if len(l) == 1 else "?"
        c.ob("time#source", len(l) == 1 and "static " in s, "the time set must be read once", c.loc(f), repr(p)[:300])
        if len(l) != 1:
            continue
        S.add(s)
        v, r = show(l[0].res), sret(p) if p.kind == "ret" else ""
        now = [e for e in es if e.name == "std::time::SystemTime::now"]
        if holds(p, f"!eq(0, {v})"):
            got.add("set")
            c.ob("time#set", p.kind == "ret" and r == f"Time{{time: Duration::from_millis({v})}}" and not now, "a time set must be the time, in milliseconds since the epoch", c.loc(f), repr(p)[:300])
        elif holds(p, f"eq(0, {v})") and len(now) == 1:
            d = [e for e in es if e.name.endswith("SystemTime::duration_since")]
            ok = len(d) == 1 and d[0].args[0] is now[0].res and UNIX.fullmatch(show(d[0].args[1]))
            if p.kind == "panic":
                c.ob("time#before", ok and p.var.get(d[0].res) == "Err", "only a system clock before the epoch is refused", c.loc(f), repr(p)[:300])
            else:
                got.add("system")
                c.ob("time#system", ok and r == f"Time{{time: {show(d[0].res)}.Ok.0}}", "without a time set, the time must be that of the system since the epoch", c.loc(f), repr(p)[:300])
        else:
            c.ob("time#other", False, "the time must be the one set or that of the system", c.loc(f), repr(p)[:300])
    c.ob("time#all", got == {"set", "system"}, "the time must be the one set or that of the system", c.loc(f), str(got))
    w = {"set": [], "reset": []}
    for n in w:
        f = T_ + n
        for p in c.paths(f):
            st = [e for e in p.events if re.search(r"Atomic.*::(store|swap|fetch_\w+|compare\w+)$", e.name)]
            if p.kind == "ret" and sret(p).startswith("Err("):
                c.ob("set#error", n == "set" and not st and any("as_millis" in show(t) and x == "Err" for t, x in p.var.items()), "a time that does not fit must be refused", c.loc(f), repr(p)[:300])
                continue
            v = [show(a) for a in st[0].args] if len(st) == 1 else None
            w[n].append(1)
            c.ob(n, p.kind == "ret" and v and st[0].name.endswith(("store", "swap")) and v[0] in S and v[1] == ("0" if n == "reset" else "Duration::as_millis($0)"), "the time set must be the one given, in milliseconds; none after a reset", c.loc(f), repr(p)[:300])
        c.ob(n + "#n", len(w[n]), "no time can be set", c.loc(f))
    c.ob("time#one", len(S) == 1, "the time must be read where it is written", c.loc(T_ + "get_time"), str(S))
    m = "tryint(u64, Duration::as_millis($0))"
    c.table("to_int", c.paths(T_ + "duration_to_int"), [(m + " is Err", "Err(_)"), (m + " is Ok", "Ok(Duration::as_millis($0))")])
    c.table("from_int", c.paths(T_ + "duration_from_int"), [("", "Duration::from_millis($0)")])
    for s in S:
        i = re.search(r"static ([\w:]+)", s)[1]
        c.table("none at first", c.paths(i), [("", lambda p: re.fullmatch(r"Atomic(U64)?::new\(0\)(@\d+)?", sret(p)))])


def conversions(c):
    P = T_ + "Time::"
    for n, w in (("as_duration_since_epoch", "$0.time"), ("as_secs_since_epoch", "Duration::as_secs($0.time)"), ("from_duration_since_epoch", "Time{time: $0}"), ("from_secs_since_epoch", "Time{time: Duration::from_secs($0)}")):
        c.table(n, c.paths(P + n), [("", w)])
    s = "tryint(i64, Duration::as_secs($0.time))"
    x = "LocalResult::single(TimeZone::timestamp_opt(Utc, Duration::as_secs($0.time), Duration::subsec_nanos($0.time)))"
    c.table("absolute", c.paths(P + "as_absolute_time"), [(s + " is Err", "None"), (s + " is Ok", f"{x} || Some({x}.Some.0) || None")])
    n, t = "eq(0, DateTime::timestamp_subsec_nanos($0))", "DateTime::timestamp($0)"
    c.table("from_absolute", c.paths(P + "from_absolute_time"), [("!" + n, "None"), (f"{n} & tryint(u64, {t}) is Err", "None"), (f"{n} & tryint(u64, {t}) is Ok", f"Some(Time{{time: Duration::from_secs({t})}})")])
    for tr, f, w in (("Ord", "cmp", "cmp($0.time, $1.time)"), ("PartialOrd", "partial_cmp", "Some(cmp($0.time, $1.time)) || Some(cmp($0, $1))")):
        c.table(f, c.paths(f"<{T_}Time as core::cmp::{tr}>::{f}"), [("", w)])


def getters(c):
    for k, src in (("", "time::get_time()"), ("Monotonic", "Instant::now()")):
        N = f"{k}TimeGetter"
        g = G + N + "::"
        c.table(N + "::new", c.paths(g + "new"), [("", N + "{f: $0}")])
        c.every(N + "::get_time", c.paths(g + "get_time"), lambda p: p.kind == "ret" and sret(p) == f"{N}Fn::get_time($0.f)" and len(p.events) == 1, "a getter must ask its function")
        c.table(N + "::getter", c.paths(g + "getter"), [("", "$0.f")])
        c.table(N + "::clone", c.paths(f"<{G}{N} as core::clone::Clone>::clone"), [("", f"{N}{{f: $0.f}} || $0")])
        c.table(N + "::shallow", c.paths(f"<{G}{N} as utils::shallow_clone::ShallowClone>::shallow_clone"), [("", f"{N}{{f: $0.f}} || $0")])
        d = [sret(p) for p in c.paths(f"<{G}{N} as core::default::Default>::default")]
        m = re.fullmatch(rf"{N}\{{f: (\w+)\}}", d[0]) if len(d) == 1 else None
        c.ob(N + "::default", m, "the default getter must have the default function", c.loc(f"<{G}{N} as core::default::Default>::default"), str(d)[:200])
        if m:
            f = f"<{G}{m[1]} as {G}{N}Fn>::get_time"
            c.every(N + "#default", c.paths(f, stop=T_ + "get_time$"), lambda p: p.kind == "ret" and len(p.events) == 1 and p.ret is p.events[0].res and sret(p).split("@")[0] == src, "the default getter must tell the time of its clock")


def regtest(c):
    f = "node_lib::mock_time::set_mock_time"
    for p in c.paths(f, stop=T_):
        st = [e for e in p.events if e.name.startswith(T_)]
        if holds(p, "$0 is Regtest"):
            ok = len(st) == 1 and st[0].name == T_ + "set" and show(st[0].args[0]) == "Duration::from_secs($1)" and p.kind == "ret" and (sret(p) == "Ok(())") == (p.var.get(st[0].res) == "Ok")
            c.ob("regtest", ok, "on regtest the time asked for must be set", c.loc(f), repr(p)[:300])
        else:
            c.ob("others", not st and p.kind == "ret" and sret(p).startswith("Err("), "on other chains the time must not be set", c.loc(f), repr(p)[:300])
    for i, u in c.F.callers(f"^{T_}(set|reset)$"):
        if "::tests::" in i or "test_utils" in i or u != T_ + "set":
            continue
        c.ob("only", i == f, "only the guarded function may set the time of a node", c.loc(i), i)
    n = 0
    for i, u in c.F.callers(f"^{f}$", crates={"node_lib"}):
        n += 1
        for p in c.paths(i, stop=rf"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|node_lib::runner::)|node_lib::runner::(start|initialize)$|{f}"):
            for e in evs(p, f"^{f}$"):
                a = show(e.args[0])
                c.ob("chain", re.fullmatch(r"ChainConfig::chain_type\((.*)\)", a) and "ChainType::" not in a, "the chain must be that of the node", c.loc(i), a[:200])
    c.ob("chain#n", n, "nobody sets the time", c.loc(f))


PARTS = [source, conversions, getters, regtest]
