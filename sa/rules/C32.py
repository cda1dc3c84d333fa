"""Logging is transparent: the TapLog methods and functions under #[log_error] return what they were given, report exactly the
errors, at the level named; tasks are spawned once with exactly the future given."""
from ..rule import *
from ..terms import *
from .C28 import awaited
CRATES = ["utils", "mlwitness"]
T = "<core::result::Result<T, E> as utils::tap_log::TapLog>::"
W = "mlwitness::logerr::"
STOP = "log_utils::log(_pfx)?$|logerr::a?body$"
LOG = r"log_utils::log(_pfx)?$"


def logs(p):
    return [e for e in p.events if re.search(LOG, e.name)]


def tap(c):
    for f, level, pfx in (("log_err", "Level::Error", None), ("log_err_pfx", "Level::Error", "$1"), ("log_warn", "Level::Warn", None),
                          ("log_warn_pfx", "Level::Warn", "$1"), ("log_lvl", "$1", None), ("log_lvl_pfx", "$1", "$2")):
        ps = c.paths(T + f, stop=STOP)
        c.table(f, ps, [("$0 is Ok", lambda p: same(p) and not logs(p)), ("$0 is Err", lambda p, level=level, pfx=pfx: same(p) and written(p, "$0.Err.0", level, pfx))])


def same(p):
    return sret(p) in ("$0", f"{p.var.get(mk('arg', 0))}($0.{p.var.get(mk('arg', 0))}.0)")


def written(p, what, level, pfx=None):
    es = logs(p)
    if len(es) != 1:
        return False
    a = [show(x) for x in es[0].args]
    if pfx is None and es[0].name.endswith("log"):
        return a[0] == what and a[2] == level
    return pfx is not None and es[0].name.endswith("log_pfx") and a[0] == what and a[1] == pfx and a[3] == level


def outcome(c, f, p, level):
    """the result is that of the body, and an error has been logged, once, at the level"""
    bs = [e for e in p.events if re.search(r"logerr::a?body$", e.name)]
    b = next((t for t in p.var if re.search(r"logerr::a?body\(", show(t))), None)
    loc = c.loc(W + f)
    c.ob(f + "#body", len(bs) == 1 and [show(a) for a in bs[0].args] == ["$1" if "method" in f else "$0"] and b is not None, "the body of the function must run exactly once, with its arguments", loc, repr(p)[:400])
    if b is None:
        return
    v, s = p.var[b], show(unphi(p, p.ret))
    c.ob(f + "#result", s in (show(b), f"{v}({show(b)}.{v}.0)") or v == "Ok" and s == "Ok(7)" and f.endswith("early"), "the function must return what its body returns", loc, repr(p)[:400])
    c.ob(f + "#log", v == "Err" and written(p, show(b) + ".Err.0", level) or v == "Ok" and not logs(p), "exactly an error must be logged, once, at the level named", loc, repr(p)[:500])


def macro(c):
    for f, level in (("plain", "Error"), ("early", "Error"), ("trace", "Trace"), ("debug", "Debug"), ("info", "Info"), ("warn", "Warn"), ("error", "Error")):
        ps = [p for p in c.paths(W + f, stop=STOP)]
        c.ob(f + "#paths", {"Ok", "Err"} <= {v for p in ps for v in p.var.values()}, "the body may succeed or fail", c.loc(W + f))
        for p in ps:
            c.ob(f + "#ret", p.kind == "ret", "the function must return what its body returns", c.loc(W + f), repr(p)[:300])
            if p.kind == "ret":
                outcome(c, f, p, "Level::" + level)
    for f, level in (("later", "Error"), ("later_early", "Warn"), ("Owner::<'a>::method", "Info")):
        seen = set()
        for p0 in c.paths(W + f, stop=STOP):
            if p0.kind != "ret":
                c.ob(f + "#ret", False, "calling the function must make its future", c.loc(W + f), repr(p0)[:300])
                continue
            for p in awaited(c, p0.ret, None, STOP):
                c.ob(f + "#ret", p.kind == "ret", "the function must return what its body returns", c.loc(W + f), repr(p)[:300])
                if p.kind == "ret":
                    outcome(c, f, p, "Level::" + level)
                    seen |= set(p.var.values())
        c.ob(f + "#paths", {"Ok", "Err"} <= seen, "the body may succeed or fail", c.loc(W + f))


def spawn(c):
    f = "utils::tokio_utils::"
    for n, ev, args in (("tokio_spawn", "tokio::task::spawn::spawn", ["$0"]), ("tokio_spawn_blocking", "tokio::task::blocking::spawn_blocking", ["$0"]),
                        ("tokio_spawn_in_current_tracing_span", "tokio::task::spawn::spawn", ["$0"]), ("tokio_spawn_in_tracing_span", "tokio::task::spawn::spawn", ["$0"]),
                        ("tokio_spawn_in_join_set", "tokio::task::join_set::JoinSet::<T>::spawn", ["$0", "$1"])):
        for p in c.paths(f + n):
            c.ob(n, p.kind == "ret" and [(e.name, [show(a) for a in e.args]) for e in p.events if not e.name.startswith("drop")] == [(ev, args)] and p.ret is p.events[0].res,
                 "exactly the future given must be spawned, once, and its handle returned", c.loc(f + n), repr(p)[:300])


def check(c):
    tap(c)
    macro(c)
    spawn(c)
