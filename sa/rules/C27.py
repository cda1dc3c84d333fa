"""Shutdown of subsystems: every subsystem is started; the end of any of them, a trigger or a signal shuts all of them down, in
reverse order of registration, each awaited before the next; a subsystem stops taking calls, lets the running ones end, and then
shuts down, and always says that it is gone."""
from ..rule import *
from ..vf import Machine
from ..terms import *
from .C28 import awaited, ev, names, root, select
CRATES = ["subsystem", "utils"]
M = "subsystem::manager::manager_impl::"
TASK = "subsystem::task::subsystem"


def closure(c, t, args):
    m = Machine(c.F, inline=lambda i: True)
    ps = m.run_closure(t, args)
    c.fns |= m.visited
    return ps


def exhausted(p, of):
    return any(x[0] == "exh" and show(x[1]) == of for x in p.facts)


def handed(q, x, d):
    """the subsystem x with its task spawned"""
    sp = ev(q, r"tokio::task::spawn::spawn$")
    return len(sp) == 1 and names(sp[0]) == [x + ".task"] and d == f"SubsystemData{{full_name: {x}.full_name, task_shutdown_tx: {x}.task_shutdown_tx, task: {show(sp[0].res)}}}"


def started_all(c, p, coll, ps):
    """the collection of the running subsystems holds each registered one, in order, with its task spawned"""
    if coll in p.phi:  # filled in a loop
        if show(p.phi[coll]) != "Vec::new()" or not exhausted(p, "iter($0.subsystems)"):
            return False
        fill = [q for q in ps if q.kind == "back" and coll in (q.next or {}) and q.next[coll] != coll]
        for q in fill:
            push = ev(q, r"Vec::<T, A>::push$")
            its = [t for t, i in q.phi.items() if show(i) == "iter($0.subsystems)"]
            if len(push) != 1 or push[0].args[0] != coll or not handed(q, "elem($0.subsystems)", show(push[0].args[1])) or len(its) != 1 or show(q.next[its[0]]) != f"adv({show(its[0])})":
                return False
        rest = [q for q in ps if q.kind == "back" and coll in (q.next or {}) and q not in fill]
        return bool(fill) and not rest
    if not re.fullmatch(r"collect\(map\(iter\(\$0\.subsystems\), .*\)\)", show(coll)):
        return False
    clos = next((x for x in subterms(coll) if x.tag == "clos"), None)
    if clos is None or any(show(x) != "$0" for x in clos.args[1]):
        return False
    qs = closure(c, clos, [mk("sym", "data")])
    return bool(qs) and all(q.kind == "ret" and handed(q, "sym(data)", sret(q)) for q in qs)


def reverse(p):
    """(one subsystem of the loop that shuts them down, all of them, are all done, is the next one taken)"""
    for ph, t in p.phi.items():
        if show(t).startswith("rev("):
            x = inner(t)
            nx = (p.next or {}).get(ph)
            return f"elem({show(x)})", x, exhausted(p, show(t)), nx is not None and show(nx) == f"adv({show(ph)})"
    for e in ev(p, r"Vec::<T, A>::pop$"):
        if e.args[0] in p.phi:
            ph = e.args[0]
            nx = (p.next or {}).get(ph)
            return show(e.res) + ".Some.0", p.phi[ph], p.var.get(e.res) == "None", nx is not None and show(nx) == f"out0[{show(e.res)}]"
    return None, None, None, None


def joined(c, name, q, t, f):
    """the outcome of a joined task: a panic in it goes on"""
    v = {show(k): x for k, x in q.var.items()}
    if t.endswith(".Some.0") and v.get(t[:-7]) != "Some":
        return
    c.ob(name + "#seen", t in v or q.kind == "panic", "the outcome of a task must not be ignored", c.loc(f), repr(q)[:300])
    if v.get(t) != "Err":
        return
    p = f"JoinError::try_into_panic({t}.Err.0)"
    alive = q.kind != "panic"
    c.ob(name + "#panic", p in v and (v[p] == "Ok") == (not alive) and (alive or any(e.name.endswith("resume_unwind") and names(e) == [p + ".Ok.0"] for e in q.events)), "a panic in a task must not be swallowed", c.loc(f), repr(q)[:300])


def main(c):
    f = M + "Manager::main"
    back = done = 0
    ps = c.paths(f, mode="async")
    for p in ps:
        names_ = [e.name for e in p.events]
        flag = [i for i, e in enumerate(p.events) if e.name.endswith("watch::Sender::<T>::send_modify") and show(e.args[0]) == "$0.shutdown_initiated_tx"]
        sends = [i for i, e in enumerate(p.events) if e.name.endswith("oneshot::Sender::<T>::send")]
        fs, i, at = select(p)
        own = [i for i, e in enumerate(p.events) if (e.name == "core::mem::drop" or e.name.startswith("drop ")) and names(e) == ["$0.shutdown_trigger_tx"]]
        waits = [i for i, e in enumerate(p.events) if e.name == "await"]
        shut = p.kind == "ret" or bool(sends)
        if at is not None:
            good = own and own[0] < at
            c.ob("own sender", good, "the manager must not wait for itself", c.loc(f), str(names_))
            t = show(fs[i])
            good = t.startswith("UnboundedReceiver::recv($0.shutdown_trigger_rx)") or t.startswith("async<subsystem::manager::shutdown_signal::external_shutdown")
            c.ob("trigger", good, "shutdown starts on a trigger or a signal", c.loc(f), t)
        if not shut:
            c.ob("not yet", not flag and not sends, "shutdown starts on a trigger or a signal", c.loc(f), repr(p)[:300])
            continue
        # the wait itself, when the select is written by hand
        rec = [j for j in waits if "shutdown_trigger_rx" in show(p.events[j].args[0]) or at is not None and j == at]
        good = rec and len(flag) == 1 and rec[0] < flag[0]
        c.ob("flag", good, "the shutdown flag must be set once shutdown has been asked for", c.loc(f), repr(p)[:300])
        if good:
            for q in closure(c, p.events[flag[0]].args[1], [mk("sym", "flag")]):
                s = [e for e in q.events if e.name.endswith("SetFlag::set")]
                c.ob("flag#set", (len(s) == 1 and names(s[0]) == ["sym(flag)"]) or "sym(flag){" in show(q.out(mk("sym", "flag"))), "the shutdown flag must be set", c.loc(f), repr(q)[:300])
        x, coll, end, step = reverse(p)
        c.ob("reverse", x is not None and started_all(c, p, coll, ps), "each registered subsystem must be started, and shut down last one first", c.loc(f), repr(p)[:300])
        if p.kind == "ret":
            done += 1
            c.ob("all", end and not sends, "all subsystems must be shut down before the manager ends", c.loc(f), repr(p)[:300])
            continue
        # one subsystem being shut down
        back += p.kind == "back"
        good = len(sends) == 1 and flag and flag[0] < sends[0] and x is not None
        c.ob("one by one", good, "each subsystem is told to shut down, last registered first", c.loc(f), repr(p)[:300])
        if not good:
            continue
        c.ob("one by one#of", names(p.events[sends[0]]) == [x + ".task_shutdown_tx", "()"], "each subsystem is told to shut down, last registered first", c.loc(f), str(names(p.events[sends[0]])))
        if p.kind == "back":
            c.ob("one by one#next", step, "no subsystem may be left out", c.loc(f))
        after = [p.events[j] for j in waits if j > sends[0]]
        tm = {show(t): v for t, v in p.var.items()}.get("$0.config.value.shutdown_timeout_per_subsystem")
        if tm == "None":
            good = len(after) == 1 and names(after[0]) == [x + ".task"]
            c.ob("awaited", good, "the subsystem must be awaited before the next one is told", c.loc(f), str([names(e) for e in after]))
            if good:
                joined(c, "awaited", p, f"await({x}.task)", f)
        else:
            to = [e for e in p.events if e.name == "tokio::time::timeout::timeout"]
            good = len(after) == 1 and len(to) == 1 and names(after[0]) == [show(to[0].res)] and show(to[0].args[0]) == "$0.config.value.shutdown_timeout_per_subsystem.Some.0"
            c.ob("awaited#time", good and tm == "Some", "the subsystem must be awaited for the configured time", c.loc(f), str([names(e) for e in after])[:400])
            for q in awaited(c, to[0].args[1], None) if good else ():
                a = [e for e in q.events if e.name == "await"]
                c.ob("awaited#task", len(a) == 1 and names(a[0]) == [x + ".task"], "the subsystem must be awaited before the next one is told", c.loc(f), repr(q)[:300])
                joined(c, "awaited#task", q, f"await({x}.task)", f)
    c.ob("main#n", back and done, "nothing is ever shut down", c.loc(f))


def inner(t):
    """X of rev(iter(X))"""
    while t.tag in ("rev", "iter") or t.tag == "call":
        a = [x for x in t.args if hasattr(x, "tag")]
        s = show(t)
        if not (s.startswith("rev(") or s.startswith("iter(")) or not a:
            break
        t = a[0]
    return t


def task(c):
    f = TASK
    brk = back = ret = 0
    for p in c.paths(f, mode="async", stop=r"OnceDestructor::<F>::new$"):
        v = {show(t): x for t, x in p.var.items()}
        sets, locks = ev(p, r"JoinSet::<T>::new$"), ev(p, r"RwLock::<T>::new$")
        guard = [i for i, e in enumerate(p.events) if e.name.endswith("OnceDestructor::<F>::new")]
        init = [i for i, e in enumerate(p.events) if e.name == "await" and names(e) == ["$1"]]
        shut = [i for i, e in enumerate(p.events) if e.name.endswith("Subsystem::shutdown")]
        good = len(guard) == 1 and len(init) == 1 and guard[0] < init[0]
        c.ob("guard", good, "a subsystem must say that it is gone also if it fails to start or panics", c.loc(f), str([e.name for e in p.events])[:300])
        if good:
            g = p.events[guard[0]]
            for q in closure(c, g.args[0], []):
                s = ev(q, r"UnboundedSender::<T>::send$")
                c.ob("guard#says", q.kind == "ret" and len(s) == 1 and names(s[0]) == ["$4", "()"], "when a subsystem is gone the manager must be told", c.loc(f), repr(q)[:200])
            gone = [i for i, e in enumerate(p.events) if e.name.startswith("drop ") and names(e) == [show(g.res)] or e.name in ("core::mem::forget", "core::mem::drop") and show(g.res) in names(e)]
            if p.kind == "ret":
                c.ob("guard#last", len(gone) == 1 and all(i < gone[0] for i in shut + [i for i, e in enumerate(p.events) if e.name in ("await", "apply")]) and p.events[gone[0]].name.startswith("drop "), "a subsystem is gone only after its shutdown", c.loc(f), str([e.name for e in p.events])[:400])
            elif p.kind == "back":
                c.ob("guard#held", not gone, "a subsystem is gone only after its shutdown", c.loc(f), str([e.name for e in p.events])[:400])
        if v.get("await($1)") == "Err":
            ret += 1
            c.ob("init", p.kind == "ret" and not shut and not locks, "a subsystem that did not start does nothing", c.loc(f), repr(p)[:200])
            continue
        if v.get("await($1)") != "Ok":
            continue
        c.ob("one set", len(sets) == 1 and len(locks) == 1, "there is one state and one set of tasks", c.loc(f))
        fs, i, at = select(p)
        trig = next((j for j, t in enumerate(fs) if root(p, t) == mk("arg", 3)), None) if fs else None
        if fs:
            # the order of the branches: the trigger is looked at first, always
            tests = [show(t) for t in p.truth if re.match(r"eq\(\d+, rem\(", show(t))]
            c.ob("first", trig == 0 and all("select_start" not in t for t in tests), "shutdown must be looked at before anything else is taken up", c.loc(f), str(tests)[:200])
        hit = any(e.name == "await" and root(p, e.args[0]) == mk("arg", 3) for e in p.events) or fs and i == trig
        ending = bool(shut) or p.kind == "ret" or bool(ev(p, r"Arc::<T, A>::(try_unwrap|into_inner)$"))
        last = [e for e in p.events if e.name == "await" and show(e.args[0]).startswith("JoinSet::join_next(") and (at is None or p.events.index(e) > at)]
        if hit:
            brk += 1
            c.ob("no more calls", not ev(p, r"^apply$|::spawn$|perform_background_work_unit$"), "no call is taken up after shutdown was asked for", c.loc(f), repr(p)[:300])
            if p.kind == "back":
                back += 1
                good = len(last) == 1 and v.get(show_await(last[0])) == "Some" and show(root(p, last[0].args[0].args[1][0])) == "JoinSet::new()"
                c.ob("drain", good and not shut, "the running calls must be awaited", c.loc(f), repr(p)[:400])
            elif p.kind == "ret":
                ret += 1
                good = len(last) == 1 and v.get(show_await(last[0])) == "None" and show(root(p, last[0].args[0].args[1][0])) == "JoinSet::new()" and len(shut) == 1
                c.ob("drained", good, "shutdown runs once, after all running calls have ended", c.loc(f), repr(p)[:600])
                if good:
                    e = p.events[shut[0]]
                    a = [i for i, x in enumerate(p.events) if x.name == "await" and names(x) == [show(e.res)]]
                    lock = show(locks[0].res)
                    good = names(e) == [f"RwLock::into_inner(Arc::try_unwrap({lock}).Ok.0)"] or names(e) == [f"RwLock::into_inner(Arc::into_inner({lock}).Some.0)"]
                    c.ob("shutdown", good and len(a) == 1 and p.events.index(last[0]) < shut[0] < a[0], "the subsystem itself must be shut down, to the end", c.loc(f), repr(p)[:600])
        else:
            c.ob("not yet", not ending and not shut, "a subsystem goes on until it is told to shut down", c.loc(f), repr(p)[:300])
        # finished worker tasks
        for e in p.events:
            if e.name == "await":
                src = e.args[0]
                if show(src).startswith("JoinSet::join_next(") or fs and at is not None and e is p.events[at] and show(fs[i]).startswith("JoinSet::join_next("):
                    joined(c, "worker", p, show_await(e) + ".Some.0", f)
    c.ob("task#n", brk and back and ret >= 2, "no path shuts the subsystem down", c.loc(f))
    d = "<utils::once_destructor::OnceDestructor<F> as core::ops::drop::Drop>::drop"
    for p in c.paths(d):
        v = {show(t): x for t, x in p.var.items()}.get("$0.call_on_drop")
        a = ev(p, r"^apply$")
        c.ob("destructor", v == "Some" and len(a) == 1 and names(a[0])[0] == "$0.call_on_drop.Some.0" and p.kind == "ret" or v == "None" and not a, "a destructor must run once, when it is dropped", c.loc(d), repr(p)[:200])
    c.every("destructor.new", c.paths("utils::once_destructor::OnceDestructor::<F>::new"), lambda p: sret(p) == "OnceDestructor{call_on_drop: Some($0)}", "a destructor must hold what to run")


def show_await(e):
    return f"await({show(e.args[0])})"


def registration(c):
    for n, fut in (("add_custom_subsystem", None), ("add_subsystem", "$2"), ("add_direct_subsystem", "Direct($2)")):
        f = M + "Manager::" + n
        for p in c.paths(f):
            push = ev(p, r"Vec::<T, A>::push$")
            one, un = ev(p, r"oneshot::channel$"), ev(p, r"unbounded_channel$")
            good = p.kind == "ret" and len(push) == 1 and show(push[0].args[0]) == "$0.subsystems" and len(one) == 1 and len(un) == 1 and not [e for e in p.events if e.name.startswith("alloc::vec") and e is not push[0]]
            c.ob(n, good, "a subsystem must be registered last, once", c.loc(f), repr(p)[:300])
            if not good:
                continue
            d = push[0].args[1]
            g = {k: p.m.project(d, ("f", k)) for k in ("task", "task_shutdown_tx")}
            o, u = show(one[0].res), show(un[0].res)
            a = ev(p, r"^apply$")
            tk = g["task"]
            caps = list(tk.args[1]) if tk.tag == "coro" and tk.args[0] == TASK + "::{closure#0}" else []
            good = len(caps) == 5 and [show(x) for x in caps[2:]] == [u + ".1", o + ".1", "$0.shutdown_trigger_tx"] and show(g["task_shutdown_tx"]) == o + ".0"
            if fut is None:
                good = good and len(a) == 1 and names(a[0]) == ["$2", f"SubmitOnlyHandle{{action_tx: {u}.0}}", "$0.shutdown_initiated_rx"] and caps[1] == a[0].res
            elif good:
                qs = awaited(c, caps[1], None)
                good = [(q.kind, sret(q)) for q in qs] == [("ret", f"Ok({fut})")]
            c.ob(n + "#task", good, "the task of a subsystem must be connected to its channels and to the manager", c.loc(f), show(d)[:500])
            c.ob(n + "#handle", sret(p) == f"Handle(SubmitOnlyHandle{{action_tx: {u}.0}})", "the handle must be that of the subsystem", c.loc(f), sret(p))
    f = M + "Manager::new_with_config"
    for p in c.paths(f):
        un, wa = ev(p, r"unbounded_channel$"), ev(p, r"watch::channel$")
        good = p.kind == "ret" and len(un) == 1 and len(wa) == 1
        if good:
            u, w = show(un[0].res), show(wa[0].res)
            s = sret(p)
            good = all(x in s for x in (f"shutdown_trigger_tx: {u}.0", f"shutdown_trigger_rx: {u}.1", f"shutdown_initiated_tx: {w}.0", f"shutdown_initiated_rx: {w}.1", "subsystems: Vec::new()")) and re.search(r"config: (ConstValue\{value: )?\$0", s)
        c.ob("new", good, "both ends of the channels of a manager must belong together", c.loc(f), repr(p)[:400])
    c.every("trigger", c.paths(M + "Manager::make_shutdown_trigger"), lambda p: sret(p) == "ShutdownTrigger(UnboundedSender::downgrade($0.shutdown_trigger_tx))", "a trigger must trigger the shutdown of its manager, without keeping it waiting")
    f = M + "ShutdownTrigger::initiate"
    for p in c.paths(f):
        up = {show(t): v for t, v in p.var.items()}.get("WeakUnboundedSender::upgrade($0.0)")
        s = ev(p, r"UnboundedSender::<T>::send$")
        good = up == "None" and not s or up == "Some" and [names(e) for e in s] == [["WeakUnboundedSender::upgrade($0.0).Some.0", "()"]]
        c.ob("initiate", good and p.kind == "ret", "a trigger must trigger the shutdown", c.loc(f), repr(p)[:200])


def handle(c):
    f = "<subsystem::manager::manager_impl::ManagerJoinHandle as core::ops::drop::Drop>::drop"
    n = 0
    for p in c.paths(f):
        v = {show(t): x for t, x in p.var.items()}.get("$0.handle")
        pan = next((x for t, x in p.truth.items() if "panicking()" in show(t)), None)
        n += p.kind == "panic"
        c.ob("drop", {"Some": (p.kind == "panic") == (pan is not True), "None": p.kind == "ret"}.get(v), "a manager that nobody waits for must not go unnoticed", c.loc(f), repr(p)[:200])
    c.ob("drop#n", n, "a manager that nobody waits for must not go unnoticed", c.loc(f))
    f = M + "ManagerJoinHandle::join"
    for p in c.paths(f, mode="async"):
        v = {show(t): x for t, x in p.var.items()}.get("$0.handle")
        w = [names(e) for e in p.events if e.name == "await"]
        c.ob("join", v == "Some" and p.kind == "ret" and w == [["$0.handle.Some.0"]] or v == "None" and p.kind == "panic", "joining must wait for the manager", c.loc(f), repr(p)[:200])
    for n in ("main_in_task", "main_in_task_in_tracing_span"):
        f = M + "Manager::" + n
        for p in c.paths(f):
            sp = ev(p, r"tokio::task::spawn::spawn$")
            good = p.kind == "ret" and len(sp) == 1 and sret(p) == f"ManagerJoinHandle{{handle: Some({show(sp[0].res)})}}"
            c.ob(n, good, "the handle must be that of the running manager", c.loc(f), repr(p)[:300])
            if good:
                m = Machine(c.F, inline=lambda i: True, stop=r"Manager::main$")
                from ..vf import Machine as _
                qs = m.explore(m.act(m.fresh(), ("call", mk("fnref", "core::convert::identity", (), "core::convert::identity", ()), [sp[0].args[0]], lambda m2, s, v: m2.M.await_value(m2, s, v))))
                c.fns |= m.visited
                w = [[names(e) for e in q.events if e.name == "await"] for q in qs]
                c.ob(n + "#main", w == [[["Manager::main($0)"]]], "the manager must run in its task", c.loc(f), str(w))


PARTS = [main, task, registration, handle]
