"""Subsystem calls: a mutating call runs alone, under the write lock of the subsystem, to its end; a read-only one in a task of
its own under the read lock; each call is handed over once and its result, or the lack of one, comes back to the caller."""
from ..rule import *
from ..vf import Machine
from ..terms import *
CRATES = ["subsystem", "utils"]
H, S, BH = "subsystem::calls::handle::Handle::<T>::", "subsystem::calls::handle::SubmitOnlyHandle::<T>::", "subsystem::calls::blocking::BlockingHandle::<T>::"
TASK = "subsystem::task::subsystem"


def awaited(c, t, args, stop=None):
    """the paths of calling a closure and awaiting what it returns (None: the term is a future itself)"""
    m = Machine(c.F, inline=lambda i: not stop or not re.search(stop, i))
    st = m.fresh()
    if args is None:
        from ..vf import Frame
        ps = m.explore(m.act(st, ("call", mk("fnref", "core::convert::identity", (), "core::convert::identity", ()), [t], lambda m2, s, v: m2.M.await_value(m2, s, v))))
    else:
        ps = m.explore(m.act(st, ("call", t, args, lambda m2, s, v: m2.M.await_value(m2, s, v))))
    c.fns |= m.visited
    return ps


def ev(p, rx):
    return [e for e in p.events if re.search(rx, e.name)]


def names(e):
    return [show(a) for a in e.args]


def root(p, t):
    """what a value that is changed on the way started as"""
    for _ in range(40):
        if t in p.phi:
            t = p.phi[t]
        elif t.tag in ("out", "outv") or show(t).startswith("out"):
            m = re.match(r"out(\d+)\[", show(t))
            call = next((x for x in t.args if hasattr(x, "tag") and x.tag == "call"), None)
            if not m or call is None:
                return t
            t = call.args[1][int(m[1])]
        else:
            return t
    return t


def select(p):
    """the futures of the select this path is in: [term], and the index of the one that completed"""
    for ph, init in p.phi.items():
        if init.tag == "tup" and len(init.args[0]) > 1:
            a = [e for e in p.events if e.name == "await" and re.match(re.escape(show(ph)) + r"\.\d+$", show(e.args[0]))]
            if a:
                return list(init.args[0]), int(show(a[0].args[0]).rsplit(".", 1)[1]), p.events.index(a[0])
    return None, None, None


def loops(c):
    """the task of a subsystem"""
    f = TASK
    mut = ref = bg = 0
    for p in c.paths(f, mode="async"):
        lock = ev(p, r"RwLock::<T>::new$")
        apps, bgs = ev(p, r"^apply$"), ev(p, r"perform_background_work_unit$")
        spawn = ev(p, r"JoinSet::<T>::(spawn\w*)$|::spawn::spawn\w*$")
        use = ev(p, r"Subsystem::interface_(ref|mut)$")
        c.ob("one state", len(lock) <= 1 and all(names(e) == ["await($1).Ok.0"] for e in lock), "there is one state of the subsystem, behind one lock", c.loc(f), repr(p)[:300])
        L = show(lock[0].res) if lock else "?"
        W = f"await(RwLock::write({L}))"
        fs, i, at = select(p)
        var = {show(t): v for t, v in p.var.items()}
        kind = next((v for t, v in var.items() if v in ("Mut", "Ref")), None)
        if kind is None:
            c.ob("no call", not apps and not spawn and not use, "only calls that were received are carried out", c.loc(f), repr(p)[:300])
        elif kind == "Mut":
            mut += 1
            call = next(t for t, v in var.items() if v == "Mut") + ".Mut.0"
            x = [i for i, e in enumerate(p.events) if e.name == "await" and apps and show(e.args[0]) == show(apps[0].res)]
            good = len(apps) == 1 and not spawn and names(apps[0]) == [call, f"Subsystem::interface_mut({W})"] and len(x) == 1 and x[0] > p.events.index(apps[0])
            good = good and any(e.name == "await" and show(e.args[0]) == f"RwLock::write({L})" for e in p.events[:p.events.index(apps[0])])
            c.ob("mutating", good and not bgs and p.kind == "back", "a mutating call must run to its end under the write lock before anything else is taken up", c.loc(f), repr(p)[:600])
            # the lock is not let go before the call has ended
            drops = [i for i, e in enumerate(p.events) if e.name.startswith("drop ") and "WriteGuard" in e.name and good and i > p.events.index(apps[0])]
            c.ob("mutating#lock", good and all(i > x[0] for i in drops), "the write lock must be held until the call has ended", c.loc(f), str([e.name for e in p.events]))
        else:
            ref += 1
            call = next(t for t, v in var.items() if v == "Ref") + ".Ref.0"
            good = len(spawn) == 1 and not apps and not bgs and p.kind == "back" and show(root(p, spawn[0].args[0])) == "JoinSet::new()"
            if good:
                qs = awaited(c, spawn[0].args[1], None)
                good = len(qs) >= 1
                for q in qs:
                    a = ev(q, r"^apply$")
                    R_ = f"await(RwLock::read({L}))"
                    good = good and q.kind == "ret" and len(a) == 1 and names(a[0]) == [call, f"Subsystem::interface_ref({R_})"]
                    good = good and any(e.name == "await" and show(e.args[0]) == show(a[0].res) for e in q.events)
            c.ob("reading", good, "a read-only call must run in a task of its own, under the read lock", c.loc(f), repr(p)[:600])
        if kind is not None:
            got = fs[i] if fs and i is not None else None
            src = f"await({show(p.events[at].args[0])}).Some.0" if got is not None else "?"
            good = got is not None and show(got).startswith("UnboundedReceiver::recv(") and root(p, got.args[1][0]) == mk("arg", 2) and var.get(src) == kind
            c.ob("received", good, "a call must come from the channel of the subsystem", c.loc(f), repr(p)[:400])
        if bgs:
            bg += 1
            c.ob("background", len(bgs) == 1 and names(bgs[0]) == [W] and kind is None, "background work must be done under the write lock", c.loc(f), repr(p)[:400])
            qs = awaited(c, fs[i], None) if fs else []
            n = 0
            for q in qs:
                t = {show(k): v for k, v in q.truth.items()}
                has = t.get(f"Subsystem::has_background_work(await(RwLock::read({L})))")
                pend = any("pending" in show(e.args[0]) for e in q.events if e.name == "await")
                n += has is True
                c.ob("background#if", has is True and not pend or has is False and pend, "background work is done when there is some", c.loc(f), repr(q)[:300])
            c.ob("background#n", n, "background work is done when there is some", c.loc(f))
    for n, k in (("mutating", mut), ("reading", ref), ("background", bg)):
        c.ob(n + "#n", k, f"no path serves it ({n})", c.loc(f))


def sent(c, name, f, kind, base, check, fn="$1"):
    """exactly one action of the given kind is sent, and what it does to the state"""
    n = 0
    for p in c.paths(f):
        if p.kind != "ret":
            c.ob(name + "#panic", blocking_panic(p), "submitting a call must not fail otherwise", c.loc(f), repr(p)[:300])
            continue
        n += 1
        s = ev(p, r"UnboundedSender::<T>::send$")
        ch = ev(p, r"oneshot::channel$")
        good = len(s) == 1 and show(s[0].args[0]) == base + ".action_tx" and s[0].args[1].tag == "adt" and s[0].args[1].args[1] == kind
        c.ob(name, good, "exactly one action of the right kind must be sent to the subsystem", c.loc(f), repr(p)[:300])
        if not good:
            continue
        ok = {show(t): v for t, v in p.var.items()}.get(show(s[0].res))
        act = s[0].args[1].args[3][0]
        state = mk("sym", "state")
        if show(act) == fn:  # the closure itself
            c.ob(name + "#as is", not check, "the action must answer the caller", c.loc(f))
        else:
            qs = awaited(c, act, [state])
            c.ob(name + "#runs", qs, "the action must run", c.loc(f))
            for q in qs:
                a = ev(q, r"^apply$")
                w = [show(e.args[0]) for e in q.events if e.name == "await"]
                good = q.kind == "ret" and len(a) == 1 and names(a[0]) == [fn, "sym(state)"]
                c.ob(name + "#once", good, "the given procedure must be called once with the state of the subsystem", c.loc(f), repr(q)[:300])
                if not good:
                    continue
                val = show(a[0].res)
                if fn_async(f):
                    val = f"await({val})"
                    c.ob(name + "#await", val[6:-1] in w, "the procedure must run to its end", c.loc(f), repr(q)[:300])
                if check:
                    r = ev(q, r"oneshot::Sender::<T>::send$")
                    c.ob(name + "#answer", len(ch) == 1 and len(r) == 1 and names(r[0]) == [show(ch[0].res) + ".0", val], "the result must be sent to the caller", c.loc(f), repr(q)[:400])
        check and check(c, name, f, p, ok, show(ch[0].res) if ch else "?")
        if not check:
            c.ob(name + "#result", sret(p) in {"Ok": ("Ok(())", f"Ok({show(s[0].res)}.Ok.0)"), "Err": ("Err(SubmissionError::ChannelClosed)",)}.get(ok, ()), "the caller must know whether the call was handed over", c.loc(f), repr(p)[:300])
    c.ob(name + "#n", n, "nothing is ever sent", c.loc(f))


def fn_async(f):
    return "_async" in f


def blocking_panic(p):
    t = {show(k): v for k, v in p.truth.items()}
    return any(v is False and ("RuntimeFlavor::MultiThread" in k or "is_missing_context" in k) for k, v in t.items())


def answered(c, name, f, p, ok, ch):
    want = {"Ok": f"CallResult(Ok(CallResponse({ch}.1)))", "Err": "CallResult(Err(SubmissionError::ChannelClosed))"}.get(ok)
    c.ob(name + "#result", want == sret(p), "the caller must get the receiver of the answer, or the failure to submit", c.loc(f), repr(p)[:300])


def waited(c, name, f, p, ok, ch):
    r = ev(p, r"oneshot::Receiver::<T>::blocking_recv$")
    var = {show(t): v for t, v in p.var.items()}
    if ok == "Err":
        good = sret(p) == "Err(CallError::Submission(SubmissionError::ChannelClosed))" and not r
    else:
        got = show(r[0].res) if len(r) == 1 and names(r[0]) == [f"{ch}.1"] else "?"
        good = {"Ok": f"Ok({got}.Ok.0)", "Err": "Err(CallError::Response(ResponseError::NoResponse))"}.get(var.get(got)) == sret(p)
    c.ob(name + "#result", good, "the caller must get the answer, or know that there is none", c.loc(f), repr(p)[:300])


def handles(c):
    for n, k in (("submit_async_mut", "Mut"), ("submit_async", "Ref"), ("submit_mut", "Mut"), ("submit", "Ref")):
        sent(c, n, S + n, k, "$0", None)
    for n, k in (("call_async_mut", "Mut"), ("call_async", "Ref"), ("call_mut", "Mut"), ("call", "Ref")):
        sent(c, n, H + n, k, "$0.0", answered)
        sent(c, "blocking " + n, BH + n, k, "$0.0.0", waited)
    c.every("as_submit_only", c.paths(H + "as_submit_only"), lambda p: sret(p) == "$0.0", "the handle must stay with its subsystem")
    c.every("handle", c.paths(BH + "handle"), lambda p: sret(p) == "$0.0", "the handle must stay with its subsystem")
    for t, n in (("subsystem::calls::handle::Handle<T>", "Handle($0.0)"), ("subsystem::calls::handle::SubmitOnlyHandle<T>", "SubmitOnlyHandle{action_tx: $0.action_tx}"), ("subsystem::calls::blocking::BlockingHandle<T>", "BlockingHandle($0.0)")):
        for tr in ("core::clone::Clone>::clone", "utils::shallow_clone::ShallowClone>::shallow_clone"):
            c.every("clone", c.paths(f"<{t} as {tr}"), lambda p: sret(p) in ("$0", n, "Handle(SubmitOnlyHandle{action_tx: $0.0.action_tx})", "BlockingHandle(Handle(SubmitOnlyHandle{action_tx: $0.0.0.action_tx}))"), "a clone must belong to the same subsystem")


def results(c):
    R_ = "<subsystem::calls::CallResult<T> as core::future::future::Future>::poll"
    def res(p):
        v = {show(t): x for t, x in p.var.items()}
        r = sret(p)
        if v.get("$0.0") == "Err":
            return r == "Ready(Err(CallError::Submission($0.0.Err.0)))"
        return {"Ok": "Ready(Ok(await($0.0.Ok.0).Ok.0))", "Err": "Ready(Err(CallError::Response(ResponseError::NoResponse)))"}.get(v.get("await($0.0.Ok.0)")) == r or \
            v.get("await($0.0.Ok.0)") == "Err" and r == "Ready(Err(CallError::Response(await($0.0.Ok.0).Err.0)))"
    c.every("poll result", c.paths(R_), res, "the caller must get the answer, or know that there is none")
    def resp(p):
        v = {show(t): x for t, x in p.var.items()}.get("await($0.0)")
        return {"Ok": "Ready(Ok(await($0.0).Ok.0))", "Err": "Ready(Err(ResponseError::NoResponse))"}.get(v) == sret(p)
    c.every("poll response", c.paths("<subsystem::calls::CallResponse<T> as core::future::future::Future>::poll"), resp, "the caller must get the answer, or know that there is none")
    c.every("response", c.paths("subsystem::calls::CallResult::<T>::response"), lambda p: sret(p) == "$0.0", "the response is that of the call")
    W = "<subsystem::wrappers::Direct<T> as subsystem::subsystem::Subsystem>::"
    for n in ("interface_ref", "interface_mut"):
        c.every(n, c.paths(W + n), lambda p: sret(p) == "$0.0", "calls to a directly added object must reach it")


PARTS = [loops, handles, results]
