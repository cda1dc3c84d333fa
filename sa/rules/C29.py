"""Event delivery: a broadcast reaches every subscriber, in order and once; subscribers are dropped only when closed; the event
controller calls handlers one at a time, in order, and waiting for events waits until every handler has returned."""
from ..rule import *
from ..vf import Machine
from ..terms import *
CRATES = ["utils", "utils-networking", "rpc"]
B = "utils_networking::broadcaster::Broadcaster::<T>::"
R = "utils_networking::broadcaster::Receiver::<T>::"
EC = "utils::eventhandler::EventsController::<E>::"
ACQ, REL = ("Ordering::Acquire", "Ordering::SeqCst", "Ordering::AcqRel"), ("Ordering::Release", "Ordering::SeqCst", "Ordering::AcqRel")


def exhausted(p, of):
    return any(x[0] == "exh" and show(x[1]) == f"iter({of})" for x in p.facts)


def closure(c, t, args):
    m = Machine(c.F, inline=lambda i: True)
    ps = m.run_closure(t, args)
    c.fns |= m.visited
    return ps


def keep(c, e):
    """what the predicate of a retain does: 'send' (sends the value, keeps iff that worked), 'open' (keeps iff not closed), 'all'"""
    s = mk("sym", "sender")
    if e.args[1].tag != "clos" or any(show(x) != "$1" for x in e.args[1].args[1]):
        return None  # keeps state between subscribers
    ps = closure(c, e.args[1], [s])
    kinds = set()
    for p in ps:
        r = sret(p)
        send = [x for x in p.events if x.name.endswith("UnboundedSender::<T>::send")]
        v = {show(t): x for t, x in list(p.var.items()) + list(p.truth.items())}
        if p.kind != "ret":
            return None
        if send:
            if [show(x) for x in send[0].args] != ["sym(sender)", "$1"] or len(send) > 1:
                return None
            ok = v.get("UnboundedSender::send(sym(sender), $1)")
            if (ok, r) not in (("Ok", "true"), ("Err", "false")) and not (ok is None and r == "true"):
                return None
            kinds.add("send")
        elif r == "not(UnboundedSender::is_closed(sym(sender)))" or (v.get("UnboundedSender::is_closed(sym(sender))"), r) in ((True, "false"), (False, "true")):
            kinds.add("open")
        else:
            return None
    return kinds.pop() if len(kinds) == 1 else None


def retained(c, p, name, f, base="$0.senders"):
    """the subscribers after a path: base, filtered by acceptable predicates"""
    rs = [e for e in p.events if e.name.endswith("::retain")]
    ks = []
    for e in rs:
        k = keep(c, e)
        ks.append(k)
        c.ob(name + "#retain", k, "subscribers may only be dropped when they are closed", c.loc(f), show(e.args[1]))
    others = [e.name for e in p.events if re.search(r"Vec::<T, A>::(clear|truncate|pop|remove|swap_remove|drain|insert|split_off)|dedup|append|extend|mem::(take|replace|swap)", e.name)]
    c.ob(name + "#others", not others, "subscribers may only be dropped when they are closed", c.loc(f), str(others))
    return ks


def broadcaster(c):
    c.every("new", c.paths(B + "new"), lambda p: "senders: Vec::new()" in sret(p), "a new broadcaster has no subscribers")
    f = B + "broadcast"
    full = 0
    for p in c.paths(f):
        if p.kind == "panic":
            c.ob("broadcast#panic", "ovf(" in repr(p), "broadcasting must not fail", c.loc(f), repr(p)[:200])
            continue
        sends = [e for e in p.events if e.name.endswith("UnboundedSender::<T>::send")]
        ks = retained(c, p, "broadcast", f)
        if p.kind == "back":
            c.ob("broadcast#each", len(sends) == 1 and [show(a) for a in sends[0].args] == ["elem($0.senders)", "$1"], "the value must be sent to every subscriber", c.loc(f), repr(p)[:300])
            continue
        loop = exhausted(p, "$0.senders")
        n = ks.count("send") + (1 if loop else 0)
        full += 1
        c.ob("broadcast", n == 1 and None not in ks, "the value must be sent exactly once to every subscriber", c.loc(f), repr(p)[:300] + str(ks))
    c.ob("broadcast#n", full, "broadcasting never ends", c.loc(f))
    for f, base in ((B + "subscribe_using", "$1"), (B + "subscribe", None)):
        for p in c.paths(f):
            if p.kind == "panic":
                c.ob("subscribe#panic", "ovf(" in repr(p), "subscribing must not fail", c.loc(f), repr(p)[:200])
                continue
            ps = [e for e in p.events if e.name.endswith("Vec::<T, A>::push")]
            ch = [e for e in p.events if e.name.endswith("unbounded_channel")]
            tx = "$1" if base else (show(ch[0].res) if ch else "?") + ".0"
            good = len(ps) == 1 and [show(a) for a in ps[0].args] == ["$0.senders", tx]
            if not base:
                good = good and len(ch) == 1 and sret(p) == f"Receiver({show(ch[0].res)}.1)"
            c.ob("subscribe", good, "the new subscriber must be added and get the other end of its channel", c.loc(f), repr(p)[:300])
            ks = retained(c, p, "subscribe", f)
            c.ob("subscribe#quiet", "send" not in ks, "subscribing sends nothing", c.loc(f))
    f = B + "purge"
    for p in c.paths(f):
        ks = retained(c, p, "purge", f)
        c.ob("purge", "send" not in ks, "purging sends nothing", c.loc(f))
    c.every("num", c.paths(B + "num_subscribers"), lambda p: sret(p) == "len($0.senders)", "the number of subscribers must be that of the senders")
    c.every("recv", c.paths(R + "recv", mode="async"), lambda p: re.fullmatch(r"await\(UnboundedReceiver::recv\(\$0\.0\)(@\d+)?\)(@\d+)?", sret(p)), "a receiver must give what its channel gives")
    c.every("blocking_recv", c.paths(R + "blocking_recv"), lambda p: re.fullmatch(r"UnboundedReceiver::blocking_recv\(\$0\.0\)(@\d+)?", sret(p)), "a receiver must give what its channel gives")
    c.every("into_stream", c.paths(R + "into_stream"), lambda p: sret(p) == "UnboundedReceiverStream::new($0.0)", "a receiver must give what its channel gives")


def controller(c):
    for f in (EC + "new", "<utils::eventhandler::EventsController<E> as core::default::Default>::default"):
        n = 0
        for p in c.paths(f):
            if p.kind == "panic":
                continue
            n += 1
            th = [[show(a) for a in e.args] for e in p.events if e.name.endswith("ThreadPool::set_threads")]
            v = {show(t): x for t, x in p.var.items()}
            c.ob("one thread", th == [["ThreadPool::new()", "1"]] and v.get("ThreadPool::set_threads(ThreadPool::new(), 1)") == "Ok" and "events_broadcaster: ThreadPool::new()" in sret(p) and "event_subscribers: Vec::new()" in sret(p), "handlers must run on one thread, one after another", c.loc(f), repr(p)[:300])
        c.ob("new#n", n, "no controller can be made", c.loc(f))
    # the pool is only given its thread there, and only broadcast gives it work
    owner = [g for g in c.F.ids() if g.startswith("utils::eventhandler::") or g.startswith("<utils::eventhandler::")]
    c.every("subscribe_to_events", c.paths(EC + "subscribe_to_events"), lambda p: [[show(a) for a in e.args] for e in p.events] == [["$0.event_subscribers", "$1"]] and p.events[0].name.endswith("::push"), "a handler must be added last")
    f = EC + "broadcast"
    n = 0
    for p in c.paths(f):
        if p.kind == "ret":
            c.ob("broadcast#all", exhausted(p, "$0.event_subscribers"), "every handler must get the event", c.loc(f), repr(p)[:300])
            continue
        if p.kind != "back":
            c.ob("broadcast#panic", False, "broadcasting must not fail", c.loc(f), repr(p)[:200])
            continue
        n += 1
        sp = [e for e in p.events if e.name.endswith("ThreadPool::spawn")]
        ups = [i for i, e in enumerate(p.events) if e.name.endswith("fetch_add") and show(e.args[0]) == "$0.wait_for_events.value" and show(e.args[1]) == "One::one()" and show(e.args[2]) in REL]
        downs = [e for e in p.events if "fetch_sub" in e.name or e.name.startswith("drop ")]
        good = len(sp) == 1 and len(ups) == 1 and ups[0] < p.events.index(sp[0]) and not downs and show(sp[0].args[0]) == "$0.events_broadcaster"
        c.ob("broadcast#one", good, "each event must be counted before it is handed over, once per handler", c.loc(f), str([e.name[-40:] for e in p.events]))
        if not good:
            continue
        for q in closure(c, sp[0].args[1], []):
            if q.kind == "panic":
                c.ob("call#panic", any(not v and re.match(r"lt\(0, Atomic::load\(\$0\.wait_for_events\.value", show(t)) for t, v in q.truth.items()), "delivering must not fail", c.loc(f), repr(q)[:300])
                continue
            ap = [i for i, e in enumerate(q.events) if e.name == "apply"]
            dr = [i for i, e in enumerate(q.events) if e.name.startswith("drop ") and "CountTracker" in e.name or "fetch_sub" in e.name]
            good = len(ap) == 1 and [show(a) for a in q.events[ap[0]].args] == ["elem($0.event_subscribers)", "$1"] and len(dr) == 1 and ap[0] < dr[0]
            c.ob("call", q.kind == "ret" and good, "the handler must be called once with the event, and only then be counted as done", c.loc(f), str([(e.name[-30:], [show(a) for a in e.args]) for e in q.events]))
    c.ob("broadcast#n", n, "no handler is ever called", c.loc(f))
    waits(c, EC + "wait_for_all_events", "$0.wait_for_events.value")


def waits(c, f, at):
    """returning means the counter was read as not positive, with acquire ordering"""
    n = 0
    for p in c.paths(f):
        loads = [e for e in p.events if e.name.endswith("::load")]
        ords = all(show(e.args[0]) == at and show(e.args[1]) in ACQ for e in loads)
        if p.kind == "back":
            c.ob("wait#again", loads and ords, "waiting must look at the counter again", c.loc(f), repr(p)[:200])
            continue
        n += 1
        z = r"(0|Zero::zero\(\))"
        l = rf"Atomic::load\({re.escape(at)}, Ordering::\w+\)(@\d+)?"
        good = loads and ords and any((not v and re.fullmatch(rf"lt\({z}, {l}\)", show(t))) or (v and re.fullmatch(rf"(eq\({z}, {l}\)|eq\({l}, {z}\)|le\({l}, {z}\))", show(t))) for t, v in p.truth.items())
        c.ob("wait", p.kind == "ret" and good, "waiting ends only when nothing is counted any more, and then sees all that was done", c.loc(f), repr(p)[:300])
    c.ob("wait#n", n, "waiting never ends", c.loc(f))


def counting(c):
    Z = "utils::blockuntilzero::BlockUntilZero"
    waits(c, Z + "::<T>::wait_for_zero", "$0.value")
    waits(c, f"<{Z}<T> as core::ops::drop::Drop>::drop", "$0.value")
    ev = lambda p: [(e.name.rsplit("::", 1)[-1], [show(a) for a in e.args]) for e in p.events if re.search(r"::(load|store|swap|fetch_\w+|compare_exchange\w*)$", e.name)]

    def one(p, op, at, o):
        x = ev(p)
        return len(x) == 1 and x[0][0] == op and x[0][1][0] == at and x[0][1][1] == "One::one()" and x[0][1][2] in o
    T_ = "utils::counttracker::CountTracker"
    c.every("count.new", c.paths(T_ + "::<T>::new"), lambda p: sret(p) == "CountTracker{source: $0}" and one(p, "fetch_add", "$0", REL + ("Ordering::Relaxed", "Ordering::Acquire")), "a tracker must count exactly one")
    c.every("count.drop", c.paths(f"<{T_}<T> as core::ops::drop::Drop>::drop"), lambda p: p.kind == "ret" and one(p, "fetch_sub", "$0.source", REL), "a dropped tracker must give back exactly one, publishing what was done before")
    c.every("count_one", c.paths(Z + "::<T>::count_one"), lambda p: sret(p) == "CountTracker{source: $0.value}" and one(p, "fetch_add", "$0.value", REL + ("Ordering::Relaxed", "Ordering::Acquire")), "counting must be on the counter waited for")
    c.every("zero", c.paths(Z + "::<T>::new"), lambda p: re.search(r"value: from\(T, Zero::zero\(\)\)", sret(p)), "the counter must start at zero")
    for f in (Z + "::<T>::value", T_ + "::<T>::value"):
        c.every("value", c.paths(f), lambda p: re.fullmatch(r"Atomic::load\(\$0\.(value|source), Ordering::(Acquire|SeqCst)\)(@\d+)?", sret(p)), "the counter must be read with acquire ordering")


def first(p, t):
    while t in p.phi:
        if (p.next or {}).get(t, t) != t:
            return mk("sym", "changed")
        t = p.phi[t]
    return t


def named(p, text):
    return next((t for t in p.phi if show(t) == text), mk("sym", text))


def subscriptions(c):
    """an RPC subscription passes on every event, in order, until a failure, which is reported"""
    f0 = "rpc::subscription::"
    for name, arg in (("connect_broadcast_filter_map", "filter"), ("connect_broadcast_map", "map"), ("connect_broadcast", "all")):
        f = f0 + name
        back = 0
        for p in c.paths(f, mode="async"):
            v = {show(t): x for t, x in p.var.items()}
            recv = [e for e in p.events if re.search(r"Receiver::<T>::recv$", e.name)]
            send = [e for e in p.events if e.name.endswith("SubscriptionSink::send")]
            r = sret(p)
            acc = v.get("await(PendingSubscriptionSink::accept($1))")
            got = [t for t in p.var if re.match(r"await\(Receiver::recv\(", show(t))]
            if p.kind == "ret" and r.startswith("Ok("):
                c.ob(name + "#end", acc == "Ok" and got and p.var[got[-1]] == "None" and not send, "a subscription ends only when there are no more events", c.loc(f), repr(p)[:300])
            elif p.kind == "back":
                back += 1
                ok = acc == "Ok" and len(recv) == 1 and show(p.phi.get(recv[0].args[0], recv[0].args[0])) == "$0" and got and p.var[got[-1]] == "Some"
                event = show(got[-1]) + ".Some.0" if got else "?"
                if arg == "all":
                    ok = ok and len(send) == 1 and "SubscriptionMessage::new(" in show(send[0].args[1]) and show(send[0].args[1]).endswith(f", {event}).Ok.0")
                else:
                    app = [e for e in p.events if e.name == "apply"]
                    ok = ok and len(app) == 1 and show(app[0].args[1]) in (event, f"({event})")
                    fn = first(p, app[0].args[0]) if ok else None
                    if ok and fn.tag == "clos" and arg == "map":
                        x = mk("sym", "event")
                        ok = [re.sub(r"phi<[^>]*>", lambda m: show(first(p, named(p, m[0]))), sret(q)) for q in closure(c, fn, [x])] == ["Some(apply($2, sym(event)))"]
                    else:
                        ok = ok and show(fn) == "$2"
                    if ok and (arg == "filter" or fn.tag == "clos"):
                        kept = p.var.get(app[0].res) if hasattr(app[0], "res") else None
                        ok = kept == "None" and not send or kept == "Some" and len(send) == 1 and show(send[0].args[1]).endswith(f", {show(app[0].res)}.Some.0).Ok.0")
                    elif ok:
                        ok = len(send) == 1 and show(send[0].args[1]).endswith(f", {show(app[0].res)}).Ok.0")
                if send:
                    ok = ok and v.get(f"await({show(send[0].res)})") == "Ok"
                c.ob(name, ok, "every event must be passed on, once, before the next is taken", c.loc(f), repr(p)[:700])
            else:
                c.ob(name + "#err", p.kind == "ret" and r.startswith("Err("), "a failure must be reported", c.loc(f), repr(p)[:300])
        c.ob(name + "#n", back, "nothing is ever passed on", c.loc(f))


PARTS = [broadcaster, controller, counting, subscriptions]
