"""Helpers that pass things on: traversals yield every reachable item once and after its children, sorting and shuffling keep the
items, matrices address distinct cells, environment variables are read as documented, optional values are shown as they are."""
from ..rule import *
from ..terms import *
CRATES = ["utils", "logging"]
U = "utils::"
G = U + "graph_traversals::"


def traversal(c):
    clos = set()
    for n, roots in (("dag_depth_postorder_multiroot", "$0"), ("dag_depth_postorder", "[$0]")):
        for p in c.paths(G + n):
            m = p.kind == "ret" and re.fullmatch(r"from_fn::from_fn\(closure<(\S+?)>\(.*\)\)", sret(p))
            k = p.ret.args[1][0] if m else None
            ws = [show(x) for x in k.args[1]] if k is not None else []
            c.ob(n, sorted(ws) == sorted(["Vec::new()", f"iter({roots})", "emptymap()", "$1"]), "a traversal starts with the roots given and nothing visited", c.loc(G + n), sret(p)[:300])
            clos |= {m and m[1]}
    c.ob("one", len(clos) == 1, "one traversal", c.loc(G + "dag_depth_postorder"), str(clos))
    f = G + "dag_depth_postorder_multiroot::{closure#0}"
    got = set()
    for p in c.paths(f):
        es = p.events
        if p.kind not in ("ret", "back"):
            c.ob("panic", False, "a traversal must not panic", c.loc(f), repr(p)[:300])
            continue
        pops = [e for e in es if re.search(r"Vec.*::pop$", e.name)]
        push = [e for e in es if re.search(r"Vec.*::push$", e.name)]
        if any(p.var.get(e.res) == "None" and (show(e.args[0]).startswith("out0[Vec::push(") or holds(p, f"!eq(0, len({show(e.args[0])}))")) for e in pops):
            continue                                # an empty stack just after something was put onto it
        new = [e for e in es if e.name == "map.insert" and any(x == "None" and show(t) == f"mapget({show(e.args[0])}, {show(e.args[1])})" for t, x in p.var.items())]
        old = [show(e.args[1]) for e in es if e.name == "map.insert" and e not in new]
        root = "elem($0.^roots)"
        for e in es:
            if e.name == "apply" and show(e.args[0]) == "$0.^children":
                c.ob("children", any(e.args[1] is x.args[1] for x in new), "only items not yet visited may be entered, and they become visited", c.loc(f), repr(p)[:400])
        if any(show(e.args[1]) == root for e in new):
            got.add("root")
            c.ob("root", holds(p, "eq(0, len($0.^stack))"), "a root may only be entered when everything reachable before it was yielded", c.loc(f), repr(p)[:300])
        if p.kind == "ret" and sret(p) == "None":
            got.add("end")
            c.ob("end", holds(p, "eq(0, len($0.^stack))") and any(x[0] == "exh" and show(x[1]) == "iter($0.^roots)" for x in p.facts) and not new, "the traversal ends when roots and stack are exhausted", c.loc(f), repr(p)[:300])
            continue
        nx = [e for e in es if e.name.endswith("Iterator::next")]
        if not nx:                                  # on to the next root
            c.ob("skip", p.kind == "back" and old == [root] and not push, "only a visited root may be passed over", c.loc(f), repr(p)[:300])
            continue
        ch, r = nx[-1].args[0], nx[-1].res
        if p.var.get(r) == "None":
            got.add("yield")
            first = show(started(p, ch))
            src = [show(e.res) + ".Some.0" for e in pops]
            c.ob("yield", len(src) == 1 and sret(p) == f"Some({src[0]}.1)" and first in (src[0] + ".0", f"iter(apply($0.^children, {root}))"), "an item is yielded when it has no further children", c.loc(f), repr(p)[:300])
            continue
        x = show(r) + ".Some.0"
        rest = f"out0[{show(r)}]"
        enter = [e for e in new if show(e.args[1]) == x]
        lp = [e for e in push if show(e.args[1]).startswith(f"({rest}, ")]
        n = {show(v) for v in (p.next or {}).values()}
        if enter:
            got.add("enter")
            cur = show(lp[0].args[1])[len(rest) + 3:-1] if lp else ""
            starts = [show(started(p, t)) for t in (p.next or {}) if show(t) == cur]
            c.ob("enter", p.kind == "back" and len(lp) == 1 and starts and starts[0].endswith(".Some.0.1") and {f"iter(apply($0.^children, {x}))", x} <= n and [show(v) for t, v in (p.next or {}).items() if show(t) == cur] == [x],
                 "a child not visited is entered, its parent is kept with the remaining children", c.loc(f), repr(p)[:400])
        else:
            got.add("pass")
            c.ob("pass", p.kind == "back" and any(x_ == "Some" and show(t).startswith("mapget(") and show(t).endswith(f", {x})") for t, x_ in p.var.items()) and not lp and show((p.next or {}).get(ch, ch)) == rest and all(v is t or t is ch or show(v) in ("true", "false", f"mapset({show(t)}, {x}, ())") for t, v in (p.next or {}).items()),
                 "only a visited child is passed over, and nothing else", c.loc(f), repr(p)[:400])
    c.ob("all", got == {"root", "end", "yield", "enter", "pass"}, "every case", c.loc(f), str(got))


def order(c):
    for f, ev, w in (("<alloc::vec::Vec<T> as utils::sorted::Sorted<T>>::sorted", r"slice::.*::sort(_unstable)?$", ["$0"]), ("<alloc::vec::Vec<T> as utils::sorted::Sorted<T>>::sorted_by", r"slice::.*::sort(_unstable)?_by$", ["$0", "$1"]),
                     ("<T as utils::shuffled::Shuffled<Item>>::shuffled", "SliceRandom>?::shuffle$", ["$0", "$1"])):
        c.every(f.split("::")[-1], c.paths(f), lambda p: p.kind == "ret" and len(p.events) == 1 and re.search(ev, p.events[0].name) and [show(a) for a in p.events[0].args] == w and ("sort" not in f or "unstable" not in p.events[0].name)
                and sret(p) in (f"out0[{show(p.events[0].res)}]",), "the items must be kept, in the new order")


def matrix(c):
    A = U + "array_2d::Array2d"
    a, b = "mul($1, $0.cols_count)", "add($0.cols_count, mul($1, $0.cols_count))"
    ok = "!ovf(mul, usize, $1, $0.cols_count) & !ovf(add, usize, mul($1, $0.cols_count), $0.cols_count)"
    for n, w in (("Index", "slice($0.array, Range{{start: {}, end: {}}})"), ("IndexMut", "$0.array[Range{{start: {}, end: {}}}]")):
        f = f"<{A}<T> as core::ops::index::{n}<usize>>::{'index' if n == 'Index' else 'index_mut'}"
        k = 0
        for p in c.paths(f):
            if p.kind == "panic":
                c.ob(n + "#panic", holds(p, "!lt($1, $0.rows_count)") or p.msg.startswith("overflow"), "every row must be accessible", c.loc(f), repr(p)[:300])
                continue
            k += 1
            c.ob(n, holds(p, "lt($1, $0.rows_count)") and sret(p) in (w.format(a, b), f"slice($0.array, Range{{start: {a}, end: {b}}})"), "a row consists of its own cells", c.loc(f), repr(p)[:300])
        c.ob(n + "#n", k, "no row", c.loc(f))
    for p in c.paths(A + "::<T>::new"):
        if p.kind == "ret":
            c.ob("new", re.fullmatch(r"Array2d\{array: \S*from_elem\(\$2, mul\(\$0, \$1\)\), rows_count: \$0, cols_count: \$1\}", sret(p)), "a matrix has a cell for every row and column", c.loc(p.fid), sret(p)[:300])
        else:
            c.ob("new#panic", "overflow" in str(p.msg), "a matrix must be possible", c.loc(p.fid), repr(p)[:300])
    for x, w in (("rows", r"\S*chunks_exact\(\$0\.array, \$0\.cols_count\)"), ("rows_mut", r"\S*chunks_exact_mut\(\$0\.array, \$0\.cols_count\)"), ("rows_count", r"\$0\.rows_count"), ("cols_count", r"\$0\.cols_count")):
        c.every(x, c.paths(A + "::<T>::" + x), lambda p: p.kind == "ret" and re.fullmatch(w, sret(p)), "rows are as many cells as there are columns")


def senders(c):
    S = U + "sender_with_id::MpscUnboundedSenderWithId::<Id, T>::"
    c.table("sender::new", c.paths(S + "new"), [("", "MpscUnboundedSenderWithId{id: $0, sender: $1}")])
    for p in c.paths(S + "send"):
        e = p.events
        c.ob("send", p.kind == "ret" and len(e) == 1 and e[0].name.endswith("UnboundedSender::<T>::send") and [show(a) for a in e[0].args] == ["$0.sender", "($0.id, $1)"], "a message is sent with the id, once", c.loc(p.fid), repr(p)[:300])
        r = show(e[0].res) if e else "?"
        c.ob("send#result", sret(p) == ("Ok(())" if holds(p, r + " is Ok") else f"Err(SendError({r}.Err.0.0.1))") or sret(p) == f"Ok({r}.Ok.0)", "a message that cannot be sent is given back", c.loc(p.fid), repr(p)[:300])
    c.every("is_closed", c.paths(S + "is_closed"), lambda p: sret(p) == "UnboundedSender::is_closed($0.sender)", "a sender is closed if its channel is")
    c.every("closed", c.paths(S + "closed::{closure#0}"), lambda p: p.kind == "ret" and any(e.name == "await" and show(e.args[0]) == "UnboundedSender::closed($0.^self.sender)" for e in p.events), "a sender is closed if its channel is")


def environment(c):
    f = "logging::utils::get_from_env"
    v = next((show(e.res) for p in c.paths(f) for e in p.events if e.name == "std::env::var"), "var($0)")
    e = v + ".Err.0"
    c.table("env", c.paths(f), [(v + " is Ok", f"Ok(Some({v}.Ok.0))"), (f"{v} is Err & {e} is NotPresent", "Ok(None)"), (f"{v} is Err & {e} is NotUnicode", "Err(_)")])
    for p in c.paths(f):
        c.ob("env#name", [show(x.args[0]) for x in p.events if x.name == "std::env::var"] == ["$0"], "the variable asked for must be read", c.loc(f), repr(p)[:300])
    v = "utils::get_from_env($0)"
    s = f"logging::utils::get_from_env$"
    c.table("utils env", c.paths(U + "env_utils::get_from_env", stop=s), [(v + " is Err", f"Err(_)"), (v + " is Ok", f"Ok({v}.Ok.0)")])
    f = U + "env_utils::bool_from_env"
    x = v + ".Ok.0.Some.0"
    yes, no = ["1", "yes", "true"], ["0", "no", "false"]
    seen = set()
    for p in c.paths(f, stop=s):
        r = sret(p) if p.kind == "ret" else "panic"
        if holds(p, v + " is Err"):
            c.ob("bool#err", r.startswith("Err("), "a failure must be reported", c.loc(f), repr(p)[:300])
        elif holds(p, v + ".Ok.0 is None"):
            c.ob("bool#none", r == "Ok(None)", "a variable not set has no value", c.loc(f), repr(p)[:300])
        else:
            t = {}
            for k, b in p.truth.items():
                m = re.fullmatch(r"(?:str::)?eq_ignore_ascii_case\((.*), '(\w+)'\)|(?:str::)?eq_ignore_ascii_case\('(\w+)', (.*)\)", show(k))
                if m:
                    c.ob("bool#value", (m[1] or m[4]) in (x, f"&{x}"), "the value of the variable decides", c.loc(f), show(k)[:200])
                    t[m[2] or m[3]] = b
            hit = [w for w, b in t.items() if b]
            if hit:
                seen |= set(hit)
                c.ob("bool#true", len(hit) == 1 and r == ("Ok(Some(true))" if hit[0] in yes else "Ok(Some(false))" if hit[0] in no else "?"), "1, yes, true mean true, 0, no, false false, in any case", c.loc(f), repr(p)[:400])
            else:
                c.ob("bool#other", set(t) == set(yes + no) and r.startswith("Err("), "other values must be refused", c.loc(f), repr(p)[:400])
    c.ob("bool#all", seen == set(yes + no), "all the documented values", c.loc(f), str(seen))


def shown(c):
    W = U + "displayable_option::DisplayableOptionWrapper"
    c.table("as_displayable", c.paths("<core::option::Option<T> as utils::displayable_option::DisplayableOption<T>>::as_displayable"), [("", "DisplayableOptionWrapper($0)")])
    for t, x in (("Display", "{$0.0.Some.0}"), ("LowerHex", "{lower_hex($0.0.Some.0)}"), ("UpperHex", "{upper_hex($0.0.Some.0)}")):
        displayed(c, "option " + t, f"<{W}<'_, T> as core::fmt::{t}>::fmt", [("$0.0 is None", "None"), ("$0.0 is Some", x)])
    C = U + "const_value::ConstValue"
    c.table("const new", c.paths(C + "::<T>::new"), [("", "ConstValue{value: $0}")])
    c.table("const take", c.paths(C + "::<T>::take"), [("", "$0.value")])
    c.table("const from", c.paths(f"<{C}<T> as core::convert::From<T>>::from"), [("", "ConstValue{value: $0}")])
    for t, n, w in (("core::cmp::Ord", "cmp", "cmp($0.value, $1.value)"), ("core::cmp::PartialOrd", "partial_cmp", "Some(cmp($0.value, $1.value))"), ("core::cmp::PartialEq", "eq", "eq($0.value, $1.value)"), ("core::convert::AsRef<T>", "as_ref", "$0.value"), ("core::ops::deref::Deref", "deref", "$0.value"), ("core::clone::Clone", "clone", "ConstValue{value: $0.value}")):
        c.every("const " + n, c.paths(f"<{C}<T> as {t}>::{n}"), lambda p: p.kind == "ret" and (sret(p) == w or n == "eq" and sret(p) in ("true", "false") and holds(p, ("" if sret(p) == "true" else "!") + w)), "a constant is its value")


PARTS = [traversal, order, matrix, senders, environment, shown]
