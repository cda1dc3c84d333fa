"""Script acceptance: a lock accepts a witness exactly if the witness only pushes data, the lock runs on what it pushed, and exactly one
element is left that reads as true."""
from ..rule import *
from ..scriptvm import *
from .C07 import entry
CRATES = ["script"]


def accept(c):
    f = I + "verify_witness_lock"
    W, L = "run_pushdata($0, $1)", "run_script($0, $2, run_pushdata($0, $1).Ok.0)"
    V = f"Stack::verify({L}.Ok.0)"
    want = {f"Err({W}.Err.0)", f"Err({L}.Err.0)", "ok"}
    got = set()
    for p in c.paths(f, stop=OPQ + "|run_script|run_pushdata|Stack.*::verify"):
        r = simp(sret(p)) if p.kind == "ret" else p.kind
        v = {simp(show(t)): x for t, x in p.var.items()}
        if r == V or r == f"Err({V}.Err.0)" and v.get(V) == "Err" or r == "Ok(())" and v.get(V) == "Ok":
            r = "ok" if r != f"Err({V}.Err.0)" else "err"
            good = v.get(W) == "Ok" and v.get(L) == "Ok"
        else:
            good = r in want and (v.get(W) == "Err" if r == f"Err({W}.Err.0)" else v.get(L) == "Err")
        c.ob("accept", good, "a witness satisfies a lock exactly if the witness's pushes run the lock to one true element", c.loc(f), repr(p)[:500])
        got.add(r)
    c.ob("accept#all", want <= got, "acceptance must depend on witness, lock and the final stack", c.loc(f), str(got))


def clean(c):
    f = I + "Stack::<'a>::verify"
    got = set()
    for p in c.paths(f, stop=OPQ):
        one = next((v for t, v in p.truth.items() if show(t) in ("eq(1, len($0.0))",)), None)
        b = next((v for t, v in p.truth.items() if re.fullmatch(r"script::read_scriptbool\((\$0\.0\[0\]|Vec::pop\(\$0\.0\)\.Some\.0)\)", show(t).replace("script::script::", "script::"))), None)
        ok = p.kind == "ret" and sret(p) == "Ok(())"
        if p.kind == "panic":
            c.ob("clean#panic", one and any("lt(0, len" in show(t) for t in p.truth), "no panic", c.loc(f), repr(p)[:300])
            continue
        c.ob("clean", ok == bool(one and b) and (ok or one is False or b is False), "the final stack must hold exactly one element, and that must be true", c.loc(f), repr(p)[:400])
        got.add(ok)
    c.ob("clean#both", got == {True, False}, "a final stack may be accepted or refused", c.loc(f), str(got))


def pushonly(c):
    f = I + "run_pushdata"
    got = set()
    for p in c.paths(f, stop=OPQ):
        s = Step(p, entry)
        loc = c.loc(f)
        if p.phi:
            c.ob("push#state", any(r == "IT" for r in s.roles) and any(r in "SA" for r in s.roles), "a witness must be run from its start on an empty stack", loc, str({show(k): show(v) for k, v in p.phi.items()}))
        cls, it = s.var.get("CLASS"), s.var.get("NEXT.Some.0.Ok.0")
        if s.var.get("NEXT") == "None":
            c.ob("push#end", p.kind == "ret" and s.ret == "Ok(A)", "the witness's stack must be passed on", loc, repr(s)[:300])
            got.add("end")
        elif s.var.get("NEXT.Some.0") == "Err":
            c.ob("push#parse", p.kind == "ret" and s.ret == "Err(NEXT.Some.0.Err.0)", "a witness that does not parse must be refused", loc, repr(s)[:300])
        elif p.kind == "panic":
            c.ob("push#panic", any("ovf(add, usize" in k for k in s.truth), "no witness may panic the interpreter", loc, repr(s)[:300])
        elif p.kind == "back":
            c.ob("push#next", s.next.get("IT") == "out0[NEXT]", "every push of the witness counts, in order", loc, repr(s)[:300])
            want = "own(DATA)" if it == "PushBytes" else "own(build_scriptint(CLASS.PushNum.0))" if cls == "PushNum" else None
            c.ob("push#item", s.next.get("A") == f"stk(A, 0, ({want}))", "a witness may only push data and small numbers", loc, repr(s)[:400])
            got.add(it)
        elif s.ret == "Err(Error::PushOnly)":
            c.ob("push#only", it == "Op" and cls != "PushNum", "only an operation that pushes nothing is refused", loc, repr(s)[:300])
            got.add("only")
        else:
            c.ob("push#err", s.ret in ("Err(Error::PushSize)", "Err(Error::StackSize)", "Err(Error::ScriptSize)"), "a witness may be refused only for its size", loc, repr(s)[:300])
    c.ob("push#all", {"end", "PushBytes", "Op", "only"} <= got, "witnesses push data and numbers", c.loc(f), str(got))


def truthy(c):
    f = "script::script::read_scriptbool"
    LAST = r"(?:\$0\[sub\(len\(\$0\), 1\)\]|last\(\$0\)\.Some\.0)"
    REST = {"skip(rev(iter($0)), 1)", "skip(1, rev(iter($0)))", "take(iter($0), sub(len($0), 1))", "iter(slice($0, Range{start: 0, end: sub(len($0), 1)}))", "iter(slice($0, RangeTo{end: sub(len($0), 1)}))",
            "iter($0[RangeTo{end: sub(len($0), 1)}])", "iter($0[Range{start: 0, end: sub(len($0), 1)}])", "range(0, sub(len($0), 1))"}
    got = set()
    for p in c.paths(f):
        t = {show(k): v for k, v in p.truth.items()}
        loc = c.loc(f)
        empty = t.get("eq(0, len($0))")
        z, s = (next((v for k, v in t.items() if re.fullmatch(rf"eq\({n}, {LAST}\)", k)), None) for n in (0, 128))
        # the sign bit masked off
        if z is None and s is None:
            z = next((v for k, v in t.items() if re.fullmatch(rf"eq\(0, bitand\(127, {LAST}\)\)", k)), None)
        exh = [show(x) for k, *a in p.facts_of("exh") for x in a] if hasattr(p, "facts_of") else [m for m in REST if f"exh({m})" in repr(p)]
        elem = next((v for k, v in t.items() if re.fullmatch(r"eq\(0, (elem\(.*\)|\$0\[elem.*\])\)", k)), None)
        if p.kind == "panic":
            c.ob("bool#panic", empty is None or empty is False, "reading a truth value must not panic", loc, repr(p)[:300])
        elif p.kind == "back":
            c.ob("bool#loop", elem is True, "a value is zero only if all its bytes are", loc, repr(p)[:300])
        elif sret(p) == "false":
            c.ob("bool#false", empty or (z or s) and exh, "a value is false only if it is empty or all zeros but for the sign", loc, repr(p)[:400])
            got.add(False)
        elif sret(p) == "true":
            c.ob("bool#true", empty is not True and (elem is False or z is False and s is not True), "a value is true only if some bit other than the sign is set", loc, repr(p)[:400])
            got.add(True)
        else:
            c.ob("bool?", False, "unexpected result", loc, repr(p)[:300])
    c.ob("bool#both", got == {True, False}, "true and false", c.loc(f), str(got))


PARTS = [accept, clean, pushonly, truthy]
