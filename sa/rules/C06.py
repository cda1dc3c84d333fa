"""Script limits: size of a script, of an element, of the stacks, of numbers, and the counts of a multisignature check."""
from ..rule import *
from ..scriptvm import *
from .C07 import entry
CRATES = ["script"]
MAXS, MAXE, MAXN, MAXK = "Context::MAX_SCRIPT_SIZE", "Context::MAX_SCRIPT_ELEMENT_SIZE", "Context::MAX_STACK_ELEMENTS", "Context::MAX_PUBKEYS_PER_MULTISIG"


def loops(c):
    for f, both in ((I + "run_script", True), (I + "run_pushdata", False)):
        seen = {}
        for p in c.paths(f, stop=OPQ):
            s = Step(p, entry)
            loc = c.loc(f)
            if p.kind == "panic":
                continue
            script = s.within(MAXS, s.k.lin(mk("len", p.m.project(mk("arg", 1), ("f", "0")))))
            c.ob("script", script is not None and (s.ret == "Err(Error::ScriptSize)") == (script is False), "a script must be run exactly if it is no longer than the limit", loc, repr(s)[:300])
            seen[("script", script)] = 1
            if s.var.get("NEXT.Some.0.Ok.0") == "PushBytes":
                data = next(t for t in list(p.var) if s.txt(t) == "NEXT.Some.0.Ok.0")
                el = s.within(MAXE, s.k.lin(s.R(mk("len", mk("fld", data, "PushBytes", "0")))))
                c.ob("element", el is not None and (s.ret == "Err(Error::PushSize)") == (el is False), "data must be taken, executed or not, exactly if it is no longer than the limit", loc, repr(s)[:400])
                seen[("element", el)] = 1
            if p.kind == "back":
                vs = [p.m.project(s.raw[r], ("f", "0")) for r in (("S", "A") if both else ("A",)) if r in s.raw]
                st = s.within(MAXN, s.size(*vs))
                c.ob("stack", len(vs) == 1 + both and st is True, "after every instruction the stacks together must hold no more elements than the limit", loc, repr(s)[:400])
                seen[("stack", st)] = 1
            if s.ret == "Err(Error::StackSize)":
                big = any(len([k for k in g if MAXN in k]) == 1 and g[[k for k in g if MAXN in k][0]] == -1 and g.get("", 0) <= -1 + 10**6 for g in s.facts())
                c.ob("stack#err", big, "the stacks are refused only for exceeding the limit", loc, repr(s)[:400])
                seen[("stack", False)] = 1
        for k in ("script", "element", "stack"):
            for v in (True, False):
                c.ob(f"both#{k}", seen.get((k, v)), f"{k} size may be within the limit and above it", c.loc(f), str(sorted(map(str, seen))))


def multisig(c):
    f = I + "run_script"
    n = 0
    for p in c.paths(f, stop=OPQ):
        s = Step(p, entry)
        loc = c.loc(f)
        op = s.var.get("CLASS.Signature.0", "")
        multi = "MULTISIG" in op
        K = "read_scriptint(top(S, 1)).Ok.0"
        fs = s.facts()
        kmin = any({K: 1} == g or {f"cast(usize, {K})": 1} == g for g in simpd(fs)) or s.truth.get(f"lt(-1, {K})") or s.truth.get(f"lt({K}, 0)") is False or s.var.get(f"tryint(usize, {K})") == "Ok"
        calls = [e for e in p.events if e.name.endswith("check_multisig")]
        N_ = f"read_scriptint(nth(stk(S, 1, ()), 1 + {K})).Ok.0"
        simple = simpd(fs)
        atom = lambda g, x: next((k for k in g if k == x or k == f"cast(usize, {x})"), None)
        klim = any(any(MAXK in k for k in g) and atom(g, K) and g[atom(g, K)] == -1 and g.get("", 0) == 0 for g in simple)
        kout = any(any(MAXK in k for k in g) and atom(g, K) and g[atom(g, K)] == 1 and g.get("", 0) == -1 for g in simple)
        kneg = s.truth.get(f"lt(-1, {K})") is False or s.truth.get(f"lt({K}, 0)") or s.var.get(f"tryint(usize, {K})") == "Err"
        nmin = s.truth.get(f"lt(-1, {N_})") or s.truth.get(f"lt({N_}, 0)") is False or s.var.get(f"tryint(usize, {N_})") == "Ok"
        nneg = s.truth.get(f"lt(-1, {N_})") is False or s.truth.get(f"lt({N_}, 0)") or s.var.get(f"tryint(usize, {N_})") == "Err"
        nlim = any(atom(g, N_) and atom(g, K) and g[atom(g, N_)] == -1 and g[atom(g, K)] == 1 and not g.get("", 0) and len(g) == 2 for g in simple)
        nout = any(atom(g, N_) and atom(g, K) and g[atom(g, N_)] == 1 and g[atom(g, K)] == -1 and g.get("", 0) == -1 and len(g) == 3 for g in simple)
        if calls and multi:
            n += 1
            c.ob("keys", kmin and klim, "the number of keys must be between zero and the limit", loc, repr(s)[:600])
            c.ob("sigs", nmin and nlim, "the number of signatures must be between zero and the number of keys", loc, repr(s)[:600])
        if s.ret == "Err(Error::PubkeyCount)":
            c.ob("keys#err", kneg or kout, "a number of keys is refused only outside of the limit", loc, repr(s)[:600])
        if s.ret == "Err(Error::SigCount)":
            c.ob("sigs#err", nneg or nout, "a number of signatures is refused only outside of the limit", loc, repr(s)[:600])
    c.ob("multisig", n, "multisignature checks", c.loc(f))


def simpd(fs):
    return [{simp(re.sub(r"sym\((\w+)\)", r"\1", k)).replace("S.0", "S"): v for k, v in g.items()} for g in fs]


def numbers(c):
    f = "script::script::read_scriptint_size"
    n = set()
    for p in c.paths(f):
        t = {show(k): v for k, v in p.truth.items()}
        big = t.get("lt($1, len($0))")
        if p.kind == "ret":
            bad = sret(p) == "Err(Error::NumericOverflow)"
            c.ob("number", bad == (big is True) and (bad or big is False or t.get("eq(0, len($0))")), "a number must be refused exactly if it is longer than allowed", c.loc(f), repr(p)[:300])
            n.add(bad)
    c.ob("number#both", n == {True, False}, "numbers may be too long", c.loc(f))
    f = "script::script::read_scriptint"
    for p in c.paths(f, stop="read_scriptint_size"):
        r = simp(sret(p))
        q = "script::read_scriptint_size($0, 4)"
        q = r if r == "read_scriptint_size($0, 4)" else q
        c.ob("four", r in ("read_scriptint_size($0, 4)", "script::read_scriptint_size($0, 4)") or r in (f"Err({q}.Err.0)", f"Ok({q}.Ok.0)") , "an operand is a number of at most four bytes", c.loc(f), repr(p)[:300])
    f = I + "run_script"
    k = 0
    for p in c.paths(f, stop=OPQ):
        s = Step(p, entry)
        op = s.var.get("CLASS.TimeLock.0")
        for e in p.events:
            if e.name.endswith("read_scriptint_size"):
                k += 1
                c.ob("five", s.txt(e.args[1]) == "5", "a lock time is a number of at most five bytes", c.loc(f), str(e)[:200])
    c.count("lock times", k, 1)


def defaults(c):
    for n, v in (("MAX_SCRIPT_ELEMENT_SIZE", 520), ("MAX_STACK_ELEMENTS", 1000)):
        f = f"script::context::Context::{n}"
        for p in c.paths(f):
            c.ob(n, sret(p) == str(v), f"{n} must be {v}", c.loc(f), sret(p))


PARTS = [loops, multisig, numbers, defaults]
