"""Signature checks in scripts: which keys and signatures are handed to the check, with which part of the script, what the result does to
the stack, and the matching of signatures to keys in order."""
from ..rule import *
from ..scriptvm import *
from .C07 import entry
CRATES = ["script"]
NK = "read_scriptint(top(S, 1)).Ok.0"
NS = f"read_scriptint(nth(stk(S, 1, ()), 1 + {NK})).Ok.0"


def norm_(s):
    s = s.replace(NS, "NS").replace(NK, "NK")
    s = re.sub(r"cast\(usize, (NS|NK)\)", r"\1", s)
    s = re.sub(r"map\((iter\((?:[^()]|\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\))*\)), (?:fn Cow::as_ref|closure<[^>]*>\(\))\)", r"\1", s)
    s = re.sub(r"((?:NS|NK|\d+)(?: \+ (?:NS|NK|\d+))+)", lambda m: " + ".join(sorted(m[1].split(" + "))), s)
    return s


REST = {"cut(stk(S, 1, ()), (%s))" % ", ".join(x) for x in __import__("itertools").permutations(("(, 1)", "(NS, 1)", "(NK, 1)"))}


def use(c):
    f = I + "run_script"
    got = {}
    for p in c.paths(f, stop=OPQ):
        s = Step(p, entry)
        op = s.var.get("CLASS.Signature.0", "")
        if s.var.get("CLASS") != "Signature" or s.truth.get("eq(0, E.num_idle)") is not True:
            c.ob("idle", not any(e.name.endswith("check_multisig") for e in p.events), "signatures are checked only by executed signature operations", c.loc(f), repr(s)[:300])
            continue
        loc = c.loc(f)
        cs = [e for e in p.events if e.name.endswith("check_multisig")]
        multi, isv = "MULTISIG" in op, op.endswith("VERIFY")
        ver = s.truth.get("Signature::is_verify(CLASS.Signature.0)")
        if ver is not None and ver != isv:
            continue
        if not cs:
            c.ob("nocheck", p.kind != "back" and s.ret != "Err(Error::VerifyFail)", "a signature operation must check the signatures", loc, repr(s)[:300])
            continue
        a = [norm_(s.txt(x)) for x in cs[0].args]
        want = ["$0", "iter(tops(stk(S, 1, ()), 1 + NK + NS, 1 + NK))", "iter(tops(stk(S, 1, ()), NK, 0))", "SUB", "CS"] if multi else ["$0", "iter([top(S, 2)])", "iter([top(S, 1)])", "SUB", "CS"]
        c.ob("args", len(cs) == 1 and a == want and op != "", "the signatures below the keys must be checked against the keys on the stack and the current subscript", loc, f"{op} {a}")
        R = f"check_multisig({', '.join(a)})"
        st = {norm_(k): v for k, v in s.var.items()}
        tr = {norm_(k): v for k, v in s.truth.items()}
        res = f"{R}.Ok.0"
        if st.get(R) == "Err":
            c.ob("error", p.kind == "ret" and norm_(s.ret) == f"Err({R}.Err.0)", "a malformed key must fail the script", loc, repr(s)[:300])
            continue
        base = next(iter(x for x in REST if f"eq(0, len(top({x}, 1)))" in tr), None)
        dummy = tr.get(f"eq(0, len(top({base}, 1)))") if multi else True
        push = [f"own(build_scriptint(b2i({res})))"] + ([f"own(build_scriptint({int(tr[res])}))"] if res in tr else [])
        v = next((tr[f"read_scriptbool({x})"] for x in push if f"read_scriptbool({x})" in tr), tr.get(res))
        if p.kind == "back":
            b, n = (base, 1) if multi else ("S", 2)
            after = {f"stk({b}, {n}, ({x}))" for x in push} if not isv else {f"stk({b}, {n}, ())"}
            c.ob("result", dummy is True and norm_(s.next["S"]) in after and (not isv or v is True), "the operands must be replaced by the result of the check, which a verifying operation requires to be true", loc, f"{op} {norm_(s.next['S'])[:300]} {dummy} {v}")
            got[op] = 1
        elif p.kind == "ret":
            r = s.ret
            good = r == "Err(Error::StackSize)" and dummy is True and (not isv or v) or r == "Err(Error::NullDummy)" and multi and dummy is False or r == "Err(Error::VerifyFail)" and isv and v is False or r == "Err(Error::NotEnoughElementsOnStack)" and any(x == "None" for x in s.var.values()) or r == "Err(Error::NotEnoughElementsOnStack)" and any(x and k.startswith("lt(len(") for k, x in s.truth.items())
            c.ob("fail", good, "a checked signature operation fails only for a failed verification or a dummy that is not empty", loc, repr(s)[-300:])
    c.ob("all", set(got) == {"OP_CHECKSIG", "OP_CHECKSIGVERIFY", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY"}, "every signature operation must be executable", c.loc(f), str(sorted(got)))


def matching(c):
    f = I + "check_multisig"
    NEXT = "core::iter::traits::iterator::Iterator::next"
    got = set()
    for p in c.paths(f, stop=OPQ.replace("check_multisig|", "")):
        loc = c.loc(f)

        def role(t):
            n = 0
            while t.tag == "phi" and t in p.phi and n < 9:
                t, n = p.phi[t], n + 1
            while t.tag == "iter":
                t = t.args[0]
            return {"$1": "sig", "$2": "key"}.get(show(t))
        SIG = KEY = None
        for e in p.events:
            if e.name == NEXT or e.name.endswith("::next"):
                r = role(e.args[0])
                if r == "sig":
                    SIG = e
                elif r == "key":
                    KEY = e
        nm = {}
        for e, n in ((SIG, "SIG"), (KEY, "KEY")):
            if e is not None:
                nm[show(e.res)] = n
        for t in p.phi:
            if role(t):
                nm[show(t)] = role(t) + "s"

        def tx(t):
            s = show(t)
            for k in sorted(nm, key=len, reverse=True):
                s = s.replace(k, nm[k])
            return s
        var = {tx(t): v for t, v in p.var.items()}
        tr = {tx(t): v for t, v in p.truth.items()}
        P, G = "Context::parse_pubkey($0, KEY.Some.0)", "Context::parse_signature($0, Context::parse_pubkey($0, KEY.Some.0).Ok.0, SIG.Some.0)"
        VF = f"Context::verify_signature($0, {G}.Some.0, $3, $4)"
        r = tx(p.ret) if p.kind == "ret" else p.kind
        few = next((v for k, v in tr.items() if k in ("lt(len(keys), add(1, len(out0[SIG])))", "lt(len(keys), len(sigs))")), None)
        if few is None:
            few = next((not v for k, v in tr.items() if k in ("lt(len(out0[SIG]), len(keys))",)), None)
        parsed = P in var
        if parsed:
            c.ob("enough", few is False and var.get("SIG") == "Some", "a key is tried only for a signature while enough keys are left", loc, repr(p)[:500])
        if r == "panic":
            c.ob("panic", any("ovf(add, usize" in k and v for k, v in tr.items()) or few is False and var.get("KEY") == "None", "no panic", loc, repr(p)[:300])
        elif r == "Ok(true)":
            c.ob("true", var.get("SIG") == "None", "a check succeeds only if every signature was matched", loc, repr(p)[:400])
            got.add("true")
        elif r == "Ok(false)":
            c.ob("false", var.get("SIG") == "Some" and (few or var.get("KEY") == "None"), "a check fails when fewer keys than signatures are left", loc, repr(p)[:400])
            got.add("false")
        elif r == "Err(Error::PubkeyFormat)":
            c.ob("format", var.get(P) == "Err", "only a malformed key is an error", loc, repr(p)[:400])
            got.add("format")
        elif r == "back":
            ok = var.get(P)
            accept = ok == "Reserved" or ok == "Ok" and var.get(G) == "Some" and tr.get(VF) is True
            nx = {(role(t), tx(v)) for t, v in p.next.items() if role(t) and v is not t}
            c.ob("verified", ok in ("Reserved", "Ok") and (accept or ok == "Ok" and (var.get(G) == "None" or tr.get(VF) is False)), "each key tried decides by verifying the signature over the subscript and its index", loc, repr(p)[:500])
            want = {("key", "out0[KEY]")} | ({("sig", "out0[SIG]")} if accept else set())
            c.ob("order", nx == want, "a matched signature goes on with the next signature and the next key, an unmatched one with the next key", loc, f"{nx} {repr(p)[:400]}")
            got.add(("matched" if ok == "Ok" else ok) if accept else "unmatched")
        else:
            c.ob("other", False, "unexpected outcome of a signature check", loc, repr(p)[:300])
    c.ob("both", got == {"true", "false", "format", "matched", "Reserved", "unmatched"}, "every outcome", c.loc(f), str(got))


PARTS = [use, matching]
