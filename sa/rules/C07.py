"""Script operations: the class of every opcode, what each instruction does to the interpreter's state depending on whether its branch
is executed, the bookkeeping of conditionals, and the effect of every ordinary operation on the stack."""
from ..rule import *
from ..scriptvm import *
CRATES = ["script"]
OP = "script::opcodes::"

ILLEGAL = {101, 102, 126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153}
RETURN = {80, 98, 106, 137, 138} | set(range(186, 256))
NOOP = {97, 176} | set(range(179, 186))
NAMES = {99: "OP_IF", 100: "OP_NOTIF", 103: "OP_ELSE", 104: "OP_ENDIF", 105: "OP_VERIFY", 107: "OP_TOALTSTACK", 108: "OP_FROMALTSTACK", 109: "OP_2DROP", 110: "OP_2DUP", 111: "OP_3DUP", 112: "OP_2OVER", 113: "OP_2ROT",
         114: "OP_2SWAP", 115: "OP_IFDUP", 116: "OP_DEPTH", 117: "OP_DROP", 118: "OP_DUP", 119: "OP_NIP", 120: "OP_OVER", 121: "OP_PICK", 122: "OP_ROLL", 123: "OP_ROT", 124: "OP_SWAP", 125: "OP_TUCK", 130: "OP_SIZE",
         135: "OP_EQUAL", 136: "OP_EQUALVERIFY", 139: "OP_1ADD", 140: "OP_1SUB", 143: "OP_NEGATE", 144: "OP_ABS", 145: "OP_NOT", 146: "OP_0NOTEQUAL", 147: "OP_ADD", 148: "OP_SUB", 154: "OP_BOOLAND", 155: "OP_BOOLOR",
         156: "OP_NUMEQUAL", 157: "OP_NUMEQUALVERIFY", 158: "OP_NUMNOTEQUAL", 159: "OP_LESSTHAN", 160: "OP_GREATERTHAN", 161: "OP_LESSTHANOREQUAL", 162: "OP_GREATERTHANOREQUAL", 163: "OP_MIN", 164: "OP_MAX",
         165: "OP_WITHIN", 166: "OP_RIPEMD160", 167: "OP_SHA1", 168: "OP_SHA256", 169: "OP_HASH160", 170: "OP_HASH256", 171: "OP_CODESEPARATOR", 172: "OP_CHECKSIG", 173: "OP_CHECKSIGVERIFY", 174: "OP_CHECKMULTISIG",
         175: "OP_CHECKMULTISIGVERIFY", 177: "OP_CLTV", 178: "OP_CSV", 76: "OP_PUSHDATA1", 77: "OP_PUSHDATA2", 78: "OP_PUSHDATA4"}


def expected(code):
    if code in ILLEGAL:
        return "Class::IllegalOp"
    if code in RETURN:
        return "Class::ReturnOp"
    if code in NOOP:
        return "Class::NoOp"
    if code <= 75:
        return f"Class::PushBytes({code})"
    if code == 79 or 81 <= code <= 96:
        return f"Class::PushNum({-1 if code == 79 else code - 80})"
    n = NAMES[code]
    k = ("PushData" if code < 79 else "ControlFlow" if code in (99, 100, 103, 104, 171) else "AltStack" if code in (107, 108) else "Signature" if 172 <= code <= 175 else "TimeLock" if code in (177, 178) else "Ordinary")
    return f"Class::{k}({n})"


def at(t, code):
    """value of an integer term for one opcode, None when it depends on something else"""
    if t.tag == "int":
        return t.args[0]
    if show(t) in ("$0.code", "$0"):
        return code
    if t.tag == "cast":
        return at(t.args[1], code)
    if t.tag in ("add", "sub"):
        a, b = (at(x, code) for x in t.args)
        return None if a is None or b is None else a + b if t.tag == "add" else a - b
    return None


def truth(t, code):
    if t.tag == "ovf":
        a, b = at(t.args[-2], code), at(t.args[-1], code)
        r = INT_RANGE.get(str(t.args[1]))
        if a is None or b is None or r is None or t.args[0] not in ("add", "sub"):
            return None
        v = a + b if t.args[0] == "add" else a - b
        return not r[0] <= v <= r[1]
    if t.tag not in ("eq", "lt"):
        return None
    a, b = (at(x, code) for x in t.args)
    return None if a is None or b is None else a == b if t.tag == "eq" else a < b


def classes(c):
    f = OP + "All::classify"
    ps = c.paths(f)
    seen = 0
    for code in range(256):
        r = []
        for p in ps:
            v = [truth(t, code) for t in p.truth]
            if any(x is not None and x != y for x, y in zip(v, p.truth.values())):
                continue
            if p.kind != "ret":
                r.append("panic")
                continue
            s = sret(p)
            m = re.fullmatch(r"Class::(PushNum|PushBytes)\(.*\)", s)
            if m:
                n = at(p.ret.args[3][0], code)
                s = f"Class::{m[1]}({n})"
            r.append(re.sub(r"(Ordinary|Signature|ControlFlow|AltStack|PushData|TimeLock)::", "", s))
        seen += 1
        c.ob(f"class#{code}", r and set(r) == {expected(code)}, f"opcode {code} must be classified as {expected(code)}", c.loc(f), str(r))
    c.count("opcodes", seen, 256)
    for ty, yes in (("Ordinary", {"OP_VERIFY", "OP_EQUALVERIFY", "OP_NUMEQUALVERIFY"}), ("Signature", {"OP_CHECKSIGVERIFY", "OP_CHECKMULTISIGVERIFY"})):
        f = OP + ty + "::is_verify"
        got = set()
        for p in c.paths(f):
            v = next((x for t, x in p.var.items() if show(t) == "$0"), None)
            if p.kind == "ret" and sret(p) == "true":
                got.add(v)
            else:
                c.ob("verify", p.kind == "ret" and sret(p) == "false" and v not in yes, "a verifying operation must be recognised as such", c.loc(f), repr(p)[:200])
        c.ob("verify#set", got == yes, f"the verifying operations must be {sorted(yes)}", c.loc(f), str(got))


def entry(s):
    if re.fullmatch(r"(iter\()?Script::instructions_iter\(\$1, (true|Context::enforce_minimal_push\(\$0\)(@\d+)?)\)+", s):
        return "IT"
    return "SUB" if re.fullmatch(r"Instructions::subscript\(Script::instructions_iter\(\$1, .*\)\)|\$1\.0", s) else {"4294967295": "CS", "0": "N", "$2": "S"}.get(s) or ("E" if re.fullmatch(r"ExecStack\{stack: \S*, num_idle: 0\}", s) else "A" if re.fullmatch(r"Stack\(\S*\)", s) else None)


def steps(c):
    f = I + "run_script"
    ps = c.paths(f, stop=OPQ)
    r = []
    for p in ps:
        s = Step(p, entry)
        if p.phi:
            c.ob("state", {"IT", "SUB", "CS", "N", "E", "A", "S"} <= s.roles, "the interpreter must start with the given stack, empty alternate and conditional stacks, at the first instruction, with the whole script as subscript", c.loc(f), str({show(k): show(v) for k, v in p.phi.items()}))
        r.append(s)
    return f, r


def boolval(txt, cond, t):
    """integer expression over E.num_idle (taken as 100) with the 0/1 value t for the condition text"""
    s = txt.replace(f"b2i(not({cond}))", str(1 - t)).replace(f"b2i({cond})", str(t)).replace("E.num_idle", "100")
    if not re.fullmatch(r"(?:add|sub|\(|\)|,| |\d)+", s):
        return None
    return eval(s, {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "__builtins__": {}})


def negated(s):
    m = re.fullmatch(r"not\((.*)\)", s)
    return m[1] if m else f"not({s})"


def interp(c):
    f, ss = steps(c)
    got = {}
    for s in ss:
        p = s.p
        cls = s.var.get("CLASS")
        ex = s.truth.get("eq(0, E.num_idle)")
        loc = c.loc(f)
        d = {k: v for k, v in s.next.items() if unstk(v) != k and k not in ("IT", "N")}
        if p.kind == "back":
            c.ob("next", s.next.get("IT") == "out0[NEXT]", "every instruction must be executed once, in order", loc, s.next.get("IT", ""))
            c.ob("count", s.next.get("N") in ("add(1, N)", "add(N, 1)") or s.next.get("N") == "4294967295" and s.truth.get("ovf(add, u32, 1, N)"), "instructions must be counted", loc, s.next.get("N", ""))
        if s.var.get("NEXT") == "None":
            open_ = s.truth.get("eq(0, len(E.stack))")
            c.ob("end", p.kind == "ret" and s.ret == ("Ok(S)" if open_ else "Err(Error::UnbalancedIfElse)") and open_ is not None, "at its end a script must yield the stack exactly if all conditionals were closed", loc, repr(s)[:400])
            got["end"] = 1
            continue
        if s.var.get("NEXT") is None:
            c.ob("size", p.kind == "ret" and s.ret == "Err(Error::ScriptSize)", "a script may be refused unread only for its size", loc, repr(s)[:300])
            continue
        if s.var.get("NEXT.Some.0") == "Err":
            c.ob("parse", p.kind == "ret" and s.ret == "Err(NEXT.Some.0.Err.0)", "an instruction that does not parse must end the script with that error", loc, repr(s)[:300])
            continue
        if p.kind == "panic":
            ok = any(x and k.startswith("ovf(add, usize, ") and "len(" in k for k, x in s.truth.items()) or cls in ("PushBytes", "PushData") or any(x and re.match(r"(lt\(E\.num_idle|ovf\(add, usize, .*E\.num_idle)", k) for k, x in s.truth.items()) or \
                any(x and re.match(r"ovf\(add, usize, .*(read_scriptint|1)", k) for k, x in s.truth.items()) or any("overflow" in str(p.msg) and "len(" in k for k in s.truth)
            c.ob("panic", ok, "no script may panic the interpreter", loc, f"{p.msg} {repr(s)[:400]}")
            continue
        # the size of the stacks is checked after the instruction; only its failure is left to see
        full = s.ret == "Err(Error::StackSize)"
        if s.var.get("NEXT.Some.0.Ok.0") == "PushBytes":
            k = "push"
            if p.kind == "back":
                c.ob("push", ex is not None and d == ({"S": "stk(S, 0, (own(DATA)))"} if ex else {}), "data is pushed exactly in an executed branch", loc, repr(s)[:400])
            else:
                c.ob("push#err", full or s.ret == "Err(Error::PushSize)", "data may be refused only for its size", loc, repr(s)[:300])
        else:
            nv = s.notvar.get("CLASS")
            k = cls or "rest"
            if cls is None:
                # classes not told apart: nothing may happen
                c.ob("other", (p.kind == "back" and not d or full) and (ex is False or nv and {"IllegalOp", "ControlFlow", "PushNum", "ReturnOp", "AltStack", "Signature", "TimeLock", "Ordinary"} <= set(nv)), "an instruction of no known class must do nothing", loc, repr(s)[:400] + str(nv))
                continue
            if cls == "IllegalOp":
                c.ob("illegal", p.kind == "ret" and s.ret == "Err(Error::IllegalOp)", "a disabled opcode must be refused wherever it appears", loc, repr(s)[:300])
            elif cls == "NoOp":
                c.ob("noop", p.kind == "back" and not d or full, "no-operation must do nothing", loc, repr(s)[:300])
            elif cls == "ControlFlow":
                k = s.var.get("CLASS.ControlFlow.0") or k
                flow(c, s, k, ex, d, full, loc)
            elif ex is False:
                k += "-idle"
                c.ob("idle", p.kind == "back" and not d or full, f"{cls} in a branch that is not executed must have no effect", loc, repr(s)[:400])
            elif ex is None:
                c.ob("executing", False, f"{cls} must depend on whether its branch is executed", loc, repr(s)[:400])
            elif cls == "ReturnOp":
                c.ob("return", p.kind == "ret" and s.ret == "Err(Error::VerifyFail)", "OP_RETURN and reserved opcodes must fail the script when executed", loc, repr(s)[:300])
            elif cls == "PushNum":
                c.ob("pushnum", d == {"S": "stk(S, 0, (own(build_scriptint(CLASS.PushNum.0))))"} or full, "the number of the opcode must be pushed", loc, repr(s)[:300])
            elif cls == "AltStack":
                o = s.var.get("CLASS.AltStack.0")
                k = o or k
                a, b = ("S", "A") if o == "OP_TOALTSTACK" else ("A", "S")
                if p.kind == "back":
                    c.ob("alt", d == {a: f"stk({a}, 1, ())", b: f"stk({b}, 0, (top({a}, 1)))"}, "the top element must move between the stacks", loc, repr(s)[:400])
                else:
                    c.ob("alt#err", full or s.var.get(f"Vec::pop({a})") == "None" and s.ret == "Err(Error::NotEnoughElementsOnStack)", "moving fails only without an element", loc, repr(s)[:300])
            elif cls == "TimeLock":
                o = s.var.get("CLASS.TimeLock.0")
                num = "read_scriptint_size(top(S, 1), 5)"
                chk = f"Context::{'check_lock_time' if o == 'OP_CLTV' else 'check_sequence'}($0, {num}.Ok.0)"
                k = o or k
                okv = s.truth.get(chk)
                # the default of the context accepts every lock
                if p.kind == "back":
                    c.ob("timelock", not d and s.var.get(num) == "Ok" and okv is not False and o, "a time lock must be checked against the context, leaving the stack as it is", loc, repr(s)[:400])
                else:
                    c.ob("timelock#err", full or s.ret == "Err(Error::TimeLock)" and okv is False or s.ret == f"Err({num}.Err.0)" or s.ret == "Err(Error::NotEnoughElementsOnStack)" and s.truth.get("lt(0, len(S))") is False, "a time lock fails only unmet or without a number", loc, repr(s)[:400])
            elif cls == "Ordinary":
                e = "execute_opcode(CLASS.Ordinary.0, S)"
                if p.kind == "back":
                    c.ob("ordinary", d == {"S": f"out1[{e}].0"} and s.var.get(e) == "Ok", "an ordinary operation must be executed on the stack", loc, repr(s)[:400])
                else:
                    c.ob("ordinary#err", full or s.ret == f"Err({e}.Err.0)", "an ordinary operation fails with its own error", loc, repr(s)[:400])
            elif cls == "Signature":
                pass  # C09
            else:
                c.ob("class?", False, "unknown class of instruction", loc, repr(s)[:300])
        if p.kind == "back":
            got[k] = got.get(k, 0) + 1
    want = {"end", "push", "NoOp", "OP_IF", "OP_NOTIF", "OP_ELSE", "OP_ENDIF", "OP_CODESEPARATOR", "OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_CLTV", "OP_CSV", "PushNum", "Ordinary", "Signature"}
    c.ob("complete", want <= set(got), "every class of instruction must be executable", c.loc(f), str(sorted(got)))


def flow(c, s, k, ex, d, full, loc):
    p = s.p
    T = "top(E.stack, 1)"
    if k == "OP_CODESEPARATOR":
        if p.kind == "back":
            c.ob("codesep", ex is not None and d == ({"SUB": "Instructions::subscript(out0[NEXT])", "CS": "N"} if ex else {}), "a code separator must set the subscript and its index exactly in an executed branch", loc, repr(s)[:400])
        else:
            c.ob("codesep#err", full, "a code separator cannot fail", loc, repr(s)[:300])
    elif k in ("OP_IF", "OP_NOTIF"):
        neg = k == "OP_NOTIF"
        x = "top(S, 1)"
        if p.kind != "back":
            empty, one = s.truth.get(f"eq(0, len({x}))"), s.truth.get(f"eq(1, len({x}))")
            bad = s.ret == "Err(Error::InvalidOperand)" and ex and s.truth.get("Context::enforce_minimal_if($0)") is not False and empty is not True and (one is False or s.truth.get(f"eq(1, {x}[0])") is False)
            few = s.ret == "Err(Error::NotEnoughElementsOnStack)" and ex and s.var.get("Vec::pop(S)") == "None"
            c.ob("if#err", full or bad or few, "a conditional fails only without a (minimal) condition", loc, repr(s)[:500])
            return
        m = re.fullmatch(r"stk\(E\.stack, 0, \((.*)\)\)", s.next["E.stack"])
        cond = m[1] if m else "?"
        if ex is False:
            want = {"false"}
        else:
            known = True if s.truth.get(f"eq(1, {x}[0])") and s.truth.get(f"eq(1, len({x}))") else False if s.truth.get(f"eq(0, len({x}))") else None
            if known is None:
                known = s.truth.get(f"read_scriptbool({x})")
            v = f"read_scriptbool({x})"
            want = {negated(v) if neg else v} | (set() if known is None else {"true" if known != neg else "false"})
            c.ob("if#minimal", s.truth.get("Context::enforce_minimal_if($0)") is not True or known is not None, "a condition that must be minimal may only be empty or the byte one", loc, repr(s)[:400])
        c.ob("if", ex is not None and cond in want and unstk(s.next["S"]) == ("stk(S, 1, ())" if ex else "S") and set(d) <= {"E.stack", "E.num_idle", "S"}, "a conditional must open a branch executed exactly if it is reached and its condition is met", loc, repr(s)[:500])
        base = negated(cond) if cond.startswith("not(") else cond
        fixed = {"true": True, "false": False}.get(base, s.truth.get(base))
        for t in (0, 1) if fixed is None else (int(fixed),):
            cv = (1 - t) if cond.startswith("not(") else t
            c.ob("if#idle", boolval(s.next["E.num_idle"], base, t) == 100 + 1 - cv, "branches not executed must be counted", loc, s.next["E.num_idle"])
    elif k in ("OP_ELSE", "OP_ENDIF"):
        if p.kind != "back":
            c.ob("else#err", full or s.ret == "Err(Error::UnbalancedIfElse)" and s.var.get("Vec::pop(E.stack)") == "None", "OP_ELSE and OP_ENDIF fail only outside of a conditional", loc, repr(s)[:400])
            return
        c.ob("else#open", s.var.get("Vec::pop(E.stack)") == "Some" or s.truth.get("eq(0, len(E.stack))") is False, "OP_ELSE and OP_ENDIF need an open conditional", loc, repr(s)[:300])
        kt = s.truth.get(T)
        if k == "OP_ELSE":
            okx = {f"stk(E.stack, 1, (not({T})))"} | ({f"stk(E.stack, 1, ({'false' if kt else 'true'}))"} if kt is not None else set())
            c.ob("else", s.next["E.stack"] in okx and set(d) <= {"E.stack", "E.num_idle"}, "OP_ELSE must switch to the other branch", loc, repr(s)[:400])
        else:
            c.ob("endif", s.next["E.stack"] == "stk(E.stack, 1, ())" and set(d) <= {"E.stack", "E.num_idle"}, "OP_ENDIF must close the conditional", loc, repr(s)[:400])
        for t in (0, 1):
            if kt is None or kt == bool(t):
                want = (100 - (1 - t)) + (t if k == "OP_ELSE" else 0)
                c.ob("else#idle", boolval(s.next["E.num_idle"], T, t) == want, "branches not executed must be counted", loc, s.next["E.num_idle"])
    else:
        c.ob("flow?", False, "unknown control flow", loc, repr(s)[:300])


X1, X2, X3 = ("top(S, %d)" % i for i in (1, 2, 3))
N1, N2, N3 = (f"read_scriptint({x}).Ok.0" for x in (X1, X2, X3))


def tops(*k):
    return [f"top(S, {i})" for i in k]


MOVE = {"OP_DROP": (1, []), "OP_2DROP": (2, []), "OP_DUP": (0, tops(1)), "OP_2DUP": (0, tops(2, 1)), "OP_3DUP": (0, tops(3, 2, 1)), "OP_OVER": (0, tops(2)), "OP_2OVER": (0, tops(4, 3)), "OP_SWAP": (2, tops(1, 2)), "OP_2SWAP": (4, tops(2, 1, 4, 3)),
        "OP_2ROT": (6, tops(4, 3, 2, 1, 6, 5)), "OP_NIP": (2, tops(1)), "OP_ROT": (3, tops(2, 1, 3)), "OP_TUCK": (2, tops(1, 2, 1))}
HASH = {"OP_RIPEMD160": ["Ripemd160"], "OP_SHA1": ["Sha1"], "OP_SHA256": ["Sha256"], "OP_HASH160": ["Ripemd160", "Sha256"], "OP_HASH256": ["Sha256", "Sha256"]}
SIZES = {"Ripemd160": 20, "Sha1": 20, "Sha256": 32}


def num(x):
    return f"own(build_scriptint({x}))"


# boolean results: (relation, operands, polarity)
REL = {"OP_NUMEQUAL": ("eq", N2, N1, True), "OP_NUMEQUALVERIFY": ("eq", N2, N1, True), "OP_NUMNOTEQUAL": ("eq", N2, N1, False), "OP_LESSTHAN": ("lt", N2, N1, True), "OP_GREATERTHAN": ("lt", N1, N2, True),
       "OP_LESSTHANOREQUAL": ("lt", N1, N2, False), "OP_GREATERTHANOREQUAL": ("lt", N2, N1, False), "OP_NOT": ("eq", N1, "0", True), "OP_0NOTEQUAL": ("eq", N1, "0", False), "OP_EQUAL": ("eq", X2, X1, True), "OP_EQUALVERIFY": ("eq", X2, X1, True)}
ARITH = {"OP_1ADD": (1, {f"add(1, {N1})"}), "OP_1SUB": (1, {f"sub({N1}, 1)", f"add(-1, {N1})"}), "OP_NEGATE": (1, {f"i64::neg({N1})", f"neg({N1})", f"sub(0, {N1})"}), "OP_ABS": (1, {f"num(abs, i64, {N1})", f"abs({N1})"}),
         "OP_ADD": (2, {f"add({N1}, {N2})", f"add({N2}, {N1})"}), "OP_SUB": (2, {f"sub({N2}, {N1})"}), "OP_MIN": (2, {f"min({N1}, {N2})", f"min({N2}, {N1})"}), "OP_MAX": (2, {f"max({N1}, {N2})", f"max({N2}, {N1})"})}


def forms(rel, a, b, pol):
    r = {f"{rel}({x}, {y})" for x, y in ([(a, b), (b, a)] if rel == "eq" else [(a, b)])}
    if rel == "eq":
        pos, neg = r, {f"ne({a}, {b})", f"ne({b}, {a})"} | {f"not({x})" for x in r}
    else:
        pos, neg = r | {f"gt({b}, {a})"}, {f"ge({a}, {b})", f"le({b}, {a})"} | {f"not({x})" for x in r}
    return (pos, neg) if pol else (neg, pos)


def relation(s, rel, a, b, pol, out):
    """out (an integer term text) is 1 exactly if the relation has the polarity"""
    pos, neg = forms(rel, a, b, pol)
    if out in {f"b2i({x})" for x in pos}:
        return True
    v = None
    for k, x in s.truth.items():
        if k in pos:
            v = x
        elif k in neg:
            v = not x
    return v is not None and out == ("1" if v else "0")


def opcodes(c):
    f = I + "execute_opcode"
    ps = c.paths(f, stop=OPQ.replace("execute_opcode|", ""))
    done = set()
    for p in ps:
        s = Step(p, lambda s: None)
        tx = lambda t: re.sub(r"(?<![\w.])\$1\.0", "S", s.txt(t))
        s.truth = {re.sub(r"\$1\.0", "S", k): v for k, v in s.truth.items()}
        s.var = {re.sub(r"\$1\.0", "S", k): v for k, v in s.var.items()}
        op = s.var.get("$0")
        loc = c.loc(f)
        ver = s.truth.get("Ordinary::is_verify($0)")
        isv = op in ("OP_VERIFY", "OP_EQUALVERIFY", "OP_NUMEQUALVERIFY")
        if ver is not None and ver != isv:
            continue
        if op is None:
            c.ob("op?", False, "every operation must be handled on its own", loc, repr(s)[:300])
            continue
        if p.kind != "ret":
            small = any(x and re.match(r"ovf\((add|sub|neg|abs|mul), (i64|usize), ", k) for k, x in s.truth.items()) or any(x and k.startswith("lt(len(") for k, x in s.truth.items()) or any(x is False and re.match(r"lt\(\d, (len|sub\(len)", k) for k, x in s.truth.items()) or \
                op in ("OP_NEGATE", "OP_ABS", "OP_2ROT", "OP_PICK", "OP_ROLL", "OP_ROT") and "overflow" in str(p.msg)
            c.ob("op#panic", small, "no operation may panic", loc, f"{op} {p.msg} {repr(s)[:300]}")
            continue
        r = re.sub(r"\$1\.0", "S", s.ret)
        if r.startswith("Err("):
            few = any(k.startswith("Vec::pop(") and x == "None" for k, x in s.var.items()) or any(x and k.startswith("lt(len(") or x is False and re.match(r"lt\(\d+, len\(", k) for k, x in s.truth.items())
            okr = r == "Err(Error::NotEnoughElementsOnStack)" and few
            okr = okr or re.fullmatch(r"Err\(read_scriptint\(.*\)\.Err\.0\)", r) and any(k.startswith("read_scriptint(") and x == "Err" for k, x in s.var.items())
            okr = okr or r == "Err(Error::InvalidOperand)" and op in ("OP_PICK", "OP_ROLL") and (s.truth.get(f"lt(-1, {N1})") is False or s.truth.get(f"lt({N1}, 0)"))
            okr = okr or r == "Err(Error::NumericOverflow)" and op in ("OP_DEPTH", "OP_SIZE") and any(x and k.startswith("lt(2147483646, len(") or x is False and re.match(r"lt\(len\(.*\), 2147483647\)", k) for k, x in s.truth.items())
            if not okr and r == "Err(Error::VerifyFail)" and isv:
                okr = verified(s, op, X1 if op == "OP_VERIFY" else None) is False
            c.ob("op#err", okr, "an operation may fail only for missing or malformed operands, or a verification that failed", loc, f"{op}: {repr(s)[:500]}")
            continue
        v = unstk(tx(p.m.project(p.out(mk("arg", 1)), ("f", "0"))))
        m = re.fullmatch(r"stk\(S, (\d+), (?:\(\)|\((.*)\))\)", v)
        n, items = (0, []) if v == "S" else (int(m[1]), [unparse((x,)) for x in parse(m[2])] if m[2] else []) if m else (None, None)
        good = False
        if op in MOVE:
            good = (n, items) == MOVE[op]
        elif op == "OP_VERIFY":
            good = (n, items) == (1, []) and verified(s, op, X1) is True
        elif op in HASH:
            h = X1
            for d in reversed(HASH[op]):
                h = rf"from([u8;{SIZES[d]}], hash::hash({d}, {h}))"
            good = n == 1 and len(items) == 1 and re.sub(r"hash::hash\((?:\w+::)*(\w+), ", r"hash::hash(\1, ", items[0]) == f"own({h})"
        elif op in ARITH:
            k, w = ARITH[op]
            good = n == k and len(items) == 1 and items[0] in {num(x) for x in w}
        elif op in REL:
            k = 1 if op in ("OP_NOT", "OP_0NOTEQUAL") else 2
            rel = REL[op]
            if isv:
                # verified: the result was popped again and was true
                t = verified(s, op, None)
                good = (n, items) == (k, []) and t is True
                w = next((x for x in s.truth if x.startswith("read_scriptbool(own(build_scriptint(")), None)
                good = good and w and relation(s, *rel, w[len("read_scriptbool(own(build_scriptint("):-3])
            else:
                mm = re.fullmatch(r"own\(build_scriptint\((.*)\)\)", items[0]) if n == k and len(items) == 1 else None
                good = mm and relation(s, *rel, mm[1])
        elif op in ("OP_BOOLAND", "OP_BOOLOR"):
            a, b = (s.truth.get(f"eq(0, {x})") for x in (N2, N1))
            mm = re.fullmatch(r"own\(build_scriptint\((.*)\)\)", items[0]) if n == 2 and len(items) == 1 else None
            stop = op == "OP_BOOLAND"
            if mm:
                o = mm[1]
                one = {f"b2i(ne({x}, 0))": y for x, y in ((N1, a), (N2, b))}
                if o in one:
                    good = one[o] is (not stop)
                else:
                    val = (None if a is None and b is None else True if (a is stop or b is stop) else a is (not stop) and b is (not stop) and None)
                    if a is stop or b is stop:
                        good = o == ("0" if stop else "1")
                    elif a is (not stop) and b is (not stop):
                        good = o == ("1" if stop else "0")
                    else:
                        w = "bitand" if stop else "bitor"
                        good = o in {f"b2i({w}(ne({x}, 0), ne({y}, 0)))" for x, y in ((N1, N2), (N2, N1))}
        elif op == "OP_WITHIN":
            mm = re.fullmatch(r"own\(build_scriptint\((.*)\)\)", items[0]) if n == 3 and len(items) == 1 else None
            if mm:
                lo, hi = s.truth.get(f"lt({N3}, {N2})"), s.truth.get(f"lt({N3}, {N1})")
                good = mm[1] == f"b2i(Range::contains(Range{{start: {N2}, end: {N1}}}, {N3}))" or mm[1] == "1" and lo is False and hi or mm[1] == "0" and (lo or hi is False) or mm[1] in (f"b2i(lt({N3}, {N1}))",) and lo is False or \
                    mm[1] in (f"b2i(ge({N3}, {N2}))", f"b2i(not(lt({N3}, {N2})))") and hi
        elif op == "OP_IFDUP":
            t = s.truth.get(f"read_scriptbool({X1})")
            good = t is not None and (n, items) == ((0, tops(1)) if t else (0, []))
        elif op == "OP_DEPTH":
            good = (n, items) == (0, [num("len(S)")])
        elif op == "OP_SIZE":
            good = (n, items) == (0, [num(f"len({X1})")])
        elif op == "OP_PICK":
            good = n == 1 and items == [f"nth(stk(S, 1, ()), 1 + {N1})"] and (s.truth.get(f"lt(-1, {N1})") or s.truth.get(f"lt({N1}, 0)") is False)
        elif op == "OP_ROLL":
            w = f"stk(S, 1, ()), 1 + {N1}"
            good = v == f"stk(without({w}), 0, (nth({w})))" and (s.truth.get(f"lt(-1, {N1})") or s.truth.get(f"lt({N1}, 0)") is False)
        c.ob(f"op#{op}", good, f"{op} must have its defined effect on the stack", loc, f"{v}  {repr(s)[:600]}")
        if good:
            done.add(op)
    want = {n for k, n in NAMES.items() if expected(k).startswith("Class::Ordinary")}
    c.ob("op#all", done == want, "every ordinary operation must be executable", c.loc(f), str(sorted(want - done)))


def verified(s, op, item):
    """truth of the value an operation verifies"""
    for k, x in s.truth.items():
        if item and k == f"read_scriptbool({item})" or not item and k.startswith("read_scriptbool(own(build_scriptint("):
            return x
    return None


PARTS = [classes, interp, opcodes]
