"""A block's reward is divided between staker and delegations by the stated formulas, and all of it is given out."""
from ..rule import *
CRATES = ["tx-verifier", "common"]
V = "tx_verifier::transaction_verifier::reward_distribution::"
STOP = CLOSED.replace(r"^(?!", r"^(?!" + V + "|")
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "checked_add": "+", "checked_sub": "-", "checked_mul": "*", "checked_div": "/"}
SAME = {"from_amount", "from_atoms", "from_u64", "into_atoms", "into", "from", "try_into", "copied", "cloned", "clone"}
CHAIN = {"values", "collect", "iter", "map", "filter", "filter_map", "inspect", "peekable"}
LEAF = {"cost_per_block": "cost", "staker_balance": "staker", "value": "m", "denominator": "1000", "get_pool_balance": "pool", "get_pool_delegations_shares": "shares"}


def last(n):
    return n.rsplit("::", 1)[-1]


def base(t):
    while t.tag in CHAIN or t.tag == "call" and last(t.args[0]) in ("values", "iter", "into_iter"):
        t = given_to(t)[0] if t.tag == "call" else t.args[0]
    return t


def chain(t):
    out = []
    while t.tag in CHAIN:
        out.append(t.tag)
        t = t.args[0]
    return out


def given_to(t):
    return t.args[1] if isinstance(t.args[1], tuple) else t.args[1:]


class Reader:
    """a term as arithmetic over what the distribution is given"""
    def __init__(self, ps):
        self.sums = {}
        for p in ps:
            for t, n in (p.next or {}).items():
                if t in p.phi:
                    i, xs = self.ex(p.phi[t]), self.flat(self.ex(n), "+")
                    if i == "0" and show(t) in xs and len(xs) == 2:
                        x, = [x for x in xs if x != show(t)]
                        self.sums[show(t)] = "sum(balance)" if x == "d" else "sum(share)" if x == "d.1" else f"sum({x})"

    def ex(self, t):
        t = bare(t)
        if t.tag == "phi":
            return self.sums.get(show(t), show(t))
        if t.tag == "num":
            return str(t.args[0])
        if t.tag == "arg":
            return {3: "reward", 2: "pool_id"}.get(t.args[0], show(t))
        if t.tag == "fld":
            b = bare(t.args[0])
            if t.args[1] in ("Some", "Ok") or t.args[2] == "atoms":
                return self.ex(b)
            if b.tag == "elem":
                return self.ex(b) + "." + str(t.args[2])
        if t.tag == "adt" and t.args[0].endswith("Amount"):
            return self.ex(t.args[3][0])
        if t.tag == "adt" and t.args[1] in ("Some", "Ok"):
            return self.ex(t.args[3][0])
        if t.tag == "elem":
            b = base(t.args[0])
            return "d" if self.ex(b) == "shares" else show(t)
        if t.tag == "sum":
            b = base(t.args[0])
            if self.ex(b) != "shares":
                return "sum(" + show(b) + ")"
            return "sum(balance)" if "collect" not in chain(t.args[0]) else "sum(share)"
        if t.tag in ("add", "sub", "mul", "div"):
            return self.op(t.tag, t.args[-2], t.args[-1])
        if t.tag == "call":
            n = last(t.args[0])
            xs = [x for x in given_to(t) if isinstance(x, T)]
            if n in OPS and len(xs) == 2:
                return self.op(n, *xs)
            if n in SAME and xs:
                return self.ex(xs[-1])
            if n in LEAF:
                return LEAF[n]
        return show(t)

    def op(self, n, a, b):
        a, b, o = self.ex(a), self.ex(b), OPS[n]
        if o in "+*":
            # sums and products, however they are put together
            xs = []
            for x in (a, b):
                xs += self.flat(x, o)
            if o == "+":
                xs = [x for x in xs if x != "0"] or ["0"]
            if len(xs) == 1:
                return xs[0]
            return "(" + o.join(sorted(xs)) + ")"
        return f"({a}{o}{b})"

    def flat(self, s, o):
        if not (s.startswith("(") and s.endswith(")")):
            return [s]
        out, d, k = [], 0, 1
        for i in range(1, len(s) - 1):
            d += s[i] == "("
            d -= s[i] == ")"
            if d == 0 and s[i] in "+-*/":
                if s[i] != o:
                    return [s]
                out.append(s[k:i])
                k = i + 1
        return out + [s[k:-1]] if out else [s]


def add(*xs):
    f = Reader([]).flat
    ys = [y for x in xs for y in f(x, "+") if y != "0"]
    return "(" + "+".join(sorted(ys)) + ")" if len(ys) > 1 else (ys or ["0"])[0]


ABOVE = "(reward-cost)"
PRO = f"(({ABOVE}*staker)".replace(f"({ABOVE}*staker)", "(" + "*".join(sorted([ABOVE, "staker"])) + ")") + "/pool)"
REST = f"({ABOVE}-{PRO})"
MARGIN = "((" + "*".join(sorted([REST, "m"])) + ")/1000)"
V0 = add("((" + "*".join(sorted([ABOVE, "m"])) + ")/1000)", "cost")
V1 = add(PRO, MARGIN, "cost")


def literal(rd, s, v):
    """a comparison as a statement about the values, in one form"""
    return s, v


def conds(rd, p):
    out = {}
    for t, v in p.truth.items():
        if t.tag in ("lt", "le", "eq", "ne"):
            a, b = rd.ex(t.args[-2]), rd.ex(t.args[-1])
            if t.tag == "lt":
                out[f"{a}<{b}"] = v
            elif t.tag == "le":
                out[f"{b}<{a}"] = not v
            else:
                v = v if t.tag == "eq" else not v
                out[f"{a}={b}"] = v
                out[f"{b}={a}"] = v
        elif t.tag == "call" and last(t.args[0]) in ("eq", "ne"):
            a, b = [rd.ex(x) for x in given_to(t)[:2]]
            v = v if last(t.args[0]) == "eq" else not v
            out[f"{a}={b}"] = v
            out[f"{b}={a}"] = v
    return out


def positive(cs, x):
    """whether x is more than nothing, as far as is known"""
    if f"0<{x}" in cs:
        return cs[f"0<{x}"]
    if f"{x}=0" in cs:
        return not cs[f"{x}=0"]
    if cs.get(f"{x}<1") is not None:
        return not cs[f"{x}<1"]


def parts(t):
    """what a list is made of"""
    if t.tag == "adt" and t.args[1] == "Ok":
        return parts(t.args[3][0])
    if t.tag in ("iter", "copied", "cloned") or t.tag == "collect" and t.args[0].tag in ("chain", "iter"):
        return parts(t.args[0])
    if t.tag in ("chain", "append", "extend"):
        return parts(t.args[0]) + parts(t.args[1])
    if t.tag == "out":
        k, = [x for x in t.args if isinstance(x, T)]
        if k.tag == "call" and last(k.args[0]) in ("push", "extend", "append"):
            a, b = given_to(k)[:2]
            return parts(a) + ([b] if last(k.args[0]) == "push" else parts(b))
    if t.tag == "push":
        return parts(t.args[0]) + [t.args[1]]
    if t.tag == "once":
        return [t.args[0]]
    if t.tag == "arr":
        xs = t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args
        return list(xs)
    if show(t) in ("[]", "emptyvec()", "new()", "Vec::new()"):
        return []
    return [t]


def pays(c):
    fid = V + "distribute_pos_reward"
    loc = c.loc(fid)
    ps = list(c.paths(fid, stop=STOP))
    rd = Reader(ps)
    seen = set()
    gathered, given = set(), set()
    for p in ps:
        va = {show(bare(k)): v for k, v in p.var.items()}
        cs = conds(rd, p)
        ver = next((v for k, v in va.items() if k == "$4"), None) or next((list({"V0", "V1"} - s)[0] for k, s in p.notvar.items() if show(k) == "$4" and len(s) == 1), None)
        # reward - cost, if it was tried
        low = next((v for k, v in p.var.items() if rd.ex(mk("fld", k, "Some", "0")) == ABOVE), None)
        if low is None and cs.get("reward<cost") is not None:
            low = "None" if cs["reward<cost"] else "Some"
        sr = "reward" if low == "None" else {"V0": V0, "V1": V1}.get(ver)
        ev = [e for e in p.events if last(e.name) in ("delegate_staking", "increase_staker_rewards")]
        for e in p.events:
            if "PoSAccountingOperations" in e.name:
                c.ob("reward.only", last(e.name) in ("delegate_staking", "increase_staker_rewards") and show(bare(initially(p, e.args[0]))) == "$0",
                     "nothing else is done to the accounts", loc, show(e.res)[:200])
        delegated = add(f"(reward-{sr})") if sr else None
        share = "((" + "*".join(sorted([delegated or "", "d.1"])) + ")/sum(balance))"
        if p.kind == "back":
            # what is gathered on one turn
            r = bare(p.ret) if p.ret is not None else None
            turned = False
            if r is not None and r.tag == "tup" and len(r.args[0] if isinstance(r.args[0], tuple) else r.args) == 2:
                xs = r.args[0] if isinstance(r.args[0], tuple) else r.args
                a, b = rd.ex(xs[0]), rd.ex(xs[1])
                c.ob("reward.share", (a, b) == ("d.0", share), "each delegation's share is what is delegated times its balance, by all balances, rounded down", loc, f"{a} {b}"[:500])
                gathered.add(ver)
                turned = True
            c.ob("reward.delegate#once", len(ev) <= 1, "each is given its share once", loc, str([show(e.res)[:60] for e in ev]))
            for e in ev:
                kept = (show(p.ret) if p.ret is not None else "") + " ".join(show(x) for x in p.next.values())
                c.ob("reward.delegate#undo", show(e.res) + ".Ok.0" in kept, "its undo is kept", loc, kept[:300])
                c.ob("reward.delegate#kind", last(e.name) == "delegate_staking", "the staker is rewarded once", loc)
                a, b = rd.ex(e.args[1]), rd.ex(e.args[2])
                c.ob("reward.delegate", (a, b) in (("d.0", "d.1"), ("d.0", share)), "each delegation is given its own share", loc, f"{a} {b}"[:400])
                c.ob("reward.delegate#zero", positive(cs, b) is not False, "nothing is delegated of nothing", loc)
                given.add(ver)
                turned = True
            for x in ("d.1", share):
                if positive(cs, x) is False:
                    turned = True
            if not turned and r is not None and r.tag != "tup":
                # a sum over all shares, zero or not
                c.ob("reward.sum", rd.ex(r) == "d.1" or "sum" in " ".join(rd.sums.values()), "all shares are summed", loc, rd.ex(r)[:300])
            if not ev and any(last(k.args[0]) == "delegate_staking" for k in p.var if k.tag == "call"):
                c.ob("reward.delegate#event", False, "an unseen delegation", loc)
            # a delegation is left out only if its share is nothing
            if r is None and not ev:
                c.ob("reward.delegate#all", positive(cs, "d.1") is False or positive(cs, share) is False or bool(p.next), "a delegation is passed over only if its share is nothing", loc, repr(p)[:300])
            continue
        if p.kind == "panic":
            c.ob("reward.panic", str(p.msg).startswith("expect"), "no other panic than on what cannot be", loc, str(p.msg)[:200])
            continue
        r = show(p.ret)
        bad = [k for k, v in va.items() if v == "Err"]
        if r.startswith("Err("):
            c.ob("reward.refused", bad or "None" in va.values() or (ver == "V1" and (cs.get("pool<staker") or positive(cs, "pool") is False)) or
                 positive(cs, "sum(balance)") is False or cs.get("sum(balance)=0"), "refused only if something failed, is missing or does not add up", loc, r[:200] + str(sorted((v, rd.ex(k)) for k, v in p.var.items())) + str(cs)[:900])
            if ver == "V1" and cs.get("pool<staker"):
                seen.add("staker")
            continue
        c.ob("reward.told", not bad, "a failure is told", loc, str(bad)[:200])
        c.ob("reward.known", sr, "the version must be known", loc, repr(p)[:300])
        if not sr:
            continue
        if ver == "V1":
            c.ob("reward.sane", cs.get("pool<staker") is False and positive(cs, "pool") is True, "the staker has no more than the pool, which is not empty", loc, str(cs)[:300])
        ups = [e for e in ev if last(e.name) == "increase_staker_rewards"]
        c.ob("reward.staker#once", len(ups) == 1 and len(ev) == 1, "the staker is rewarded, once, after the delegations", loc, str([show(e.res)[:80] for e in ev]))
        if len(ups) != 1:
            continue
        e = ups[0]
        amt = rd.ex(e.args[2])
        pos = positive(cs, delegated)
        sh = next((v for k, v in p.var.items() if k.tag == "fld" and rd.ex(k) == "shares"), None) or next((v for k, v in va.items() if "get_pool_delegations_shares" in k and k.endswith(".Ok.0")), None)
        some = positive(cs, "sum(balance)")
        c.ob("reward.staker#pool", rd.ex(e.args[1]) == "pool_id", "the pool that staked is rewarded", loc)
        if pos is False:
            case, want = "nothing", [sr, add(sr, delegated), "reward"]
        elif sh == "None" or some is False:
            case, want = "nobody", [add(sr, delegated), "reward"]
        elif sh == "Some" and some:
            case, want = "shared", [add(sr, f"({delegated}-sum(share))"), "(reward-sum(share))"]
        else:
            case, want = "?", []
        seen.add((ver, low, case))
        c.ob(f"reward.staker[{case}]", amt in want, "the staker is given the staker's part, and all of what the delegations were not", loc, f"{amt} not in {want}"[:700])
        if case == "shared":
            ends = [show(f[1]) for f in p.facts if f[0] == "exh"]
            c.ob("reward.all", not any(re.search(r"\b(skip|take|step_by|take_while|skip_while|map_while)\(", x) for x in ends) and any("get_pool_delegations_shares" in x for x in ends), "all delegations are given their shares", loc, str(ends)[:300])
        # undoing: the delegations' first, then the staker's
        us = parts(p.ret)
        c.ob("reward.undo#staker", us and show(us[-1]) == show(e.res) + ".Ok.0", "the staker's undo is given, last", loc, str([show(u)[:100] for u in us]))
        if case == "shared":
            c.ob("reward.undo", len(us) == 2 and (us[0].tag in ("collect", "phi")) and (us[0].tag == "phi" or "get_pool_delegations_shares" in show(us[0])),
                 "the undo of all the delegations is given, first", loc, str([show(u)[:100] for u in us]))
        else:
            c.ob("reward.undo#none", len(us) == 1, "there is no other undo", loc, str([show(u)[:100] for u in us]))
    for v in ("V0", "V1"):
        for l in ("Some", "None"):
            for k in ("nothing", "nobody", "shared"):
                c.ob(f"reward.hit[{v},{l},{k}]", (v, l, k) in seen or l == "None" and k != "nothing", "no path handles this case", loc, str(seen)[:400])
    c.ob("reward.hit[staker]", "staker" in seen, "a staker with more than the pool is refused", loc)
    c.ob("reward.hit[turns]", {"V0", "V1"} <= given, "delegations must be rewarded", loc, str(given))


PARTS = [pays]
