"""The undo data and issuance ids a verifier keeps: what is added, taken out, combined and handed on, under its own source and transaction."""
from ..rule import *
CRATES = ["tx-verifier"]
V = "tx_verifier::transaction_verifier::"
A = V + "accounting_undo_cache::AccountingBlockUndoCache::<T>::"
AB = V + "accounting_undo_cache::cached_block_undo::CachedBlockUndo::<T>::"
U = V + "utxos_undo_cache::UtxosBlockUndoCache::"
UB = V + "utxos_undo_cache::cached_utxo_block_undo::CachedUtxosBlockUndo::"
I = V + "token_issuance_cache::"
OPS = {"Write", "Read", "Erase"}
STOP = CLOSED.replace(r"^(?!", r"^(?!tx_verifier::transaction_verifier::(cached_operation::CachedOperation|token_issuance_cache::TokenIssuanceCache)::|"
                      r"tx_verifier::transaction_verifier::cached_operation::CachedOperation|")
LIMIT = re.compile(r"\b(skip|take|step_by|take_while|skip_while|nth|map_while)\(")
CHAIN = {"collect", "iter", "map", "filter", "filter_map", "inspect", "rev", "peekable"}


def close(s, i):
    d = 0
    for j in range(i, len(s)):
        d += s[j] in "([{"
        d -= s[j] in ")]}"
        if d == 0:
            return j
    return -1


def eta(s):
    """Some(X.Some.0) is X, and so on"""
    s = re.sub(r"\b(?:\w+::)+(\w+)(?=[({])", r"\1", re.sub(r"(?<=[)\]])@\d+", "", s))
    for w, f in (("Write", "Write"), ("Read", "Read"), ("Some", "Some"), ("Ok", "Ok")):
        i = 0
        while True:
            i = s.find(w + "(", i)
            if i < 0:
                break
            if i and (s[i - 1].isalnum() or s[i - 1] == "_"):
                i += 1
                continue
            j = close(s, i + len(w))
            x = s[i + len(w) + 1:j]
            e = f".{f}.0"
            # what is inside must be one term, and end in taking out what this puts in
            if x.endswith(e) and "," not in re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", x)))):
                s = s[:i] + x[:-len(e)] + s[j + 1:]
            else:
                i += 1
    return s


def base(t):
    while t.tag in CHAIN and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def split(s):
    out, d, k = [], 0, 0
    for i, ch in enumerate(s):
        d += ch in "([{"
        d -= ch in ")]}"
        if ch == "," and d == 0:
            out.append(s[k:i].strip())
            k = i + 1
    return out + [s[k:].strip()]


def state(p, t):
    """not the place of an iterator, nor whether something is still to be dropped"""
    i = show(p.phi[t])
    return not re.match(r"(iter|map|filter|filter_map|adv)\(|(true|false)$", i)


class View:
    def __init__(self, p, loops):
        self.p = p
        self.loops = loops
        self.va = {self.t(k): v for k, v in p.var.items()}
        self.no = {self.t(k): set(v) for k, v in p.notvar.items()}
        self.tr = {}
        for k, v in p.truth.items():
            s = re.sub(r"\b(?:\w+::)?(eq|ne)\(", r"\1(", self.t(k))
            if s.startswith("ne("):
                s, v = "eq(" + s[3:], not v
            if s.startswith("not("):
                s, v = s[4:-1], not v
            self.tr[s] = v
            if s.startswith("eq("):
                xs = split(s[3:-1])
                if len(xs) == 2:
                    self.tr[f"eq({xs[1]}, {xs[0]})"] = v
        self.ends = [show(f[1]) for f in p.facts if f[0] == "exh"]

    def t(self, x):
        def f(y):
            if y.tag == "collect":
                return mk("all", base(y))
            if y.tag == "phi" and show(y) in self.loops:
                return mk("all", self.loops[show(y)])
        return eta(show(map_term(x, f)))

    def lit(self, c):
        if c.startswith("end "):
            return any(c[4:] in eta(e) and not LIMIT.search(e) for e in self.ends)
        if " is " in c:
            x, v = c.split(" is ")
            vs = set(v.split("/"))
            if x in self.va:
                return self.va[x] in vs
            n = self.no.get(x)
            if n is not None:
                return not ((OPS if n & OPS else {"Some", "None"}) - n - vs)
            return False
        if c.startswith("!"):
            return self.tr.get(c[1:]) is False
        return self.tr.get(c) is True

    def all(self, conds):
        return all(self.lit(c) for c in conds.split(" & ") if c)

    def outs(self):
        s = eta(show(self.p.out(mk("arg", 0))))
        if s == "$0":
            return {}
        if s.startswith("$0{") and close(s, 2) == len(s) - 1:
            return dict(x.split(":=", 1) for x in split(s[3:-1]))
        return {"": s}

    def steps(self):
        """what loops carry: from what they start with to what one turn makes of it"""
        return {eta(show(i)): (show(t), eta(show(self.p.next[t]))) for t, i in self.p.phi.items() if t in self.p.next and state(self.p, t)} if self.p.next else {}


def views(c, fid, stop=STOP):
    ps = list(c.paths(fid, stop=stop))
    loops = {}
    for p in ps:
        for t, n in (p.next or {}).items():
            if t not in p.phi:
                continue
            if show(p.phi.get(t, t)) in ("emptymap()", "emptyset()") and n.tag in ("mapset",):
                for e in subterms(n):
                    if e.tag == "elem":
                        loops[show(t)] = base(e.args[0])
                        break
    return [View(p, loops) for p in ps]


def judge(c, key, fid, rows, turns=(), stop=STOP):
    """rows: (conditions, result, changes to self: {field: value, or loop:<start>} or a list of these);
    turns: (conditions, element gathered, {start: what a turn makes of it, with · for what it was})"""
    loc = c.loc(fid)
    hit, thit = set(), set()
    for v in views(c, fid, stop):
        p = v.p
        if p.kind == "back":
            st = v.steps()
            el = eta(show(p.ret)) if p.ret is not None else None
            if el == "()":
                el = None
            for k in [k for k in st if k in ("emptymap()", "emptyset()")]:
                ph, nx = st.pop(k)
                if nx.startswith("mapset(" + ph):
                    el = "(" + ", ".join(split(nx[7:-1])[1:]) + ")"
                elif nx != ph:
                    el = nx
            ch = {k: nx.replace(ph, "·") for k, (ph, nx) in st.items() if nx != ph}
            ok = False
            for i, (cond, want, wch) in enumerate(turns):
                if v.all(cond):
                    thit.add(i)
                    ok = True
                    if any(k.startswith("combine(") and x == "None" for k, x in v.va.items()):
                        wch = {}
                    c.ob(key + f"#turn[{cond}]", el in (want if isinstance(want, list) else [eta(want) if want else want]) and
                         {k: x for k, x in ch.items()} == {k: eta(x) for k, x in wch.items()},
                         f"for each element, when {cond or 'always'}, this is kept: {want or wch or 'nothing'}", loc, f"{el} {ch}"[:500])
                    break
            c.ob(key + "#turns", ok, "an element must be one of the known kinds", loc, repr(p)[:400])
            continue
        r = "panic" if p.kind == "panic" else v.t(p.ret)
        bad = [k for k, x in v.va.items() if x == "Err"]
        if bad:
            c.ob(key + "#told", r == bad[-1] or r.startswith("Err(") and bad[-1] in r, "a failure is told", loc, r[:300])
            continue
        for i, (cond, want, out) in enumerate(rows):
            if not v.all(cond):
                continue
            hit.add(i)
            ws = want if isinstance(want, list) else [want]
            c.ob(key + f"#row[{cond}]", any(r == eta(w) or w == "Err" and r.startswith("Err(") for w in ws), f"when {cond or 'always'} the result is {want}", loc, r[:400])
            if r == "panic" or want == "Err":
                break
            phis = {show(t): eta(show(i_)) for t, i_ in p.phi.items()}
            o = {k: "loop:" + phis[x] if x in phis else x for k, x in v.outs().items()}
            os_ = out if isinstance(out, list) else [out]
            c.ob(key + f"#out[{cond}]", any(o == {k: eta(x) for k, x in w.items()} for w in os_), f"when {cond or 'always'} this is changed: {out or 'nothing'}", loc, str(o)[:500])
            break
        else:
            c.ob(key + "#known", False, "a path outside the specified cases", loc, repr(p)[:500])
    for i, (cond, want, _) in enumerate(rows):
        c.ob(key + f"#hit[{cond}]", i in hit or want == "panic?", f"no path handles the case {cond}", loc)
    for i, (cond, want, _) in enumerate(turns):
        c.ob(key + f"#thit[{cond}]", i in thit or not want and not _, f"no path handles the element {cond}", loc)


def operations(c):
    K = V + "cached_operation::"
    for f in ("get", "take"):
        judge(c, "operation." + f, K + "CachedOperation::<T>::" + f,
              [("$0 is Erase", "None", {})] + [(f"$0 is {w}", f"Some($0.{w}.0)", {}) for w in ("Read", "Write")])
    L, R = "$0 is Some & $1 is Some & $0.Some.0 is ", " & $1.Some.0 is "
    judge(c, "operation.combine", K + "combine",
          [("$0 is None & $1 is None", "None", {}), ("$0 is None & $1 is Some", "$1", {}), ("$0 is Some & $1 is None", "$0", {})] +
          [("$0 is Some & $1 is Some & $1.Some.0 is Erase", "Some(CachedOperation::Erase)", {})] +
          [(L + l + R + "Write", "$1", {}) for l in ("Read", "Erase")] +
          [(L + "Write" + R + "Write & eq($0.Some.0.Write.0, $1.Some.0.Write.0)", ["$1", "$0"], {}),
           (L + "Write" + R + "Write & !eq($0.Some.0.Write.0, $1.Some.0.Write.0)", "panic", {}),
           (L + "Read" + R + "Read", "$1", {}), (L + "Write" + R + "Read", "panic", {}), (L + "Erase" + R + "Read", "panic", {})])


def blocks(c):
    for P, nm, rw, data, ty in ((AB, "accounting", "reward_undos", [("BlockUndo::consume($0).1", "tx_undos")], "CachedBlockUndo"),
                                (UB, "utxo", "reward_undo", [("UtxosBlockUndo::consume($0)." + f, f) for f in
                                                             ("tx_undos", "child_parent_dependencies", "parent_child_dependencies")], "CachedUtxosBlockUndo")):
        k = f"block.{nm}."
        R = "$0." + rw
        deps = [f for _, f in data[1:]]
        # new: from nothing, the reward's set, and each transaction's put in
        loc = c.loc(P + "new")
        empty = (f"{ty}{{{rw}: None, " + ", ".join(f + ": emptymap()" for _, f in data) + "}", ty + "::default()", "default()")
        n = 0
        for v in views(c, P + "new"):
            p = v.p
            some = v.va.get("$0") == "Some"
            if any(x == "Err" for x in v.va.values()):
                c.ob(k + "new#told", v.t(p.ret).startswith("Err("), "a failure is told", loc, repr(p)[:300])
                continue
            st = {show(t): eta(show(i)) for t, i in p.phi.items() if state(p, t)}
            starts = {f"out0[set_block_reward_undo({e}, $0.Some.0)]" for e in empty} if some else set(empty)
            starts |= {s.replace(ty + "::default", "default") for s in starts}
            c.ob(k + "new#start", len(st) == 1 and set(st.values()) <= starts, "starts empty, with the reward's undo if there is one", loc, str(st)[:300])
            if p.kind == "back":
                (ph, nx), = [(show(t), eta(show(x))) for t, x in p.next.items() if state(p, t)] or [("", "")]
                c.ob(k + "new#turn", nx == f"out0[insert_tx_undo({ph}, elem($1).0, elem($1).1)]", "each transaction's undo is put in under its id", loc, nx[:300])
                n += 1
            else:
                c.ob(k + "new#result", p.kind == "ret" and v.t(p.ret) == f"Ok({list(st)[0]})" and v.lit("end $1"), "all are put in", loc, repr(p)[:300])
                n += 1
        c.ob(k + "new#some", n >= 4, "must be able to succeed", loc)
        # from and to what is stored
        C = data[0][0].rsplit(".", 1)[0]
        C = re.sub(r"^\w+::", "", C)
        r0 = f"{C}.0" if nm == "accounting" else f"{C}.{rw}"
        src = [(re.sub(r"^\w+::", "", s), f) for s, f in data]
        ret = lambda r: f"{ty}{{{rw}: {r}, " + ", ".join(f"{f}: all({s})" for s, f in src) + "}"
        pair = lambda s: f"elem({s}).0" if s.endswith(("tx_undos", ".1")) else f"(elem({s}).0, elem({s}).1)"
        judge(c, k + "from", P + ("from_block_undo" if nm == "accounting" else "from_utxo_block_undo"),
              [(f"{r0} is Some", ret(f"Some(Read({r0}.Some.0))"), {}), (f"{r0} is None", ret("None"), {})],
              Turns(src, lambda s, f: [f"(elem({s}).0, Read(elem({s}).1))"] if f == "tx_undos" else
                    [f"((elem({s}).0, elem({s}).1), Read(()))", f"(elem({s}), Read(()))"]))
        new = "new" if nm == "accounting" else "from_data"
        al = ", ".join(f"all($0.{f})" for _, f in data)
        judge(c, k + "consume", P + "consume",
              [(R + " is None", f"{new}(None, {al})", {}), (f"{R} is Some & {R}.Some.0 is Erase", f"{new}(None, {al})", {})] +
              [(f"{R} is Some & {R}.Some.0 is {w}", f"{new}(Some({R}.Some.0.{w}.0), {al})", {}) for w in ("Read", "Write")],
              [(f"elem($0.{f}).1 is Erase", None, {}) for _, f in data] +
              [(f"elem($0.tx_undos).1 is {w}", f"(elem($0.tx_undos).0, elem($0.tx_undos).1.{w}.0)", {}) for w in ("Read", "Write")] +
              [(f"elem($0.{f}).1 is {w}", f"elem($0.{f}).0", {}) for f in deps for w in ("Read", "Write")])
        E = "elem($0.tx_undos).1"
        judge(c, k + "is_empty", P + "is_empty",
              [(f"end $0.tx_undos & {R} is None", "true", {}), (f"end $0.tx_undos & {R} is Some & {R}.Some.0 is Erase", "true", {}),
               (f"{R}.Some.0 is Read/Write", "false", {}), (f"{E} is Read/Write", "false", {})], [(E + " is Erase", None, {})])
        judge(c, k + "take_reward", P + "take_block_reward_undo",
              [(R + " is None", "None", [{}, {rw: "None"}]), (f"{R} is Some & {R}.Some.0 is Erase", "None", [{}, {rw: "None"}])] +
              [(f"{R} is Some & {R}.Some.0 is {w}", f"Some({R}.Some.0.{w}.0)", {rw: "None"}) for w in ("Read", "Write")])
        judge(c, k + "set_reward", P + "set_block_reward_undo",
              [(R + " is Some", "Err", {}), (R + " is None", "Ok(())", {rw: "Some(CachedOperation::Write($1))"})])
        M = "mapget($0.tx_undos, $1)"
        if nm == "accounting":
            judge(c, k + "insert", P + "insert_tx_undo",
                  [(M + " is Some", "Err", {}), (M + " is None", "Ok(())", {"tx_undos": "mapset($0.tx_undos, $1, CachedOperation::Write($2))"})])
            judge(c, k + "take", P + "take_tx_undo",
                  [(M + " is None", "Ok(None)", {}), (f"{M} is Some & {M}.Some.0 is Erase", "Err", {})] +
                  [(f"{M} is Some & {M}.Some.0 is {w}", f"Ok(Some({M}.Some.0.{w}.0))", {"tx_undos": "mapset($0.tx_undos, $1, CachedOperation::Erase)"}) for w in ("Read", "Write")])
        else:
            S = "consume($2).1"
            D, E_ = "child_parent_dependencies", "parent_child_dependencies"
            judge(c, k + "insert", P + "insert_tx_undo",
                  [(M + " is Some", "Err", {}),
                   (f"{M} is None & end {S}", "Ok(())", {"tx_undos": "mapset($0.tx_undos, $1, CachedOperation::Write(consume($2).0))", D: "loop:$0." + D, E_: "loop:$0." + E_})],
                  [(f"elem({S}) is BlockReward", None, {}),
                   (f"elem({S}) is Transaction", None, {"$0." + D: f"mapset(·, ($1, elem({S}).Transaction.0), CachedOperation::Write(()))",
                                                        "$0." + E_: f"mapset(·, (elem({S}).Transaction.0, $1), CachedOperation::Write(()))"})])
            X = "elem($0." + E_ + ")"
            judge(c, k + "has_children", P + "has_children_of",
                  [(f"eq($1, {X}.0.0) & {X}.1 is Read/Write", "true", {}), (f"end $0.{E_}", "false", {})],
                  [(f"!eq($1, {X}.0.0)", None, {}), (X + ".1 is Erase", None, {})])
            X = "elem($0." + D + ")"
            G = "get_parents_of($0, $1)"
            judge(c, k + "parents", P + "get_parents_of", [(f"end $0.{D}", f"all($0.{D})", {})],
                  [(f"!eq($1, {X}.0.0)", None, {}), (X + ".1 is Erase", None, {}),
                   (f"eq($1, {X}.0.0) & {X}.1 is Read/Write", [f"({X}.0.0, {X}.0.1)", f"($1, {X}.0.1)", f"{X}.0"], {})])
            out = {"tx_undos": "mapset($0.tx_undos, $1, CachedOperation::Erase)", D: "loop:$0." + D, E_: "loop:$0." + E_}
            less = {x: y for x, y in out.items() if x != "tx_undos"}
            judge(c, k + "take", P + "take_tx_undo",
                  [("has_children_of($0, $1)", "Err", {}),
                   (f"!has_children_of($0, $1) & end {G} & {M} is None", "Ok(None)", [out, less]),
                   (f"!has_children_of($0, $1) & end {G} & {M} is Some & {M}.Some.0 is Erase", "Ok(None)", [out, less])] +
                  [(f"!has_children_of($0, $1) & end {G} & {M} is Some & {M}.Some.0 is {w}", f"Ok(Some({M}.Some.0.{w}.0))", out) for w in ("Read", "Write")],
                  [("!has_children_of($0, $1)", None, {"$0." + D: f"mapset(·, (elem({G}).0, elem({G}).1), CachedOperation::Erase)",
                                                      "$0." + E_: f"mapset(·, (elem({G}).1, elem({G}).0), CachedOperation::Erase)"})])
        # combining
        O = "$1." + rw
        ends = " & ".join("end $1." + f for _, f in data)
        lp = {f: "loop:$0." + f for _, f in data}
        tn = []
        for _, f in data:
            q = f"combine(mapget(·, elem($1.{f}).0), Some(elem($1.{f}).1))"
            tn.append((f, q))
        judge(c, k + "combine", P + "combine",
              [(f"{O} is None & {ends}", "Ok(())", lp), (f"{O} is Some & {R} is None & {ends}", "Ok(())", {**lp, rw: O}),
               (f"{O} is Some & {R} is Some & eq({R}.Some.0, {O}.Some.0) & {ends}", "Ok(())", lp),
               (f"{O} is Some & {R} is Some & !eq({R}.Some.0, {O}.Some.0)", "Err", {})],
              Combine(tn))


class Turns(list):
    """one kind of element for each source"""
    def __init__(self, src, f):
        super().__init__((f"@{s}", [eta(x) for x in f(s, g)], {}) for s, g in src)


class Combine(list):
    def __init__(self, tn):
        super().__init__((f"@{f}", None, {"$0." + f: f"mapset(·, elem($1.{f}).0, {q}.Some.0)"}) for f, q in tn)


_all = View.all


def _turn(self, conds):
    if not conds.startswith("@"):
        return _all(self, conds)
    # the element gathered on this turn comes from that source
    return f"elem({conds[1:]})" in eta(repr_turn(self.p)) or f"elem($1.{conds[1:]})" in eta(repr_turn(self.p))


def repr_turn(p):
    return (show(p.ret) if p.ret is not None else "") + " " + " ".join(show(x) for x in p.next.values()) + " " + " ".join(show(x) for x in p.var)


View.all = _turn


def caches(c):
    for P, nm, ty in ((A, "accounting", "CachedBlockUndo"), (U, "utxo", "CachedUtxosBlockUndo")):
        k = f"cache.{nm}."
        M = "mapget($0.data, $1)"
        W = ("Read", "Write")
        put = lambda x: {"data": f"mapset($0.data, $1, {x})"}
        for f in ("data", "consume"):
            judge(c, k + f, P + f, [("", "$0.data", {})])
        judge(c, k + "new", P + "new", [("", ("AccountingBlockUndoCache" if nm == "accounting" else "UtxosBlockUndoCache") + "{data: emptymap()}", {})])
        for f, news, add in (("add_reward_undo", ["new(Some($2), emptymap())"], "set_block_reward_undo({}, $2)"),
                             ("add_tx_undo", ["new(None, all([($2, $3)]))", "new(None, mapset(emptymap(), $2, $3))", "new(None, collect(iter([($2, $3)])))"], "insert_tx_undo({}, $2, $3)")):
            outs = [put(f"CachedOperation::Write({n}.Ok.0)") for n in news]
            judge(c, k + f, P + f, [(M + " is None", "Ok(())", outs), (f"{M} is Some & {M}.Some.0 is Erase", "Ok(())", outs)] +
                  [(f"{M} is Some & {M}.Some.0 is {w}", "Ok(())", put(f"CachedOperation::Write(out0[{add.format(f'{M}.Some.0.{w}.0')}])")) for w in W])
        fetch = {"take_tx_undo": "apply($3, $1)", "take_block_reward_undo": "apply($2, $1)"}
        for f, F_ in fetch.items():
            rows = []
            strict = nm == "utxo" and f == "take_tx_undo"
            rows.append((f"{M} is Some & {M}.Some.0 is Erase", "panic" if strict else "Ok(None)", {}))
            rows.append((f"{M} is None & {F_}.Ok.0 is None", "Err" if strict else "Ok(None)", {}))
            for src, cond in [(f"{M}.Some.0.{w}.0", f"{M} is Some & {M}.Some.0 is {w}") for w in W] + [(F_ + ".Ok.0.Some.0", f"{M} is None & {F_}.Ok.0 is Some")]:
                t = f"take_tx_undo({src}, $2)" if f == "take_tx_undo" else f"take_block_reward_undo({src})"
                r = t + ".Ok.0" if f == "take_tx_undo" else t
                g = [f"Ok({r}.Some.0)"] if strict else [f"Ok({r})"]
                rows += [(f"{cond} & {r} is None", "Err" if strict else [f"Ok({r})", "Ok(None)"], {}),
                         (f"{cond} & {r} is Some & is_empty(out0[{t}])", g, put("CachedOperation::Erase")),
                         (f"{cond} & {r} is Some & !is_empty(out0[{t}])", g, put(f"CachedOperation::Write(out0[{t}])"))]
            judge(c, k + f, P + f, rows)
        judge(c, k + "set", P + "set_undo_data",
              [(M + " is None", "Ok(())", put("CachedOperation::Write($2)")), (f"{M} is Some & {M}.Some.0 is Erase", "Ok(())", put("CachedOperation::Write($2)")),
               (f"{M} is Some & {M}.Some.0 is Write", "Ok(())", [put(f"CachedOperation::Write(out0[combine({M}.Some.0.Write.0, $2)])"), put(f"{M}.Some.0{{Write.0:=out0[combine({M}.Some.0.Write.0, $2)]}}")]),
               (f"{M} is Some & {M}.Some.0 is Read", "Ok(())", [put(f"CachedOperation::{w}(out0[combine({M}.Some.0.Read.0, $2)])") for w in W] + [put(f"{M}.Some.0{{Read.0:=out0[combine({M}.Some.0.Read.0, $2)]}}")])])
        judge(c, k + "del", P + "del_undo_data", [("", "Ok(())", put("CachedOperation::Erase"))])
    M, F_ = "mapget($0.data, $1)", "apply($3, $1)"
    rows = [(f"{M} is Some & {M}.Some.0 is Erase", "Ok(false)", {}), (f"{M} is None & {F_}.Ok.0 is None", "Ok(false)", {})]
    for src, cond in [(f"{M}.Some.0.{w}.0", f"{M} is Some & {M}.Some.0 is {w}") for w in ("Read", "Write")] + [(F_ + ".Ok.0.Some.0", f"{M} is None & {F_}.Ok.0 is Some")]:
        h = f"has_children_of({src}, $2)"
        rows += [(f"{cond} & {h}", "Ok(false)", {}), (f"{cond} & !{h}", "Ok(true)", {})]
    judge_not(c, "cache.utxo.can_disconnect", U + "can_disconnect_transaction", rows)


def judge_not(c, key, fid, rows):
    """as judge, where a result may also be the negation of what is asked last, left undecided"""
    loc = c.loc(fid)
    seen = set()
    for v in views(c, fid):
        if any(x == "Err" for x in v.va.values()):
            c.ob(key + "#told", v.t(v.p.ret).startswith("Err("), "a failure is told", loc, repr(v.p)[:300])
            continue
        r = v.t(v.p.ret) if v.p.ret is not None else v.p.kind
        ok = None
        for i, (cond, want, _) in enumerate(rows):
            xs = cond.split(" & ")
            if v.all(cond):
                ok = r == want
                seen.add(i)
                break
            if len(xs) > 2 and v.all(" & ".join(xs[:-1])) and r == f"Ok(not({xs[-1].lstrip('!')}))":
                ok = True
                seen |= {i, i + 1}
                break
        c.ob(key, ok, "can be disconnected exactly if there is undo data and nothing depends on it", loc, repr(v.p)[:400])
        c.ob(key + "#out", v.outs() == {}, "nothing is changed", loc)
    c.ob(key + "#rows", len(seen) == len(rows), "each case must exist", loc, str(seen))


def tokens(c):
    P = I + "TokenIssuanceCache::"
    H = "has_tokens_issuance_to_cache(outputs($4))"
    i = H + ".Some.0"
    M = f"mapget($0.data, {i})"
    G = f"apply($5, {i})"
    same = f"eq({i}, make_token_id($1, $2, inputs($4)).Ok.0)"
    put = lambda b: {"data": f"mapset($0.data, {i}, CachedOperation::Write(new($4, {b})))",
                     "txid_vs_tokenid": f"mapset($0.txid_vs_tokenid, get_id($4), CachedOperation::Write({i}))"}
    base_ = f"{H} is Some & {same}"
    judge(c, "tokens.register", P + "register",
          [(H + " is None", "Ok(())", {}), (f"{H} is Some & !{same}", "Err", {}), (f"{base_} & {M} is Some", "Err", {}),
           (f"{base_} & {M} is None & {G}.Ok.0 is Some", "Err", {}),
           (f"{base_} & {M} is None & {G}.Ok.0 is None & $3 is Some", "Ok(())", put("$3.Some.0")),
           (f"{base_} & {M} is None & {G}.Ok.0 is None & $3 is None", "Ok(())", [put("into(zero())"), put("zero()"), put("from(Id, zero())"), put("from(zero())")])])
    H = "has_tokens_issuance_to_cache(outputs($1))"
    i = H + ".Some.0"
    M = f"mapget($0.data, {i})"
    G = f"apply($2, {i})"
    judge(c, "tokens.unregister", P + "unregister",
          [(H + " is None", "Ok(())", {}), (f"{H} is Some & {M} is Some", "Err", {}), (f"{H} is Some & {M} is None & {G}.Ok.0 is None", "Err", {}),
           (f"{H} is Some & {M} is None & {G}.Ok.0 is Some", "Ok(())",
            {"data": f"mapset($0.data, {i}, CachedOperation::Erase)", "txid_vs_tokenid": "mapset($0.txid_vs_tokenid, get_id($1), CachedOperation::Erase)"})])
    M = "mapget($0.data, $1)"
    for f, x in (("set_token_aux_data", "CachedOperation::Write($2)"), ("del_token_aux_data", "CachedOperation::Erase")):
        out = {"data": f"mapset($0.data, $1, {x})"}
        judge(c, "tokens." + f, P + f, [(M + " is None", "Ok(())", out), (f"{M} is Some & {M}.Some.0 is Erase", "Ok(())", out)] +
              [(f"{M} is Some & {M}.Some.0 is Read/Write", "Err", {})])
    judge(c, "tokens.set_id", P + "set_token_id", [("", "Ok(())", {"txid_vs_tokenid": "mapset($0.txid_vs_tokenid, $1, CachedOperation::Write($2))"})])
    judge(c, "tokens.del_id", P + "del_token_id", [("", "Ok(())", {"txid_vs_tokenid": "mapset($0.txid_vs_tokenid, $1, CachedOperation::Erase)"})])
    judge(c, "tokens.data", P + "data", [("", "$0.data", {})])
    judge(c, "tokens.ids", P + "txid_from_issuance", [("", "$0.txid_vs_tokenid", {})])
    judge(c, "tokens.consume", P + "consume", [("", "ConsumedTokenIssuanceCache{data: $0.data, txid_vs_tokenid: $0.txid_vs_tokenid}", {})])
    # only an NFT's issuance carries its id
    fid = I + "has_tokens_issuance_to_cache"
    loc = c.loc(fid)
    n = set()
    for v in views(c, fid):
        x = v.va.get("elem($0)")
        if v.p.kind == "back":
            c.ob("tokens.issued#turn", x not in (None, "IssueNft") or "IssueNft" in v.no.get("elem($0)", ()), "only an output that issues no NFT is passed over", loc, repr(v.p)[:300])
        elif x == "IssueNft":
            n.add(1)
            c.ob("tokens.issued#nft", v.t(v.p.ret) == "Some(elem($0).IssueNft.0)", "the id of the NFT is given", loc, repr(v.p)[:300])
        else:
            n.add(2)
            c.ob("tokens.issued#none", v.lit("end $0") and v.t(v.p.ret) == "None" or v.p.kind == "ret" and "IssueNft" in v.t(v.p.ret), "all outputs are looked at", loc, repr(v.p)[:300])
    c.ob("tokens.issued#rows", n == {1, 2}, "each case must exist", loc, str(n))


PARTS = [operations, blocks, caches, tokens]
