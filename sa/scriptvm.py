"""Stack language for the script interpreter: vector operations of a path are rewritten to a base stack of which some
elements were taken and on which others were put, so that rules compare what the stack holds, not how it got there.
Positions count from the top: top(S, 1) is the top element of S."""
import re
from .terms import *

OPS = re.compile(r"Vec::<T, A>::|Vec::<T>::|alloc::vec::Vec.*::")


def opname(t):
    if t.tag == "call":
        m = re.search(r"vec::Vec.*::(push|pop|truncate|extend_from_within|remove|insert|clear)$", t.args[0])
        return m and m[1]


class Stk:
    """rewrites the vector terms of one path"""
    def __init__(self, swaps=()):
        self.memo = {}
        self.swaps = swaps

    def lin(self, t):
        """integer term as a linear form {atom text: coefficient, '': constant}"""
        if t.tag == "int":
            return {"": int(t.args[0])}
        if t.tag in ("add", "sub") and len(t.args) == 2:
            a, b = self.lin(t.args[0]), self.lin(t.args[1])
            s = 1 if t.tag == "add" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}
        if t.tag == "len":
            v = self.N(t.args[0])
            if v.tag == "stk":
                return self.length(v)
            return {f"len({show(v)})": 1}
        return {show(self.N(t)): 1}

    def length(self, v):
        base, n, items = v.args[0], v.args[1], v.args[2]
        if base.tag == "cut":
            r = dict(self.length(base.args[0]))
            for k, x in base.args[1]:
                r[k] = r.get(k, 0) - x
        else:
            r = {f"len({show(base)})": 1}
        r[""] = r.get("", 0) + len(items) - n
        return {k: x for k, x in r.items() if x}

    def depth(self, i, v):
        """distance of index i from the end of v"""
        a, b = self.lin(i), self.length(v)
        r = dict(b)
        for k, x in a.items():
            r[k] = r.get(k, 0) - x
        return {k: x for k, x in r.items() if x}

    def const(self, d):
        return d.get("", 0) if set(d) <= {""} else None

    def vec(self, t):
        v = self.N(t)
        return v if v.tag == "stk" else mk("stk", v, 0, ())

    def ensure(self, v, k):
        base, n, items = v.args
        while len(items) < k:
            n += 1
            items = (mk("top", base, n),) + items
        return base, n, items

    def mkstk(self, base, n, items):
        # elements that are where they were
        while items and n and items[0] is mk("top", base, n):
            items, n = items[1:], n - 1
        return mk("stk", base, n, tuple(items))

    def sym(self, d):
        return " + ".join((k or "1") + (f"*{x}" if k and x != 1 else "") if k else str(x) for k, x in sorted(d.items())) or "0"

    def item(self, v, d):
        k = self.const(d)
        if k is not None and k > 0:
            b, n, items = self.ensure(v, k)
            return items[-k]
        return mk("nth", v, self.sym(d))

    def N(self, t):
        if t.__class__ is tuple:
            return tuple(self.N(x) for x in t)
        if t.__class__ is not T:
            return t
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.n(t)
        return r

    def rng(self, r, v):
        d = dict(zip(r.args[2], r.args[3])) if r.tag == "adt" else {}
        z = d.get("start", integer(0))
        return self.depth(z, v), self.depth(d["end"], v) if "end" in d else {}

    def n(self, t):
        if t.tag == "out" and t.args[1] in (0, "0"):
            e = t.args[0]
            o = opname(e)
            if o:
                a = e.args[1]
                v = self.vec(a[0])
                if o == "push":
                    return self.mkstk(v.args[0], v.args[1], v.args[2] + (self.N(a[1]),))
                if o == "pop":
                    b, n, items = self.ensure(v, 1)
                    return self.mkstk(b, n, items[:-1])
                if o == "truncate":
                    d = self.depth(a[1], v)
                    k = self.const(d)
                    if k is not None and k >= 0:
                        b, n, items = self.ensure(v, k)
                        return self.mkstk(b, n, items[:len(items) - k])
                    return mk("stk", mk("cut", v, tuple(sorted(d.items()))), 0, ())
                if o == "remove":
                    k = self.const(self.depth(a[1], v))
                    if k is not None and k > 0:
                        b, n, items = self.ensure(v, k)
                        i = len(items) - k
                        return self.mkstk(b, n, items[:i] + items[i + 1:])
                    return mk("stk", mk("without", v, self.sym(self.depth(a[1], v))), 0, ())
                if o == "extend_from_within":
                    x, y = (self.const(d) for d in self.rng(a[1], v))
                    if x is not None and y is not None and x > y >= 0:
                        b, n, items = self.ensure(v, x)
                        return self.mkstk(b, n, items + items[len(items) - x:len(items) - y])
        if t.tag == "fld" and t.args[1] == "Some" and t.args[0].tag == "call" and opname(t.args[0]) == "pop":
            return self.item(self.vec(t.args[0].args[1][0]), {"": 1})
        if t.tag == "call" and opname(t) == "remove":
            v = self.vec(t.args[1][0])
            return self.item(v, self.depth(t.args[1][1], v))
        if t.tag == "idx":
            i = t.args[1]
            if i.tag == "adt" and "Range" in i.args[0]:
                v = self.vec(t.args[0])
                x, y = self.rng(i, v)
                return mk("tops", v, self.sym(x), self.sym(y))
            w = self.N(t.args[0])
            if w.tag == "tops":
                l = self.lin(i)
                if re.fullmatch(r"-?\d+", w.args[1]):
                    l = {k: -x for k, x in l.items()}
                    l[""] = l.get("", 0) + int(w.args[1])
                    return self.item(w.args[0], {k: x for k, x in l.items() if x})
            if w.tag == "stk" or "len(" in show(i):
                v = self.vec(t.args[0])
                d = self.depth(i, v)
                if not any(k.startswith("len(") and x for k, x in d.items()):
                    return self.item(v, d)
        if t.tag == "slice":
            v = self.vec(t.args[0])
            i = t.args[1]
            if i.tag == "adt" and "Range" in i.args[0]:
                x, y = self.rng(i, v)
                if not any(k.startswith("len(") for k in list(x) + list(y)):
                    return mk("tops", v, self.sym(x), self.sym(y))
        if t.tag == "store":
            i, x = t.args[1], t.args[2]
            if i.tag == "adt" and "Range" in i.args[0] and x.tag == "out":
                v = self.vec(t.args[0])
                a, b = (self.const(d) for d in self.rng(i, v))
                e = x.args[0]
                if a and b == 0 and e.tag == "call":
                    b_, n, items = self.ensure(v, a)
                    lo, hi = items[:len(items) - a], items[len(items) - a:]
                    if e.args[0].endswith("split_at_mut") and e in self.swaps:
                        k = self.const(self.lin(e.args[1][1]))
                        if k is not None and 2 * k == a:
                            return self.mkstk(b_, n, lo + hi[k:] + hi[:k])
                    if e.args[0].endswith("clone_from_slice"):
                        y = self.N(e.args[1][1])
                        if y.tag == "arr" and len(y.args[0]) == a:
                            return self.mkstk(b_, n, lo + tuple(y.args[0]))
        na = tuple(self.N(x) for x in t.args)
        return t if na == t.args else mk(t.tag, *na)


def swaps(p):
    """the split slices of which one half was exchanged with the other"""
    r = set()
    for e in p.events:
        if e.name.endswith("swap_with_slice"):
            a, b = e.args[0], e.args[1]
            if {show(a), show(b)} and a.tag == b.tag == "fld" and a.args[0] is b.args[0] and {a.args[2], b.args[2]} == {"0", "1"}:
                r.add(a.args[0])
    return r


I = "script::interpreter::"
OPQ = r"read_scriptint|read_scriptbool|build_scriptint|execute_opcode|check_multisig|Instructions.*::(next|subscript)|instructions_iter|opcodes::.*classify|opcodes::.*::is_verify|enforce_minimal"


def simp(s):
    s = re.sub(r"\b(script|interpreter|opcodes)::", "", s)
    s = s.replace("from(Cow<[u8]>, ", "own(").replace("Cow::Owned(", "own(").replace("Cow::Borrowed(", "(")
    return s


def diff(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


class Step:
    """one path of a loop over the instructions, over the roles of the loop's variables"""
    def __init__(self, p, entry):
        self.p = p
        k = Stk(swaps(p))
        role = {}
        for ph, init in p.phi.items():
            s = show(init)
            r = entry(s)
            if r and r not in role.values():
                role[ph] = r
        self.roles = set(role.values())
        ren = {ph: mk("sym", r) for ph, r in role.items()}

        def R(t):
            # a converted number is the number
            return map_term(t, lambda x: ren.get(x) if x.tag == "phi" else R(x.args[0].args[1]) if x.tag == "fld" and x.args[1] == "Ok" and x.args[0].tag == "tryint" else None)
        def txt(t):
            s = simp(show(k.N(R(t))))
            s = re.sub(r"sym\((\w+)\)", r"\1", s)
            s = re.sub(r"\b([SA])\.0\b", r"\1", s)
            for a, b in (("Instructions::next(IT)", "NEXT"), ("NEXT.Some.0.Ok.0.Op.0", "OP"), ("All::classify(OP)", "CLASS"), ("NEXT.Some.0.Ok.0.PushBytes.0", "DATA")):
                s = s.replace(a, b)
            return s
        self.txt = txt
        self.truth = {txt(t): v for t, v in p.truth.items()}
        self.var = {txt(t): v for t, v in p.var.items()}
        self.notvar = {txt(t): v for t, v in p.notvar.items()}
        self.ret = txt(p.ret) if p.ret is not None else None
        self.k, self.R = k, R
        self.raw = {}
        self.next = {}
        if p.kind == "back":
            for ph, r in role.items():
                v = self.raw[r] = p.next.get(ph, ph)
                if r in "SA":
                    v = p.m.project(v, ("f", "0"))
                elif r == "E":
                    self.next["E.stack"] = txt(p.m.project(v, ("f", "stack")))
                    self.next["E.num_idle"] = txt(p.m.project(v, ("f", "num_idle")))
                    continue
                self.next[r] = txt(v)

    def size(self, *vecs):
        """linear form of the total length of vector terms"""
        d = {}
        for v in vecs:
            for a, x in self.k.lin(mk("len", self.R(v))).items():
                d[a] = d.get(a, 0) + x
        return {a: x for a, x in d.items() if x}

    def facts(self):
        """linear forms the path knows to be at least zero"""
        r = []
        for t, v in self.p.truth.items():
            if t.tag in ("lt", "eq"):
                a, b = (self.k.lin(self.R(x)) for x in t.args)
                if t.tag == "lt":
                    r.append(diff(diff(b, a), {"": 1}) if v else diff(a, b))
                elif v:
                    r += [diff(a, b), diff(b, a)]
        return r

    def within(self, limit, n):
        """whether the path decided a linear form to be within a limit (the text of a term): True/False/None"""
        f = self.facts()
        for g in f:
            m = [k for k in g if limit in k]
            if len(m) == 1:
                M = {m[0]: 1}
                if g == diff(M, n):
                    return True
                if g == diff(diff(n, M), {"": 1}):
                    return False
        return None

    def __repr__(self):
        return f"[{self.p.kind}] {self.var} {self.truth} => {self.ret} {self.next}"


def unstk(s):
    return re.sub(r"stk\(([^(),]+), 0, \(\)\)", r"\1", s)


class Bytes:
    """byte slices as views of a base: view(t) = (base text, start, end) with linear start and end"""
    def __init__(self, name=lambda t: None):
        self.name = name

    def lin(self, t):
        n = self.name(t)
        if n:
            return {n: 1}
        if t.tag == "int":
            return {"": int(t.args[0])} if t.args[0] else {}
        if t.tag in ("add", "sub") and len(t.args) == 2:
            b = self.lin(t.args[1])
            return diff(self.lin(t.args[0]), b if t.tag == "sub" else {k: -v for k, v in b.items()})
        if t.tag == "len":
            v = self.view(t.args[0])
            return diff(v[2], v[1])
        if t.tag == "cast":
            return self.lin(t.args[1])
        return {show(t): 1}

    def plus(self, a, b):
        return diff(a, {k: -v for k, v in b.items()})

    def view(self, t):
        if t.tag == "slice" and t.args[1].tag == "adt":
            b, s, e = self.view(t.args[0])
            d = dict(zip(t.args[1].args[2], t.args[1].args[3]))
            z = self.lin(d["start"]) if "start" in d else {}
            return b, self.plus(s, z), self.plus(s, self.lin(d["end"])) if "end" in d else e
        if t.tag == "fld" and t.args[0].tag == "call" and t.args[0].args[0].endswith("split_at") and t.args[2] in ("0", "1"):
            b, s, e = self.view(t.args[0].args[1][0])
            m = self.plus(s, self.lin(t.args[0].args[1][1]))
            return (b, s, m) if t.args[2] == "0" else (b, m, e)
        if t.tag == "arr" and not t.args[0]:
            return "", {}, {}
        b = show(t)
        return b, {}, {f"len({b})": 1}

    def item(self, t):
        """(base, position) of an element"""
        if t.tag == "idx":
            b, s, e = self.view(t.args[0])
            return b, self.plus(s, self.lin(t.args[1]))
        return None

    def facts(self, p):
        r = []
        for t, v in p.truth.items():
            if t.tag in ("lt", "eq"):
                a, b = (self.lin(x) for x in t.args)
                if t.tag == "lt":
                    r.append(diff(diff(b, a), {"": 1}) if v else diff(a, b))
                elif v:
                    r += [diff(a, b), diff(b, a)]
        return r


def at_least(fs, g):
    """whether the facts contain g >= 0 (or a stronger bound on the same form)"""
    c = {k: v for k, v in g.items() if k}
    if not c:
        return g.get("", 0) >= 0
    return any({k: v for k, v in f.items() if k} == c and f.get("", 0) <= g.get("", 0) for f in fs)
