"""Path-sensitive value-flow analysis over MIR (abstract interpretation with trace partitioning).

The abstract value of a variable is a hash-consed term over the function's inputs; the abstract state also keeps the
branch facts of its trace partition (truth of comparison atoms, enum variants, integer bounds) and the ordered list of
calls that were not inlined.  References to locals are places, references to inputs are transparent.  Workspace callees
are inlined up to a depth; other calls are modelled (Option/Result/iterator combinators) or uninterpreted.  Loop headers
forget every variable and place the loop can write, and a partition ends when it comes back to the header; no solver
is involved, facts are only closed under the rules in `assume`.
"""
import re
from .terms import *
from .facts import subst, tystr, unify, MissingAnchor

INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[f"u{_b}"] = (0, 2 ** _b - 1)
    INT_RANGE[f"i{_b}"] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE["usize"], INT_RANGE["isize"] = INT_RANGE["u64"], INT_RANGE["i64"]

NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


class Limit(Exception):
    pass


class Frame:
    __slots__ = ("uid", "fn", "env", "bb", "ret", "seen", "k", "cells_dead")

    def __init__(self, uid, fn, env, ret, k=None):
        self.uid, self.fn, self.env, self.ret, self.k = uid, fn, env, ret, k
        self.bb = 0
        self.seen = frozenset()

    def copy(self):
        f = Frame(self.uid, self.fn, self.env, self.ret, self.k)
        f.bb, f.seen = self.bb, self.seen
        return f


class State:
    __slots__ = ("cells", "truth", "var", "notvar", "rng", "facts", "events", "stack", "phi", "kind", "ret", "msg",
                 "trace", "uid", "back", "uniq", "neq", "phikey", "next")

    def copy(self):
        s = State()
        s.cells, s.truth, s.var = dict(self.cells), dict(self.truth), dict(self.var)
        s.notvar, s.rng = dict(self.notvar), dict(self.rng)
        s.neq = dict(self.neq)
        s.facts, s.events = list(self.facts), list(self.events)
        s.stack = [f.copy() for f in self.stack]
        s.phi, s.phikey, s.next = dict(self.phi), dict(self.phikey), self.next
        s.kind, s.ret, s.msg, s.back = self.kind, self.ret, self.msg, self.back
        s.trace, s.uid, s.uniq = list(self.trace), self.uid, self.uniq
        return s


class Event:
    """a call that was not inlined (or a drop with a workspace Drop impl)"""
    __slots__ = ("name", "args", "res", "line", "fn", "raw", "nf", "fallible")

    def __init__(self, name, args, res, line, fn, nf, raw=None, fallible=False):
        self.fallible = fallible     # the call returns a Result
        self.name, self.args, self.res, self.line, self.fn, self.raw = name, args, res, line, fn, raw
        self.nf = nf     # number of facts known when it happened

    def __repr__(self):
        return f"{short(self.name)}({', '.join(map(show, self.args))})"


class Path:
    """one finished trace partition"""
    def __init__(self, st, m):
        self.kind, self.msg, self.back = st.kind, st.msg, st.back
        self.facts, self.events, self.phi = st.facts, st.events, st.phi
        self.truth, self.var, self.notvar, self.rng = st.truth, st.var, st.notvar, st.rng
        self.trace = st.trace
        self.st = st
        self.m = m
        self.next = st.next     # loop-carried values at the back edge
        self.ret = m.snap(st, st.ret) if st.ret is not None else None

    def out(self, argterm):
        """final value behind a reference argument"""
        return self.m.snap(self.st, self.m.read(self.st, ("h", argterm), ()))

    def has(self, atom, val=True):
        a, pol = norm(atom)
        return self.truth.get(a) == (val == pol)

    def fact_strs(self):
        return [f if isinstance(f, str) else fact_str(f) for f in self.facts]

    def __repr__(self):
        r = f"[{self.kind}{':' + str(self.msg) if self.msg else ''}] {' & '.join(self.fact_strs())} => {show(self.ret) if self.ret is not None else ''}"
        return r


def fact_str(f):
    k = f[0]
    if k == "t":
        return ("" if f[2] else "!") + show(f[1])
    if k == "v":
        return f"{show(f[1])} is {f[2]}"
    return f"{k}({', '.join(show(x) for x in f[1:])})"


def norm(c):
    """comparison atoms -> ('lt'|'eq' atom, polarity)"""
    pol = True
    while True:
        if c.tag == "not":
            c, pol = c.args[0], not pol
            continue
        if c.tag in ("ne", "le", "gt", "ge"):
            a, b = c.args
            if c.tag == "ne":
                return mk_eq(a, b), not pol
            if c.tag == "le":
                return lt_atom(b, a, not pol)
            if c.tag == "gt":
                return lt_atom(b, a, pol)
            return lt_atom(a, b, not pol)
        if c.tag == "lt":
            return lt_atom(*c.args, pol)
        if c.tag == "eq":
            return mk_eq(*c.args), pol
        if c.tag == "ovf" and (c.args[0] == "add" and (integer(0) in c.args[2:]) or c.args[0] == "sub" and c.args[3] is integer(0)):
            return FALSE, pol
        if c.tag == "ovf" and c.args[0] == "sub" and c.args[1] in INT_RANGE and c.args[1][0] == "u":
            return lt_atom(c.args[2], c.args[3], pol)     # unsigned subtraction overflows exactly when a < b
        return c, pol


def mk_eq(a, b):
    if skey(b) < skey(a):
        a, b = b, a
    return mk("eq", a, b)


def lt_atom(a, b, pol):
    """x < c  is written  !(c-1 < x)"""
    if b.tag == "int" and a.tag != "int":
        return mk("lt", integer(b.args[0] - 1), a), not pol
    return mk("lt", a, b), pol


def cmp_const(op, a, b):
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]


def is_const(t):
    return t.tag in ("int", "str", "bytes", "float") or t in (TRUE, FALSE) or (t.tag == "adt" and all(is_const(x) for x in t.args[3])) \
        or (t.tag in ("tup", "arr") and all(is_const(x) for x in t.args[0]))


LOGGING = re.compile(r"^(log|tracing|tracing_core)::|^<(log|tracing|tracing_core)::|^core::fmt::(?!Write::write_|Formatter.*::(write_|pad)|.*::fmt$)|^alloc::fmt::|^core::hint::must_use")
PANIC = re.compile(r"^core::panicking::|^std::rt::panic|^core::option::(expect|unwrap)_failed|^core::result::unwrap_failed|^std::process::(exit|abort)")


TRAITS = set()
STATIC = re.compile(r"::(new|new_from_slice|try_from_rng|from_rng|seed_from_u64|from_seed|from_entropy|from_os_rng|try_from_os_rng)$")


class Machine:
    def __init__(self, F, inline=None, stop=None, maxpaths=6000, depth=14, models=None, logging=False, assume_ok=None,
                 maxsteps=400000, keep_drop=True, force=None, unroll=False):
        from . import models as M
        self.F = F
        self.inline = inline          # None | callable(id)->bool | set of crates
        self.stop = re.compile(stop) if isinstance(stop, str) else stop
        self.force = re.compile(force) if isinstance(force, str) else force   # inlined even when a model exists
        self.maxpaths, self.depth, self.maxsteps = maxpaths, depth, maxsteps
        self.M = M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.loopinfo = {}
        self.unroll = unroll      # loops are followed, not summarised (sa/unroll.py)
        if unroll:
            from .unroll import UNROLL
            self.models.update(UNROLL)
        self.visited = set()
        self.unmodelled = {}
        self.destty = None
        self.changed = {}      # place of an iteration -> what the closures applied there change of what the caller gave
        self.keep_drop = keep_drop
        self.promoted_cache = {}
        self.recast = set()
        self.tyrange = {}         # term -> range of the narrowest integer type it was seen at

    # ------------------------------------------------------------------ entry points
    def run(self, fid, args=None, env=None, assume=None):
        fn = self.F.need(fid)
        st = self.fresh()
        if args is None:
            args = [mk("arg", i) for i in range(fn["argc"])]
        self.push_fn(st, fn, args, env or {}, None)
        return self.explore([st], assume)

    def run_coroutine(self, fid, caps=None, env=None, assume=None):
        """the body of an async fn / block: captured variables are arg terms in capture order"""
        fn = self.F.need(fid)
        st = self.fresh()
        n = len(fn.get("caps") or [])
        caps = caps or [mk("arg", i) for i in range(n)]
        c = mk("coro", fid, tuple(caps), ())
        self.push_fn(st, fn, [c, mk("arg", "ctx")], env or {}, None)
        return self.explore([st], assume)

    def run_async(self, fid, args=None, env=None, assume=None):
        """an `async fn`: its arguments, then the awaited body"""
        fn = self.F.need(fid)
        st = self.fresh()
        if args is None:
            args = [mk("arg", i) for i in range(fn["argc"])]
        self.push_fn(st, fn, args, env or {}, None)
        st.stack.insert(0, Frame(-1, None, {}, None, k=lambda m, s, v: m.M.await_value(m, s, v)))
        # the py frame is below the fn frame: its continuation polls the returned future
        return self.explore([st], assume)

    def run_closure(self, term, args, st=None):
        st = st or self.fresh()
        return self.explore(self.act(st, ("call", term, args, lambda m, s, v: [(s, ("ret", v))])))

    def fresh(self):
        st = State()
        st.cells, st.truth, st.var, st.notvar, st.rng, st.phi = {}, {}, {}, {}, {}, {}
        st.neq, st.phikey, st.next = {}, {}, None
        st.facts, st.events, st.stack, st.trace = [], [], [], []
        st.kind = st.ret = st.msg = st.back = None
        st.uid, st.uniq = 0, 0
        return st

    def explore(self, work, assume=None):
        if assume:
            for s in work:
                assume(self, s)
        for _ in range(5):
            n = sum(len(x) for x in self.changed.values())
            done = self.explore1([s.copy() for s in work])
            if n == sum(len(x) for x in self.changed.values()):
                return done
        raise Limit("places changed by closures")

    def explore1(self, work):
        done = []
        steps = 0
        while work:
            st = work.pop()
            while st is not None:
                steps += 1
                if steps > self.maxsteps:
                    raise Limit("step limit")
                if st.kind is not None or not st.stack:
                    done.append(Path(st, self))
                    if len(done) > self.maxpaths:
                        raise Limit("path limit")
                    break
                nxt = self.step(st)
                st = nxt.pop() if nxt else None
                work.extend(nxt or [])
        return done

    # ------------------------------------------------------------------ places
    def loc(self, st, fr, pl):
        if isinstance(pl, int):
            return (fr.uid, pl), ()
        key, proj = (fr.uid, pl[0]), ()
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, key, proj)
                if v.tag == "ptr":
                    key, proj = v.args[0], v.args[1]
                else:
                    key, proj = ("h", v), ()
            elif e == "o":
                continue
            else:
                k = e[0]
                if k == "f":
                    proj += (("f", e[1]),)
                elif k == "v":
                    proj += (("v", e[1]),)
                elif k == "i":
                    proj += (("i", self.snap(st, self.read(st, (fr.uid, e[1]), ()))),)
                elif k == "ci":
                    proj += (("ci", e[1], e[2]),)
                elif k == "ss":
                    proj += (("ss", e[1], e[2], e[3]),)
        return key, proj

    def cell(self, st, key):
        v = st.cells.get(key)
        if v is None:
            if key[0] == "h":
                return key[1]
            return mk("uninit", key[0], key[1])
        return v

    def read(self, st, key, proj):
        v = self.cell(st, key)
        for e in proj:
            v = self.project(v, e, st)
        return v

    def project(self, v, e, st=None):
        k = e[0]
        if v.tag == "ptr" and st is not None:   # projection through a transparent reference
            v = self.read(st, v.args[0], v.args[1])
        t = v.tag
        if k == "v":
            if t in ("adt", "dc"):
                return v
            return mk("dc", v, e[1])
        if k == "f":
            n = e[1]
            if t == "adt":
                names = v.args[2]
                if n in names:
                    return v.args[3][names.index(n)]
                if n.isdigit() and int(n) < len(names):
                    return v.args[3][int(n)]
                return mk("fld", v, "", n)
            if t == "tup":
                return v.args[0][int(n)] if n.isdigit() and int(n) < len(v.args[0]) else mk("fld", v, "", n)
            if t in ("clos", "coro"):
                caps = self.caps(v.args[0])
                if n.startswith("^") and n[1:] in caps:
                    i = caps.index(n[1:])
                elif n.isdigit():
                    i = int(n)
                else:
                    return mk("fld", v, "", n)
                return v.args[1][i] if i < len(v.args[1]) else mk("fld", v, "", n)
            var = ""
            b = v
            if t == "dc":
                b, var = v.args
            return field(b, var, n)
        if k == "i":
            if self.unroll and t == "arr" and e[1].tag != "int":
                from .unroll import rng_of
                r = rng_of(self, e[1], len(v.args[0]))
                if r and 0 <= r[0] <= r[1] <= len(v.args[0]):
                    return mk("arr", v.args[0][r[0]:r[1]])
            if t == "arr" and e[1].tag == "int" and 0 <= e[1].args[0] < len(v.args[0]):
                return v.args[0][e[1].args[0]]
            if t == "store" and v.args[1] is e[1]:
                return v.args[2]
            return mk("idx", v, e[1])
        if k == "ci":
            off, fe = e[1], e[2]
            if t == "arr":
                i = len(v.args[0]) - off if fe else off
                if 0 <= i < len(v.args[0]):
                    return v.args[0][i]
            return mk("idx", v, mk("fromend", integer(off)) if fe else integer(off))
        if k == "ss":
            if self.unroll and t == "arr" and all(isinstance(x, int) for x in e[1:3]):
                n = len(v.args[0])
                return mk("arr", v.args[0][e[1]:n - e[2] if e[3] else e[2]])
            return mk("subslice", v, e[1], e[2], e[3])
        if k == "mv":
            o = self.M.map_get(v, e[1])
            return o.args[3][0] if o.tag == "adt" and o.args[3] else field(o, "Some", "0")
        raise AssertionError(k)

    def caps(self, fid):
        f = self.F.fn(fid)
        return f.get("caps") or [] if f else []

    def write(self, st, key, proj, val):
        if not proj:
            st.cells[key] = val
            return
        st.cells[key] = self.update(self.cell(st, key), proj, val)

    def update(self, v, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        if e[0] == "v":
            if v.tag == "adt" or not rest:
                return self.update(v, rest, val)
            return self.update(v, (("vf", e[1], rest[0][1]),) + rest[1:], val)
        if e[0] == "mv":
            new = self.update(self.project(v, e), rest, val)
            return self.M.map_set(v, e[1], new)
        if e[0] in ("f", "vf"):
            var = e[1] if e[0] == "vf" else ""
            n = e[-1]
            sub = self.project(mk("dc", v, var) if var and v.tag != "adt" else v, ("f", n))
            new = self.update(sub, rest, val)
            if v.tag == "adt":
                names = v.args[2]
                i = names.index(n) if n in names else int(n)
                fs = list(v.args[3])
                fs[i] = new
                return adt(v.args[0], v.args[1], names, fs)
            if v.tag == "tup" and n.isdigit() and int(n) < len(v.args[0]):
                fs = list(v.args[0])
                fs[int(n)] = new
                return mk("tup", tuple(fs))
            if v.tag in ("clos", "coro"):
                caps = self.caps(v.args[0])
                i = caps.index(n[1:]) if n.startswith("^") and n[1:] in caps else int(n)
                fs = list(v.args[1])
                fs[i] = new
                return mk(v.tag, v.args[0], tuple(fs), *v.args[2:])
            base, ups = (v.args[0], v.args[1]) if v.tag == "upd" else (v, ())
            ups = tuple(u for u in ups if (u[0], u[1]) != (var, n)) + ((var, n, new),)
            ups = tuple(sorted(ups, key=lambda u: (u[0], u[1])))
            return mk("upd", base, ups)
        if e[0] in ("i", "ci"):
            idx = e[1] if e[0] == "i" else integer(e[1])
            new = self.update(self.project(v, ("i", idx)), rest, val)
            if v.tag == "arr" and idx.tag == "int" and 0 <= idx.args[0] < len(v.args[0]):
                fs = list(v.args[0])
                fs[idx.args[0]] = new
                return mk("arr", tuple(fs))
            return mk("store", v, idx, new)
        return mk("store", v, mk("slice", *[x for x in e[1:]]), val)

    def snap(self, st, t, depth=0):
        """value with all places read through"""
        if t.__class__ is tuple:
            return tuple(self.snap(st, x, depth) for x in t)
        if t.__class__ is not T or not t.ptr:
            return t
        if depth > 24:
            return mk("deep")
        if t.tag == "ptr":
            return self.snap(st, self.read(st, t.args[0], t.args[1]), depth + 1)
        return mk(t.tag, *[self.snap(st, x, depth + 1) for x in t.args])

    def deref(self, st, t):
        """one value behind any chain of places"""
        n = 0
        while t.tag == "ptr" and n < 20:
            t = self.read(st, t.args[0], t.args[1])
            n += 1
        return t

    def mutptrs(self, st, t, out, depth=0):
        if t.__class__ is tuple:
            for x in t:
                self.mutptrs(st, x, out, depth)
        elif t.__class__ is T and t.ptr and depth < 8:
            if t.tag == "ptr":
                if t.args[2]:
                    out.add((t.args[0], t.args[1]))
                v = self.read(st, t.args[0], t.args[1])
                # a shared reference to a mutable one gives shared access only
                if t.args[2] or not (v.__class__ is T and v.tag == "ptr"):
                    self.mutptrs(st, v, out, depth + 1)
            else:
                for x in t.args:
                    self.mutptrs(st, x, out, depth)
        return out

    # ------------------------------------------------------------------ constants
    def const(self, st, fr, c):
        if "fn" in c:
            f = c["fn"]
            return mk("fnref", f.get("r") or f["d"], self.targs(fr, f.get("ra") if f.get("r") else f.get("a")), f["d"],
                      self.targs(fr, f.get("a")))
        if "pr" in c and "v" not in c:
            return self.promoted(st, fr, c["pr"])
        if "v" in c:
            return self.cv(c["v"], self.F.ty(fr.fn["crate"], c["t"]))
        if "ct" in c:
            v = subst(self.F.ty(fr.fn["crate"], c["ct"]), fr.env)
            if v[0] == "cval" and re.fullmatch(r"-?\d+", v[1]):
                return integer(int(v[1]))
            if v[0] == "cval" and v[1] in ("true", "false"):
                return boolean(v[1] == "true")
            return mk("const", v[1])
        t = subst(self.F.ty(fr.fn["crate"], c["t"]), fr.env)
        if t[0] == "fndef":
            return mk("fnref", t[1], t[2], t[1], t[2])
        if t[0] == "tuple" and not t[1]:
            return UNIT
        if "p" in c:
            r = self.F.consts.get(c["p"])
            if r and r["v"] is not None:
                return self.cv(r["v"])
            # associated constant of a generic self type
            if c.get("a"):
                selft = subst(self.F.ty(fr.fn["crate"], c["a"][0]), fr.env)
                res = self.F.resolve_trait_method(c["p"], selft) if selft[0] != "param" else None
                if res:
                    r = self.F.consts.get(res[0])
                    if r and r["v"] is not None:
                        return self.cv(r["v"])
                return mk("const", c["p"], tystr(selft))
            return mk("const", c["p"])
        if t[0] in ("closure",):
            return mk("clos", t[1], (), tuple(sorted(fr.env.items())))
        if t[0] == "adt":
            a = self.F.adts.get(t[1])
            if a and a["kind"] == "struct" and not a["v"][0]["f"]:
                return adt(t[1], a["v"][0]["n"], (), ())
        x = c.get("x", tystr(t))
        return mk("const", x if x.startswith("static ") else "?" + x)

    def cv(self, v, ty=None):
        if isinstance(v, bool):
            return boolean(v)
        if isinstance(v, int):
            if ty and ty[0] == "prim" and ty[1] == "bool":
                return boolean(bool(v))
            return integer(v)
        if isinstance(v, str):
            if ty and ty[0] == "prim" and ty[1] in ("u128", "i128"):
                return integer(int(v))
            return mk("str", v)
        if v is None:
            return mk("const", "?")
        if "S" in v:
            return adt(v["S"], v["V"], v["n"], [self.cv(x) for x in v["f"]])
        if "T" in v:
            return mk("tup", tuple(self.cv(x) for x in v["T"]))
        if "A" in v:
            return mk("arr", tuple(self.cv(x) for x in v["A"]))
        if "b" in v:
            return mk("arr", tuple(integer(x) for x in bytes.fromhex(v["b"])))
        if "F" in v:
            return mk("float", v["F"])
        return mk("const", str(v.get("U", v)))

    def promoted(self, st, fr, n):
        key = (fr.fn["id"], n, tuple(sorted(fr.env.items())))
        r = self.promoted_cache.get(key)
        if r is None:
            if n >= len(fr.fn.get("promoted") or ()):
                return mk("const", f"promoted{n} of {short(fr.fn['id'])}")
            body = dict(fr.fn["promoted"][n])
            body.update(id=fr.fn["id"] + f"::promoted[{n}]", crate=fr.fn["crate"], promoted=fr.fn["promoted"])
            s2 = self.fresh()
            s2.uid = 10 ** 9 + n
            self.push_fn(s2, body, [], fr.env, None)
            sub = self.explore([s2])
            r = sub[0].ret if len(sub) == 1 and sub[0].kind == "ret" else mk("const", f"promoted{n} of {short(fr.fn['id'])}")
            self.promoted_cache[key] = r
        return r

    def targs(self, fr, a):
        return tuple(subst(self.F.ty(fr.fn["crate"], x), fr.env) for x in (a or ()))

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, *self.loc(st, fr, o[1]))
        if o[0] == "k":
            return self.const(st, fr, o[1])
        return mk("rt")

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "raw":
            key, proj = self.loc(st, fr, rv[2])
            mut = (rv[1] == "m") if k == "ref" else ("Mut" in rv[1])
            if not proj and key[0] != "h":
                v = st.cells.get(key)
                if v is not None and v.tag in ("fnref",):
                    return v
            return mk("ptr", key, proj, mut)
        if k == "cast" and rv[1] == "BoxDerefTransmute" and rv[2][0] in ("c", "m") and isinstance(rv[2][1], list) and rv[2][1][-1][:3] == ["f", "0", "alloc::boxed::Box"]:
            # a box is its contents here: the pointer in it is that of the contents
            v = self.operand(st, fr, [rv[2][0], rv[2][1][:-1]])
            if v.tag == "call" and "::new_uninit" in str(v.args[0]):
                # (of a `vec![..]`: to be filled in through this pointer)
                key, proj = self.loc(st, fr, rv[2][1][:-1])
                return mk("ptr", key, proj, True)
            return v
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            ft, tt = self.F.ty(fr.fn["crate"], rv[3]), subst(self.F.ty(fr.fn["crate"], rv[4]), fr.env)
            ft = subst(ft, fr.env)
            return self.cast(st, rv[1], v, ft, tt)
        if k == "bin":
            a = self.snap(st, self.operand(st, fr, rv[2]))
            b = self.snap(st, self.operand(st, fr, rv[3]))
            return self.binop(rv[1], a, b, self.F.ty(fr.fn["crate"], rv[4]))
        if k == "un":
            v = self.snap(st, self.operand(st, fr, rv[2]))
            if rv[1] == "Not":
                if v.tag == "int":
                    o = rv[2]
                    t = o[1].get("t") if o[0] == "k" else None
                    if o[0] in ("c", "m") and isinstance(o[1], int):
                        t = fr.fn["locals"][o[1]]
                        t = t[0] if isinstance(t, list) else t
                    t = self.F.ty(fr.fn["crate"], t) if t is not None else ("?",)
                    r = INT_RANGE.get(t[1]) if t[0] == "prim" else None
                    if r:
                        return integer(r[1] + r[0] - v.args[0])
                return self.neg(v)
            if rv[1] == "Neg":
                return integer(-v.args[0]) if v.tag == "int" else mk("neg", v)
            if rv[1] == "PtrMetadata":
                return self.length(v)
            return mk("un", rv[1], v)
        if k == "discr":
            key, proj = self.loc(st, fr, rv[1])
            v = self.deref(st, self.read(st, key, proj))
            return mk("discr", v, subst(self.F.ty(fr.fn["crate"], rv[2]), fr.env))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[5]]
            if rv[1] == "adt":
                return adt(rv[2], rv[3], rv[4], ops)
            if rv[1] in ("closure", "coroutine"):
                return mk("clos" if rv[1] == "closure" else "coro", rv[2], tuple(ops), tuple(sorted(fr.env.items())))
            if rv[1] == "tuple":
                return mk("tup", tuple(ops))
            if rv[1] == "array":
                return mk("arr", tuple(ops))
            return mk("agg", tuple(ops))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if rv[2] is not None and rv[2] <= 64:
                return mk("arr", (v,) * rv[2])
            return mk("repeat", v, rv[2])
        if k == "setdiscr":
            return mk("setdiscr", rv[1])
        return mk("other", str(rv[1]))

    def length(self, v):
        if v.tag == "arr":
            return integer(len(v.args[0]))
        if v.tag == "str":
            return integer(len(v.args[0].encode()))
        if v.tag == "emptymap":
            return integer(0)
        if v.tag == "repeat" and isinstance(v.args[1], int):
            return integer(v.args[1])
        return mk("len", v)

    def neg(self, v):
        if v is TRUE:
            return FALSE
        if v is FALSE:
            return TRUE
        if v.tag == "not":
            return v.args[0]
        if v.tag in NEG:
            return mk(NEG[v.tag], *v.args)
        return mk("not", v)

    def cast(self, st, kind, v, ft, tt):
        if kind in ("PointerCoercion", "Transmute", "PtrToPtr", "Subtype") or ft == tt:
            if kind == "PointerCoercion" and v.tag == "ptr":
                return v
            return v
        a, b = INT_RANGE.get(ft[1]) if ft[0] == "prim" else None, INT_RANGE.get(tt[1]) if tt[0] == "prim" else None
        v = self.snap(st, v)
        if b:
            if v.tag == "int":
                n = v.args[0]
                if b[0] <= n <= b[1]:
                    return v
                m = b[1] - b[0] + 1
                return integer((n - b[0]) % m + b[0])
            if v in (TRUE, FALSE):
                return integer(1 if v is TRUE else 0)
            if a and b[0] <= a[0] and a[1] <= b[1]:
                return v
            if a:
                self.seen_at(v, ft[1])
                lo, hi = self.range(st, v)
                if lo is not None and hi is not None and b[0] <= lo and hi <= b[1]:
                    # only on this path: what is seen of it at the new type says nothing elsewhere
                    self.recast.add(v)
                    return v
            if ft == ("prim", "bool"):
                return mk("b2i", v)
            if v.tag == "discr":
                return mk("discr_int", v.args[0])
            if ft == ("prim", "char") and tt[1] in ("u32", "u64", "u128", "i64", "i128", "usize"):
                return v
        return mk("cast", tystr(tt), v)

    def binop(self, op, a, b, ty):
        m = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}
        if op in m:
            op = m[op]
            return self.compare(op, a, b, ty)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ty == ("prim", "bool"):
            if a in (TRUE, FALSE) and b in (TRUE, FALSE):
                x, y = a is TRUE, b is TRUE
                return boolean({"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}.get(base, False))
            for x, y in ((a, b), (b, a)):
                if base == "BitAnd" and x is TRUE or base in ("BitOr", "BitXor") and x is FALSE:
                    return y
                if base == "BitAnd" and x is FALSE:
                    return FALSE
                if base == "BitOr" and x is TRUE:
                    return TRUE
            if base == "BitXor" and TRUE in (a, b):
                return self.neg(a if b is TRUE else b)
        if self.unroll and base == "Shr" and a.tag != "int":
            a = mk("cast", tystr(ty), a)
        v = arith(base, a, b, ty)
        if self.unroll:
            if v.tag == "shl":
                v = mk("cast", tystr(ty), v)
            v = self.fold_bits(v, ty)
        if ty[1] in INT_RANGE:
            for x in (a, b):
                self.seen_at(x, ty[1])
        if op.endswith("WithOverflow"):
            r = INT_RANGE.get(ty[1])
            if v.tag == "int" and r:
                o = boolean(not (r[0] <= v.args[0] <= r[1]))
            else:
                o = mk("ovf", base.lower(), tystr(ty), a, b)
            return mk("tup", (v, o))
        return v

    def fold_bits(self, v, ty):
        """a constant when every bit of v is one"""
        from .unroll import bits, Unknown
        r = INT_RANGE.get(ty[1]) if ty[0] == "prim" else None
        if v.tag == "int" or not r or r[0]:
            return v
        try:
            b = bits(v, r[1].bit_length(), self.width)
        except Unknown:
            return v
        return integer(sum(x << i for i, x in enumerate(b))) if all(x.__class__ is int for x in b) else v

    def width(self, t):
        return None

    def compare(self, op, a, b, ty=None):
        if a.tag == "int" and b.tag == "int":
            return boolean(cmp_const(op, a.args[0], b.args[0]))
        if a is b:
            return boolean(op in ("eq", "le", "ge"))
        if op in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y is TRUE:
                    return x if op == "eq" else self.neg(x)
                if y is FALSE:
                    return self.neg(x) if op == "eq" else x
                if x.tag == "discr" and y.tag == "int":
                    pass
            if is_const(a) and is_const(b):
                return boolean((a is b) == (op == "eq"))
            if a.tag == "adt" and b.tag == "adt" and a.args[0] == b.args[0] and a.args[1] != b.args[1]:
                return boolean(op == "ne")
        if ty and ty[0] == "prim" and ty[1] in INT_RANGE:
            lo, hi = INT_RANGE[ty[1]]
            for x in (a, b):
                self.seen_at(x, ty[1])
            if b.tag == "int":
                if op == "lt" and b.args[0] <= lo or op == "gt" and b.args[0] >= hi:
                    return FALSE
                if op == "ge" and b.args[0] <= lo or op == "le" and b.args[0] >= hi:
                    return TRUE
            if a.tag == "int":
                if op == "gt" and a.args[0] <= lo or op == "lt" and a.args[0] >= hi:
                    return FALSE
                if op == "le" and a.args[0] <= lo or op == "ge" and a.args[0] >= hi:
                    return TRUE
            # a > MAX - b: the addition a + b does not fit
            for x, y, lt in ((a, b, op in ("lt", "ge")), (b, a, op in ("gt", "le"))):
                if lt and lo == 0 and x.tag == "sub" and x.args[0].tag == "int" and x.args[0].args[0] == hi and op in ("lt", "ge", "gt", "le"):
                    p, q = sorted((x.args[1], y), key=skey)
                    o = mk("ovf", "add", tystr(ty), p, q)
                    return o if op in ("lt", "gt") else self.neg(o)
        return mk(op, a, b)

    def seen_at(self, x, ty):
        if x.tag != "int":
            lo, hi = INT_RANGE[ty]
            if self.recast and (x in self.recast or any(y in self.recast for y in subterms(x))):
                return
            o = self.tyrange.get(x)
            self.tyrange[x] = (lo, hi) if o is None else (max(lo, o[0]), min(hi, o[1]))

    # ------------------------------------------------------------------ facts
    def assume(self, st, cond, val):
        """add a branch fact; False when it contradicts what is known"""
        c, pol = norm(cond)
        val = val == pol
        if c is TRUE or c is FALSE:
            return (c is TRUE) == val
        if c.tag == "and" or c.tag == "bitand" and False:
            pass
        known = self.known(st, c)
        if known is not None:
            return known == val
        if c.tag == "isnone":
            return self.set_variant(st, c.args[0], "None" if val else "Some")
        st.truth[c] = val
        st.facts.append(("t", c, val))
        if c.tag == "eq":
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if y.tag == "int" and y.args[0] == 0 and x.tag == "bitand":
                    # the top bit of an unsigned value
                    for k, z in (x.args, x.args[::-1]):
                        if k.tag == "int" and k.args[0] > 0 and self.tyrange.get(z, (0, 0))[1] == 2 * k.args[0] - 1 and self.range(st, z)[0] is not None and self.range(st, z)[0] >= 0:
                            if not (self.bound(st, z, None, k.args[0] - 1) if val else self.bound(st, z, k.args[0], None)):
                                return False
                if y.tag == "int":
                    if val:
                        if not self.bound(st, x, y.args[0], y.args[0]):
                            return False
                    else:
                        st.neq[x] = st.neq.get(x, frozenset()) | {y.args[0]}
                        lo, hi = self.range(st, x)
                        if lo == y.args[0]:
                            if not self.bound(st, x, lo + 1, None):
                                return False
                        if hi == y.args[0]:
                            if not self.bound(st, x, None, hi - 1):
                                return False
        elif c.tag == "lt":
            a, b = c.args
            if b.tag == "int":
                if not self.bound(st, a, None if val else b.args[0], b.args[0] - 1 if val else None):
                    return False
            if a.tag == "int":
                if not self.bound(st, b, a.args[0] + 1 if val else None, None if val else a.args[0]):
                    return False
        return True

    def known(self, st, c):
        v = st.truth.get(c)
        if v is not None:
            return v
        if self.unroll and c.tag == "ovf" and c.args[0] == "add":
            from .unroll import disjoint
            if disjoint(c.args[2], c.args[3], INT_RANGE[c.args[1]][1].bit_length(), self.width):
                return False
        if c.tag == "ovf" and c.args[0] in ("add", "mul", "sub") and c.args[1] in INT_RANGE:
            r = INT_RANGE[c.args[1]]
            (la, ha), (lb, hb) = self.range(st, c.args[2]), self.range(st, c.args[3])
            if None not in (la, ha, lb, hb):
                vs = [OPS[c.args[0]](x, y) for x in (la, ha) for y in (lb, hb)]
                if r[0] <= min(vs) and max(vs) <= r[1]:
                    return False
                if max(vs) < r[0] or min(vs) > r[1]:
                    return True
        if c.tag == "isnone":
            w = self.variant_of(st, c.args[0])
            return None if w is None else w == "None"
        if c.tag == "eq":
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if y.tag == "int":
                    lo, hi = self.range(st, x)
                    n = y.args[0]
                    if lo is not None and lo == hi == n:
                        return True
                    if lo is not None and n < lo or hi is not None and n > hi:
                        return False
                    if n in st.neq.get(x, ()):
                        return False
            x, y = self.tlt(st, a, b), self.tlt(st, b, a)
            if x or y:
                return False
            if x is False and y is False:
                return True
        elif c.tag == "lt":
            a, b = c.args
            la, ha = self.range(st, a)
            lb, hb = self.range(st, b)
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
            if st.truth.get(mk_eq(a, b)):
                return False
            y = self.tlt(st, b, a)
            if y:
                return False
            if y is False and st.truth.get(mk_eq(a, b)) is False:
                return True
        return None

    def tlt(self, st, a, b):
        c, pol = lt_atom(a, b, True)
        v = st.truth.get(c)
        return None if v is None else v == pol

    def range(self, st, t):
        if t.tag == "int":
            return t.args[0], t.args[0]
        r = st.rng.get(t, (None, None))
        if t.tag == "bitand":
            for x in t.args:
                if x.tag == "int" and x.args[0] >= 0:
                    r = (0 if r[0] is None else r[0], x.args[0] if r[1] is None else min(r[1], x.args[0]))
        d = (0, 2 ** 63 - 1) if t.tag == "len" else self.tyrange.get(t)
        if d:
            lo, hi = r
            return d[0] if lo is None else lo, d[1] if hi is None else hi
        return r

    def bound(self, st, t, lo, hi):
        l, h = self.range(st, t)
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        if l is not None and h is not None:
            while l <= h and l in st.neq.get(t, ()):
                l += 1
            while l <= h and h in st.neq.get(t, ()):
                h -= 1
            if l > h:
                return False
        st.rng[t] = (l, h)
        return True

    def set_variant(self, st, v, variant):
        """fact: opaque v is `variant`; False when contradictory"""
        if v.tag == "adt":
            return v.args[1] == variant
        if v.tag == "dc":
            v = v.args[0]
        k = st.var.get(v)
        if k is not None:
            return k == variant
        if variant in st.notvar.get(v, ()):
            return False
        if v.tag == "cmp":
            a, b = v.args
            ok_ = {"Less": lambda: self.assume(st, mk("lt", a, b), True),
                   "Greater": lambda: self.assume(st, mk("lt", b, a), True),
                   "Equal": lambda: self.assume(st, mk_eq(a, b), True)}[variant]()
            if not ok_:
                return False
            st.var[v] = variant
            return True
        if v.tag == "chk":
            o, known = mk("ovf", *v.args), None
            if not self.assume(st, o, variant == "None"):
                return False
            st.var[v] = variant
            return True
        st.var[v] = variant
        st.facts.append(("v", v, variant))
        return True

    def not_variant(self, st, v, variants, allv=None):
        if v.tag == "adt":
            return v.args[1] not in variants
        if st.var.get(v) is not None:
            return st.var[v] not in variants
        s = st.notvar.get(v, frozenset()) | set(variants)
        if allv:
            left = [x for x in allv if x not in s]
            if not left:
                return False
            if len(left) == 1:
                return self.set_variant(st, v, left[0])
        st.notvar[v] = s
        st.facts.append(("nv", v, mk("names", *sorted(variants))))
        return True

    def variant_of(self, st, v):
        v = self.deref(st, v)
        if v.tag == "adt":
            return v.args[1]
        if v.tag == "dc":
            return v.args[1]
        return st.var.get(v)

    def split(self, st, v, variants):
        """[(state, variant, value)] over the possible variants of v"""
        v = self.deref(st, v)
        if v.tag == "dc":
            v = v.args[0]
        k = self.variant_of(st, v)
        if k is not None:
            return [(st, k, v)]
        out = []
        nv = st.notvar.get(self.snap(st, v), ())
        todo = [x for x in variants if x not in nv]
        for i, x in enumerate(todo):
            s = st.copy() if i + 1 < len(todo) else st
            sv = self.snap(s, v)
            if self.set_variant(s, sv, x):
                out.append((s, x, v))
        return out

    def payload(self, st, v, variant, n="0"):
        v = self.deref(st, v)
        if v.tag == "adt":
            i = v.args[2].index(n) if n in v.args[2] else int(n)
            return v.args[3][i]
        if v.tag == "dc":
            v = v.args[0]
        return field(v, variant, n)

    def branch(self, st, cond):
        """[(state, bool)]"""
        cond = self.snap(st, cond)
        c, pol = norm(cond)
        if c is TRUE or c is FALSE:
            return [(st, (c is TRUE) == pol)]
        k = self.known(st, c)
        if k is not None:
            return [(st, k == pol)]
        out = []
        s2 = st.copy()
        if self.assume(s2, c, False):
            out.append((s2, not pol))
        if self.assume(st, c, True):
            out.append((st, pol))
        return out

    # ------------------------------------------------------------------ frames
    def push_fn(self, st, fn, args, env, ret):
        st.uid += 1
        fr = Frame(st.uid, fn, env, ret)
        for i, a in enumerate(args):
            st.cells[(fr.uid, i + 1)] = a
        st.stack.append(fr)
        self.visited.add(fn["id"])
        if st.trace is not None:
            st.trace.append(("enter", fn["id"]))
        return fr

    def do_return(self, st, val):
        """value returned by the frame that has just been popped"""
        if not st.stack:
            st.kind, st.ret = "ret", val
            return [st]
        fr = st.stack[-1]
        if fr.k is not None:
            st.stack.pop()
            return self.actions(fr.k(self, st, val))
        dest, target = fr.ret
        if target is None:
            st.kind, st.msg = "panic", "diverges"
            return [st]
        key, proj = self.loc(st, fr, dest)
        self.write(st, key, proj, val)
        fr.bb = target
        return [st]

    def actions(self, acts):
        out = []
        for st, a in acts:
            out.extend(self.act(st, a))
        return out

    def act(self, st, a):
        k = a[0]
        if k == "ret":
            return self.do_return(st, a[1])
        if k == "panic":
            st.kind, st.msg = "panic", a[1]
            return [st]
        if k == "noop":
            return [st]
        if k == "back":
            st.kind, st.back = "back", a[1]
            st.ret = a[2] if len(a) > 2 else None
            if a[1][0] in ("iter", "skip"):
                self.note_changes(st)
            if a[1][0] == "iter":
                st.next = {}
                for ph, (key, proj, *c) in st.phikey.items():
                    if c and c[0] is a[1][1] and ph.tag == "phi":
                        v = self.read(st, key, proj)
                        st.next[ph] = self.snap(st, v) if v.ptr else v
            return [st]
        if k == "call":
            st.uid += 1
            st.stack.append(Frame(st.uid, None, None, None, k=a[3]))
            return self.invoke(st, a[1], a[2])
        raise AssertionError(k)

    def invoke(self, st, f, args, line=None):
        """call function value f; result is delivered through do_return"""
        f0 = f
        if line is None:
            self.destty = None
        f = self.deref(st, f)
        if f.tag == "adt" and f.args[0].endswith("boxed::Box") and f.args[3]:
            f = self.deref(st, f.args[3][0])
        if f.tag == "clos":
            fn = self.F.fn(f.args[0])
            if fn is not None and self.depth_ok(st, fn):
                selfarg = f0 if f0.tag == "ptr" else f
                # FnOnce bodies take the closure by value, the others by reference; both read transparently
                self.push_fn(st, fn, [selfarg] + list(args), dict(f.args[2]), None)
                return [st]
        if f.tag == "fnref":
            return self.call_named(st, f.args[0], f.args[1], f.args[2], f.args[3], args, line)
        res = mk("call", "apply", (self.snap(st, f),) + tuple(self.snap(st, a) for a in args))
        self.event(st, "apply", [f] + list(args), res, line)
        self.havoc_args(st, res, [f] + list(args))
        return self.do_return(st, res)

    def depth_ok(self, st, fn):
        n = 0
        for fr in st.stack:
            if fr.fn is not None:
                n += 1
                if fr.fn["id"] == fn["id"]:
                    return False
        return n < self.depth

    def event(self, st, name, args, res, line):
        fid = next((fr.fn["id"] for fr in reversed(st.stack) if fr.fn is not None), None)
        st.events.append(Event(name, [self.snap(st, a) for a in args], res, line, fid, len(st.facts), fallible=self.destty is not None and self.destty[:2] == ("adt", "core::result::Result")))

    def havoc_args(self, st, res, args):
        for i, a in enumerate(args):
            ps = self.mutptrs(st, a, set())
            for j, (key, proj) in enumerate(sorted(ps, key=str)):
                self.write(st, key, proj, mk("out", res, i if len(ps) == 1 else f"{i}.{j}"))

    def inlinable(self, fid, fn, root_crate):
        if self.stop and self.stop.search(fid):
            return False
        if self.inline is None:
            return True
        if callable(self.inline):
            return self.inline(fid)
        return fn["crate"] in self.inline

    def call_named(self, st, fid, targs, did, dtargs, args, line=None, resolved=False):
        F = self.F
        # trait method on a type parameter whose concrete type is known here
        if fid == did and dtargs and did.rsplit("::", 1)[0] in F.impl_by_trait() and dtargs[0][0] not in ("param", "alias"):
            t0 = dtargs[0]
            r = resolve_item(F, did, dtargs)
            if r:
                fid, sub = r
                fn = F.fn(fid)
                if fn:
                    gen = fn.get("gen") or []
                    own = [g for g in gen if g not in sub]
                    extra = dtargs[len(dtargs) - len(own):] if own else ()
                    env = dict(sub)
                    env.update(zip(own, extra))
                    targs = tuple(env.get(g, ("param", g)) for g in gen)
        if PANIC.search(fid):
            st.kind, st.msg = "panic", self.panic_msg(st, fid, args)
            return [st]
        stopped = self.stop and (self.stop.search(fid) or self.stop.search(did))
        if stopped and did.startswith("core::iter::") and fid.startswith(("<I as core::iter", "<&mut I as core::iter")) and not self.stop.search(did):
            stopped = None      # the blanket implementations for iterators are not the program's
        default = False
        if fid == did and not resolved and dtargs and dtargs[0][0] in ("param", "alias", "dyn") and did.rsplit("::", 1)[0] in TRAITS:
            # a default method on a type not known here: an implementation may override it
            default = True
        forced = self.force and self.force.search(fid)
        fn = F.fn(fid)
        if stopped and did == "core::cmp::PartialEq::ne":
            # "not equal" is the negation of "equal" (no type here overrides `ne`)
            r = self.models["core::cmp::PartialEq::ne"](self, st, did, dtargs, args, line)
            return self.actions(r)
        if not stopped and not forced:
            # derived/trivial impls and std combinators
            mdl = self.models.get(fid) or self.models.get(did)
            if mdl is not None and not (fn is not None and fid != did and not fn.get("derived") and did in self.M.INLINE_IF_WS):
                r = mdl(self, st, fid, targs if fid == did else dtargs, args, line)
                if r is not None:
                    return self.actions(r)
            r = self.M.pattern_model(self, st, fid, did, dtargs, args, line)
            if r is not None:
                return self.actions(r)
            ctor = self.ctor(did)
            if ctor:
                return self.do_return(st, adt(ctor[0], ctor[1], ctor[2], args))
        if not stopped and not default and fn is not None and fn.get("bbs") and self.depth_ok(st, fn) and (forced or self.inlinable(fid, fn, None)):
            env = dict(zip(fn.get("gen") or [], targs))
            self.push_fn(st, fn, args, env, None)
            return [st]
        if self.M.is_pure_identity(did):
            return self.do_return(st, args[0])
        snapd = tuple(self.snap(st, a) for a in args)
        if STATIC.search(did) and dtargs and (fid == did or fid.startswith("<T as ") or fid.startswith("<D as ")):
            if fid != did or fid.rsplit("::", 1)[0] in TRAITS:
                # a constructor of a trait: the type it is called on decides what is built
                snapd = (tystr((dtargs if fid == did else targs)[0]).replace(",", ";"),) + snapd
        if did.startswith("bech32::"):
            # the checksum variant is chosen by a type parameter
            snapd = tuple(tystr(t).replace(",", ";") for t in dtargs or () if t and t[0] == "adt" and str(t[1]).startswith("bech32::")) + snapd
        elif did == "crypto::hash::hash":
            # so is the algorithm
            snapd = tuple(short(t[1]).rsplit("::", 1)[-1] for t in (dtargs or ())[:1] if t and t[0] == "adt") + snapd
        if self.M.IMPURE.search(did):
            st.uniq += 1
            res = mk("call", fid, snapd, st.uniq)
        else:
            res = mk("call", fid, snapd)
        if not LOGGING.search(fid):
            self.event(st, fid, args, res, line)
            self.havoc_args(st, res, args)
            self.unmodelled[fid] = self.unmodelled.get(fid, 0) + 1
        return self.do_return(st, res)

    def ctor(self, p):
        if p in self.F.fnline:
            return None
        a = self.F.adts.get(p)
        if a and a["kind"] == "struct":
            return p, a["v"][0]["n"], [f[0] for f in a["v"][0]["f"]]
        if "::" in p:
            b, v = p.rsplit("::", 1)
            a = self.F.adts.get(b)
            if a and a["kind"] == "enum":
                for x in a["v"]:
                    if x["n"] == v:
                        return b, v, [f[0] for f in x["f"]]
        return None

    def panic_msg(self, st, fid, args):
        s = [show(self.snap(st, a)) for a in args]
        return short(fid) + ("(" + s[0][:120] + ")" if s else "")

    # ------------------------------------------------------------------ loops
    def loops(self, fn):
        li = self.loopinfo.get(fn["id"])
        if li is None:
            li = self.loopinfo[fn["id"]] = find_loops(fn)
        return li

    def enter_block(self, st, fr):
        li = self.loops(fr.fn)
        info = li.get(fr.bb)
        if info is None or self.unroll:
            return True
        if fr.bb in fr.seen:
            st.kind, st.back = "back", (fr.fn["id"], fr.bb)
            st.next = {}
            for ph, (key, proj, *_) in st.phikey.items():
                if ph.args[:2] == st.back:
                    v = self.read(st, key, proj)
                    st.next[ph] = self.snap(st, v) if v.ptr else v
            return False
        fr.seen = fr.seen | {fr.bb}
        if info["poll"]:
            return True
        tag = (fr.fn["id"], fr.bb)
        todo = {}
        for l in info["mod"]:
            if (fr.uid, l) in st.cells:
                todo[((fr.uid, l), ())] = l
        for l in info["used"]:
            v = st.cells.get((fr.uid, l))
            if v is not None and v.ptr:
                for key, proj in self.mutptrs(st, v, set()):
                    if (key, proj) not in todo:
                        todo[(key, proj)] = None
        for h, dpl in info["hmod"]:
            # stores through / mutable borrows of a dereferenced local that is itself opaque
            v = st.cells.get((fr.uid, h))
            if v is None:
                continue
            d = v
            if d.tag == "ptr":
                todo.setdefault((d.args[0], d.args[1] + tuple(dpl)), None)
            elif d.tag not in ("clos", "coro"):
                todo.setdefault((("h", self.snap(st, d)), tuple(dpl)), None)
        i = 0
        for (key, proj), l in sorted(todo.items(), key=lambda x: str(x[0])):
            old = self.read(st, key, proj)
            if old.tag == "fnref":
                continue
            name = l if l is not None else f"m{i}"
            i += 1
            ph = mk("phi", tag[0], tag[1], str(name), st.uniq)
            st.phi[ph] = self.snap(st, old) if old.ptr else old
            st.phikey[ph] = (key, proj)
            if l is not None and old.tag == "ptr":
                # a re-assigned reference: unknown place
                pass
            self.write(st, key, proj, ph)
        st.uniq += 1
        return True

    def carried(self, st, c, by):
        """locals that the closures applied to the elements of c may change hold, at each element and at the end, whatever the elements before left there"""
        fr = next((f for f in reversed(st.stack) if f.fn is not None), None)
        site = (fr.fn["id"], fr.bb) if fr else ("", 0)
        places = sorted(self.mutptrs(st, by, set()), key=str)
        known = sorted(self.changed.get(site, ()), key=str)
        for i, (key, proj) in enumerate(known):
            self.unknown(st, key, proj, self.read(st, key, proj), c, f"h{i}")
        for i, (key, proj) in enumerate(places):
            if key[0] == "h":
                # what the caller gave: only places seen to change
                st.phikey[mk("hmark", "", fr.fn["id"] if fr else "", fr.bb if fr else 0, i)] = (key, proj, site, self.read(st, key, proj))
                continue
            old = self.read(st, key, proj)
            if old.tag in ("fnref", "clos", "coro") or old.ptr and old.tag == "ptr":
                continue
            self.unknown(st, key, proj, old, c, f"c{i}")

    def note_changes(self, st):
        for ph, v in st.phikey.items():
            if ph.tag != "hmark":
                continue
            key, proj, site, old = v
            new = self.read(st, key, proj)
            if new is old or new == old:
                continue
            base = lambda t: t.args[0] if t.tag == "upd" else t
            fld = lambda t: {(v, n): x for v, n, x in t.args[1]} if t.tag == "upd" else {}
            opaque = lambda t: t.__class__ is T and (t.tag == "out" or t.tag == "upd" and opaque(t.args[0]))
            if base(new) is base(old):
                a, b = fld(old), fld(new)
                for (v, n), x in b.items():
                    if a.get((v, n)) != x and not opaque(x):
                        self.changed.setdefault(site, set()).add((key, proj + ((("v", v),) if v else ()) + (("f", n),)))
            elif not opaque(new):
                self.changed.setdefault(site, set()).add((key, proj))

    def unknown(self, st, key, proj, old, c, name):
        if old.tag == "adt" and old.ptr and old.args[1] in (None, old.args[0].rsplit("::", 1)[-1]) and any(x.tag in ("clos", "ptr", "fnref") for x in old.args[3]):
            # references and functions in it stay what they are
            for n, x in zip(old.args[2], old.args[3]):
                if x.tag not in ("clos", "ptr", "fnref", "coro"):
                    self.unknown(st, key, proj + (("f", n),), x, c, name + "." + n)
            return
        ph = mk("phi", "iter", len(st.phi), name, st.uniq)
        st.phi[ph] = self.snap(st, old) if old.ptr else old
        st.phikey[ph] = (key, proj, c)
        self.write(st, key, proj, ph)
        st.uniq += 1

    # ------------------------------------------------------------------ step
    def step(self, st):
        fr = st.stack[-1]
        if fr.fn is None:
            raise AssertionError("py frame on top")
        if not self.enter_block(st, fr):
            return [st]
        blk = fr.fn["bbs"][fr.bb]
        for s in blk["s"]:
            if s[0] == "dead":
                continue
            rv = s[1]
            if rv[0] == "setdiscr":
                continue
            v = self.rvalue(st, fr, rv)
            key, proj = self.loc(st, fr, s[0])
            self.write(st, key, proj, v)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            return [st]
        if k == "ret":
            st.stack.pop()
            v = self.read(st, (fr.uid, 0), ())
            if v.tag == "uninit":
                v = UNIT
            # a returned reference into the dying frame keeps its value
            return self.do_return(st, v)
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            cond = self.operand(st, fr, t[1])
            out = []
            for s, b in self.branch(st, cond):
                if b == t[2]:
                    s.stack[-1].bb = t[4]
                else:
                    s.kind, s.msg = "panic", t[3]
                out.append(s)
            return out
        if k == "drop":
            if self.keep_drop:
                ty = subst(self.F.ty(fr.fn["crate"], t[2]), fr.env)
                if ty[0] == "adt" and self.has_drop(ty):
                    v = self.snap(st, self.read(st, *self.loc(st, fr, t[1])))
                    if v.tag != "uninit":
                        st.events.append(Event("drop " + ty[1], [v], UNIT, t[5], fr.fn["id"], len(st.facts)))
            fr.bb = t[3]
            return [st]
        if k == "call":
            return self.do_call(st, fr, t)
        if k == "yield":
            key, proj = self.loc(st, fr, t[3])
            self.write(st, key, proj, mk("resume"))
            fr.bb = t[2]
            return [st]
        if k == "unreach":
            return []
        st.kind, st.msg = "panic", k
        return [st]

    _drops = None

    def has_drop(self, ty):
        if self._drops is None:
            Machine._drops = None
            self._drops = set()
            for r in self.F.impl_by_trait().get("core::ops::drop::Drop", ()):
                t = self.F.ty(r["crate"], r["self"])
                if t[0] == "adt":
                    self._drops.add(t[1])
        return ty[1] in self._drops or re.search(r"(Mutex|RwLock)\w*Guard$|SpanGuard", ty[1])

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = self.F.ty(fr.fn["crate"], t[2])
        v = self.snap(st, v) if v.tag != "discr" else v
        if v.tag == "discr":
            base, aty = v.args
            base = self.deref(st, base)
            sb = self.snap(st, base)
            names = self.discr_names(aty)
            cases = [(names.get(d, str(d)), bb) for d, bb in t[3]]
            allv = list(names.values()) or None
            known = None
            if sb.tag == "adt":
                known = sb.args[1]
            elif sb.tag == "dc":
                known = sb.args[1]
            elif sb in st.var:
                known = st.var[sb]
            if known is not None:
                for nme, bb in cases:
                    if nme == known:
                        fr.bb = bb
                        return [st]
                fr.bb = t[4]
                return [st]
            out = []
            for nme, bb in cases:
                s = st.copy()
                if self.set_variant(s, sb, nme):
                    s.stack[-1].bb = bb
                    out.append(s)
            other = fr.fn["bbs"][t[4]]
            if not (other["t"][0] == "unreach" and not other["s"]):
                left = [x for x in allv if x not in {c[0] for c in cases}] if allv else None
                if left is None or left:
                    if left is not None and len(left) == 1:
                        ok_ = self.set_variant(st, sb, left[0])
                    else:
                        ok_ = self.not_variant(st, sb, [c[0] for c in cases], allv)
                    if ok_:
                        st.stack[-1].bb = t[4]
                        out.append(st)
            return out
        if ty == ("prim", "bool"):
            out = []
            for s, b in self.branch(st, v):
                tgt = t[4]
                for d, bb in t[3]:
                    if d == (1 if b else 0):
                        tgt = bb
                s.stack[-1].bb = tgt
                out.append(s)
            return out
        # integer / char
        if v.tag == "int":
            fr.bb = next((bb for d, bb in t[3] if self.as_signed(d, ty) == v.args[0]), t[4])
            return [st]
        out = []
        for d, bb in t[3]:
            s = st.copy()
            if self.assume(s, mk("eq", v, integer(self.as_signed(d, ty))), True):
                s.stack[-1].bb = bb
                out.append(s)
        other = fr.fn["bbs"][t[4]]
        if not (other["t"][0] == "unreach" and not other["s"]):
            good = True
            for d, bb in t[3]:
                good = good and self.assume(st, mk("eq", v, integer(self.as_signed(d, ty))), False)
            if good:
                st.stack[-1].bb = t[4]
                out.append(st)
        return out

    def as_signed(self, d, ty):
        r = INT_RANGE.get(ty[1]) if ty[0] == "prim" else None
        if r and r[0] < 0 and d > r[1]:
            return d - (r[1] - r[0] + 1)
        return d

    def discr_names(self, aty):
        if aty[0] == "adt":
            a = self.F.adts.get(aty[1])
            if a:
                return {v["d"]: v["n"] for v in a["v"]}
        return {}

    def do_call(self, st, fr, t):
        callee, ops, dest, target, _, line = t[1], t[2], t[3], t[4], t[5], t[6]
        args = [self.operand(st, fr, o) for o in ops]
        fr.ret = (dest, target)
        self.destty = None
        if isinstance(dest, int):
            x = fr.fn["locals"][dest]
            self.destty = subst(self.F.ty(fr.fn["crate"], x[0] if isinstance(x, list) else x), fr.env)
        if isinstance(callee, dict):
            d = callee["d"]
            a = self.targs(fr, callee.get("a"))
            if callee.get("tr"):
                TRAITS.add(callee["tr"])
            if callee.get("r"):
                return self.call_named(st, callee["r"], self.targs(fr, callee.get("ra")), d, a, args, line, True)
            return self.call_named(st, d, a, d, a, args, line)
        f = self.operand(st, fr, callee)
        return self.invoke(st, f, args, line)


def resolve_item(F, item, targs):
    tr = item.rsplit("::", 1)[0]
    cands = []
    for r in F.impl_by_trait().get(tr, ()):
        tra = [F.ty(r["crate"], x) for x in r["tra"]]
        sub = {}
        if len(tra) <= len(targs) and all(unify(p, t, sub) for p, t in zip(tra, targs)):
            cands.append((r, sub, tra))
    if len(cands) > 1:
        c2 = [c for c in cands if c[2][0][0] != "param"]
        cands = c2 or cands
    if len(cands) != 1 or cands[0][2][0][0] == "param":
        return None
    r, sub, _ = cands[0]
    for nm, p, t, _ in r["items"]:
        if t == item:
            return p, sub
    return None


def field(b, var, n):
    """field of an opaque value, with the few algebraic simplifications rules rely on"""
    t = b.tag
    if t == "upd":
        for v, m, x in b.args[1]:
            if m == n and (v == var or not var):
                return x
        return field(b.args[0], var, n)
    if t == "chk" and var == "Some":
        return arith(b.args[0], b.args[2], b.args[3], ("prim", b.args[1]))
    if t == "tryint" and var == "Ok":
        return b.args[1]
    if t == "tup" and n.isdigit():
        return b.args[0][int(n)]
    return mk("fld", b, var, n)


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b, "bitxor": lambda a, b: a ^ b}


def arith(op, a, b, ty):
    op = op.lower()
    if a.tag == "int" and b.tag == "int":
        x, y = a.args[0], b.args[0]
        if op in OPS:
            return integer(OPS[op](x, y))
        if op == "div" and y and x >= 0 and y > 0:
            return integer(x // y)
        if op == "rem" and y and x >= 0 and y > 0:
            return integer(x % y)
        if op == "shl" and 0 <= y < 128:
            r = INT_RANGE.get(ty[1])
            return integer((x << y) % (r[1] - r[0] + 1)) if r and r[0] == 0 else integer(x << y)
        if op == "shr" and 0 <= y < 128:
            return integer(x >> y)
    if op in ("add", "sub", "shl", "shr", "bitor", "bitxor") and b.tag == "int" and b.args[0] == 0:
        return a
    if op in ("add", "bitor", "bitxor") and a.tag == "int" and a.args[0] == 0:
        return b
    if op in ("mul", "div") and b.tag == "int" and b.args[0] == 1:
        return a
    if op == "mul" and a.tag == "int" and a.args[0] == 1:
        return b
    if op == "mul" and integer(0) in (a, b) and not str(ty[1] if ty and len(ty) > 1 else "").startswith("f"):
        return integer(0)
    if op in ("add", "mul", "bitand", "bitor", "bitxor") and skey(b) < skey(a):
        a, b = b, a
    return mk(op, a, b)


def find_loops(fn):
    """header -> {body, mod, used, hmod, poll} over the non-cleanup control-flow graph"""
    bbs = fn["bbs"]
    n = len(bbs)
    succ = [[] for _ in range(n)]
    for i, b in enumerate(bbs):
        if b.get("c"):
            continue
        succ[i] = [x for x in successors(b["t"]) if not bbs[x].get("c")]
    # DFS for back edges
    color = [0] * n
    back = {}
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    order = []
    while stack:
        v, it = stack[-1]
        for w in it:
            if color[w] == 0:
                color[w] = 1
                stack.append((w, iter(succ[w])))
                break
            if color[w] == 1:
                back.setdefault(w, []).append(v)
        else:
            color[v] = 2
            order.append(v)
            stack.pop()
    if not back:
        return {}
    pred = [[] for _ in range(n)]
    for i in range(n):
        for w in succ[i]:
            pred[w].append(i)
    out = {}
    for h, srcs in back.items():
        body = {h}
        work = list(srcs)
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(pred[x])
        mod, used, hmod = set(), set(), set()
        pollb = set()
        for b in body:
            blk = bbs[b]
            for s in blk["s"]:
                if s[0] == "dead":
                    continue
                note_place(s[0], mod, used, hmod, True)
                note_rv(s[1], mod, used, hmod)
            t = blk["t"]
            if t[0] == "call":
                note_place(t[3], mod, used, hmod, True)
                for o in t[2]:
                    note_op(o, used)
            elif t[0] == "yield":
                note_place(t[3], mod, used, hmod, True)
                pollb.add(b)
        # await loop: every back edge comes straight from a yield
        poll = bool(pollb) and all(reaches_only_via(bbs, succ, h, s, pollb, body) for s in srcs)
        out[h] = {"body": body, "mod": mod, "used": used, "hmod": {(l, p) for l, p in hmod}, "poll": poll}
    return out


def reaches_only_via(bbs, succ, h, src, pollb, body):
    """src cannot be reached from h inside the loop without crossing a yield block"""
    if src in pollb:
        return True
    seen, work = {h}, [h]
    while work:
        x = work.pop()
        if x == src:
            return False
        if x in pollb:
            continue
        for w in succ[x]:
            if w in body and w not in seen and w != h:
                seen.add(w)
                work.append(w)
    return True


def note_place(p, mod, used, hmod, write):
    if isinstance(p, int):
        if write:
            mod.add(p)
        return
    used.add(p[0])
    if write:
        if "*" in p[1:]:
            proj = []
            star = p.index("*")
            if star == 1:
                for e in p[2:]:
                    if e != "*" and e[0] == "f" and (not proj or True):
                        proj.append(("f", e[1]))
                        break
                    break
                hmod.add((p[0], tuple(proj)))
        else:
            mod.add(p[0])


def note_op(o, used):
    if o[0] in ("c", "m"):
        used.add(o[1] if isinstance(o[1], int) else o[1][0])


def note_rv(rv, mod, used, hmod):
    k = rv[0]
    if k == "use":
        note_op(rv[1], used)
    elif k in ("ref", "raw"):
        mut = rv[1] == "m" or "Mut" in rv[1]
        note_place(rv[2], mod, used, hmod, mut)
        used.add(rv[2] if isinstance(rv[2], int) else rv[2][0])
    elif k == "cast":
        note_op(rv[2], used)
    elif k == "bin":
        note_op(rv[2], used)
        note_op(rv[3], used)
    elif k == "un":
        note_op(rv[2], used)
    elif k == "agg":
        for o in rv[5]:
            note_op(o, used)


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[3]] + [t[4]]
    if k == "drop":
        return [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[2]]
    return []
