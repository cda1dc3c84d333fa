"""Rule vocabulary: obligations over the path summaries of vf.Machine.

A rule is a table of (condition, outcome) rows confirmed by reading the code, or a requirement on every partition
(must-pass-through, ordering, who-may-call).  Conditions and outcomes are written in the notation of terms.show; they
are matched against the facts and values of each partition, never against source text.
"""
import re
from .terms import *
from .facts import Facts, MissingAnchor
from .vf import Machine, Limit, Path, INT_RANGE

OPEN, CLOSE = "([{", ")]}"
COMM = {"eq", "add", "mul", "bitand", "bitor", "bitxor", "min", "max"}
TOK = re.compile(r"\s*('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[(\[{]|[)\]}]|,|[^\s()\[\]{},]+)")


def parse(s):
    """nested token tree: list of atoms, each a str or (head, open, [args])"""
    toks = TOK.findall(s)
    pos = 0

    def seq(stop):
        nonlocal pos
        args, cur = [], []
        while pos < len(toks):
            t = toks[pos]
            if t in CLOSE and len(t) == 1:
                if t == stop:
                    pos += 1
                    break
                raise ValueError(f"unbalanced: {s}")
            pos += 1
            if t == ",":
                args.append(tuple(cur))
                cur = []
            elif t in OPEN and len(t) == 1:
                cur.append((t, tuple(seq(CLOSE[OPEN.index(t)]))))
            else:
                cur.append(t)
        if cur or args:
            args.append(tuple(cur))
        return args
    r = seq(None)
    return tuple(r)


def unparse(args):
    out = []
    for a in args:
        x = ""
        for i, t in enumerate(a):
            if isinstance(t, str):
                if x and i and isinstance(a[i - 1], str):
                    x += " "
                elif x and not t.startswith("."):
                    x += " " if not x.endswith(("(", "[", "{")) and t not in (".",) else ""
                x += t
            else:
                inner = list(t[1])
                if i and isinstance(a[i - 1], str) and t[0] == "(":
                    head = a[i - 1]
                    if head in COMM and len(inner) == 2:
                        inner.sort(key=lambda y: (len(unparse((y,))), unparse((y,))))
                    elif head in ("ovf", "chk") and len(inner) == 4 and inner[0] in (("add",), ("mul",)):
                        inner[2:] = sorted(inner[2:], key=lambda y: (len(unparse((y,))), unparse((y,))))
                x += t[0] + unparse(inner) + CLOSE[OPEN.index(t[0])]
        out.append(x)
    return ", ".join(out)


_canon = {}


def canon(s):
    r = _canon.get(s)
    if r is None:
        r = _canon[s] = unparse(parse(s))
    return r


def tmatch(pat, val):
    """token-tree match; the atom `_` matches any non-empty run of atoms inside one argument, `__` any rest of arguments"""
    if pat and pat[-1] == ("__",):
        return len(val) >= len(pat) - 1 and tmatch(pat[:-1], val[:len(pat) - 1])
    if len(pat) != len(val):
        return False
    return all(amatch(p, v) for p, v in zip(pat, val))


def amatch(p, v):
    if not p:
        return not v
    if p[0] == "_":
        return any(amatch(p[1:], v[i:]) for i in range(1, len(v) + 1))
    if not v:
        return False
    a, b = p[0], v[0]
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, str):
        if a != b:
            return False
        if a in COMM and len(p) > 1 and len(v) > 1 and not isinstance(p[1], str) and not isinstance(v[1], str) and len(p[1][1]) == 2 and len(v[1][1]) == 2:
            x, y = p[1][1]
            return (tmatch((x, y), v[1][1]) or tmatch((y, x), v[1][1])) and amatch(p[2:], v[2:])
    elif a[0] != b[0] or not tmatch(a[1], b[1]):
        return False
    return amatch(p[1:], v[1:])


def match(pat, s):
    return any(tmatch(parse(x), parse(s)) for x in pat.split(" || "))


def lits(c):
    """'A & !B & X is Some & Y in V1|V2' -> [(kind, term string, value)]"""
    out = []
    if callable(c):
        return [("fn", c, True)]
    for x in (c or "").split(" & "):
        x = x.strip()
        if not x:
            continue
        m = re.match(r"^(!?)@(\w+)\((.*)\)$", x)
        if m:
            out.append(("fn", (lambda f, a, neg: lambda p: (lambda r: r if r is None or not neg else not r)(f(p, *a)))(PRED[m[2]], [unparse((y,)) for y in parse(m[3])], bool(m[1])), True))
            continue
        m = re.match(r"^(.*) (is|not) ([\w|]+)$", x)
        if m:
            out.append(("v", canon(m[1]), (m[2] == "is", frozenset(m[3].split("|")))))
            continue
        pol = True
        while x.startswith("!"):
            pol, x = not pol, x[1:]
        x = canon(x)
        m = re.match(r"^ovf\(sub, u\w+, (.*)\)$", x)
        if m:
            x = f"lt({m[1]})"
        m = re.match(r"^(lt|le|gt|ge|ne)\((.*)\)$", x)
        if m:
            a, b = [unparse((y,)) for y in parse(m[2])] if len(parse(m[2])) == 2 else (None, None)
            if a is not None:
                op = m[1]
                if op == "ne":
                    x, pol = canon(f"eq({a}, {b})"), not pol
                else:
                    if op in ("le", "gt"):
                        a, b, pol = b, a, pol if op == "gt" else not pol
                    elif op == "ge":
                        pol = not pol
                    if re.fullmatch(r"-?\d+", b) and not re.fullmatch(r"-?\d+", a):
                        x, pol = f"lt({int(b) - 1}, {a})", not pol
                    else:
                        x = f"lt({a}, {b})"
        out.append(("t", x, pol))
    return out


PRED = {}


def pred(f):
    """a named condition @name(args) usable in tables: f(partition, args) -> True / False / None"""
    PRED[f.__name__] = f
    return f


def anyof(p, *conds):
    """truth of one condition written in several equivalent ways"""
    for x in conds:
        if holds(p, x):
            return True
        if refuted(p, x):
            return False
    return None


@pred
def bit31(p, x):
    return anyof(p, f"!eq(0, bitand({x}, 2147483648))", f"lt(2147483647, {x})", f"!eq(0, shr({x}, 31))", f"eq(2147483648, bitand({x}, 2147483648))", f"eq(1, shr({x}, 31))")


@pred
def bit7(p, x):
    return anyof(p, f"eq(128, bitand(128, {x}))", f"!eq(0, bitand(128, {x}))", f"lt(127, {x})", f"!eq(0, shr({x}, 7))", f"eq(1, shr({x}, 7))", f"eq(128, bitand({x}, 128))", f"!eq(0, bitand({x}, 128))")


def unphi(p, t):
    """loop-header unknowns written as the value the variable had on entry (one iteration of the loop, seen from its start)"""
    memo = getattr(p, "_unphi", None)
    if memo is None:
        memo = p._unphi = {}
        p._unphid = set()

    def f(x):
        if x.tag == "phi" and x in p.phi and x not in p._unphid:
            p._unphid.add(x)
            r = map_term(p.phi[x], f)
            p._unphid.discard(x)
            return r
        return None
    return map_term(t, f, memo) if t.__class__ is T else t


class View:
    """string-indexed facts of one partition"""
    def __init__(self, p):
        self.p = p
        u = (lambda a: unphi(p, a)) if p.phi else (lambda a: a)
        show = (lambda a: p.norm(globals()["show"](a))) if getattr(p, "norm", None) else globals()["show"]
        self.t = {canon(show(u(a))): v for a, v in p.truth.items()}
        self.v = {canon(show(u(a))): x for a, x in p.var.items()}
        self.nv = {canon(show(u(a))): x for a, x in p.notvar.items()}
        self.r = {canon(show(u(a))): x for a, x in p.rng.items()}

    def variant(self, term):
        x = self.v.get(term)
        if x is not None:
            return x
        m = re.match(r"^(Some|None|Ok|Err)\b", term)
        return m[1] if m else None

    def lit(self, l, depth=0):
        """True / False / None (not determined by this partition)"""
        k, t, val = l
        if k == "fn":
            return t(self.p)
        if k == "v":
            pos, names = val
            x = self.variant(t)
            if x is None:
                nv = self.nv.get(t, ())
                if names <= frozenset(nv):
                    return not pos
                m = re.match(r"^tryint\((\w+), (.*)\)$", t)
                if m and m[1] in INT_RANGE:
                    a, b = INT_RANGE[m[1]]
                    lo, hi = self.rng(m[2])
                    if lo is not None and lo >= a and hi is not None and hi <= b:
                        return ("Ok" in names) == pos
                    if lo is not None and lo > b or hi is not None and hi < a:
                        return ("Err" in names) == pos
                return None
            return (x in names) == pos
        v = self.t.get(t)
        if v is None:
            v = self.derive(t, depth)
        return None if v is None else v == val

    def derive(self, t, depth):
        m = re.match(r"^(lt|eq)\((.*)\)$", t)
        if not m:
            return None
        args = parse(m[2])
        if len(args) != 2:
            return None
        a, b = unparse((args[0],)), unparse((args[1],))
        if m[1] == "eq":
            for x, y in ((a, b), (b, a)):
                if self.t.get(f"lt({x}, {y})"):
                    return False
            if self.t.get(f"lt({a}, {b})") is False and self.t.get(f"lt({b}, {a})") is False:
                return True
            va, vb = self.variant(a), self.variant(b)
            if va and vb:
                if va != vb:
                    return False
                if va == "None":
                    return True
                if depth < 3:
                    return self.lit(("t", canon(f"eq({payl(a, va)}, {payl(b, vb)})"), True), depth + 1)
        else:
            if self.t.get(f"lt({b}, {a})"):
                return False
            if self.t.get(canon(f"eq({a}, {b})")):
                return False
            if self.t.get(f"lt({b}, {a})") is False and self.t.get(canon(f"eq({a}, {b})")) is False:
                return True
        ra, rb = self.rng(a), self.rng(b)
        if m[1] == "lt":
            if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
                return True
            if ra[0] is not None and rb[1] is not None and ra[0] >= rb[1]:
                return False
        else:
            if ra[0] is not None and ra[0] == ra[1] == rb[0] == rb[1]:
                return True
            if ra[1] is not None and rb[0] is not None and ra[1] < rb[0] or rb[1] is not None and ra[0] is not None and rb[1] < ra[0]:
                return False
        return None

    def rng(self, s):
        if re.fullmatch(r"-?\d+", s):
            return int(s), int(s)
        return self.r.get(s, (None, None))


def payl(t, v):
    m = re.match(r"^(Some|Ok|Err)\((.*)\)$", t)
    return m[2] if m else f"{t}.{v}.0"


def view(p):
    v = getattr(p, "_view", None)
    if v is None:
        v = p._view = View(p)
    return v


def holds(p, cond):
    """every literal is established by the partition"""
    return all(view(p).lit(l) is True for l in lits(cond))


def refuted(p, cond):
    return any(view(p).lit(l) is False for l in lits(cond))


def sret(p):
    if p.kind == "panic":
        return "panic"
    r = show(unphi(p, p.ret)) if p.ret is not None else "()"
    return p.norm(r) if getattr(p, "norm", None) else r


def base_state(s):
    """the text with the object passed in written the same whatever was changed in it before"""
    while True:
        m = re.search(r"\$0\{\w+:=", s)
        if not m:
            return s
        i, d = m.start() + 2, 0
        for j in range(i, len(s)):
            d += (s[j] in "{[(") - (s[j] in "}])")
            if d == 0:
                break
        s = s[:i] + s[j + 1:]


def sout(i, path=""):
    """final value behind reference argument i (or a field of it)"""
    def f(p):
        if p.kind == "panic":
            return "panic"
        v = p.out(mk("arg", i))
        for n in path.split("."):
            if n:
                v = p.m.project(v, ("f", n))
        return show(unphi(p, v))
    return f


def sboth(*fs):
    """several observations of a partition, joined by ' ; '"""
    return lambda p: "panic" if p.kind == "panic" else " ; ".join(f(p) for f in fs)


class Check:
    def __init__(self, F, pid):
        self.F, self.pid = F, pid
        self.obl, self.viol, self.notes = [], [], []
        self.fns, self.npaths, self.sites = set(), 0, 0
        self.assumptions = []
        self._cache = {}

    # ---- running the analysis
    def loc(self, fid):
        f = self.F.fn(fid)
        return f"{f['file']}:{f['line']} {fid}" if f else fid

    def resolve(self, fid):
        """exact id, or the unique id ending with it"""
        if self.F.fn(fid):
            return fid
        c = [i for i in self.F.ids() if i.endswith(fid) and (len(i) == len(fid) or not (i[-len(fid) - 1].isalnum() or i[-len(fid) - 1] == "_"))]
        if len(c) == 1:
            return c[0]
        raise MissingAnchor(f"function {fid}: {len(c)} candidates")

    def paths(self, fid, inline=None, mode="fn", args=None, env=None, assume=None, **kw):
        fid = self.resolve(fid)
        key = (fid, str(inline), mode, str(args), str(env), str(sorted((k, str(v)) for k, v in kw.items())), id(assume) if assume else 0)
        r = self._cache.get(key)
        if r is None:
            inl = inline if callable(inline) else set(inline or ()) | {self.F.need(fid)["crate"], "utils"}
            m = Machine(self.F, inline=inl, **kw)
            run = {"fn": m.run, "async": m.run_async, "coro": m.run_coroutine}[mode]
            kwargs = dict(env=env, assume=assume)
            if args is not None:
                kwargs["caps" if mode == "coro" else "args"] = args
            r = run(fid, **kwargs)
            r = [p for p in r]
            for p in r:
                p.fid = fid
            self.fns |= m.visited
            self.npaths += len(r)
            self._cache[key] = r
        return r

    # ---- obligations
    def ob(self, key, good, msg, where="", detail=""):
        self.obl.append((key, bool(good)))
        if not good:
            self.viol.append(dict(key=key, msg=msg, where=where, detail=detail))
        return good

    def table(self, key, paths, rows, out=sret, kinds=("ret", "panic"), strict=True):
        """rows partition the input space; each partition of the program must give the outcome of every row it is
        compatible with, and every row must be reached"""
        ps = [p for p in paths if p.kind in kinds]
        where = self.loc(ps[0].fid) if ps else key
        self.ob(key + "#paths", ps, f"{key}: no completed path", where)
        rs = [(c, lits(c), o) for c, o in rows]
        hit = [0] * len(rs)
        for p in ps:
            v = view(p)
            val = None
            n = 0
            for i, (c, ls, o) in enumerate(rs):
                if any(v.lit(l) is False for l in ls):
                    continue
                n += 1
                hit[i] += 1
                if val is None:
                    val = out(p)
                good = o(p) if callable(o) else match(o, val)
                self.ob(f"{key}#row[{c}]", good, f"{key}: when {c or 'always'} the result must be {o if isinstance(o, str) else 'as specified'}, "
                        f"but a path gives {val}", where, repr(p)[:1200])
            if strict and not n:
                self.ob(f"{key}#uncovered", False, f"{key}: path outside the specified cases", where, repr(p)[:1200])
        for i, (c, ls, o) in enumerate(rs):
            self.ob(f"{key}#hit[{c}]", hit[i], f"{key}: no path handles the case {c}", where)

    def every(self, key, paths, pred, msg, minimum=1):
        n = 0
        for p in paths:
            n += 1
            r = pred(p)
            self.ob(key, r, msg, self.loc(p.fid), repr(p)[:1200])
        self.ob(key + "#count", n >= minimum, f"{key}: only {n} paths to judge, expected at least {minimum}", "")

    def count(self, key, n, floor):
        self.sites += n
        self.ob(key + "#floor", n >= floor, f"{key}: only {n} instances found, at least {floor} were confirmed on the reference tree", "")

    def note(self, s):
        self.notes.append(s)


def success(p):
    """did the partition return normally with a non-error value"""
    if p.kind != "ret":
        return False
    r = p.ret
    return not (r is not None and r.tag == "adt" and r.args[1] in ("Err", "None"))


def oks(paths):
    return [p for p in paths if p.kind == "ret" and p.ret is not None and p.ret.tag == "adt" and p.ret.args[1] == "Ok"]


def rets(paths):
    return [p for p in paths if p.kind == "ret"]


def ev_index(p, rx, start=0):
    r = re.compile(rx) if isinstance(rx, str) else rx
    for i, e in enumerate(p.events):
        if i >= start and r.search(e.name):
            return i
    return -1


def evs(p, rx):
    r = re.compile(rx)
    return [e for e in p.events if r.search(e.name)]


def text_of(t):
    """a text term as one string, values in braces"""
    from .models import pieces
    if t.tag == "str":
        return str(t.args[0]) if not isinstance(t.args[0], bytes) else t.args[0].decode("utf8", "replace")
    x = pieces(t)
    if x is None:
        return "{" + show(t) + "}"
    return "".join(text_of(y) if y.tag in ("str", "fmt") else "{" + show(y) + "}" for y in x.args)


def written(p, f="$1"):
    """what a path writes to the formatter, in whatever steps: the text (values in braces), whether a step failed, the last step"""
    from .models import pieces
    txt, last = "", None
    for e in p.events:
        a = [show(initially(p, x)) for x in e.args]
        mine = [x for x in a if re.search(rf"(^|\[|\(|, ){re.escape(f)}($|[,)\]])", x)]
        if re.search(r"fmt::Formatter.*::write_fmt$|fmt::Write::write_fmt$", e.name):
            x = pieces(e.args[1])
            txt += text_of(x) if x is not None else "{?}"
        elif re.search(r"fmt::Formatter.*::(write_str|pad)$|fmt::Write::write_str$", e.name):
            txt += text_of(e.args[1])
        elif re.search(r"write_char$", e.name):
            txt += chr(e.args[1].args[0]) if e.args[1].tag == "int" else "{" + a[1] + "}"
        elif re.search(r"(Display|Debug|LowerHex|fmt::.*)::fmt$|fmt$", e.name) and len(a) == 2 and mine:
            txt += str(e.args[0].args[0]) if e.args[0].tag == "str" and isinstance(e.args[0].args[0], str) else "{" + a[0] + "}"
        else:
            continue
        last = e
        if p.var.get(e.res) == "Err":
            return txt, True, last
    return txt, False, last


def displayed(c, key, fid, rows, f="$1", **kw):
    """a Display implementation writes, in whatever steps, the text given for its case (rows: condition, text or texts), and reports failures of the
    formatter; rows are matched by the condition"""
    loc = c.loc(fid)
    seen = set()
    for p in c.paths(fid, **kw):
        if p.kind != "ret":
            c.ob(key + "#panic", False, "writing must not panic", loc, repr(p)[:300])
            continue
        txt, bad, last = written(p, f)
        r = sret(p)
        case = next((k for k, (cond, _) in enumerate(rows) if holds(p, cond) or not cond), None)
        if case is None:
            c.ob(key + "#case", False, "a case that is not specified", loc, repr(p)[:300])
            continue
        want = rows[case][1]
        want = [want] if isinstance(want, str) else [txt] if want is None else want
        if bad:
            c.ob(key + "#failed", r.startswith("Err(") and any(w.startswith(txt[:i]) for w in want for i in range(len(txt) + 1) if i == len(txt)), "a failure to write must be reported", loc, repr(p)[:300])
            continue
        seen.add(case)
        c.ob(f"{key}#{case}", rows[case][1] is None and r.startswith("Err(") or txt in want and (r == "Ok(())" or last is not None and r == show(last.res)), "what is written must be " + str(want[0]), loc, txt[:200] + " => " + r[:100])
    c.ob(key + "#all", len(seen) == len(rows), "every case must be written", loc, str(seen))


def stepped(p, t):
    """t one loop iteration later: the loop variables of a back-edge path replaced by their values at the back edge"""
    return map_term(t, lambda x: p.next.get(x) if x.tag == "phi" else None)


def initially(p, t):
    """t with what loops carry replaced by what they started with"""
    for _ in range(8):
        u = map_term(t, lambda x: p.phi.get(x) if x.tag == "phi" else None)
        if u is t or u == t:
            break
        t = u
    return captured(p, t)


def captured(p, t):
    """what a closure captured, named by what it is"""
    def f(x):
        if x.tag == "fld" and str(x.args[2]).startswith("^"):
            b = map_term(x.args[0], f)
            if b.__class__ is T and b.tag == "clos":
                return p.m.project(b, ("f", x.args[2]))
        return None
    return map_term(t, f) if t.__class__ is T else t


def started(p, t):
    """t before the first iteration"""
    return map_term(t, lambda x: p.phi.get(x) if x.tag == "phi" else None)


def bare(t):
    """t with the objects it acts on named as they came in, whatever was done to them before"""
    def f(x):
        if x.tag == "out" and x.args[0].__class__ is T and x.args[0].tag == "call" and str(x.args[1]).isdigit() and int(x.args[1]) < len(x.args[0].args[1]):
            return bare(x.args[0].args[1][int(x.args[1])])
        return bare(x.args[0]) if x.tag == "upd" else None
    return map_term(t, f) if t.__class__ is T else t


def fields(p, t, *names):
    return [show(p.m.project(t, ("f", n))) for n in names]


def subterms(t, out=None):
    """every subterm of a term (or tuple of terms)"""
    out = {} if out is None else out
    if t.__class__ is T:
        if t in out:
            return out
        out[t] = True
        for a in t.args:
            subterms(a, out)
    elif t.__class__ is tuple:
        for a in t:
            subterms(a, out)
    return out


def passed_on(r, t):
    """r is part of the value t, other than as the origin of a changed place"""
    if t is r:
        return True
    if t.__class__ is T:
        return t.tag != "out" and any(passed_on(r, a) for a in t.args)
    return t.__class__ is tuple and any(passed_on(r, a) for a in t)


def dropped(p):
    """calls that may fail whose outcome this path neither looks at nor passes on"""
    out = []
    for i, e in enumerate(p.events):
        if not e.fallible or e.res in p.var or e.res in p.notvar:
            continue
        used = [p.ret] if p.ret is not None else []
        used += [x for f in p.events[i + 1:] for x in f.args] + list((p.next or {}).values())
        if not any(passed_on(e.res, t) for t in used):
            out.append(e)
    return out


def builders(c, ty, variant=None):
    """functions in whose body a value of the type is put together"""
    pat = re.compile(r'\["agg","adt","' + re.escape(ty) + '"' + ('' if variant is None else ',"' + variant + '"'))
    return [i for i, (k, j) in c.F.fnline.items() if pat.search(j.replace(", ", ","))]


def is_root(f):
    return f["vis"] == "pub" or " as " in f["id"].split(">::")[0] and f["id"].startswith("<") or "::<impl " in f["id"]


def invariant(c, key, ty, pred, msg, floor=1, skip=None, inline=()):
    """every value of the type built anywhere satisfies pred(path, term) on the path that builds it; private builders are
    judged in the functions that call them"""
    todo, seen, roots = builders(c, ty), set(), []
    while todo:
        i = todo.pop()
        if i in seen or skip and re.search(skip, i):
            continue
        seen.add(i)
        f = c.F.fn(i)
        if "{closure" in i:
            todo.append(re.sub(r"::\{closure.*$", "", i))
            continue
        if f.get("derived") and re.search(r"Clone>::clone$", i):
            continue
        if not is_root(f):
            cs = [x for x, u in c.callers("^" + re.escape(i) + "$")] if hasattr(c, "callers") else [x for x, u in c.F.callers("^" + re.escape(i) + "$")]
            if cs:
                todo += cs
                continue
        roots.append(i)
    n = 0
    for i in sorted(roots):
        for p in c.paths(i, inline=set(inline)):
            ts = subterms(p.ret) if p.ret is not None else {}
            for k in range(c.F.fn(i)["argc"]):
                try:
                    subterms(p.out(mk("arg", k)), ts)
                except Exception:
                    pass
            for e in p.events:
                for a in e.args:
                    subterms(a, ts)
            for t in ts:
                if t.tag == "adt" and t.args[0] == ty:
                    n += 1
                    c.ob(key, pred(p, t), f"{msg}: {show(t)} built in {i}", c.loc(i), repr(p)[:900])
    c.count(key, n, floor)
    return roots


def operation(c, key, fid, writes, ok, err=(), names=None, args=None, total=True, partial=False, fresh=None, **kw):
    """A fallible operation on some state.  ok: rows (condition, [write, ...], result): a path that succeeds satisfies the condition of a row, has done
    exactly the row's writes, and each succeeded; every path under the condition of a row that ends otherwise does so because a call failed.
    err: conditions under which the operation is refused with nothing written.  names: abbreviations (@X) for terms.  fresh: {reading function: field that must not have been changed before it}."""
    names = names or {}
    loc = c.loc(fid)

    def full(s):
        for _ in range(6):
            t = re.sub(r"@(\w+)", lambda m: names.get(m[1], m[0]), s)
            if t == s:
                break
            s = t
        return s
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)

    def perm(w, s):
        if not w:
            return not s
        return any(match(w[0], s[i]) and perm(w[1:], s[:i] + s[i + 1:]) for i in range(len(s)))
    rows = [(full(a), [full(x) for x in w], full(r)) for a, w, r in ok]
    errs = [full(x) for x in err]
    seen, refused_ = set(), set()
    for p in c.paths(fid, **({"args": args} if args else {}), **kw):
        if p.kind != "ret":
            c.ob(key + "#panic", p.kind == "back", "the operation must not panic", loc, repr(p)[:400])
            continue
        if fresh:
            p.norm, p._view = base_state, None
        r = sret(p)
        for e in p.events:
            for rx, field in (fresh or {}).items():
                if re.search(rx, e.name):
                    c.ob(key + "#fresh", not re.search(field + ":=", show(e.args[0])), "what is checked must be what was there before the change", loc, show(e.args[0])[:300])
        ws = [e for e in p.events if re.search(writes, e.name)]
        bad = [e for e in p.events if p.var.get(e.res) == "Err"]
        shown = [plain(base_state(show(e.res)) if fresh else show(e.res)) for e in ws]
        lost = [e for e in dropped(p) if e in ws]
        c.ob(key + "#lost", not lost, "the outcome of a change must not be dropped", loc, str(lost)[:300])
        if bad:
            c.ob(key + "#failed", r.startswith("Err(") or r == show(bad[-1].res), "a failure must be reported", loc, repr(p)[:400])
            continue
        if r.startswith("Err(") or r == "None" and not any(x[2] == "None" for x in rows):
            k = [x for x in errs if not x or holds(p, x)]
            refused_ |= set(k)
            other = any(v == "Err" for t, v in p.var.items()) and not any(holds(p, a) for a, _, _ in rows) if total is None else False
            c.ob(key + "#refused", (k or other) and (partial or not ws), "the operation may be refused only for the specified reasons, and without having changed anything", loc, repr(p)[:500])
            continue
        hit = None
        for i, (a, w, x) in enumerate(rows):
            if (not a or holds(p, a)) and len(w) == len(shown) and perm(w, shown):
                rr = plain(r)
                if match(x, rr) or x == "Ok(())" and ws and (rr == shown[-1] or any(rr == f"Ok({y}.Ok.0)" for y in shown)):
                    hit = i
                    break
        if hit is not None:
            seen.add(hit)
        c.ob(key, hit is not None, "success is allowed only under the specified conditions, after exactly the specified changes, with the specified result", loc, (repr(p)[:400] + " WRITES " + str(shown)[:300] + " RESULT " + r[:200]))
    for i in range(len(rows)):
        c.ob(f"{key}#row{i}", i in seen, "the operation must be possible: " + rows[i][0][:100], loc, str(rows[i])[:300])
    for x in errs:
        c.ob(f"{key}#err", x in refused_, "the operation must be refused: " + x[:160], loc, x[:300])


def applied(c, key, fid, fields, store, result=True, panics=False, keep="$^"):
    """A set of changes is written to a store: for every entry of every collection of $1 the present value is read, combined with the change, written back
    (an absent datum or an amount of zero is deleted), and the inverse of the change is kept under the same key in the field of that name.
    fields: collection of $1 -> (suffix of the accessors, 'data' or 'amount', field of the result)."""
    loc = c.loc(fid)
    stop = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|&?<?T as core|<.* as utils::tap_log|" + keep + "|" + re.escape(fid) + r"(::\{closure|$))"
    plain = lambda s: re.sub(r"Result::log_err\((\w+::\w+\([^()]*(?:\([^()]*(?:\([^()]*\))*[^()]*\))*[^()]*\))\)", r"\1", re.sub(r"(?<=[)\]])@\d+", "", s))
    seen, n = set(), 0
    for p in c.paths(fid, stop=stop):
        S = lambda x: show(initially(p, x))
        ws = [(m[1], m[2], e) for e in p.events for m in [re.search(r"::(get|set|del)_(\w+)$", e.name)] if m]
        r = sret(p) if p.ret is not None else ""
        if p.kind == "panic":
            good = panics and any(re.search(r"::neg$", e.name) and p.var.get(e.res) == "None" for e in p.events)
            c.ob(key + "#panic", good, "the changes must be written without panicking", loc, repr(p)[:400])
            continue
        if p.kind == "ret" and r.startswith("Err("):
            c.ob(key + "#err", any(v in ("Err", "None") for v in p.var.values()), "failure must have a cause", loc, repr(p)[:400])
            continue
        if p.kind == "ret":
            exh = " ".join(S(x[1]) for x in p.facts if x[0] == "exh") + (" " + r)
            for f, (_, _, u) in fields.items():
                c.ob(key + "#all", f"consume($1.{f})" in exh, f"success requires that all of {f} was written", loc, repr(p)[:400])
                if result:
                    m = re.search(rf"[{{ ]{u}: ((?:(?!, \w+: ).)*)", r)
                    c.ob(key + "#undo", m and f"consume($1.{f})" in m[1], f"the inverse of {f} must be that of {f}", loc, r[:600])
            c.ob(key + "#ok", r.startswith("Ok("), "the result", loc, r[:300])
            n += 1
            continue
        if not ws:
            continue
        k = ws[0][1]
        f = [a for a, (b, _, _) in fields.items() if b == k]
        good = bool(f)
        if good:
            f = f[0]
            kind = fields[f][1]
            ws = [w for w in ws if w[1] == k]
            e = [x for x in (f"elem(DeltaDataCollection::consume($1.{f}))", f"elem(DeltaAmountCollection::consume($1.{f}))", f"elem(DeltaDataUndoCollection::consume($1.{f}))")
                 if x in S(ws[0][2].res)]
            e = e[0] if e else "?"
            ids = ([f"{store}", e + ".0"], [f"{store}", e + ".0.0", e + ".0.1"])
            arg = lambda x: [S(a) for a in x[2].args]
            good = ws[0][0] == "get" and arg(ws[0]) in ids and len(ws) == 2
            comb = [x for x in p.events if x.name.endswith("combine_data_with_delta" if kind == "data" else "combine_amount_delta")]
            good = good and len(comb) == 1
            if good:
                g = plain(S(ws[0][2].res))
                a, b = [plain(S(x)) for x in comb[0].args]
                d = (f"Some({e}.1)", f"Some(DataDeltaUndo::consume({e}.1))", f"Some(DeltaDataUndo::consume({e}.1))")
                v = plain(S(comb[0].res)) + ".Ok.0"
                some = p.var.get(ws[0][2].res.get("Ok") if hasattr(ws[0][2].res, "get") else None)
                good = b in d and (a == g + ".Ok.0" if kind == "data" else a in (g + ".Ok.0.Some.0", "Amount{atoms: 0}", f"Option::unwrap_or({g}.Ok.0, Amount{{atoms: 0}})"))
                good = good and (kind == "data" or a != "Amount{atoms: 0}" or "Ok.0 is None" in repr(p)) and all(plain(S(x[2].res)) and holds(p, S(w) + " is Ok") for x in ws[1:] for w in [x[2].res])
                s = ws[1]
                if s[0] == "set":
                    good = good and arg(s)[:-1] in ids and plain(arg(s)[-1]) == (v + ".Some.0" if kind == "data" else v) and (kind == "data" or holds(p, f"lt(0, {S(comb[0].res)}.Ok.0.atoms)"))
                else:
                    good = good and s[0] == "del" and arg(s) in ids and holds(p, f"{S(comb[0].res)}.Ok.0 is None" if kind == "data" else f"!lt(0, {S(comb[0].res)}.Ok.0.atoms)")
                if result:
                    inv = f"DataDelta::invert({e}.1)" if kind == "data" else f"SignedAmount::neg({e}.1).Some.0"
                    good = good and r == f"({e}.0, {inv})"
                seen.add((f, s[0]))
        c.ob(key, good, "each change must be combined with the present value, written and inverted", loc, repr(p)[:700] + " R " + r[:300])
    for f in fields:
        for s in ("set", "del"):
            c.ob(f"{key}#{f}#{s}", (f, s) in seen, f"the changes of {f} must be written", loc, f)
    c.count(key, n, 1)


def data_view(c, key, fid, delta, parent, index="$1", stop=r"^<?accounting::|View>?::get_"):
    """the datum seen through a set of changes: the changed one if there is one, else that of the parent"""
    d = f"DeltaDataCollection::get_data({delta}, {index})"
    c.table(key, c.paths(fid, stop=stop), [(d + " is Present", f"Ok(Some({d}.Present.0))"), (d + " is Deleted", "Ok(None)"),
            (f"{d} is Missing & {parent} is Ok", f"Ok({parent}.Ok.0)"), (f"{d} is Missing & {parent} is Err", "Err(_)")])


def amount_view(c, key, fid, delta, parent, index="$1", stop=r"^<?accounting::|View>?::get_"):
    """the amount seen through a set of changes: that of the parent combined with the change"""
    for p in c.paths(fid, stop=stop):
        e = evs(p, "combine_amount_delta$")
        if not e:
            c.ob(key + "#err", sret(p).startswith("Err(") and holds(p, parent + " is Err"), "a failure must be reported", c.loc(p.fid), repr(p)[:300])
            continue
        a = [show(x) for x in e[0].args]
        got = "|".join(re.escape(x) for n in ("mapget", "BTreeMap::get") for x in (f"{n}(DeltaAmountCollection::data({delta}), {index})", f"{n}({delta}.data, {index})"))
        m = re.fullmatch(rf"{got}|None|Some\((?:{got})\.Some\.0\)", a[1])
        if a[1] == "None":
            m = m and any(v == "None" and re.fullmatch(got, show(t)) for t, v in p.var.items())
        r = re.sub(r"Error::\w+\((.*)\.Err\.0\)", r"\1.Err.0", sret(p))
        good = a[0] == parent + ".Ok.0" and m and (r == f"Ok({show(e[0].res)}.Ok.0)" or r.startswith("Err(") and p.var.get(e[0].res) == "Err" or r == show(e[0].res))
        c.ob(key, good, "the amount is that of the parent combined with the change", c.loc(p.fid), repr(p)[:400])


def dispatch(c, key, fid, over, writes, rows, refuse=(), final=(), names=None, **kw):
    """A function that goes over one or more sequences and acts on each element.  over: pattern of the sequences, each of which must be exhausted before the function succeeds.
    rows: (condition, [write, ...], yielded): each way through a loop body satisfies the condition of a row, has done exactly the row's writes (all of which succeeded) and yields the
    row's value (None: nothing).  refuse: conditions under which an element is refused.  final: rows (condition, [write, ...], result) for what follows the loops."""
    names = names or {}
    loc = c.loc(fid)

    def full(s):
        for _ in range(6):
            t = re.sub(r"@(\w+)", lambda m: names.get(m[1], m[0]), s)
            if t == s:
                break
            s = t
        return s
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)

    def perm(w, s):
        if not w:
            return not s
        return any(match(w[0], s[i]) and perm(w[1:], s[:i] + s[i + 1:]) for i in range(len(s)))
    rows = [(full(a), [full(x) for x in w], r and full(r)) for a, w, r in rows]
    final = [(full(a), [full(x) for x in w], full(r)) for a, w, r in final]
    refuse = [full(x) for x in refuse]
    seen, ends, refused_ = set(), set(), set()
    ps = c.paths(fid, **kw)
    for p in ps:
        if p.kind == "panic":
            c.ob(key + "#panic", False, "must not panic", loc, repr(p)[:400])
            continue
        r = plain(sret(p)) if p.ret is not None else None
        bad = [e for e in p.events if p.var.get(e.res) == "Err"]
        ws = [plain(show(e.res)) for e in p.events if re.search(writes, e.name)]
        lost = [e for e in dropped(p) if re.search(writes, e.name)]
        c.ob(key + "#lost", not lost, "the outcome of a change must not be dropped", loc, str(lost)[:300])
        if p.kind == "back":
            later = [plain(show(x)) for x in (p.next or {}).values()] if p.next else []
            if not ws and r is None and not bad and not any(f"elem({o})" in repr(p) for o in over):
                continue            # some other iteration, without effect
            hit = [i for i, (a, w, y) in enumerate(rows) if (not a or holds(p, a)) and len(w) == len(ws) and perm(w, ws)
                   and (y is None and r is None or y is not None and (r is not None and match(y, r) or any(y in x for x in later)))]
            seen.update(hit)
            c.ob(key + "#each", hit and not bad, "each element has exactly its specified effect, and failures end the processing", loc, repr(p)[:700] + " WRITES " + str(ws)[:600])
            continue
        if bad:
            c.ob(key + "#failed", r.startswith("Err("), "a failure must be reported", loc, repr(p)[:400])
            continue
        k = [x for x in refuse if holds(p, x)]
        if r.startswith("Err("):
            refused_.update(k)
            c.ob(key + "#refused", k, "an element may be refused only for the specified reasons", loc, repr(p)[:500])
            continue
        done = [show(x[1]) for x in p.facts if x[0] == "exh"]
        hit = [i for i, (a, w, y) in enumerate(final) if (not a or holds(p, a)) and len(w) <= len(ws) and perm(w, ws[len(ws) - len(w):]) and len(w) == len(ws) and match(y, r)]
        ends.update(hit)
        c.ob(key + "#final", hit and all(any(o in d for d in done) for o in over), "success only after all elements, with exactly the specified result and effects", loc, repr(p)[:700] + " WRITES " + str(ws)[:600])
    for i, x in enumerate(rows):
        c.ob(f"{key}#row{i}", i in seen, "the element must have its effect: " + x[0][:120], loc, str(x)[:300])
    for i, x in enumerate(final):
        c.ob(f"{key}#final{i}", i in ends, "this result must be possible: " + x[0][:120], loc, str(x)[:300])
    for x in refuse:
        c.ob(f"{key}#refuse", x in refused_, "the element must be refused: " + x[:160], loc, x[:300])


def steps(c, key, fid, interesting, ways, refuse=(), loose=False, see=lambda t: t, turns=None, panics=r"^$", **kw):
    """A function that takes a sequence of fallible steps.  interesting: regex of the calls that count as steps.  ways: rows (condition, [step pattern, ...], result): every path that
    succeeds takes exactly the steps of a row, in order, each of them having succeeded; when a step fails the function fails and takes no further step.
    refuse: conditions (besides a failed call) under which it may fail.  loose: the order of the steps does not matter.
    turns: rows (condition, [step pattern, ...]) for one turn of a loop, from the start of the function on."""
    loc = c.loc(fid)
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)

    def perm(w, s):
        if not w:
            return not s
        return any(match(w[0], s[i]) and perm(w[1:], s[:i] + s[i + 1:]) for i in range(len(s)))
    seen, turned = set(), set()
    for p in c.paths(fid, **kw):
        if p.kind == "panic":
            c.ob(key + "#panic", re.search(panics, str(p.msg)), "must not panic", loc, repr(p)[:400])
            continue
        es = [e for e in p.events if re.search(interesting, e.name)]
        ws = [plain(show(see(initially(p, e.res)))) for e in es]
        if p.kind == "back":
            if turns is not None:
                lost = [e for e in dropped(p) if e in es]
                c.ob(key + "#lost", not lost, "the outcome of a step must not be dropped", loc, str(lost)[:300])
                hit = [i for i, (a, w) in enumerate(turns) if (not a or under(p, a)) and len(w) == len(ws) and all(match(y, z) for y, z in zip(w, ws)) and not any(p.var.get(e.res) == "Err" for e in es)]
                c.ob(key + "#turn", hit, "a turn of the loop must take exactly the specified steps", loc, repr(p)[:500] + " STEPS " + " ; ".join(ws)[:900])
                turned.update(hit)
            continue
        r = plain(show(see(initially(p, p.ret)))) if see is bare else plain(sret(p))
        bad = [i for i, e in enumerate(es) if p.var.get(e.res) == "Err"]
        lost = [e for e in dropped(p) if e in es]
        c.ob(key + "#lost", not lost, "the outcome of a step must not be dropped", loc, str(lost)[:300])
        if bad:
            c.ob(key + "#failed", r.startswith("Err(") and bad[0] == len(es) - 1 or r == ws[-1] and bad[0] == len(es) - 1, "a failed step must be the last and be reported", loc, repr(p)[:500])
            continue
        if r.startswith("Err("):
            other = any(v == "Err" for t, v in p.var.items() if t.tag in ("call", "fld"))
            c.ob(key + "#refused", other or any(under(p, x) for x in refuse), "refused only for the specified reasons", loc, repr(p)[:600] + " RESULT " + r[:200])
            continue
        hit = [i for i, (a, w, x) in enumerate(ways) if (not a or under(p, a)) and len(w) == len(ws) and (perm(w, ws) if loose else all(match(y, z) for y, z in zip(w, ws)))
               and (match(x, r) or x in ("Ok(())", "Ok(_)") and ws and r == ws[-1])]
        seen.update(hit)
        c.ob(key, hit, "success only after exactly the specified steps, in order", loc, repr(p)[:500] + " STEPS " + " ; ".join(ws)[:900] + " RESULT " + r[:200])
    for i, x in enumerate(turns or ()):
        c.ob(f"{key}#turn{i}", i in turned, "this turn must exist: " + str(x)[:300], loc, str(x)[:300])
    for i, x in enumerate(ways):
        c.ob(f"{key}#way{i}", i in seen, "this way must exist: " + (x[0] or " ; ".join(x[1]))[:160], loc, str(x)[:300])


CLOSED = r"^(?!core::|alloc::|std::|<core::|<alloc::|<std::|<&(?:'\w+ )?(?:mut )?(?:\[|core::|alloc::|std::)|.*\{closure#\d+\}$)"     # follow only the standard library and the function's own closures


def under(p, cond):
    """holds, for conditions with wildcards too, and for predicates"""
    if callable(cond):
        return bool(cond(p))
    if not re.search(r"(?<![\w'])__?(?![\w'])", cond):
        return holds(p, cond)
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)

    def one(l):
        m = re.match(r"(.*) is (\w+)$", l)
        if m:
            return any(v == m[2] and match(m[1], plain(show(t))) for t, v in p.var.items())
        want = not l.startswith("!")
        return any(v == want and match(l.lstrip("!"), plain(show(t))) for t, v in p.truth.items())
    return all(one(x.strip()) for x in cond.split(" & "))


def gate(c, key, fid, need=(), when=(), refuse=(), skip=(), panics=r"^$", result="Ok(_)", exhausted=(), **kw):
    """A function that lets something pass.  Every path that succeeds has made each call of `need` (a pattern), successfully, is under each condition of `when`, and has gone through each sequence of
    `exhausted`, unless one of the conditions `skip` holds.  It refuses only for a failed call or one of the conditions `refuse`; each of these does refuse.  No failure is dropped."""
    kw.setdefault("stop", CLOSED)
    fid = c.resolve(fid)
    loc = c.loc(fid)
    plain = lambda s: re.sub(r"(?<=[)\]])@\d+", "", s)
    passed, refused, skipped = 0, set(), set()
    for p in c.paths(fid, **kw):
        if p.kind == "panic":
            c.ob(key + "#panic", re.search(panics, str(p.msg)), "must not panic", loc, repr(p)[:400])
            continue
        c.ob(key + "#lost", not dropped(p), "the outcome of a check must not be dropped", loc, str(dropped(p))[:300])
        if p.kind != "ret":
            continue
        r = plain(sret(p))
        es = [(plain(show(initially(p, e.res))), e) for e in p.events]
        failed = [e for s, e in es if p.var.get(e.res) == "Err"]
        if r.startswith("Err(") or failed:
            hit = [x for x in refuse if under(p, x)]
            refused.update(hit)
            c.ob(key + "#refused", failed or hit, "refused only for the specified reasons", loc, repr(p)[:500])
            c.ob(key + "#failed", r.startswith("Err(") or any(show(e.res) == r for e in failed), "a failure must be reported", loc, repr(p)[:500])
            continue
        k = [x for x in skip if under(p, x)]
        if k:
            skipped.update(k)
            continue
        passed += 1
        for n in need:
            c.ob(key + "#need " + n[:60], any(match(n, s) for s, e in es), "may pass only after " + n[:200], loc, repr(p)[:600])
        for w in when:
            c.ob(key + "#when " + w[:60], under(p, w), "may pass only if " + w[:200], loc, repr(p)[:600])
        for x in exhausted:
            c.ob(key + "#all " + x[:60], any(f[0] == "exh" and match(x, plain(show(f[1]))) for f in p.facts), "may pass only after all of " + x[:200], loc, repr(p)[:600])
        c.ob(key + "#result", match(result, r), "the result when it passes", loc, r[:300])
    c.ob(key + "#passes", passed, "must be able to pass", loc)
    for x in refuse:
        c.ob(key + "#refuses " + x[:60], x in refused, "must be refused: " + x[:200], loc)
    for x in skip:
        c.ob(key + "#skips " + x[:60], x in skipped, "must pass at once: " + x[:200], loc)
