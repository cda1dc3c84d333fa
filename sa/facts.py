"""Fact base: what the MIR driver dumped for every crate, loaded lazily.

fn ids are unique def paths with crate names.  Types are converted to crate-independent tuples:
  ('adt', path, args) ('ref', t) ('refmut', t) ('ptr', t) ('slice', t) ('array', t, n) ('tuple', ts)
  ('param', name) ('prim', s) ('closure', id) ('coroutine', id) ('fndef', id, args) ('dyn', trait) ('alias', s) ('other', s)
"""
import json, os, re, functools


class MissingAnchor(Exception):
    """An item a rule is anchored in is gone from the program: the rule cannot be decided (fail closed)."""


class Facts:
    def __init__(self, d, names=None):
        self.dir = d
        self.fnline = {}      # id -> (crate, raw json)
        self._fn = {}
        self._uses = {}
        self.rawty = {}       # crate -> [raw json]
        self._ty = {}
        self.adts = {}
        self.consts = {}
        self.statics = {}
        self.impls = []       # (crate, rec)
        self.traits = {}
        self.crates = []
        self.closures = {}    # root fn id -> [closure ids]
        self._impl_by_trait = None
        for f in sorted(os.listdir(d)):
            if f.endswith(".facts") and (names is None or f[:-6] in names):
                self._load(f[:-6])

    def _load(self, crate):
        self.crates.append(crate)
        tys = self.rawty[crate] = []
        with open(os.path.join(self.dir, crate + ".facts"), encoding="utf-8") as fh:
            for line in fh:
                k, j = line.split("\t", 1)
                if k == "fn":
                    i = json.JSONDecoder().raw_decode(j, 6)[0] if j.startswith('{"id":') else json.loads(j)["id"]
                    if i in self.fnline:
                        i = i + "@" + crate
                    self.fnline[i] = (crate, j)
                elif k == "ty":
                    tys.append(j)
                elif k == "adt":
                    r = json.loads(j)
                    r["crate"] = crate
                    if r["local"] or r["id"] not in self.adts:
                        self.adts[r["id"]] = r
                elif k == "const":
                    r = json.loads(j)
                    r["crate"] = crate
                    self.consts[r["id"]] = r
                elif k == "static":
                    r = json.loads(j)
                    r["crate"] = crate
                    self.statics[r["id"]] = r
                elif k == "impl":
                    self.impls.append((crate, j))
                elif k == "trait":
                    r = json.loads(j)
                    self.traits[r["id"]] = r
        self._parsed_impls = None

    # ---- types
    def ty(self, crate, idx):
        key = (crate, idx)
        t = self._ty.get(key)
        if t is None:
            raw = json.loads(self.rawty[crate][idx])
            k = raw.get("k")
            a = lambda: tuple(self.ty(crate, x) for x in raw.get("a", ()))
            if k == "adt":
                t = ("adt", raw["d"], a())
            elif k in ("ref", "refmut", "ptr", "slice"):
                t = (k, a()[0])
            elif k == "array":
                t = ("array", a()[0], raw.get("n"))
            elif k == "tuple":
                t = ("tuple", a())
            elif k == "param":
                t = ("param", raw["d"])
            elif k == "prim":
                t = ("prim", raw["s"])
            elif k in ("closure", "coroutine"):
                t = (k, raw["d"])
            elif k == "fndef":
                t = ("fndef", raw["d"], a())
            elif k == "dyn":
                t = ("dyn", raw.get("d"))
            elif k == "cval":
                t = ("cval", raw["s"])
            elif k == "alias":
                t = ("alias", raw["s"])
            else:
                t = ("other", raw["s"])
            self._ty[key] = t
        return t

    # ---- functions
    def fn(self, i):
        r = self._fn.get(i)
        if r is None:
            e = self.fnline.get(i)
            if e is None:
                return None
            r = json.loads(e[1])
            r["crate"] = e[0]
            self._fn[i] = r
        return r

    def need(self, i):
        r = self.fn(i)
        if r is None:
            raise MissingAnchor(f"function {i} not found")
        return r

    def ids(self, crate=None, pat=None):
        rx = re.compile(pat) if pat else None
        for i, (c, _) in self.fnline.items():
            if crate is not None and c != crate and not (isinstance(crate, (set, tuple, list)) and c in crate):
                continue
            if rx and not rx.search(i):
                continue
            yield i

    def uses(self, i):
        """def paths of every function a body calls or names (call targets, function items passed as values, closures built)"""
        out = self._uses.get(i)
        if out is None:
            out = set()

            def walk(x):
                if isinstance(x, dict):
                    if isinstance(x.get("d"), str):
                        out.add(x["d"])
                    for k in ("t", "fn"):
                        if isinstance(x.get(k), int):
                            t = self.ty(f["crate"], x[k])
                            while t and t[0] in ("ref", "refmut", "ptr"):
                                t = t[1]
                            if t and t[0] in ("fndef", "closure", "coroutine"):
                                out.add(t[1])
                    for y in x.values():
                        if isinstance(y, (list, dict)):
                            walk(y)
                elif isinstance(x, list):
                    if len(x) > 2 and x[0] == "agg" and x[1] in ("closure", "coroutine"):
                        out.add(x[2])
                    for y in x:
                        walk(y)
            f = self.need(i)
            walk(f["bbs"])
            self._uses[i] = out
        return out

    def callers(self, pat, crates=None):
        """(fn id, def path) for every use of a function whose path matches"""
        rx = re.compile(pat)
        pre = re.compile(pat.replace("^", "").replace("$", "")) if "(?" not in pat else None
        for i, (c, j) in self.fnline.items():
            if crates is None or c in crates:
                if pre is None or pre.search(j):
                    for u in self.uses(i):
                        if rx.search(u):
                            yield i, u

    def parsed_impls(self):
        if self._parsed_impls is None:
            self._parsed_impls = []
            for c, j in self.impls:
                r = json.loads(j)
                r["crate"] = c
                self._parsed_impls.append(r)
        return self._parsed_impls

    def impl_by_trait(self):
        if self._impl_by_trait is None:
            m = {}
            for r in self.parsed_impls():
                if r.get("tr"):
                    m.setdefault(r["tr"], []).append(r)
            self._impl_by_trait = m
        return self._impl_by_trait

    def resolve_trait_method(self, item, selfty):
        """(impl item id, substitution) of trait item `item` for a concrete self type, or None."""
        tr = item.rsplit("::", 1)[0]
        cands = []
        for r in self.impl_by_trait().get(tr, ()):
            sub = {}
            if unify(self.ty(r["crate"], r["self"]), selfty, sub):
                cands.append((r, sub))
        if len(cands) > 1:  # a blanket impl (bare parameter self) loses against a structural one
            c2 = [c for c in cands if self.ty(c[0]["crate"], c[0]["self"])[0] != "param"]
            cands = c2 or cands
        if len(cands) != 1:
            return None
        r, sub = cands[0]
        if self.ty(r["crate"], r["self"])[0] == "param":
            return None       # blanket impl: bounds not checked here, do not guess
        for nm, p, t, _ in r["items"]:
            if t == item:
                return p, sub
        return None

    def impls_of(self, item):
        """all workspace implementations of a trait item"""
        tr = item.rsplit("::", 1)[0]
        out = []
        for r in self.impl_by_trait().get(tr, ()):
            for nm, p, t, _ in r["items"]:
                if t == item:
                    out.append(p)
        return out

    def adt(self, p):
        r = self.adts.get(p)
        if r is None:
            raise MissingAnchor(f"type {p} not found")
        return r

    def const(self, p):
        r = self.consts.get(p)
        if r is None:
            raise MissingAnchor(f"constant {p} not found")
        return r["v"]


def unify(pat, t, sub):
    if pat[0] == "param":
        if pat[1] in sub:
            return sub[pat[1]] == t
        sub[pat[1]] = t
        return True
    if t[0] == "param" or pat[0] != t[0]:
        return False
    if pat[0] in ("adt", "fndef"):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, sub) for a, b in zip(pat[2], t[2]))
    if pat[0] in ("ref", "refmut", "ptr", "slice"):
        return unify(pat[1], t[1], sub)
    if pat[0] == "array":
        return unify(pat[1], t[1], sub) and (pat[2] == t[2] or pat[2] is None or t[2] is None)
    if pat[0] == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, sub) for a, b in zip(pat[1], t[1]))
    return pat == t


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k in ("adt", "fndef"):
        return (k, t[1], tuple(subst(x, env) for x in t[2]))
    if k in ("ref", "refmut", "ptr", "slice"):
        return (k, subst(t[1], env))
    if k == "array":
        return (k, subst(t[1], env), t[2])
    if k == "tuple":
        return (k, tuple(subst(x, env) for x in t[1]))
    if k == "alias":
        m = TARGET.match(t[1])
        x = m and env.get(m[1])
        if x and x[0] in ("ref", "refmut"):
            return x[1]
    return t


TARGET = re.compile(r"^<(\w+) as (?:(?:std|core)::ops::(?:deref::)?)?Deref>::Target$")


def tystr(t):
    k = t[0]
    if k == "adt":
        n = t[1].rsplit("::", 1)[-1]
        return n + ("<" + ",".join(map(tystr, t[2])) + ">" if t[2] else "")
    if k == "ref":
        return "&" + tystr(t[1])
    if k == "refmut":
        return "&mut " + tystr(t[1])
    if k == "slice":
        return "[" + tystr(t[1]) + "]"
    if k == "array":
        return f"[{tystr(t[1])};{t[2]}]"
    if k == "tuple":
        return "(" + ",".join(map(tystr, t[1])) + ")"
    return str(t[1]) if len(t) > 1 else k
