"""Comparisons written by hand are lawful: exchanging the operands reverses the answer, equality is the Equal of the order, partial_cmp is cmp, equal values hash alike.
Each implementation is evaluated for every combination of the outcomes (less, equal, greater) of the comparisons it makes between the two operands."""
import itertools, re
from ..rule import *
CRATES = ["common", "crypto", "utils", "storage", "script", "serialization", "storage-core", "rpc", "mempool", "chainstate", "wallet", "p2p"]
TR = {"core::cmp::PartialEq::eq": "eq", "core::cmp::Ord::cmp": "cmp", "core::cmp::PartialOrd::partial_cmp": "partial_cmp", "core::hash::Hash::hash": "hash"}
REV = {"L": "G", "G": "L", "E": "E"}
ORD = {"Less": "L", "Equal": "E", "Greater": "G"}
# one selection run builds its heap with one and the same fee setting (field 1), so the setting is common to both operands
SHARED = {"wallet::account::utxo_selector::OutputGroupOrd"}
# entries of one pool with the same transaction id are the same entry
IDENTIFIED = {"mempool::pool::tx_pool::collect_txs::EntryByScore<'_>": "$0.entry.entry.tx_id"}
# different things of these may not be equal
DISTINCT = {"chainstate::detail::block_invalidation::best_chain_candidates::BestChainCandidatesItem": "$0.block_id"}
# word-by-word comparison of wide integers is decided by C04
ELSEWHERE = r"^common::uint::"


class Lawless(Exception):
    pass


class Opaque(Exception):
    pass


def swap(t, memo=None):
    return subst(t, {"$0": "$1", "$1": "$0"})


def subst(t, m):
    if t.__class__ is tuple:
        return tuple(subst(x, m) for x in t)
    if t.__class__ is not T:
        return t
    if t.tag == "arg":
        s = show(t)
        return mk("arg", m[s][1:] if isinstance(t.args[0], str) else int(m[s][1:])) if s in m else t
    return mk(t.tag, *[subst(x, m) for x in t.args])


def sides(t):
    s = show(t)
    return {x for x in ("0", "1") if re.search(r"\$" + x + r"(?!\d)", s)}


def both(a, b):
    return bool(sides(a) and sides(b)) and len(sides(a) | sides(b)) == 2


def parts(t):
    """what is compared one after the other when this is compared"""
    if t.tag == "tup":
        return [y for x in t.args[0] for y in parts(x)]
    return [t]


class World:
    """one outcome for every comparison between the operands, one value for every fact about one of them"""
    def __init__(self, shared, deep=lambda k: k):
        self.shared, self.keys, self.val, self.deep = shared, {}, None, deep

    def ord_key(self, a, b):
        sa, sb = sides(a), sides(b)
        if not sa or not sb:
            return None
        if show(swap(a)) != show(b) and show(swap(b)) != show(a):
            raise Lawless(f"compares {show(a)} with {show(b)}, not the same thing of both operands")
        x, y = show(a), show(b)
        if sa == {"0"} or (sa != {"1"} and x < y):
            k, r = x, False
        else:
            k, r = y, True
        return ("o", self.deep(k)), r

    def order(self, a, b):
        """L, E or G"""
        a, b = parts(a), parts(b)
        if len(a) == len(b) > 1:
            for x, y in zip(a, b):
                o = self.order(x, y)
                if o != "E":
                    return o
            return "E"
        kr = self.ord_key(a[0], b[0])
        if kr is None:
            raise Opaque(show(a[0]))
        o = self.get(kr[0], ("L", "E", "G"))
        return REV[o] if kr[1] else o

    def get(self, k, dom):
        self.keys.setdefault(k, set()).update(dom)
        if self.val is None:
            raise KeyError(k)
        return self.val[k]

    def fact(self, t, dom):
        """a fact about one operand"""
        s = sides(t)
        c = show(t)
        if len(s) == 1:
            k = ("f", re.sub(r"\$1(?!\d)", "$0", c), "" if self.shared else next(iter(s)))
        elif not s:
            k = ("f", c, "")
        else:
            raise Opaque(c)
        return self.get(k, dom)

    def bool(self, t):
        if t.tag == "bool":
            return str(t.args[0]).lower() == "true"
        if t.tag == "not":
            return not self.bool(t.args[0])
        if t.tag == "eq":
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if x.tag == "adt" and x.args[1] in ORD and (y.tag in ("cmp", "adt") or cmp_call(y)):
                    return self.result(y, "cmp") == ORD[x.args[1]]
            if both(a, b):
                return self.order(a, b) == "E"
            return self.fact(t, (True, False))
        if t.tag in ("lt", "le", "gt", "ge"):
            if both(*t.args):
                o = self.order(*t.args)
                return o in {"lt": "L", "le": "LE", "gt": "G", "ge": "GE"}[t.tag]
            return self.fact(t, (True, False))
        if t.tag in ("and", "or"):
            r = [self.bool(x) for x in t.args]
            return all(r) if t.tag == "and" else any(r)
        m = cmp_call(t)
        if m and len(sides(t)) == 2:
            return self.order(*m) == "E" if t.args[0].endswith("eq") else None
        return self.fact(t, (True, False))

    def variant(self, t, v):
        if t.tag == "cmp" or cmp_call(t):
            return self.order(*(t.args if t.tag == "cmp" else cmp_call(t))) == ORD[v]
        if len(sides(t)) == 2:
            raise Opaque(show(t))
        return self.fact(t, (v, "another")) == v

    def holds(self, p):
        return all(self.bool(t) == v for t, v in p.truth.items() if t.tag not in ("ovf",)) and all(self.variant(t, v) for t, v in p.var.items()) and not any(self.variant(t, v) for t, vs in p.notvar.items() for v in vs)

    def result(self, t, kind):
        if kind == "partial_cmp":
            if t.tag == "adt" and t.args[1] == "Some":
                t = t.args[3][0]
            elif t.tag == "adt" and t.args[1] == "None":
                return "none"
            else:
                raise Opaque(show(t))
        if kind == "eq":
            return self.bool(t)
        if t.tag == "adt" and t.args[1] in ORD:
            return ORD[t.args[1]]
        if t.tag == "cmp":
            return self.order(*t.args)
        if t.tag == "phi":
            raise Opaque(show(t))
        m = cmp_call(t)
        if m:
            return self.order(*m)
        raise Opaque(show(t))


def cmp_call(t):
    if t.tag == "call" and re.search(r"::(cmp|partial_cmp|eq)$", str(t.args[0])) and len(t.args[1]) == 2:
        return t.args[1]


def evaluate(w, ps, kind, val):
    """the answer under these outcomes: 'panic' where a path ends that way"""
    w.val = val
    rs = {w.result(p.ret, kind) if p.kind == "ret" else "panic" for p in ps if w.holds(p)}
    if not rs:
        return None         # matches are exhaustive: such operands do not exist
    if len(rs) != 1:
        raise Opaque(f"{len(rs)} answers")
    return rs.pop()


def atoms(w, ps, kind):
    """all comparisons and facts the paths depend on"""
    w.val = None

    for p in ps:
        for t, v in p.truth.items():
            if t.tag != "ovf":
                touch(w, lambda t=t: w.bool(t))
        for t, v in [*p.var.items(), *((t, v) for t, vs in p.notvar.items() for v in vs)]:
            touch(w, lambda t=t, v=v: w.variant(t, v))
        if p.kind == "back":
            raise Opaque("a loop")
        if p.kind == "ret":
            touch(w, lambda p=p: w.result(p.ret, kind))


def touch(w, f):
    """evaluate with every key met answered, so that all keys are met"""
    class All(dict):
        def __missing__(self, k):
            return "E" if k[0] == "o" else True
    w.val = All()
    f()
    w.val = None


def settle(w, ps):
    """a fact whose contrary ends in a panic only is taken as given"""
    seen = {}
    for p in ps:
        if p.kind == "ret":
            v = World(w.shared)
            for t, x in [*p.truth.items(), *p.var.items()]:
                if t.tag == "ovf" or len(sides(t)) == 2:
                    continue
                k = fact_key(t, w.shared)
                seen.setdefault(k, set()).add(x)
    for k, vs in seen.items():
        if k in w.keys and len(vs) == 1:
            w.keys[k] = vs


def fact_key(t, shared):
    s, c = sides(t), show(t)
    return ("f", re.sub(r"\$1(?!\d)", "$0", c), "" if shared or len(s) != 1 else next(iter(s)))


def worlds(w):
    ks = sorted(w.keys, key=str)
    if sum(len(w.keys[k]) > 1 for k in ks) > 9:
        raise Opaque(f"{len(ks)} comparisons")
    for vs in itertools.product(*[sorted(w.keys[k], key=str) for k in ks]):
        val = dict(zip(ks, vs))
        if consistent(val):
            yield val


def consistent(val):
    """what depends on equal things only is equal, and true or false for both operands"""
    for k, v in val.items():
        if k[0] != "o" or v != "E":
            continue
        rx = re.compile(re.escape(k[1]) + r"(?!\w)")
        for f, x in val.items():
            if f != k and not re.search(r"\$[01](?!\d)", rx.sub("", f[1])):
                if f[0] == "o" and x != "E" or f[0] == "f" and f[2] and val.get((f[0], f[1], "1" if f[2] == "0" else "0"), x) != x:
                    return False
    return True


def mirrored(val):
    return {(k if k[0] == "o" or not k[2] else (k[0], k[1], "1" if k[2] == "0" else "0")): (REV[v] if k[0] == "o" else v) for k, v in val.items()}


def groups(c):
    out = {}
    for i in c.F.fnline:
        if not i.startswith("<") or "{" in i:
            continue
        m = re.match(r"<(.*) as (core::(?:cmp|hash)::\w+)>::(\w+)$", i)
        if not m or m.group(2) + "::" + m.group(3) not in TR:
            continue
        out.setdefault(re.sub(r"'\w+", "'_", m.group(1)), {})[TR[m.group(2) + "::" + m.group(3)]] = i
    return {t: g for t, g in out.items() if any(not c.F.fn(i).get("derived") for i in g.values())}


def wrapped(c, ty):
    """a thing that wraps another is named by what it wraps"""
    def fields(t):
        a = c.F.adts.get(t)
        if not a or len(a["v"]) != 1 or any(f[1] is None for f in a["v"][0]["f"]):
            return None, None
        return a, [f for f in a["v"][0]["f"] if c.F.ty(a["crate"], f[1])[:2] != ("adt", "core::marker::PhantomData")]

    def plain(a, f):
        t = c.F.ty(a["crate"], f[1])
        while t[0] == "ref":
            t = c.F.ty(a["crate"], t[1]) if not isinstance(t[1], tuple) else t[1]
        return t[1] if t[0] == "adt" else None

    def deep(k):
        if not re.fullmatch(r"\$0(\.\w+)*", k):
            return k
        t = re.sub(r"<.*", "", ty)
        for x in k.split(".")[1:]:
            a, fs = fields(t)
            f = next((f for f in fs or () if f[0] == x), None)
            if f is None:
                return k
            t = plain(a, f)
        for _ in range(6):
            a, fs = fields(t)
            if not fs or len(fs) != 1:
                return k
            k, t = f"{k}.{fs[0][0]}", plain(a, fs[0])
        return k
    return deep


def phantoms(c, ty):
    """fields that hold nothing"""
    a = c.F.adts.get(re.sub(r"<.*", "", ty))
    return [f[0] for v in a["v"] for f in v["f"] if c.F.ty(a["crate"], f[1])[:2] == ("adt", "core::marker::PhantomData")] if a else []


def show_world(val):
    n = {"L": "less", "E": "equal", "G": "greater"}
    return ", ".join(f"{k[1].replace('$0.', '')} {n[v]}" if k[0] == "o" else f"{k[1]}={v}" for k, v in val.items()) or "any operands"


def check(c):
    n = 0
    for ty, g in sorted(groups(c).items()):
        if re.search(ELSEWHERE, ty):
            continue
        tables, w = {}, World(ty in SHARED, wrapped(c, ty))
        first = next(iter(g.values()))
        bad = None
        for kind, fid in g.items():
            ps = c.paths(fid, inline=set(c.F.crates), stop=r"^<?common::uint::")
            tables[kind] = ps
            if kind == "hash":
                continue
            try:
                atoms(w, ps, kind)
            except Lawless as e:
                c.ob(fid, False, f"{fid} {e}", c.loc(fid))
                bad = True
            except Opaque as e:
                c.ob(fid, False, f"cannot tell what {fid} compares: {e}", c.loc(fid))
                bad = True
        if bad:
            continue
        for f in phantoms(c, ty):
            if ("o", "$0." + f) in w.keys:
                w.keys["o", "$0." + f] = {"E"}
        settle(w, [p for k, ps in tables.items() if k != "hash" for p in ps])
        same = ("o", w.deep(IDENTIFIED.get(ty) or ""))
        for val in worlds(w):
            m = mirrored(val)
            if val.get(same) == "E" and any(k[0] == "o" and v != "E" for k, v in val.items()):
                continue
            got = {}
            for kind in ("eq", "cmp", "partial_cmp"):
                if kind not in tables:
                    continue
                fid = g[kind]
                try:
                    a = evaluate(w, tables[kind], kind, val)
                    b = evaluate(w, tables[kind], kind, {**val, **m})
                except Opaque as e:
                    c.ob(fid, False, f"{fid} has no single answer for {show_world(val)}: {e}", c.loc(fid))
                    break
                if None in (a, b):
                    break
                got[kind] = a
                if "panic" in (a, b):
                    continue
                n += 1
                c.ob(fid, b == (a if kind == "eq" or a == "none" else REV[a]), f"{fid}: exchanging the operands does not reverse the answer ({a}, {b}) with {show_world(val)}", c.loc(fid))
            if "cmp" in got and "partial_cmp" in got:
                c.ob(g["partial_cmp"] + "#cmp", got["cmp"] == got["partial_cmp"], f"{ty}: partial_cmp differs from cmp with {show_world(val)}", c.loc(g["partial_cmp"]))
            o = got.get("cmp", got.get("partial_cmp"))
            if "eq" in got and o and "panic" not in (got["eq"], o):
                c.ob(ty + "#eq", got["eq"] == (o == "E"), f"{ty}: == gives {got['eq']} where the order gives {o} with {show_world(val)}", c.loc(g["cmp" if "cmp" in g else "partial_cmp"]))
            k = ("o", w.deep(DISTINCT.get(ty, "")))
            if "eq" in got and ty in DISTINCT:
                c.ob(ty + "#distinct", got["eq"] is not True or val.get(k) == "E", f"{ty}: equal with another {DISTINCT[ty]} with {show_world(val)}", c.loc(g["eq"]))
        if "hash" in tables and "eq" in tables:
            hashing(c, ty, g, tables, w)
    c.count("answers compared with those for exchanged operands", n, 1)


def hashing(c, ty, g, tables, w):
    """values that are equal have everything equal that is fed to the hasher"""
    fed = [t for p in tables["hash"] for e in p.events if re.search(r"::(hash|write\w*)$", e.name) for t in e.args[:1] if "0" in sides(t)]
    for t in fed:
        k = ("o", show(t))
        for val in worlds(w):
            if evaluate(w, tables["eq"], "eq", val) is True:
                c.ob(ty + "#hash", any(kk[0] == "o" and v == "E" and (show(t) == kk[1] or show(t).startswith(kk[1] + ".") or kk[1].startswith(show(t) + ".")) for kk, v in val.items()) or not val,
                     f"{ty}: the hash depends on {show(t)}, which equal values may differ in", c.loc(g["hash"]))
