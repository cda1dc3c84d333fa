"""Straight-line evaluation of loops whose bounds are constants, over symbolic elements, and bit provenance of the results.

`Machine(unroll=True, models=UNROLL)` does not summarise loops: iterators over known-length sequences give their elements
one by one, so a function of fixed-size arrays becomes one expression per result element.  `bits` then says, for every
bit of a result, which input bit (or constant) it is."""
from .terms import *
from . import models as M
from .models import ret, call, some, NONE, as_iter, I, put

SEQ = {"arr"}


def rng_of(m, i, n):
    """concrete (lo, hi) of a range value, None when not constant"""
    if i.tag == "range":
        lo, hi = i.args[0], i.args[1] if len(i.args) > 1 else integer(n)
        inc = len(i.args) > 2
    elif i.tag == "adt" and "ops::range::Range" in i.args[0]:
        names = i.args[2]
        g = lambda x, d: i.args[3][names.index(x)] if x in names else d
        lo, hi = g("start", integer(0)), g("end", integer(n))
        inc = "Inclusive" in i.args[0]
    else:
        return None
    if lo.tag != "int" or hi.tag != "int":
        return None
    return lo.args[0], hi.args[0] + (1 if inc else 0)


def elements(m, st, c):
    """the elements of an iterator term as functions (m, st, k) -> actions; None when not of known length"""
    c = m.deref(st, c)
    t = c.tag
    if t == "at":
        e = elements(m, st, c.args[0])
        return e and e[c.args[1]:] if c.args[1] else e
    if t == "range":
        r = rng_of(m, c, 0)
        if r is None or len(c.args) < 2:
            return None
        return [lambda m, s, k, i=i: k(m, s, integer(i)) for i in range(r[0], max(r))]
    if t == "adt" and "ops::range::Range" in c.args[0]:
        return elements(m, st, as_iter(m, st, c))
    if t == "iter":
        x = m.deref(st, c.args[0])
        if x.tag == "arr":
            return [lambda m, s, k, y=y: k(m, s, y) for y in x.args[0]]
        if x.tag == "chunks":
            y, n = m.deref(st, x.args[0]), x.args[1]
            if y.tag == "arr" and n.tag == "int" and n.args[0]:
                n, y = n.args[0], y.args[0]
                return [lambda m, s, k, z=mk("arr", y[i:i + n]): k(m, s, z) for i in range(0, len(y), n)]
        return None
    if t in ("map", "inspect"):
        e = elements(m, st, c.args[0])
        if e is None:
            return None
        return [lambda m, s, k, g=g: g(m, s, lambda m2, s2, x: call(s2, c.args[1], [x], lambda m3, s3, v: k(m3, s3, v if t == "map" else x))) for g in e]
    if t == "enumerate":
        e = elements(m, st, c.args[0])
        return e and [lambda m, s, k, g=g, i=i: g(m, s, lambda m2, s2, x: k(m2, s2, mk("tup", (integer(i), x)))) for i, g in enumerate(e)]
    if t == "zip":
        a, b = elements(m, st, c.args[0]), elements(m, st, c.args[1])
        if a is None or b is None:
            return None
        return [lambda m, s, k, g=g, h=h: g(m, s, lambda m2, s2, x: h(m2, s2, lambda m3, s3, y: k(m3, s3, mk("tup", (x, y))))) for g, h in zip(a, b)]
    if t == "chain":
        a, b = elements(m, st, c.args[0]), elements(m, st, c.args[1])
        return None if a is None or b is None else a + b
    if t == "rev":
        a = elements(m, st, c.args[0])
        return None if a is None else a[::-1]
    if t in ("take", "skip", "step_by"):
        a, n = elements(m, st, c.args[0]), c.args[1]
        if a is None or n.tag != "int":
            return None
        return a[:n.args[0]] if t == "take" else a[n.args[0]:] if t == "skip" else a[::n.args[0]]
    return None


def u_next(m, st, f, ta, a, l):
    p = a[0]
    c = m.deref(st, p)
    if c.tag == "at":
        base, i = c.args
    else:
        base, i = c if c.tag in M.ITERLIKE else as_iter(m, st, c), 0
    e = elements(m, st, base)
    if e is None:
        return M.it_next(m, st, f, ta, a, l)
    if f.endswith("next_back"):
        return None
    if i >= len(e):
        return ret(st, NONE)
    put(m, st, p, mk("at", base, i + 1))
    return e[i](m, st, lambda m2, s, x: ret(s, some(x)))


def u_for_each(m, st, f, ta, a, l):
    e = elements(m, st, as_iter(m, st, a[0]))
    if e is None:
        return M.for_each(m, st, f, ta, a, l)

    def go(m, s, i):
        if i == len(e):
            return ret(s, UNIT)
        return e[i](m, s, lambda m2, s2, x: call(s2, a[1], [x], lambda m3, s3, v: go(m3, s3, i + 1)))
    return go(m, st, 0)


def u_fold(m, st, f, ta, a, l):
    e = elements(m, st, as_iter(m, st, a[0]))
    if e is None:
        return M.MODELS[I + "fold"](m, st, f, ta, a, l)

    def go(m, s, i, acc):
        if i == len(e):
            return ret(s, acc)
        return e[i](m, s, lambda m2, s2, x: call(s2, a[2], [acc, x], lambda m3, s3, v: go(m3, s3, i + 1, v)))
    return go(m, st, 0, a[1])


def u_find(m, st, f, ta, a, l):
    """find / find_map: the first element accepted"""
    e = elements(m, st, as_iter(m, st, a[0]))
    if e is None:
        return M.MODELS[f](m, st, f, ta, a, l) if f in M.MODELS else None
    fm = f.endswith("find_map")

    def go(m, s, i):
        if i == len(e):
            return ret(s, NONE)

        def on(m2, s2, x):
            def got(m3, s3, v):
                out = []
                if fm:
                    for s4, var, y in M.sp_opt(m3, s3, v):
                        out += ret(s4, some(M.pay(m3, s4, y, "Some"))) if var == "Some" else go(m3, s4, i + 1)
                else:
                    for s4, b in m3.branch(s3, v):
                        out += ret(s4, some(x)) if b else go(m3, s4, i + 1)
                return out
            return call(s2, a[1], [x], got)
        return e[i](m, s, on)
    return go(m, st, 0)


def u_quant(name):
    def f(m, st, fid, ta, a, l):
        e = elements(m, st, as_iter(m, st, a[0]))
        if e is None:
            return M.MODELS[I + name](m, st, fid, ta, a, l)
        every = name == "all"

        def go(m, s, i):
            if i == len(e):
                return ret(s, boolean(every))

            def on(m2, s2, x):
                def got(m3, s3, v):
                    out = []
                    for s4, b in m3.branch(s3, v):
                        out += go(m3, s4, i + 1) if b == every else ret(s4, boolean(not every))
                    return out
                return call(s2, a[1], [x], got)
            return e[i](m, s, on)
        return go(m, st, 0)
    return f


def u_iter_mut(m, st, f, ta, a, l):
    p = a[0]
    v = m.deref(st, p)
    if p.tag != "ptr" or v.tag != "arr":
        return M.MODELS[f](m, st, f, ta, a, l)
    return ret(st, mk("iter", mk("arr", tuple(M.slot(m, st, p, ("i", integer(i)), raw=True) for i in range(len(v.args[0]))))))


def u_chunks(exact):
    def g(m, st, f, ta, a, l):
        p, n = a[0], m.snap(st, a[1])
        v = m.deref(st, p)
        if v.tag != "arr" or n.tag != "int" or not n.args[0]:
            return M.MODELS[f](m, st, f, ta, a, l) if f in M.MODELS else None
        n, k = n.args[0], len(v.args[0])
        at = [(i, min(i + n, k)) for i in range(0, k, n) if not exact or i + n <= k]
        if f.endswith("_mut") and p.tag == "ptr":
            r = lambda i, j: adt("core::ops::range::Range", "Range", ("start", "end"), (integer(i), integer(j)))
            return ret(st, mk("iter", mk("arr", tuple(M.slot(m, st, p, ("i", r(i, j)), raw=True) for i, j in at))))
        return ret(st, mk("iter", mk("arr", tuple(mk("arr", v.args[0][i:j]) for i, j in at))))
    return g


def u_index(m, st, f, ta, a, l):
    v, i = m.deref(st, a[0]), m.snap(st, a[1])
    if v.tag == "arr":
        r = rng_of(m, i, len(v.args[0]))
        if r:
            if not 0 <= r[0] <= r[1] <= len(v.args[0]):
                return [(st, ("panic", "range out of bounds"))]
            return ret(st, mk("arr", v.args[0][r[0]:r[1]]))
        if i.tag == "int" and i.args[0] >= len(v.args[0]):
            return [(st, ("panic", "index out of bounds"))]
    return M.index(m, st, f, ta, a, l)


def u_copy(m, st, f, ta, a, l):
    """copy_from_slice into a constant sub-range of a known array"""
    src, dst = m.deref(st, a[1]), a[0]
    if dst.tag != "ptr" or src.tag != "arr":
        return None
    proj = dst.args[1]
    if proj and proj[-1][0] == "i" and proj[-1][1].tag != "int":
        base = mk("ptr", dst.args[0], proj[:-1], True)
        v = m.deref(st, base)
        r = rng_of(m, proj[-1][1], len(v.args[0])) if v.tag == "arr" else None
    else:
        base, v = dst, m.deref(st, dst)
        r = (0, len(v.args[0])) if v.tag == "arr" else None
    if r is None:
        return None
    if not 0 <= r[0] <= r[1] <= len(v.args[0]) or r[1] - r[0] != len(src.args[0]):
        return [(st, ("panic", "source slice length"))]
    put(m, st, base, mk("arr", v.args[0][:r[0]] + src.args[0] + v.args[0][r[1]:]))
    return ret(st, UNIT)


def u_rev_words(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if v.tag != "arr" or a[0].tag != "ptr":
        return None
    put(m, st, a[0], mk("arr", v.args[0][::-1]))
    return ret(st, UNIT)


def u_iter(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    return ret(st, mk("iter", v)) if v.tag == "arr" else M.MODELS[f](m, st, f, ta, a, l)


def u_try_into(m, st, f, ta, a, l):
    """slice -> array of the same length"""
    v = m.deref(st, a[0])
    return ret(st, ok(v)) if v.tag == "arr" else None


def int_bytes(order):
    """uN::from_xe_bytes / to_xe_bytes over known bytes, as explicit terms"""
    def fr(m, st, f, ta, a, l):
        v = m.deref(st, a[0])
        if v.tag != "arr":
            return None
        b = v.args[0] if order == "be" else v.args[0][::-1]
        return ret(st, mk("cat", *b))

    def to(m, st, f, ta, a, l):
        w = M.re.search(r"<impl [ui](\d+)>", f)
        n = int(w.group(1)) // 8
        x = m.snap(st, a[0])
        bs = [mk("byte", x, i) for i in range(n)]
        return ret(st, mk("arr", tuple(bs if order == "le" else bs[::-1])))
    return fr, to


UNROLL = {I + "next": u_next, "core::iter::traits::double_ended::DoubleEndedIterator::next_back": u_next,
          I + "for_each": u_for_each, I + "fold": u_fold, I + "find": u_find, I + "find_map": u_find, I + "all": u_quant("all"), I + "any": u_quant("any"),
          "core::slice::<impl [T]>::iter_mut": u_iter_mut, "core::slice::<impl [T]>::iter": u_iter,
          "core::ops::index::Index::index": u_index, "core::slice::<impl [T]>::copy_from_slice": u_copy,
          "core::slice::<impl [T]>::clone_from_slice": u_copy, "core::slice::<impl [T]>::reverse": u_rev_words}
for _n in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut"):
    UNROLL["core::slice::<impl [T]>::" + _n] = u_chunks("exact" in _n)
for _w in (16, 32, 64, 128):
    for _o in ("le", "be"):
        _f, _t = int_bytes(_o)
        for _s in "ui":
            UNROLL[f"core::num::<impl {_s}{_w}>::from_{_o}_bytes"] = _f
            UNROLL[f"core::num::<impl {_s}{_w}>::to_{_o}_bytes"] = _t


class Unknown(Exception):
    pass


def bits(t, w, width, memo=None):
    """bits of t modulo 2**w, least significant first: 0, 1 or (atom, bit).  `width(atom)` is the width of an input."""
    if memo is None:
        memo = {}
    r = memo.get((t, w))
    if r is None:
        r = memo[t, w] = _bits(t, w, width, memo)
    return r


def _bits(t, w, width, memo):
    k = t.tag
    sub = lambda x, n: bits(x, n, width, memo)
    n = width(t)
    if n is not None:
        return [(t, i) if i < n else 0 for i in range(w)]
    if k == "int":
        return [t.args[0] >> i & 1 for i in range(w)]
    if k == "cat":
        out = []
        for b in reversed(t.args):
            out += sub(b, 8)
        return (out + [0] * w)[:w]
    if k == "byte":
        return (sub(t.args[0], 8 * t.args[1] + 8)[8 * t.args[1]:] + [0] * w)[:w]
    if k == "cast":
        ty, x = t.args
        m = M.re.fullmatch(r"[ui](\d+|size)", ty or "")
        if not m:
            raise Unknown(show(t))
        n = 64 if m.group(1) == "size" else int(m.group(1))
        return (sub(x, min(n, w)) + [0] * w)[:w]
    if k == "shl" and t.args[1].tag == "int":      # truncation is an explicit cast around it
        s = t.args[1].args[0]
        return ([0] * s + sub(t.args[0], max(w - s, 0)))[:w] if s < w else [0] * w
    if k == "shr" and t.args[1].tag == "int":      # its operand carries its type
        s = t.args[1].args[0]
        return sub(t.args[0], w + s)[s:]
    if k in ("bitand", "bitor", "bitxor", "add"):
        a, b = sub(t.args[0], w), sub(t.args[1], w)
        out = []
        for x, y in zip(a, b):
            if k == "bitand":
                v = 0 if 0 in (x, y) and (x == 0 or y == 0) else y if x == 1 else x if y == 1 else x if x == y else None
            elif k == "bitor":
                v = y if x == 0 else x if y == 0 else 1 if x == 1 or y == 1 else x if x == y else None
            elif k == "bitxor":
                v = y if x == 0 else x if y == 0 else 0 if x == y else None
            else:
                v = y if x == 0 else x if y == 0 else None
            if v is None:
                raise Unknown(show(t))
            out.append(v)
        return out
    if k == "sub" and t.args[1].tag == "int" and t.args[0].tag == "int":
        return [(t.args[0].args[0] - t.args[1].args[0]) >> i & 1 for i in range(w)]
    raise Unknown(show(t))


def disjoint(x, y, w, width):
    """the two values cannot have a set bit in common"""
    try:
        return not any(a != 0 and b != 0 for a, b in zip(bits(x, w, width), bits(y, w, width)))
    except Unknown:
        return False
