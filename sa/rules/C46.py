"""Script numbers: bytes are read as sign and magnitude, lowest byte first, written in the fewest bytes, and read as a condition by being other than zero."""
import itertools
from ..rule import *
from ..vf import Machine
from ..decide import Undecided, outcome, Point
from .C18 import sym, seq
from ..unroll import bits, Unknown
CRATES = ["script"]
S = "script::script::"


def unrolled(c, f, args):
    m = Machine(c.F, inline=lambda x: True, unroll=True, maxpaths=2000, maxsteps=200000)
    m.width = width
    ps = m.run(f, args=args)
    c.fns |= m.visited
    c.npaths += len(ps)
    return ps


def width(t):
    return 8 if t.tag == "sym" else None


def points(n):
    """last bytes of every kind, with the others zero, one, or all ones"""
    for last in range(256) if n else [None]:
        for rest in (0, 1, 128, 255) if n > 1 else [0]:
            for at in range(n - 1) if rest and n > 1 else [None]:
                b = [0] * n
                if n:
                    b[-1] = last
                if at is not None:
                    b[at] = rest
                yield b


def result(t, n):
    """the bits of the result, and whether they are negated"""
    neg = False
    while t.tag == "neg" or t.tag == "sub" and t.args[0] == integer(0):
        t, neg = t.args[-1], not neg
    return [0 if b == 0 else b for b in bits(t, 64, width)], neg


def reading(c):
    f = S + "read_scriptint_size"
    for n in range(0, 10):
        for size in (0, 4, 5, 8):
            ps = unrolled(c, f, [seq(n), integer(size)])
            good, why = bool(ps), "no result"
            if n > size:
                for p in ps:
                    if p.kind != "ret" or not sret(p).startswith("Err("):
                        good, why = False, repr(p)[:300]
            else:
                src = [(sym(f"b{i}"), k) for i in range(n) for k in range(8)]
                memo = {}
                for b in points(n):
                    try:
                        hit, pt = outcome(ps, {f"sym(b{i})": x for i, x in enumerate(b)})
                        if len(hit) != 1 or hit[0].kind != "ret" or not sret(hit[0]).startswith("Ok("):
                            raise Undecided(str([repr(p)[:100] for p in hit]))
                        p = hit[0]
                        if id(p) not in memo:
                            memo[id(p)] = result(p.ret.args[3][0], n)
                        got, neg = memo[id(p)]
                    except (Undecided, Unknown, IndexError) as e:
                        good, why = False, f"{b}: {str(e)[:300]}"
                        break
                    minus = bool(n) and b[-1] >= 128
                    want = (src[:-1] + [0] if minus else src) + [0] * 64
                    want = want[:64]
                    # where the sign bit is known to be clear its place may be read either way
                    same = got == want or not minus and n and got == (src[:-1] + [0] * 65)[:64]
                    if not same or neg != minus:
                        good, why = False, f"{b}: {'-' if neg else ''}{[x for x in zip(got, want) if x[0] != x[1]][:3]}"
                        break
            c.ob(f"read:{n}:{size}", good, "a number is read from its sign and magnitude, lowest byte first, if it has no more bytes than allowed", c.loc(f), why)


def condition(c):
    f = S + "read_scriptbool"
    for n in range(0, 10):
        ps = unrolled(c, f, [seq(n)])
        why = ""
        for b in points(n):
            want = any(b[:-1]) or bool(n) and b[-1] not in (0, 128)
            try:
                hit, pt = outcome(ps, {f"sym(b{i})": x for i, x in enumerate(b)})
                got = [pt.of(p.ret) if p.kind == "ret" else p.msg for p in hit]
            except (Undecided, IndexError) as e:
                got = ["undecided " + str(e)]
            if got != [want]:
                why = f"{b}: {got}"
                break
        c.ob(f"bool:{n}", not why and ps, "data is a true condition exactly if it is other than zero and negative zero", c.loc(f), why)


def shortest(n, neg):
    """the rest of a number of magnitude n: its bytes, the sign in the top bit of the last"""
    if n == 0:
        return [128 if neg else 0]
    k = (n.bit_length() + 8) // 8
    b = list(n.to_bytes(k, "little"))
    b[-1] |= 128 if neg else 0
    return b


def chain(t):
    """bytes appended, and what they were appended to"""
    out = []
    while t.tag == "out" and t.args[0].tag == "call" and re.search(r"\bVec(::<.*>)?::push$", t.args[0].args[0]):
        a = t.args[0].args[1]
        out.insert(0, a[1])
        t = a[0]
    return t, out


def writing(c):
    f = S + "build_scriptint"
    ps = c.paths(f)
    some = {"back": 0, "end": 0}
    mags = sorted({x for x in range(1, 1100)} | {2 ** k + d for k in range(10, 64) for d in (-1, 0, 1) if 2 ** k + d <= 2 ** 63})
    loop = [p for p in ps if p.phi]
    cases = [(0, 0)] + [(s * x, x) for x in mags for s in (1, -1) if -2 ** 63 <= s * x < 2 ** 63]
    for n, left in cases:
        why = ""
        try:
            here, pt = outcome(ps, {"$0": n, **{show(k): left for p in ps for k, v in p.phi.items() if not vec(v)}})
            if not any(p.phi for p in here):
                t, bs = chain(here[0].ret) if len(here) == 1 and here[0].kind == "ret" else (None, None)
                if bs is None or show(t) not in ("Vec::new()", "[]") or [pt.of(x) for x in bs] != ([] if n == 0 else shortest(abs(n), n < 0)):
                    why = f"{[repr(p)[:200] for p in here]}"
            else:
                start = {show(k): Point({"$0": n}).of(v) for p in here for k, v in p.phi.items() if not vec(v)}
                if set(start.values()) != {abs(n)} or any(show(v) not in ("Vec::new()", "[]") for p in here for k, v in p.phi.items() if vec(v)):
                    why = f"starts from {start}"
                # one step from this magnitude, whatever was written before
                if len(here) != 1:
                    why = why or f"{[repr(p)[:200] for p in here]}"
                else:
                    p = here[0]
                    V = next(k for k, v in p.phi.items() if vec(v))
                    want = shortest(left, n < 0)
                    if p.kind == "ret":
                        t, bs = chain(p.ret)
                        got = [pt.of(x) for x in bs] if t is V else None
                        some["end"] += 1
                    elif p.kind == "back":
                        t, bs = chain(p.next[V])
                        nx = {pt.of(v) for k, v in p.next.items() if show(k) in start}
                        if nx == {0} and left and (n, 0) not in cases:
                            cases.append((n, 0))
                        got = [pt.of(x) for x in bs] + shortest(*nx, n < 0) if t is V and len(nx) == 1 else None
                        some["back"] += 1
                    else:
                        got = p.msg
                    if got != want:
                        why = why or f"{got} for {want}"
        except (Undecided, IndexError, StopIteration) as e:
            why = "undecided " + repr(e)[:300]
        c.ob("write", not why, "a number is written in the fewest bytes that hold its magnitude and its sign", c.loc(f), f"{n}: {why}")
    # a loop over the magnitude ends: it gets smaller
    c.ob("write#all", not loop or all(some.values()), "numbers of one byte and of more", c.loc(f), str(some))


def vec(v):
    return show(v) in ("Vec::new()", "[]") or "Vec::" in show(v)


PARTS = [reading, condition, writing]
