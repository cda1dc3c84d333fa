"""Script templates: a script is taken for an output of some kind exactly if its bytes have the form of that kind, and the scripts built for a kind have that form."""
import itertools
from ..rule import *
from ..decide import Undecided, outcome
CRATES = ["script"]
S = "script::script::Script::"
# the forms, by the standard: length, and the bytes at given positions
DUP, H160, EQ, EQV, SIG, RET = 118, 169, 135, 136, 172, 106
FORMS = {
    "is_p2sh": [(23, {0: H160, 1: 20, 22: EQ})],
    "is_p2pkh": [(25, {0: DUP, 1: H160, 2: 20, 23: EQV, 24: SIG})],
    "is_p2pk": [(67, {0: 65, 66: SIG}), (35, {0: 33, 34: SIG})],
    "is_v0_p2wsh": [(34, {0: 0, 1: 32})],
    "is_v0_p2wpkh": [(22, {0: 0, 1: 20})],
}
# operations that end every script they start with a failure: the disabled ones, those that always fail, and all codes without a meaning
ILLEGAL = {101, 102} | set(range(126, 130)) | set(range(131, 135)) | {141, 142} | set(range(149, 154))
RETURN = {80, 98, RET, 137, 138} | set(range(186, 256))


def judge(c, f, points, msg):
    """`points`: (bytes, whether the script is of the kind)"""
    ps = c.paths(S + f)
    n, bad = 0, ""
    for bs, want in points:
        n += 1
        try:
            hit, pt = outcome(ps, {"$0.0": bs, "$0": ("script::script::Script", "Script", bs)})
            got = [(p.kind, pt.of(p.ret) if p.kind == "ret" else p.msg) for p in hit]
        except (Undecided, IndexError) as e:
            got = ["undecided " + str(e)]
        if got != [("ret", want)]:
            bad = bad or f"{bs[:4]}.. of {len(bs)} bytes: {got}"
    c.ob(f, n and not bad, msg, c.loc(c.resolve(S + f)), bad)


def kinds(c):
    for f, forms in FORMS.items():
        pos = sorted({i for _, b in forms for i in b})
        vals = {i: sorted({v for _, b in forms for j, v in b.items() if j == i} | {0, 1, 255} | {w for _, b in forms for j, v in b.items() if j == i for w in (v - 1, v + 1) if 0 <= w < 256}) for i in pos}
        pts = []
        for n in sorted({m + d for m, _ in forms for d in (-1, 0, 1)} | {0, 1, 2, 3, 80}):
            here = [i for i in pos if i < n]
            # every form with any of its bytes replaced, in one or two places
            base = [b for m, b in forms] if n >= 20 else [{}]
            seen = set()
            for b in base:
                for k in range(0, 3):
                    for ch in itertools.combinations(here, k):
                        for vs in itertools.product(*(vals[i] for i in ch)):
                            bs = [7] * n
                            for i, v in {**b, **dict(zip(ch, vs))}.items():
                                if i < n:
                                    bs[i] = v
                            if tuple(bs) not in seen:
                                seen.add(tuple(bs))
                                pts.append((bs, any(n == m and all(bs[i] == v for i, v in bb.items()) for m, bb in forms)))
        judge(c, f, pts, "a script is of this kind exactly if it has this length and these operations in their places")


def witness(c):
    pts = []
    for n in range(0, 46):
        for v in (0, 1, 79, 80, 81, 82, 95, 96, 97, 255):
            for k in list(range(0, 46)) + [255]:
                bs = ([v, k] + [7] * n)[:n]
                pts.append((bs, 4 <= n <= 42 and (v == 0 or 81 <= v <= 96) and k == n - 2))
                if n < 2:
                    break
            if n < 1:
                break
    judge(c, "is_witness_program", pts, "a witness program is a version number from 0 to 16 and one push of 2 to 40 bytes, and nothing else")


def unspendable(c):
    one = lambda want: [([], False)] + [([b] + [7] * k, want(b)) for b in range(256) for k in (0, 1, 30)]
    judge(c, "is_op_return", one(lambda b: b == RET), "a script is a data output exactly if it starts with the returning operation")
    judge(c, "is_provably_unspendable", one(lambda b: b in ILLEGAL | RETURN), "a script cannot be satisfied exactly if it starts with an operation that always fails")


def built(c):
    stop = "push_slice$|push_opcode$|push_verify$"
    op = lambda x, v: f"Builder::push_opcode({x}, All{{code: {v}}})"
    sl = lambda x, a: f"Builder::push_slice({x}, {a})"
    new = "Builder(Vec::new(), None)"
    want = {
        "new_p2pk": lambda a: op(sl(new, a), SIG),
        "new_p2pkh": lambda a: op(op(sl(op(op(new, DUP), H160), a), EQV), SIG),
        "new_p2sh": lambda a: op(sl(op(new, H160), a), EQ),
        "new_op_return": lambda a: sl(op(new, RET), a),
    }
    for f, w in want.items():
        n = 0
        for p in c.paths(S + f, stop=stop):
            r = sret(p)
            n += 1
            alt = [f"Script({w(a)}.0)" for a in ("$0", "index($0, RangeFull)", "$0.0", "$0.0.0", "$0.as_ref()", "slice($0, RangeFull)")]
            c.ob(f, p.kind == "ret" and r in alt, "the script built must have the form of its kind, with the given data", c.loc(p.fid), repr(p)[:500])
        c.ob(f + "#n", n, "a script must be built", c.loc(S + f))


PARTS = [kinds, witness, unspendable, built]
