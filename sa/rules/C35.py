"""Fractions are compared by cross multiplication in a type wide enough, versions field by field from the most significant; a version
is three numbers between dots, read and written alike."""
from ..rule import *
from ..terms import *
CRATES = ["common"]
R = "common::primitives::rational::Rational"
V = "common::primitives::semver::SemVer"
STOP = "common::uint::"


def wide(s):
    """products of the 512 bit type with their factors in order"""
    def f(m):
        return "mul(" + ", ".join(sorted((m[1], m[2]))) + ")"
    return re.sub(r"Uint512::mul\((from\(Uint512, \$\d\.\w+\)), (from\(Uint512, \$\d\.\w+\))\)", f, s)


def fractions(c):
    n = lambda i, f: f"from(Uint512, ${i}.{f})"
    a = "mul(" + ", ".join(sorted((n(0, "numer"), n(1, "denom")))) + ")"
    b = "mul(" + ", ".join(sorted((n(1, "numer"), n(0, "denom")))) + ")"
    x = f"cmp({a}, {b})"
    same = ["cmp($0.numer, $1.numer)", f"cmp({n(0, 'numer')}, {n(1, 'numer')})"]
    for tr, w in (("Ord", "{}"), ("PartialOrd", "Some({})")):
        f = f"<{R}<T> as core::cmp::{tr}>::" + ("cmp" if tr == "Ord" else "partial_cmp")
        k = 0
        for p in c.paths(f, stop=STOP):
            k += 1
            r = wide(sret(p)) if p.kind == "ret" else None
            ok = r == w.format(x) or r in [w.format(y) for y in same] and holds(p, "eq($0.denom, $1.denom)") or r == w.format("cmp($0, $1)") and tr != "Ord"
            if not ok and p.kind == "ret":          # compared otherwise: equal, less, greater by the products
                for y, cond in (("Equal", f"eq({a}, {b})"), ("Less", f"lt({a}, {b})"), ("Greater", f"lt({b}, {a})")):
                    ok = ok or r == w.format(f"Ordering::{y}") and cond in [wide(show(t)) for t, v in p.truth.items() if v]
            c.ob(tr, ok, "fractions must be ordered as their values: by numerators if the denominators are equal, else by cross multiplication", c.loc(f), repr(p)[:500])
        c.ob(tr + "#n", k, "no path", c.loc(f))
    mul = "mem::size_of"
    for f, ok in ((R + "::<T>::new", "Rational{numer: $0, denom: $1}"), (f"<{R}<common::uint::impls::Uint256> as core::convert::From<{R}<u128>>>::from", "Rational{numer: Uint256::from($0.numer), denom: Uint256::from($0.denom)}")):
        k = 0
        for p in c.paths(f, stop=STOP):
            if p.kind == "panic":                   # the width assertion: settled by the types
                wide_ = [holds(p, x) for x in ("lt(64, mul(2, mem::size_of('param:T')))", "ovf(mul, usize, mem::size_of('param:T'), 2)")]
                c.ob("new#panic", any(wide_), "a fraction of two numbers of up to 256 bits must be possible", c.loc(f), repr(p)[:300])
                continue
            k += 1
            c.ob("new", sret(p) == ok, "a fraction must consist of the numerator and denominator given", c.loc(f), repr(p)[:300])
        c.ob("new#n", k, "no fraction can be made", c.loc(f))
    for x in ("numer", "denom"):
        c.table(x, c.paths(R + "::<T>::" + x), [("", "$0." + x)])
    displayed(c, "show", f"<{R}<T> as core::fmt::Display>::fmt", [("", "{$0.numer} / {$0.denom}")])


def versions(c):
    f = f"<{V} as core::cmp::Ord>::cmp"
    eq = lambda x: f"eq($0.{x}, $1.{x})"
    n = 0
    for p in c.paths(f):
        r = sret(p) if p.kind == "ret" else ""
        m = re.fullmatch(r"cmp\(\$0\.(\w+), \$1\.\1\)", r)
        before = {"major": [], "minor": ["major"], "patch": ["major", "minor"]}.get(m[1]) if m else None
        ok = before is not None and all(holds(p, eq(b)) for b in before) and (m[1] == "patch" or holds(p, "!" + eq(m[1])) or any(show(t) == r for t in list(p.var) + [x for x in map(lambda q: q[1] if isinstance(q, tuple) and len(q) > 1 else None, p.facts) if isinstance(x, T)]))
        n += ok and m[1] == "patch"
        c.ob("version#order", ok, "versions must be ordered by major, then minor, then patch", c.loc(f), repr(p)[:300])
    c.ob("version#patch", n, "versions differing in the patch only must differ", c.loc(f))
    f = f"<{V} as core::cmp::PartialOrd>::partial_cmp"
    c.every("version#partial", c.paths(f), lambda p: p.kind == "ret" and re.fullmatch(r"Some\(cmp\(\$0(\.\w+)?, \$1(\.\w+)?\)\)", sret(p)), "the partial order must be the order")
    s = "collect(iter(str::split($0, 46)))"
    parse = ["parse_u8", "parse_u8", "parse_u16"]
    ok = f"Ok(SemVer{{major: parse_u8({s}[0]).Ok.0, minor: parse_u8({s}[1]).Ok.0, patch: parse_u16({s}[2]).Ok.0}})"
    for f in (f"<{V} as core::str::traits::FromStr>::from_str", f"<{V} as core::convert::TryFrom<alloc::string::String>>::try_from"):
        c.table("version#read", c.paths(f), [(f"!eq(3, len({s}))", "Err(_)")] + [(f"eq(3, len({s})) & {parse[i]}({s}[{i}]) is Err", "Err(_)") for i in range(3)]
                + [(f"eq(3, len({s})) & " + " & ".join(f"{parse[i]}({s}[{i}]) is Ok" for i in range(3)), ok)])
    displayed(c, "version#write", f"<{V} as core::fmt::Display>::fmt", [("", "{$0.major}.{$0.minor}.{$0.patch}")])
    c.table("version#new", c.paths(V + "::new"), [("", "SemVer{major: $0, minor: $1, patch: $2}")])
    t = [c.F.ty("common", x[1]) for x in c.F.adts[V]["v"][0]["f"]]
    c.ob("version#types", t == [("prim", x) for x in ("u8", "u8", "u16")], "a version is two bytes and a 16 bit number", "common/src/primitives/semver.rs", str(t)[:300])


PARTS = [fractions, versions]
