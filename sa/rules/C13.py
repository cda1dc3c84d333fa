"""Password hashing and secret comparison: salts come from the caller's random generator, the stored hash is recomputed with the
stored parameters and salt, and the comparison of secrets covers lengths and every byte without branching on them."""
from ..rule import *
CRATES = ["crypto"]
EQ = "crypto::util::eq::SliceEqualityCheckMethod::"
HPI = "Argon2::hash_password_into(Argon2::new(Algorithm::Argon2id, Version::V0x13, {p}), {pw}, {salt}, vec::from_elem(0, _))"


def whole(s):
    return s in ("range(0, len($0))", "range(0, len($1))") or "range(" not in s and "$0" in s and not re.search(r"skip|take|step_by|chunks|slice", s)


def operands(s):
    """the two arguments of a call whose text starts at the first one"""
    d, out, cur = 0, [], ""
    for ch in s:
        if ch in ")]}" and not d:
            break
        d += (ch in "([{") - (ch in ")]}")
        if ch == "," and not d:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x.strip() for x in out + [cur]]


def pairs(s):
    """the two bytes compared are those at one position (the shorter slice may be gone through again)"""
    for m in re.finditer(r"(?i)bitxor\(", s):
        xs = operands(s[m.end():])
        if len(xs) != 2 or xs[0].startswith("len("):
            continue
        for x, y in (xs, xs[::-1]):
            i, j = re.fullmatch(r"\$0\[(.*)\]", x), re.fullmatch(r"\$1\[(.*)\]", y)
            if i and j:
                return i[1] == j[1] or j[1] == f"rem({i[1]}, len($1))" or i[1] == f"rem({j[1]}, len($0))"
        if {re.sub(r"iter\((\$[01])\)", r"\1", x) for x in xs} == {"elem($0)", "elem($1)"}:
            return True
        return xs[0].removesuffix(".0") == xs[1].removesuffix(".1") or xs[0].removesuffix(".1") == xs[1].removesuffix(".0") or "cycle(" in s
    return False


def comparison(c):
    f = EQ + "timing_resistant_equal"
    ps = c.paths(f)
    data = re.compile(r"\$[01]\[|elem\((iter\()?\$[01]\b|elem\(zip")
    rets_ = backs = 0
    for p in ps:
        branched = [a for a in p.truth if data.search(show(a)) and not re.match(r"^lt\(rem\(", show(a))]
        c.ob("timing#branch", not branched, "the comparison of secrets must not branch on the compared bytes", c.loc(f), repr(p)[:600])
        if p.kind == "panic":
            good = any(v is False and re.match(r"^lt\(rem\((.*), (len\(\$[01]\))\), \2\)$", show(a)) for a, v in p.truth.items()) or any(v is True and re.search(r"^eq\(0, len\(\$[01]\)\)", show(a)) for a, v in p.truth.items()) \
                or any(v for a, v in p.truth.items() if show(a) in ("eq(len($0), len($1))", "eq(len($1), len($0))"))
            c.ob("timing#panic", good, "the comparison must not panic", c.loc(f), repr(p)[:400])
        if p.kind == "back":
            backs += 1
            t = p.ret if p.ret is not None else None
            cands = [show(x) for x in ([t] if t is not None else []) + list((p.next or {}).values())]
            good = any(s.startswith("bitor(") and re.search(r"(?i)bitxor\(", s) and "$0" in s and "$1" in s and ("acc(" in s or "phi<" in s) and pairs(s) for s in cands)
            c.ob("timing#step", good, "each step must or the difference of the two bytes into the accumulated difference", c.loc(f), repr(p)[:600])
        elif p.kind == "ret":
            rets_ += 1
            s = show(started(p, p.ret))
            v = view(p)
            empty = v.lit(("t", canon("eq(0, len($1))"), True)) is True or v.lit(("t", canon("eq(0, len($0))"), True)) is True
            lens = v.lit(("t", canon("eq(len($0), len($1))"), True))
            if lens is False:
                good = s == "False" or s == "false"
            elif empty:
                good = bool(re.fullmatch(r"eq\((len\(\$[01]\), 0|0, len\(\$[01]\)|len\(\$[01]\), len\(\$[01]\))\)", s)) or s.lower() == "true" and (lens is True or all(v.lit(("t", canon(f"eq(0, len(${k}))"), True)) is True for k in (0, 1))) or "bitxor(len($0), len($1))" in s
            else:
                good = re.match(r"eq\(.*\)$", s) and (s.startswith("eq(0, ") or s.endswith(", 0)")) and ("bitxor(len($0), len($1))" in s or "bitxor(len($1), len($0))" in s or lens is True) and any(x[0] == "exh" and whole(show(x[1])) for x in p.facts)
            c.ob("timing#result", good, "secrets are equal only when their lengths and all their bytes are", c.loc(f), repr(p)[:600])
    c.ob("timing#shape", rets_ and backs, "timing_resistant_equal: a loop over the bytes expected", c.loc(f))
    t = "SliceEqualityCheckMethod::timing_resistant_equal($1, $2) || SliceEqualityCheckMethod::timing_resistant_equal($2, $1)"
    c.table("are_equal", c.paths(EQ + "are_equal", stop="timing_resistant_equal$"), [("$0 is TimingResistant", t), ("$0 is Normal & eq($1, $2)", "true || True || eq($1, $2)"), ("$0 is Normal & !eq($1, $2)", "false || False || eq($1, $2)")])


def run_ok(p):
    """the hash function ran once, and without an error"""
    es = evs(p, r"hash_password_into(_with_memory)?$")
    return len(es) == 1 and (p.var.get(es[0].res) == "Ok" or holds(p, f"{show(es[0].res)} is Ok"))


def hashing(c):
    f = "crypto::kdf::hash_password"
    ps = c.paths(f)
    rnd = any(re.search(r"(random|fill|fill_bytes|sample|random_range|try_fill_bytes)$", e.name) and e.args and show(e.args[0]).startswith("$0") for p in ps for e in p.events)
    c.ob("salt#rng", rnd, "the salt must be drawn from the generator passed in", c.loc(f))
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        r = sret(p)
        if not r.startswith("Ok("):
            c.ob("hash#err", r.startswith("Err("), "a failing hash must be reported", c.loc(f), repr(p)[:400])
            continue
        n += 1
        v = p.ret.args[3][0]
        cfg, salt, h = fields(p, v, "config", "salt", "hashed_password")
        good = cfg == "$1.Argon2id.config" and "salt_length" in salt and match("out3[" + HPI.format(p="_", pw="$2", salt="_") + "]", h) and f", $2, {salt}, " in h
        good = good and all(f"$1.Argon2id.config.{x}" in h for x in ("m_cost_memory_size", "t_cost_iterations", "p_cost_parallelism")) and "$1.Argon2id.hash_length" in h
        good = good and run_ok(p)
        c.ob("hash#value", good, "the result must hold the configuration, the salt that was used, and the Argon2id hash of the password under them", c.loc(f), repr(p)[:900])
    c.ob("hash#ok", n, "hash_password has no successful path", c.loc(f))


def verifying(c):
    f = "crypto::kdf::verify_password"
    n = 0
    for p in c.paths(f, stop="::are_equal$"):
        if p.kind != "ret":
            c.ob("verify#panic", p.kind != "panic", "verifying a password must not panic", c.loc(f), repr(p)[:400])
            continue
        r = sret(p)
        if r.startswith("Err("):
            continue
        n += 1
        m = re.fullmatch(r"Ok\(SliceEqualityCheckMethod::are_equal\(\$2, (.*)\)\)", r)
        ok = False
        if m:
            a = [unparse((y,)) for y in parse(m[1])]
            if "$1.Argon2id.hashed_password" in a and len(a) == 2:
                a.remove("$1.Argon2id.hashed_password")
                ok = match("out3[" + HPI.format(p="_", pw="$0", salt="$1.Argon2id.salt") + "]", a[0]) and all(f"$1.Argon2id.config.{x}" in a[0] for x in ("m_cost_memory_size", "t_cost_iterations", "p_cost_parallelism")) \
                    and "len($1.Argon2id.hashed_password)" in a[0]
        ok = ok and run_ok(p)
        c.ob("verify#value", ok, "the verdict must be the comparison, with the chosen method, of the stored hash with the hash of the password under the stored parameters and salt", c.loc(f), repr(p)[:1200])
    c.ob("verify#ok", n, "verify_password has no successful path", c.loc(f))


PARTS = [comparison, hashing, verifying]
