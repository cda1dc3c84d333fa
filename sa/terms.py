"""Hash-consed value terms of the value-flow analysis."""
import hashlib

_pool = {}


class T:
    __slots__ = ("tag", "args", "id", "ptr", "_s")

    def __repr__(self):
        return show(self)


def mk(tag, *args):
    key = (tag,) + args
    t = _pool.get(key)
    if t is None:
        t = T()
        t.tag, t.args, t.id, t._s = tag, args, len(_pool), None
        t.ptr = tag == "ptr" or _has(args)
        _pool[key] = t
    return t


def _has(args):
    for a in args:
        if a.__class__ is T:
            if a.ptr:
                return True
        elif a.__class__ is tuple and _has(a):
            return True
    return False


UNIT = mk("tup", ())
TRUE = mk("bool", "true")
FALSE = mk("bool", "false")


def integer(v):
    return mk("int", v)


def skey(t):
    """deterministic order of operands, independent of construction order"""
    s = show(t)
    return (len(s), s)


def boolean(b):
    return TRUE if b else FALSE


def adt(path, variant, names, fields):
    return mk("adt", path, variant, tuple(names), tuple(fields))


OPT, RES = "core::option::Option", "core::result::Result"
NONE = adt(OPT, "None", (), ())


def some(x):
    return adt(OPT, "Some", ("0",), (x,))


def ok(x):
    return adt(RES, "Ok", ("0",), (x,))


def err(x):
    return adt(RES, "Err", ("0",), (x,))


def short(p):
    """last two segments of a def path, generics dropped"""
    out, d, cur = [], 0, ""
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and (i == 0 or p[i - 1] != "-"):
            d -= 1
        elif d == 0:
            if p.startswith("::", i):
                if cur:
                    out.append(cur)
                cur = ""
                i += 2
                continue
            cur += ch
        i += 1
    if cur:
        out.append(cur)
    if p.startswith("<"):
        # <Type as Trait>::method / <impl Trait for Type>::method
        inner = p[1:p.rfind(">")]
        t = inner.split(" as ")[0]
        t = t.split("<")[0].rsplit("::", 1)[-1] or t[:20]
        return t + "::" + (out[-1] if out else "")
    out = [x for x in out if x]
    return "::".join(out[-2:])


def show(t):
    if t.__class__ is tuple:
        return "(" + ", ".join(show(x) for x in t) + ")"
    if t.__class__ is not T:
        return str(t)
    if t._s is None:
        t._s = _show(t)
    return t._s


def _show(t):
    k, a = t.tag, t.args
    if k in ("int", "bool"):
        return str(a[0])
    if k == "float":
        return a[0]
    if k == "str":
        return repr(a[0])
    if k == "arg":
        return f"${a[0]}"
    if k == "adt":
        n = a[0].rsplit("::", 1)[-1]
        v = a[1]
        head = v if n in ("Option", "Result", "ControlFlow", "Poll") or n == v else f"{n}::{v}"
        if not a[3]:
            return head
        if all(x.isdigit() for x in a[2]):
            return head + "(" + ", ".join(map(show, a[3])) + ")"
        return head + "{" + ", ".join(f"{x}: {show(y)}" for x, y in zip(a[2], a[3])) + "}"
    if k == "tup":
        return "(" + ", ".join(map(show, a[0])) + ")"
    if k == "arr":
        s = "[" + ", ".join(map(show, a[0])) + "]"
        if len(a[0]) > 48 and all(x.tag == "int" for x in a[0]):
            return f"table{len(a[0])}_{hashlib.sha256(s.encode()).hexdigest()[:8]}"
        return s
    if k == "fld":
        b, v, n = a
        return f"{show(b)}.{v + '.' if v else ''}{n}"
    if k == "dc":
        return f"{show(a[0])}?{a[1]}"
    if k == "call":
        return short(a[0]) + "(" + ", ".join(map(show, a[1])) + ")" + (f"@{a[2]}" if len(a) > 2 and a[2] else "")
    if k == "out":
        return f"out{a[1]}[{show(a[0])}]"
    if k == "clos":
        return f"closure<{short(a[0])}>(" + ", ".join(map(show, a[1])) + ")"
    if k == "coro":
        return f"async<{a[0]}>(" + ", ".join(map(show, a[1])) + ")"
    if k == "fnref":
        return f"fn {short(a[0])}"
    if k == "ptr":
        return f"&{a[0]}{a[1]}"
    if k == "upd":
        return show(a[0]) + "{" + ", ".join(f"{v + '.' if v else ''}{n}:={show(x)}" for v, n, x in a[1]) + "}"
    if k == "store":
        return f"{show(a[0])}[{show(a[1])}:={show(a[2])}]"
    if k == "idx":
        return f"{show(a[0])}[{show(a[1])}]"
    if k == "phi":
        return f"phi<{short(a[0])}:{a[1]}:{a[2]}>"
    return f"{k}(" + ", ".join(show(x) for x in a) + ")"


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
        elif x.__class__ is T:
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def map_term(t, f, memo=None):
    """rebuild t bottom-up, replacing any subterm x with f(x) when that is not None"""
    if memo is None:
        memo = {}
    if t.__class__ is tuple:
        return tuple(map_term(x, f, memo) for x in t)
    if t.__class__ is not T:
        return t
    r = memo.get(t.id)
    if r is None:
        r = f(t)
        if r is None:
            na = tuple(map_term(x, f, memo) for x in t.args)
            r = t if na == t.args else mk(t.tag, *na)
            if r is not t and r.tag == "fld" and r.args[0].__class__ is T:     # a field of what is now known
                b, var, n = r.args
                if b.tag == "adt" and var in ("", b.args[1]) and n in b.args[2]:
                    r = b.args[3][b.args[2].index(n)]
                elif b.tag == "tup" and n.isdigit() and int(n) < len(b.args[0]):
                    r = b.args[0][int(n)]
        memo[t.id] = r
    return r
