"""evaluation of a path summary at one point of a finite partition of the inputs: which path is taken there, and what it yields"""
from .terms import *


def _in(s):
    return lambda x: x < 128 and chr(x) in s


_P = "".join(chr(i) for i in range(33, 127) if not chr(i).isalnum())
ASCII = {"is_ascii": lambda x: x < 128, "is_ascii_alphabetic": _in("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"), "is_ascii_digit": _in("0123456789"), "is_ascii_hexdigit": _in("0123456789abcdefABCDEF"),
         "is_ascii_alphanumeric": _in("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"), "is_ascii_punctuation": _in(_P), "is_ascii_graphic": lambda x: 33 <= x <= 126,
         "is_ascii_lowercase": _in("abcdefghijklmnopqrstuvwxyz"), "is_ascii_uppercase": _in("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), "is_ascii_control": lambda x: x < 32 or x == 127, "is_ascii_whitespace": _in(" \t\n\r\x0c")}


class Undecided(Exception):
    pass


class Point:
    """`known` gives the value of inputs by their text: integers, booleans, or lists of bytes"""
    def __init__(self, known):
        self.known, self.memo = known, {}

    def of(self, t):
        if t.__class__ is not T:
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = (self.of1(t),)
        return r[0]

    def of1(self, t):
        s = show(t)
        if s in self.known:
            return self.known[s]
        k, a = t.tag, t.args
        f = self.of
        if k == "bool":
            return str(a[0]).lower() == "true"
        if k in ("int", "str"):
            return a[0]
        if k in ("arr", "tup"):
            return [f(x) for x in a[0]]
        if k == "adt":
            return (a[0], a[1]) + tuple(f(x) for x in a[3])
        if k == "len":
            return len(f(a[0]))
        if k in ("iter", "ref", "deref"):
            return f(a[0])
        if k == "idx":
            x, i = f(a[0]), f(a[1])
            if isinstance(x, list) and isinstance(i, int):
                if i < len(x):
                    return x[i]
                raise IndexError(s)
        if k == "eq":
            return f(a[0]) == f(a[1])
        if k in ("lt", "le"):
            x, y = f(a[0]), f(a[1])
            if isinstance(x, (int, list)) and type(x) is type(y):
                return x < y if k == "lt" else x <= y
        if k in ("add", "sub", "mul", "bitand", "bitor", "bitxor"):
            x, y = f(a[0]), f(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return {"add": x + y, "sub": x - y, "mul": x * y, "bitand": x & y, "bitor": x | y, "bitxor": x ^ y}[k]
        if k in ("div", "rem"):
            x, y = f(a[0]), f(a[1])
            if y:
                return x // y if k == "div" else x % y
        if k == "not":
            return not f(a[0])
        if k == "b2i":
            return int(f(a[0]))
        if k == "cast":
            x = f(a[1])
            if isinstance(x, int) and a[0] in ("u8", "u16", "u32", "u64", "u128", "usize"):
                return x & ((1 << {"usize": 64}.get(a[0], int(a[0][1:]) if a[0] != "usize" else 64)) - 1)
            if isinstance(x, int) and a[0] in ("i32", "i64", "i128", "isize") and abs(x) < 2 ** 31:
                return x
        if k == "ovf":
            x, y = f(a[2]), f(a[3])
            n = {"usize": 64, "isize": 64}.get(a[1]) or int(a[1][1:])
            v = {"add": x + y, "sub": x - y, "mul": x * y}.get(a[0])
            if v is not None:
                return not (0 <= v < 2 ** n) if a[1][0] == "u" else not (-2 ** (n - 1) <= v < 2 ** (n - 1))
        if k == "cast" and a[0] == "char":
            return f(a[1])
        if k in ("ne", "gt", "ge"):
            x, y = f(a[0]), f(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return {"ne": x != y, "gt": x > y, "ge": x >= y}[k]
        if k == "num" and len(a) == 3 and a[0] in ASCII or k == "call" and a[0].rsplit("::", 1)[-1] in ASCII and len(a[1]) == 1:
            x = f(a[2] if k == "num" else a[1][0])
            if isinstance(x, int):
                return ASCII[a[0].rsplit("::", 1)[-1]](x)
        if k == "num" and len(a) == 3:
            x = f(a[2])
            if isinstance(x, int) and a[0] in ("unsigned_abs", "abs"):
                return abs(x)
        if k == "neg":
            return -f(a[0])
        if k == "shl" or k == "shr":
            x, y = f(a[0]), f(a[1])
            if isinstance(x, int) and isinstance(y, int) and x >= 0:
                return x << y if k == "shl" else x >> y
        if k == "subslice":
            x, lo, hi = f(a[0]), f(a[1]), f(a[2])
            end = a[3] if len(a) > 3 else False
            end = getattr(end, "args", [end])[0] if end.__class__ is T else end
            return x[lo:len(x) - hi] if end else x[lo:hi]
        if k in ("call", "starts_with", "ends_with"):
            n, xs = (a[0].rsplit("::", 1)[-1], a[1]) if k == "call" else (k, a)
            if n in ("starts_with", "ends_with") and len(xs) == 2:
                x, y = f(xs[0]), f(xs[1])
                if isinstance(x, list) and isinstance(y, list):
                    return x[:len(y)] == y if n == "starts_with" else len(y) <= len(x) and x[len(x) - len(y):] == y
        raise Undecided(s[:200])

    def taken(self, p):
        """whether the path is the one taken here"""
        for t, v in p.truth.items():
            try:
                if self.of(t) != v:
                    return False
            except IndexError:      # reached only where an earlier condition fails
                return False
        return True


def outcome(ps, known):
    """the path taken at a point, and its result"""
    pt = Point(known)
    hit = [p for p in ps if pt.taken(p)]
    return hit, pt
