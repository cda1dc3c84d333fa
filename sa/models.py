"""Value-flow models of the standard library calls that carry control or data flow (Option/Result/bool combinators,
`?`, comparisons, conversions, iterators, futures).  Everything else is uninterpreted."""
import re
from .terms import *

ACTS = "list of (state, action)"
MODELS = {}
INLINE_IF_WS = set()     # trait methods whose hand-written workspace impl is inlined instead of modelled

IMPURE = re.compile(r"fmt::Formatter.*::(write_|pad)|fmt::Write::write_|SystemTime::now|Instant::now|rand|Rng|Atomic\w*::|::load$|::lock$|recv|SeqCst|available_port|thread::current|::(unbounded_)?channel$")


def model(*names, ws=False):
    def deco(f):
        for n in names:
            MODELS[n] = f
            if ws:
                INLINE_IF_WS.add(n)
        return f
    return deco


O, R, I = "core::option::Option::<T>::", "core::result::Result::<T, E>::", "core::iter::traits::iterator::Iterator::"


def ret(st, v):
    return [(st, ("ret", v))]


def call(st, f, args, k):
    return [(st, ("call", f, args, k))]


def retk(wrap):
    return lambda m, s, v: [(s, ("ret", wrap(v)))]


IDENT = """core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::convert::AsRef::as_ref core::convert::AsMut::as_mut
core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut core::clone::Clone::clone alloc::borrow::ToOwned::to_owned
alloc::slice::<impl [T]>::to_vec alloc::vec::Vec::<T,_A>::as_slice alloc::vec::Vec::<T,_A>::as_mut_slice core::array::<impl [T;_N]>::as_slice
alloc::string::String::as_str alloc::string::String::as_bytes core::str::<impl_str>::as_bytes alloc::string::String::into_bytes
alloc::boxed::Box::<T>::new alloc::boxed::Box::<T>::pin alloc::rcs::arc::Arc::<T>::new alloc::sync::Arc::<T>::new alloc::rc::Rc::<T>::new
core::pin::Pin::<Ptr>::new_unchecked core::pin::Pin::<Ptr>::new core::pin::Pin::<&'a_mut_T>::get_unchecked_mut core::pin::Pin::<&'a_mut_T>::get_mut
core::pin::Pin::<Ptr>::as_mut core::future::get_context
core::future::into_future::IntoFuture::into_future core::hint::must_use core::hint::black_box
core::option::Option::<&T>::cloned core::option::Option::<&T>::copied core::option::Option::<T>::as_ref core::option::Option::<T>::as_deref
core::option::Option::<&mut_T>::cloned core::option::Option::<&mut_T>::copied
core::result::Result::<T,_E>::as_ref core::result::Result::<&T,_E>::cloned core::result::Result::<&T,_E>::copied core::result::Result::<T,_E>::as_deref
zeroize::Zeroizing::<Z>::new core::num::wrapping::Wrapping core::convert::identity core::cell::Cell::<T>::new alloc::vec::Vec::<T,_A>::into_boxed_slice
alloc::slice::<impl_[T]>::into_vec alloc::slice::<impl_[T]>::to_vec alloc::borrow::Cow::<'_,_B>::into_owned alloc::str::<impl_str>::to_owned
utils::shallow_clone::ShallowClone::shallow_clone core::mem::manually_drop::ManuallyDrop::<T>::new
core::array::<impl_[T;_N]>::as_mut_slice core::slice::<impl_[T]>::as_ref""".split()
IDENT = {x.replace("_", " ") if ("," in x or "<impl_" in x or "<&" in x) else x for x in IDENT}
IDENT |= {"alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "core::array::<impl [T; N]>::as_slice",
          "core::array::<impl [T; N]>::as_mut_slice", "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec",
          "core::result::Result::<T, E>::as_ref", "core::result::Result::<&T, E>::cloned", "core::result::Result::<&T, E>::copied",
          "core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a mut T>::get_mut",
          "core::str::<impl str>::as_bytes", "alloc::str::<impl str>::to_owned", "core::option::Option::<&mut T>::cloned",
          "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied", "alloc::borrow::Cow::<'_, B>::into_owned"}
# logging wrappers return what they are given (decided by C32)
IDENT |= {f"<core::result::Result<T, E> as utils::tap_log::TapLog>::log_{x}" for x in ("err", "warn", "lvl", "err_pfx", "warn_pfx", "lvl_pfx")}
IDENT |= {f"utils::tap_log::TapLog::log_{x}" for x in ("err", "warn", "lvl", "err_pfx", "warn_pfx", "lvl_pfx")}
for _n in IDENT:
    MODELS[_n] = lambda m, st, f, ta, a, l: ret(st, a[0])
for _n in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
           "core::clone::Clone::clone", "core::borrow::Borrow::borrow"):
    INLINE_IF_WS.add(_n)


def is_pure_identity(did):
    return did in IDENT


# ---------------------------------------------------------------------------------------------- Option / Result / `?`
def kind_of(v, ta=None):
    if v.tag == "adt":
        return v.args[0]
    return None


def sp_opt(m, st, v):
    return m.split(st, v, ("None", "Some"))


def sp_res(m, st, v):
    return m.split(st, v, ("Ok", "Err"))


def pay(m, st, v, var):
    return m.payload(st, v, var)


@model("core::ops::try_trait::Try::branch")
def try_branch(m, st, f, ta, a, l):
    v = a[0]
    t0 = ta[0] if ta else None
    isopt = t0 and t0[0] == "adt" and t0[1] == OPT
    CF = "core::ops::control_flow::ControlFlow"
    out = []
    if t0 and t0[0] == "adt" and t0[1] == "core::task::poll::Poll":
        return None
    if t0 and t0[0] == "adt" and t0[1] == CF:
        for s, var, x in m.split(st, v, ("Continue", "Break")):
            p = pay(m, s, x, var)
            out += ret(s, adt(CF, var, ("0",), (p if var == "Continue" else adt(CF, "Break", ("0",), (p,)),)))
        return out
    for s, var, x in (sp_opt if isopt else sp_res)(m, st, v):
        if var in ("Ok", "Some"):
            out += ret(s, adt(CF, "Continue", ("0",), (pay(m, s, x, var),)))
        elif var == "None":
            out += ret(s, adt(CF, "Break", ("0",), (NONE,)))
        else:
            out += ret(s, adt(CF, "Break", ("0",), (err(pay(m, s, x, "Err")),)))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if v.tag == "adt" and v.args[1] == "Err":
        e = v.args[3][0]
        if len(ta) == 2 and ta[0][0] == "adt" and ta[1][0] == "adt" and len(ta[0][2]) == 2 and len(ta[1][2]) == 2 and ta[0][1] == RES:
            return convert(m, st, e, ta[1][2][1], ta[0][2][1], lambda x: err(x))
        return ret(st, err(e))
    return ret(st, v)


@model("core::ops::try_trait::Try::from_output")
def from_output(m, st, f, ta, a, l):
    t0 = ta[0]
    if t0[0] == "adt" and t0[1] == OPT:
        return ret(st, some(a[0]))
    if t0[0] == "adt" and t0[1] == RES:
        return ret(st, ok(a[0]))
    return ret(st, adt("core::ops::control_flow::ControlFlow", "Continue", ("0",), (a[0],)))


def convert(m, st, x, src, dst, wrap=lambda v: v):
    """From::<src>::from(x) for dst"""
    from .vf import INT_RANGE, resolve_item
    if src == dst:
        return ret(st, wrap(x))
    if src[0] == "prim" and dst[0] == "prim" and dst[1] in INT_RANGE:
        v = m.snap(st, x)
        return ret(st, wrap(v if src[1] in INT_RANGE or src[1] == "char" else mk("b2i", v) if v not in (TRUE, FALSE) else integer(int(v is TRUE))))
    if dst[0] == "adt" and dst[1] in (OPT,) and len(dst[2]) == 1 and dst[2][0] == src:
        return ret(st, wrap(some(x)))
    inner = src
    while inner[0] == "ref":
        inner = inner[1]
    if dst[0] == "adt" and (dst[1] == "alloc::string::String" and (inner == ("prim", "str") or inner[:2] == ("adt", "alloc::string::String")) or
                            dst[1] == "alloc::vec::Vec" and inner[0] in ("slice", "array") and dst[2] and inner[1] == dst[2][0]):
        return ret(st, wrap(m.snap(st, x)))     # the same contents, owned
    if dst[0] == "adt" and dst[1] in ("alloc::sync::Arc", "alloc::boxed::Box", "alloc::rc::Rc") and dst[2] and dst[2][0] == src:
        return ret(st, wrap(x))
    if dst[0] == "adt" and MAPTY.search(dst[1]) and src[0] == "array":
        v = m.snap(st, x)
        if v.tag == "arr" and all(e.tag == "tup" and len(e.args[0]) == 2 for e in v.args[0] if "Map" in dst[1]):
            mp = EMPTYMAP
            for e in v.args[0]:
                mp = map_set(mp, *(e.args[0] if "Map" in dst[1] else (e, UNIT)))
            return ret(st, wrap(mp))
    r = resolve_item(m.F, "core::convert::From::from", (dst, src))
    if r:
        fid, sub = r
        fn = m.F.fn(fid)
        if fn:
            targs = tuple(sub.get(g, ("param", g)) for g in fn.get("gen") or [])
            return call(st, mk("fnref", fid, targs, fid, targs), [x], retk(wrap))
    from .facts import tystr
    return ret(st, wrap(mk("from", tystr(dst), m.snap(st, x))))


@model("core::convert::Into::into")
def into(m, st, f, ta, a, l):
    return convert(m, st, a[0], ta[0], ta[1]) if len(ta) == 2 else None


@model("core::convert::From::from", ws=True)
def from_(m, st, f, ta, a, l):
    return convert(m, st, a[0], ta[1], ta[0]) if len(ta) == 2 else None


def tryconv(m, st, x, src, dst):
    from .vf import INT_RANGE, resolve_item
    if src == dst:
        return ret(st, ok(x))
    if src[0] == "prim" and dst[0] == "prim" and src[1] in INT_RANGE and dst[1] in INT_RANGE:
        x = m.snap(st, x)
        lo, hi = INT_RANGE[dst[1]]
        if x.tag == "int":
            return ret(st, ok(x) if lo <= x.args[0] <= hi else err(mk("TryFromIntError")))
        a, b = INT_RANGE[src[1]]
        if lo <= a and b <= hi:
            return ret(st, ok(x))
        return ret(st, mk("tryint", dst[1], x))
    r = resolve_item(m.F, "core::convert::TryFrom::try_from", (dst, src))
    if r:
        fid, sub = r
        fn = m.F.fn(fid)
        if fn:
            targs = tuple(sub.get(g, ("param", g)) for g in fn.get("gen") or [])
            return call(st, mk("fnref", fid, targs, fid, targs), [x], retk(lambda v: v))
    r = resolve_item(m.F, "core::convert::From::from", (dst, src))
    if r and m.F.fn(r[0]):
        fid, sub = r
        targs = tuple(sub.get(g, ("param", g)) for g in m.F.fn(fid).get("gen") or [])
        return call(st, mk("fnref", fid, targs, fid, targs), [x], retk(ok))
    from .facts import tystr
    v = m.snap(st, x)
    return ret(st, mk("tryfrom", tystr(dst), v))


@model("core::convert::TryInto::try_into")
def try_into(m, st, f, ta, a, l):
    return tryconv(m, st, a[0], ta[0], ta[1]) if len(ta) == 2 else None


@model("core::convert::TryFrom::try_from", ws=True)
def try_from(m, st, f, ta, a, l):
    return tryconv(m, st, a[0], ta[1], ta[0]) if len(ta) == 2 else None


@model("core::str::<impl str>::parse")
def str_parse(m, st, f, ta, a, l):
    from .vf import resolve_item
    from .facts import tystr
    if len(ta) >= 1:
        r = resolve_item(m.F, "core::str::traits::FromStr::from_str", (ta[-1],))
        if r and m.F.fn(r[0]):
            return call(st, mk("fnref", r[0], (), r[0], ()), [a[0]], retk(lambda v: v))
        x = ta[-1]
        return ret(st, mk("call", f"parse_{x[1].rsplit('::', 1)[-1]}" if x[0] in ("prim", "adt") else f"parse<{tystr(x)}>", (m.snap(st, a[0]),)))
    return None


def each(names, sp):
    return names, sp


def opt_model(name, on_some, on_none):
    def f(m, st, fid, ta, a, l):
        out = []
        for s, var, x in sp_opt(m, st, a[0]):
            if var == "Some":
                out += on_some(m, s, pay(m, s, x, "Some"), a, x)
            else:
                out += on_none(m, s, a)
        return out
    MODELS[O + name] = f


def res_model(name, on_ok, on_err):
    def f(m, st, fid, ta, a, l):
        out = []
        for s, var, x in sp_res(m, st, a[0]):
            p = pay(m, s, x, var)
            out += (on_ok if var == "Ok" else on_err)(m, s, p, a, x)
        return out
    MODELS[R + name] = f


def panic(st, msg):
    return [(st, ("panic", msg))]


def msgof(m, s, a, i=1):
    return show(m.snap(s, a[i]))[:80] if len(a) > i else ""


opt_model("map", lambda m, s, p, a, x: call(s, a[1], [p], retk(some)), lambda m, s, a: ret(s, NONE))
opt_model("and_then", lambda m, s, p, a, x: call(s, a[1], [p], retk(lambda v: v)), lambda m, s, a: ret(s, NONE))
opt_model("and", lambda m, s, p, a, x: ret(s, a[1]), lambda m, s, a: ret(s, NONE))
opt_model("or", lambda m, s, p, a, x: ret(s, some(p)), lambda m, s, a: ret(s, a[1]))
opt_model("or_else", lambda m, s, p, a, x: ret(s, some(p)), lambda m, s, a: call(s, a[1], [], retk(lambda v: v)))
opt_model("ok_or", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, a: ret(s, err(a[1])))
opt_model("ok_or_else", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, a: call(s, a[1], [], retk(err)))
opt_model("unwrap_or", lambda m, s, p, a, x: ret(s, p), lambda m, s, a: ret(s, a[1]))
opt_model("unwrap_or_else", lambda m, s, p, a, x: ret(s, p), lambda m, s, a: call(s, a[1], [], retk(lambda v: v)))
opt_model("unwrap", lambda m, s, p, a, x: ret(s, p), lambda m, s, a: panic(s, "unwrap on None"))
opt_model("expect", lambda m, s, p, a, x: ret(s, p), lambda m, s, a: panic(s, "expect " + msgof(m, s, a)))
opt_model("map_or", lambda m, s, p, a, x: call(s, a[2], [p], retk(lambda v: v)), lambda m, s, a: ret(s, a[1]))
opt_model("map_or_else", lambda m, s, p, a, x: call(s, a[2], [p], retk(lambda v: v)), lambda m, s, a: call(s, a[1], [], retk(lambda v: v)))
opt_model("is_some", lambda m, s, p, a, x: ret(s, TRUE), lambda m, s, a: ret(s, FALSE))
opt_model("is_none", lambda m, s, p, a, x: ret(s, FALSE), lambda m, s, a: ret(s, TRUE))
opt_model("is_some_and", lambda m, s, p, a, x: call(s, a[1], [p], retk(lambda v: v)), lambda m, s, a: ret(s, FALSE))
opt_model("is_none_or", lambda m, s, p, a, x: call(s, a[1], [p], retk(lambda v: v)), lambda m, s, a: ret(s, TRUE))
opt_model("zip", lambda m, s, p, a, x: zip_opt(m, s, p, a[1]), lambda m, s, a: ret(s, NONE))
opt_model("xor", lambda m, s, p, a, x: xor_some(m, s, p, a[1]), lambda m, s, a: ret(s, a[1]))
opt_model("inspect", lambda m, s, p, a, x: call(s, a[1], [p], lambda m2, s2, v: ret(s2, some(p))), lambda m, s, a: ret(s, NONE))
opt_model("filter", lambda m, s, p, a, x: call(s, a[1], [p], lambda m2, s2, v: bool_ret(m2, s2, v, some(p), NONE)), lambda m, s, a: ret(s, NONE))


def bool_ret(m, st, v, t, f):
    return [(s, ("ret", t if b else f)) for s, b in m.branch(st, v)]


def zip_opt(m, st, p, q):
    return [(s, ("ret", some(mk("tup", (p, pay(m, s, x, "Some")))) if v == "Some" else NONE)[0:2]) if False else
            (s, ("ret", some(mk("tup", (p, pay(m, s, x, "Some")))) if v == "Some" else NONE)) for s, v, x in sp_opt(m, st, q)]


def xor_some(m, st, p, q):
    return [(s, ("ret", NONE if v == "Some" else some(p))) for s, v, x in sp_opt(m, st, q)]


@model(O + "unwrap_or_default", R + "unwrap_or_default")
def unwrap_or_default(m, st, f, ta, a, l):
    out = []
    from .facts import tystr
    isres = "result" in f
    for s, var, x in (sp_res if isres else sp_opt)(m, st, a[0]):
        if var in ("Some", "Ok"):
            out += ret(s, pay(m, s, x, var))
        else:
            out += default_of(m, s, ta[0])
    return out


def default_of(m, st, t):
    from .vf import INT_RANGE, resolve_item
    from .facts import tystr
    if t[0] == "prim" and t[1] in INT_RANGE:
        return ret(st, integer(0))
    if t == ("prim", "bool"):
        return ret(st, FALSE)
    if t[0] == "tuple" and not t[1]:
        return ret(st, UNIT)
    if t[0] == "adt" and t[1] == OPT:
        return ret(st, NONE)
    if t[0] == "array" and str(t[2]).isdigit():
        t = (t[0], t[1], int(t[2]))
    if t[0] == "array" and isinstance(t[2], int) and t[2] <= 64 and t[1][0] == "prim" and (t[1][1] in INT_RANGE or t[1][1] == "bool"):
        return ret(st, mk("arr", (FALSE if t[1][1] == "bool" else integer(0),) * t[2]))
    if t[0] == "adt" and MAPTY.search(t[1]):
        return ret(st, EMPTYMAP)
    if re.match(r"^&(mut )?\[[^;\]]*\]$", tystr(t)):
        return ret(st, mk("arr", ()))
    if re.match(r"^&(mut )?str$", tystr(t)):
        return ret(st, mk("str", ""))
    r = resolve_item(m.F, "core::default::Default::default", (t,))
    if r and m.F.fn(r[0]):
        fn = m.F.fn(r[0])
        targs = tuple(r[1].get(g, ("param", g)) for g in fn.get("gen") or [])
        return call(st, mk("fnref", r[0], targs, r[0], targs), [], retk(lambda v: v))
    return ret(st, mk("default", tystr(t)))


@model("core::default::Default::default", ws=True)
def default(m, st, f, ta, a, l):
    return default_of(m, st, ta[0]) if ta else None


def inner_mut(m, st, p, var):
    """a mutable reference to the payload of the value at p, known to be of variant var"""
    if p.tag != "ptr":
        return mk("ptr", ("h", m.snap(st, p)), (("v", var), ("f", "0")), True)
    q = p
    while True:  # reach the last place of the chain
        v = m.read(st, q.args[0], q.args[1])
        if v.tag != "ptr":
            break
        q = v
    if v.tag == "adt" and v.args[3][0].tag == "ptr":
        return v.args[3][0]
    return mk("ptr", q.args[0], q.args[1] + (("v", var), ("f", "0")), True)


@model(O + "as_mut", O + "as_deref_mut")
def as_mut(m, st, f, ta, a, l):
    out = []
    for s, var, x in sp_opt(m, st, a[0]):
        out += ret(s, NONE if var == "None" else some(inner_mut(m, s, a[0], var)))
    return out


@model(R + "as_mut", R + "as_deref_mut")
def res_as_mut(m, st, f, ta, a, l):
    out = []
    for s, var, x in sp_res(m, st, a[0]):
        out += ret(s, (ok if var == "Ok" else err)(inner_mut(m, s, a[0], var)))
    return out


@model(O + "take")
def opt_take(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if a[0].tag == "ptr":
        put(m, st, a[0], NONE)
    return ret(st, v)


@model(O + "insert")
def opt_insert(m, st, f, ta, a, l):
    if a[0].tag == "ptr":
        put(m, st, a[0], some(a[1]))
    else:
        m.write(st, ("h", m.snap(st, a[0])), (), some(a[1]))
    return ret(st, slot(m, st, a[0], ("v", "Some"), raw=True, more=(("f", "0"),)))


def put(m, st, p, v):
    while True:
        x = m.read(st, p.args[0], p.args[1])
        if x.tag == "ptr":
            p = x
            continue
        break
    m.write(st, p.args[0], p.args[1], v)


@model("core::mem::replace")
def mem_replace(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if a[0].tag != "ptr":
        return None
    put(m, st, a[0], a[1])
    return ret(st, v)


@model("core::mem::take")
def mem_take(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if a[0].tag != "ptr":
        return None
    def k(m2, s, d):
        put(m2, s, a[0], d)
        return ret(s, v)
    r = default_of(m, st, ta[0])
    (s, act), = r
    if act[0] == "ret":
        return k(m, s, act[1])
    return call(s, act[1], act[2], k)


@model("core::mem::swap")
def mem_swap(m, st, f, ta, a, l):
    if a[0].tag != "ptr" or a[1].tag != "ptr":
        return None
    x, y = m.deref(st, a[0]), m.deref(st, a[1])
    put(m, st, a[0], y)
    put(m, st, a[1], x)
    return ret(st, UNIT)


@model("core::mem::drop")
def mem_drop(m, st, f, ta, a, l):
    m.event(st, "core::mem::drop", a, UNIT, l)
    return ret(st, UNIT)


idv = lambda v: v
res_model("map", lambda m, s, p, a, x: call(s, a[1], [p], retk(ok)), lambda m, s, p, a, x: ret(s, err(p)))
res_model("map_err", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, p, a, x: call(s, a[1], [p], retk(err)))
res_model("and_then", lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)), lambda m, s, p, a, x: ret(s, err(p)))
res_model("and", lambda m, s, p, a, x: ret(s, a[1]), lambda m, s, p, a, x: ret(s, err(p)))
res_model("or_else", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)))
res_model("or", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, p, a, x: ret(s, a[1]))
res_model("ok", lambda m, s, p, a, x: ret(s, some(p)), lambda m, s, p, a, x: ret(s, NONE))
res_model("err", lambda m, s, p, a, x: ret(s, NONE), lambda m, s, p, a, x: ret(s, some(p)))
res_model("unwrap", lambda m, s, p, a, x: ret(s, p), lambda m, s, p, a, x: panic(s, "unwrap on Err"))
res_model("expect", lambda m, s, p, a, x: ret(s, p), lambda m, s, p, a, x: panic(s, "expect " + msgof(m, s, a)))
res_model("expect_err", lambda m, s, p, a, x: panic(s, "expect_err"), lambda m, s, p, a, x: ret(s, p))
res_model("unwrap_or", lambda m, s, p, a, x: ret(s, p), lambda m, s, p, a, x: ret(s, a[1]))
res_model("unwrap_or_else", lambda m, s, p, a, x: ret(s, p), lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)))
res_model("map_or", lambda m, s, p, a, x: call(s, a[2], [p], retk(idv)), lambda m, s, p, a, x: ret(s, a[1]))
res_model("map_or_else", lambda m, s, p, a, x: call(s, a[2], [p], retk(idv)), lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)))
res_model("is_ok", lambda m, s, p, a, x: ret(s, TRUE), lambda m, s, p, a, x: ret(s, FALSE))
res_model("is_err", lambda m, s, p, a, x: ret(s, FALSE), lambda m, s, p, a, x: ret(s, TRUE))
res_model("is_ok_and", lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)), lambda m, s, p, a, x: ret(s, FALSE))
res_model("is_err_and", lambda m, s, p, a, x: ret(s, FALSE), lambda m, s, p, a, x: call(s, a[1], [p], retk(idv)))
res_model("inspect_err", lambda m, s, p, a, x: ret(s, ok(p)), lambda m, s, p, a, x: call(s, a[1], [p], lambda m2, s2, v: ret(s2, err(p))))
res_model("inspect", lambda m, s, p, a, x: call(s, a[1], [p], lambda m2, s2, v: ret(s2, ok(p))), lambda m, s, p, a, x: ret(s, err(p)))


def _tmpl(t):
    """literal pieces and placeholders of a compiled format template, or None when it uses more than plain `{}`"""
    b = None
    if t.tag == "arr" and all(x.tag == "int" for x in t.args[0]):
        b = bytes(x.args[0] for x in t.args[0])
    elif t.tag == "str":
        b = t.args[0].encode("latin1", "replace")
    if b is None:
        return None
    out, i = [], 0
    while i < len(b):
        c = b[i]
        if c == 0:
            return out
        if c < 0x80:
            out.append(b[i + 1:i + 1 + c].decode("utf8", "replace"))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(b[i + 3:i + 3 + n].decode("utf8", "replace"))
            i += 3 + n
        elif c == 0xC0:
            out.append(None)
            i += 1
        else:
            return None
    return out


def pieces(x):
    """the text of a format_args value as literal pieces and values, or None"""
    if x.tag == "fmt":
        return x
    if x.tag == "call" and x.args[0].rsplit("::", 1)[-1] == "from_str" and "Arguments" in x.args[0] and x.args[1][0].tag == "str":
        return mk("fmt", x.args[1][0])
    if x.tag != "call" or x.args[0].rsplit("::", 1)[-1] != "new" or "Arguments" not in x.args[0] or len(x.args[1]) != 2:
        return None
    t, args = x.args[1]
    p = _tmpl(t)
    if p is None or args.tag != "arr" or sum(y is None for y in p) != len(args.args[0]):
        return None
    it = iter(args.args[0])
    out = []
    for y in p:
        if y is None:
            z = next(it)
            if z.tag == "call" and z.args[0].rsplit("::", 1)[-1] == "new_display" and len(z.args[1]) == 1:
                z = z.args[1][0]
            elif z.tag == "call" and z.args[0].rsplit("::", 1)[-1] in ("new_debug", "new_lower_hex", "new_upper_hex") and len(z.args[1]) == 1:
                z = mk("call", z.args[0].rsplit("::new_", 1)[-1], z.args[1])
            else:
                return None
            out.append(z)
        else:
            out.append(mk("str", y))
    return mk("fmt", *out)


@model("alloc::fmt::format")
def fmt_format(m, st, f, ta, a, l):
    x = pieces(m.snap(st, a[0]))
    return None if x is None else ret(st, x)


STRY = ("str", "alloc::string::String")


@model("alloc::string::ToString::to_string")
def to_string(m, st, f, ta, a, l):
    t = ta[0] if ta else None
    while t is not None and t[0] == "ref":
        t = t[-1]
    if t is not None and (t == ("str",) or t[0] == "prim" and t[1] == "str" or t[0] == "adt" and t[1] == "alloc::string::String"):
        return ret(st, m.snap(st, a[0]))
    return None


@model("core::option::Option::<core::result::Result<T, E>>::transpose")
def transpose_or(m, st, f, ta, a, l):
    out = []
    for s, var, x in sp_opt(m, st, a[0]):
        if var == "None":
            out += ret(s, ok(NONE))
        else:
            for s2, v2, y in sp_res(m, s, pay(m, s, x, "Some")):
                p = pay(m, s2, y, v2)
                out += ret(s2, ok(some(p)) if v2 == "Ok" else err(p))
    return out


@model("core::result::Result::<core::option::Option<T>, E>::transpose")
def transpose_ro(m, st, f, ta, a, l):
    out = []
    for s, var, x in sp_res(m, st, a[0]):
        p = pay(m, s, x, var)
        if var == "Err":
            out += ret(s, some(err(p)))
        else:
            for s2, v2, y in sp_opt(m, s, p):
                out += ret(s2, NONE if v2 == "None" else some(ok(pay(m, s2, y, "Some"))))
    return out


@model("core::option::Option::<core::option::Option<T>>::flatten")
def flatten_o(m, st, f, ta, a, l):
    return [(s, ("ret", NONE if var == "None" else pay(m, s, x, "Some"))) for s, var, x in sp_opt(m, st, a[0])]


@model("core::result::Result::<core::result::Result<T, E>, E>::flatten")
def flatten_r(m, st, f, ta, a, l):
    return [(s, ("ret", err(pay(m, s, x, "Err")) if var == "Err" else pay(m, s, x, "Ok"))) for s, var, x in sp_res(m, st, a[0])]


@model("core::bool::<impl bool>::then")
def then(m, st, f, ta, a, l):
    out = []
    for s, b in m.branch(st, a[0]):
        out += call(s, a[1], [], retk(some)) if b else ret(s, NONE)
    return out


@model("core::bool::<impl bool>::then_some")
def then_some(m, st, f, ta, a, l):
    return bool_ret(m, st, a[0], some(a[1]), NONE)


@model("core::bool::<impl bool>::ok_or")
def bool_ok_or(m, st, f, ta, a, l):
    return bool_ret(m, st, a[0], ok(UNIT), err(a[1]))


# ---------------------------------------------------------------------------------------------- comparison
def unwrap1(m, v, t):
    """single-field structs with derived comparisons compare like their field"""
    for _ in range(6):
        while t and t[0] in ("ref", "refmut"):
            t = t[1]
        if not t or t[0] != "adt":
            break
        a = m.F.adts.get(t[1])
        if not a or a["kind"] != "struct" or len(a["v"][0]["f"]) != 1 or not a["v"][0]["f"][0][1] and a["v"][0]["f"][0][1] != 0:
            break
        if not derived_cmp(m, t[1]):
            break
        from .facts import subst
        v = m.project(v, ("f", a["v"][0]["f"][0][0]))
        t = subst(m.F.ty(a["crate"], a["v"][0]["f"][0][1]), dict(zip([g for g in a["gen"] if not g.startswith("'")], t[2])))
    return v, t


def derived_cmp(m, path):
    c = m.F.__dict__.setdefault("_derived_cmp", None)
    if c is None:
        c = {}
        for r in m.F.impl_by_trait().get("core::cmp::PartialEq", ()):
            t = m.F.ty(r["crate"], r["self"])
            tra = [m.F.ty(r["crate"], x) for x in r["tra"]]
            if t[0] == "adt" and (len(tra) < 2 or tra[1][0] == "adt" and tra[1][1] == t[1]):
                c[t[1]] = bool(r["derived"])
        m.F._derived_cmp = c
    return c.get(path, False)


def equal(m, st, a, b, t=None, depth=0):
    """[(state, bool)] for structural equality"""
    a, b = m.snap(st, a), m.snap(st, b)
    a, t2 = unwrap1(m, a, t)
    b, _ = unwrap1(m, b, t)
    t = t2
    if a is b:
        return [(st, True)]
    if depth < 4:
        for x, y in ((a, b), (b, a)):
            if x.tag == "adt":
                info = m.F.adts.get(x.args[0])
                if info and (info["kind"] == "enum" or y.tag == "adt") and (x.args[0] in (OPT, RES) or derived_cmp(m, x.args[0])):
                    out = []
                    if y.tag == "adt":
                        if x.args[1] != y.args[1]:
                            return [(st, False)]
                        pairs = list(zip(x.args[3], y.args[3]))
                        return conj(m, st, pairs, depth)
                    allv = [v["n"] for v in info["v"]]
                    s2 = st.copy()
                    nv = [x.args[1]]
                    if m.set_variant(st, y, x.args[1]):
                        pairs = [(fv, field_of(y, x.args[1], n)) for fv, n in zip(x.args[3], x.args[2])]
                        out += conj(m, st, pairs, depth)
                    if m.not_variant(s2, y, nv, allv):
                        out.append((s2, False))
                    return out
            if x.tag == "tup" and y.tag == "tup" and len(x.args[0]) == len(y.args[0]):
                return conj(m, st, list(zip(x.args[0], y.args[0])), depth)
    return m.branch(st, m.compare("eq", a, b, t if t and t[0] == "prim" else None))


def field_of(b, var, n):
    from .vf import field
    return field(b, var, n)


def conj(m, st, pairs, depth):
    cur, out = [st], []
    for x, y in pairs:
        nxt = []
        for s in cur:
            for s2, r in equal(m, s, x, y, None, depth + 1):
                if r:
                    nxt.append(s2)
                else:
                    out.append((s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


@model("core::cmp::PartialEq::eq", ws=True)
def pe_eq(m, st, f, ta, a, l):
    return [(s, ("ret", boolean(b))) for s, b in equal(m, st, a[0], a[1], ta[0] if ta else None)]


@model("core::cmp::PartialEq::ne", ws=True)
def pe_ne(m, st, f, ta, a, l):
    if ta:
        from .vf import resolve_item
        r = resolve_item(m.F, "core::cmp::PartialEq::eq", tuple(ta[:2]))
        fn = m.F.fn(r[0]) if r else None
        if fn and (not fn.get("derived") or m.stop and m.stop.search(r[0])):
            return call(st, mk("fnref", r[0], (), r[0], ()), [a[0], a[1]], lambda m2, s, v: ret(s, m2.neg(v)))
    return [(s, ("ret", boolean(not b))) for s, b in equal(m, st, a[0], a[1], ta[0] if ta else None)]


LOGTY = re.compile(r"^(log|tracing|tracing_core)::")


def ordered(op):
    def f(m, st, fid, ta, a, l):
        if ta and ta[0][0] == "adt" and LOGTY.match(ta[0][1]):
            return ret(st, FALSE)
        x, y = m.snap(st, a[0]), m.snap(st, a[1])
        t = ta[0] if ta else None
        if t and t[0] == "adt":
            from .vf import resolve_item
            r = resolve_item(m.F, "core::cmp::PartialOrd::partial_cmp", tuple(ta[:2]))
            fn = m.F.fn(r[0]) if r else None
            if fn and not fn.get("derived"):
                def k(m2, s, v):
                    out = []
                    for s2, var, o in sp_opt(m2, s, v):
                        if var == "None":
                            out += ret(s2, FALSE)
                            continue
                        for s3, ov, _ in m2.split(s2, pay(m2, s2, o, "Some"), ("Less", "Equal", "Greater")):
                            out += ret(s3, boolean(ov in {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[op]))
                    return out
                return call(st, mk("fnref", r[0], (), r[0], ()), [a[0], a[1]], k)
        x, t2 = unwrap1(m, x, t)
        y, _ = unwrap1(m, y, t)
        return [(s, ("ret", boolean(b))) for s, b in m.branch(st, m.compare(op, x, y, t2 if t2 and t2[0] == "prim" else None))]
    return f


for _op in ("lt", "le", "gt", "ge"):
    MODELS["core::cmp::PartialOrd::" + _op] = ordered(_op)
    INLINE_IF_WS.add("core::cmp::PartialOrd::" + _op)
ORDG = "core::cmp::Ordering"


def do_cmp(m, st, a, b, t):
    x, t2 = unwrap1(m, m.snap(st, a), t)
    y, _ = unwrap1(m, m.snap(st, b), t)
    if x is y:
        return adt(ORDG, "Equal", (), ())
    if x.tag == "int" and y.tag == "int":
        p, q = x.args[0], y.args[0]
        return adt(ORDG, "Less" if p < q else "Greater" if p > q else "Equal", (), ())
    return mk("cmp", x, y)


@model("core::cmp::Ord::cmp", ws=True)
def ord_cmp(m, st, f, ta, a, l):
    return ret(st, do_cmp(m, st, a[0], a[1], ta[0] if ta else None))


@model("core::cmp::PartialOrd::partial_cmp", ws=True)
def partial_cmp(m, st, f, ta, a, l):
    if ta and len(ta) >= 1 and ta[0][0] == "adt":
        from .vf import resolve_item
        r = resolve_item(m.F, "core::cmp::Ord::cmp", (ta[0],))
        fn = m.F.fn(r[0]) if r else None
        if fn and not fn.get("derived"):
            return call(st, mk("fnref", r[0], (), r[0], ()), [a[0], a[1]], retk(some))
    return ret(st, some(do_cmp(m, st, a[0], a[1], ta[0] if ta else None)))


for _n, _vs in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    MODELS["core::cmp::Ordering::" + _n] = (lambda vs: lambda m, st, f, ta, a, l: [
        (s, ("ret", boolean(v in vs))) for s, v, _ in m.split(st, a[0], ("Less", "Equal", "Greater"))])(_vs)


@model("core::cmp::Ordering::reverse")
def ord_rev(m, st, f, ta, a, l):
    v = m.deref(st, a[0])
    if v.tag == "cmp":
        return ret(st, mk("cmp", v.args[1], v.args[0]))
    if v.tag == "adt":
        return ret(st, adt(ORDG, {"Less": "Greater", "Greater": "Less"}.get(v.args[1], "Equal"), (), ()))
    return None


@model("core::cmp::Ordering::then", "core::cmp::Ordering::then_with")
def ord_then(m, st, f, ta, a, l):
    out = []
    for s, v, x in m.split(st, a[0], ("Less", "Equal", "Greater")):
        if v != "Equal":
            out += ret(s, adt(ORDG, v, (), ()))
        elif f.endswith("then_with"):
            out += call(s, a[1], [], retk(idv))
        else:
            out += ret(s, a[1])
    return out


def minmax(op):
    def f(m, st, fid, ta, a, l):
        x, y = m.snap(st, a[0]), m.snap(st, a[1])
        if x.tag == "int" and y.tag == "int":
            return ret(st, integer((min if op == "min" else max)(x.args[0], y.args[0])))
        if skey(y) < skey(x):
            x, y = y, x
        return ret(st, mk(op, x, y))
    return f


for _n in ("min", "max"):
    MODELS["core::cmp::" + _n] = minmax(_n)
    MODELS["core::cmp::Ord::" + _n] = minmax(_n)


# ---------------------------------------------------------------------------------------------- arithmetic traits on primitives
OPTR = {"add::Add::add": "add", "arith::Sub::sub": "sub", "arith::Mul::mul": "mul", "arith::Div::div": "div", "arith::Rem::rem": "rem",
        "arith::Add::add": "add", "bit::BitAnd::bitand": "bitand", "bit::BitOr::bitor": "bitor", "bit::BitXor::bitxor": "bitxor",
        "bit::Shl::shl": "shl", "bit::Shr::shr": "shr"}


def arith_trait(op):
    def f(m, st, fid, ta, a, l):
        from .vf import arith, INT_RANGE
        t = ta[0] if ta else None
        while t and t[0] == "ref":
            t = t[1]
        if t and t[0] == "prim":
            x, y = m.snap(st, a[0]), m.snap(st, a[1])
            if t == ("prim", "bool"):
                return ret(st, m.binop({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}.get(op, op), x, y, t))
            return ret(st, arith(op, x, y, t))
        return None
    return f


def assign_trait(op):
    """x op= y on a primitive"""
    def f(m, st, fid, ta, a, l):
        from .vf import arith
        t = ta[0] if ta else None
        if t and t[0] == "prim" and a[0].tag == "ptr":
            x, y = m.deref(st, a[0]), m.snap(st, a[1])
            put(m, st, a[0], m.binop({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[op], x, y, t) if t == ("prim", "bool") else arith(op, x, y, t))
            return ret(st, UNIT)
        return None
    return f


for _k, _op in (("BitAndAssign::bitand_assign", "bitand"), ("BitOrAssign::bitor_assign", "bitor"), ("BitXorAssign::bitxor_assign", "bitxor")):
    MODELS["core::ops::bit::" + _k] = assign_trait(_op)
    INLINE_IF_WS.add("core::ops::bit::" + _k)

for _k, _op in OPTR.items():
    MODELS["core::ops::" + _k] = arith_trait(_op)
    INLINE_IF_WS.add("core::ops::" + _k)

NUM = re.compile(r"^core::num::<impl (\w+)>::(checked|saturating|wrapping|overflowing)_(\w+)$")
NUM2 = re.compile(r"^core::num::<impl (\w+)>::(\w+)$")
NZ = re.compile(r"^core::num::nonzero::NonZero::<\w+>::get$")


@model("anyhow::__private::not")
@model("core::ops::bit::Not::not", ws=True)
def op_not(m, st, f, ta, a, l):
    if ta and ta[0] == ("prim", "bool"):
        return ret(st, m.neg(m.snap(st, a[0])))
    if ta and ta[0][0] == "prim" and m.snap(st, a[0]).tag != "int":
        return ret(st, mk("bitnot", m.snap(st, a[0])))
    return None


# ---------------------------------------------------------------------------------------------- functions
@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def fn_call(m, st, f, ta, a, l):
    t = m.deref(st, a[1])
    args = list(t.args[0]) if t.tag == "tup" else [m.project(t, ("f", "0"))]
    return call(st, a[0], args, retk(idv))


# ---------------------------------------------------------------------------------------------- indexing, length
@model("core::ops::index::Index::index", ws=True)
def index(m, st, f, ta, a, l):
    i = m.snap(st, a[1])
    v = m.deref(st, a[0])
    if ta and ta[0][0] == "adt" and MAPTY.search(ta[0][1]):
        return [(s, ("ret", pay(m, s, x, "Some")) if var == "Some" else ("panic", "map index")) for s, var, x in sp_opt(m, st, map_get(m.snap(st, v), i))]
    if i.tag == "adt" and "Range" in i.args[0]:
        if show(i) == "RangeFull":
            return ret(st, m.snap(st, v))
        v = m.snap(st, v)
        n, f = i.args[0].rsplit("::", 1)[-1], dict(zip(i.args[2], i.args[3]))
        if n == "Range" and f.get("end") is mk("len", v):
            i = adt("core::ops::range::RangeFrom", "RangeFrom", ("start",), (f["start"],))
        elif n == "Range" and f.get("start") == integer(0):
            i = adt("core::ops::range::RangeTo", "RangeTo", ("end",), (f["end"],))
        return ret(st, mk("slice", v, i))
    return ret(st, m.project(v, ("i", i), st))


@model("core::ops::index::IndexMut::index_mut", ws=True)
def index_mut(m, st, f, ta, a, l):
    i = m.snap(st, a[1])
    p = a[0]
    if p.tag != "ptr":
        return ret(st, mk("ptr", ("h", m.snap(st, p)), (("i", i),), True))
    return ret(st, mk("ptr", p.args[0], p.args[1] + (("i", i),), True))


LEN = {"alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "alloc::string::String::len",
       "alloc::collections::btree::map::BTreeMap::<K, V, A>::len", "alloc::collections::btree::set::BTreeSet::<T, A>::len",
       "core::iter::traits::exact_size::ExactSizeIterator::len", "alloc::collections::vec_deque::VecDeque::<T, A>::len"}
EMPTY = {x[:-3] + "is_empty" for x in LEN}
for _n in LEN:
    MODELS[_n] = lambda m, st, f, ta, a, l: ret(st, m.length(m.snap(st, a[0])))
for _n in EMPTY:
    MODELS[_n] = lambda m, st, f, ta, a, l: ret(st, m.compare("eq", m.length(m.snap(st, a[0])), integer(0)))


SL = "core::slice::<impl [T]>::"


def ends(name):
    def f(m, st, fid, ta, a, l):
        from .vf import arith
        v = m.deref(st, a[0])
        x = m.snap(st, v)
        n = m.length(x)
        out = []
        for s, none in m.branch(st, m.compare("eq", n, integer(0))):
            if none:
                out += ret(s, NONE)
                continue
            last = arith("sub", n, integer(1), ("prim", "usize"))
            e = m.project(v, ("i", last if "last" in name else integer(0)), s)
            if name.startswith("split"):
                r = adt("core::ops::range::RangeTo", "RangeTo", ("end",), (last,)) if "last" in name else adt("core::ops::range::RangeFrom", "RangeFrom", ("start",), (integer(1),))
                e = mk("tup", (e, m.project(x, ("i", r)) if m.unroll and x.tag == "arr" else mk("slice", x, r)))
            out += ret(s, some(e))
        return out
    return f


for _n in ("first", "last", "split_first", "split_last"):
    MODELS[SL + _n] = ends(_n)


def ends_mut(name):
    """mutable references to an end of a slice and to the rest: places, so that writes through them are seen"""
    def f(m, st, fid, ta, a, l):
        from .vf import arith
        x = mapval(m, st, a[0])
        n = m.length(x)
        out = []
        for s, none in m.branch(st, m.compare("eq", n, integer(0))):
            if none:
                out += ret(s, NONE)
                continue
            last = "last" in name
            e = slot(m, s, a[0], ("i", arith("sub", n, integer(1), ("prim", "usize")) if last else integer(0)), raw=True)
            if name.startswith("split"):
                e = mk("tup", (e, slot(m, s, a[0], ("ss", 0 if last else 1, 1 if last else 0, True), raw=True)))
            out += ret(s, some(e))
        return out
    return f


for _n in ("first_mut", "last_mut", "split_first_mut", "split_last_mut"):
    MODELS[SL + _n] = ends_mut(_n)


# ---------------------------------------------------------------------------------------------- maps and sets
# One algebra for every map type: mapget(m, k) is an Option term, writes build mapset/mapdel terms over the old map.
EMPTYMAP = mk("emptymap")
MT = ["alloc::collections::btree::map::BTreeMap::<K, V, A>::", "std::collections::hash::map::HashMap::<K, V, S, A>::",
      "std::collections::hash::map::HashMap::<K, V, S>::", "hashbrown::map::HashMap::<K, V, S, A>::", "indexmap::map::IndexMap::<K, V, S>::"]
STY = ["alloc::collections::btree::set::BTreeSet::<T, A>::", "std::collections::hash::set::HashSet::<T, S, A>::",
       "std::collections::hash::set::HashSet::<T, S>::", "hashbrown::set::HashSet::<T, S, A>::"]
ENT = ["alloc::collections::btree::map::entry::", "std::collections::hash::map::", "hashbrown::map::", "hashbrown::rustc_entry::"]
MAPTY = re.compile(r"::(BTreeMap|HashMap|BTreeSet|HashSet|IndexMap)$")


def distinct(a, b):
    from .vf import is_const
    return is_const(a) and is_const(b) and a is not b


def map_get(mp, k):
    x = mp
    while True:
        if x.tag == "emptymap":
            return NONE
        if x.tag == "mapset":
            if x.args[1] is k:
                return some(x.args[2])
            if distinct(x.args[1], k):
                x = x.args[0]
                continue
        if x.tag == "mapdel":
            if x.args[1] is k:
                return NONE
            if distinct(x.args[1], k):
                x = x.args[0]
                continue
        return mk("mapget", x, k)


def map_set(mp, k, v):
    if mp.tag in ("mapset", "mapdel") and mp.args[1] is k:
        mp = mp.args[0]
    return mk("mapset", mp, k, v)


def map_del(mp, k):
    if mp.tag in ("mapset", "mapdel") and mp.args[1] is k:
        mp = mp.args[0]
    if mp.tag == "emptymap":
        return mp
    return mk("mapdel", mp, k)


def isnone(g):
    return boolean(g.args[1] == "None") if g.tag == "adt" else mk("isnone", g)


def mapval(m, st, p):
    return m.snap(st, m.deref(st, p))


def mapput(m, st, p, v):
    if p.tag == "ptr":
        put(m, st, p, v)
    else:
        m.write(st, ("h", m.snap(st, p)), (), v)


def slot(m, st, p, k, raw=False, more=()):
    """mutable reference to the value stored under k (or to a part of what p refers to)"""
    e = (k if raw else ("mv", k),) + more
    while p.tag == "ptr":
        v = m.read(st, p.args[0], p.args[1])
        if v.tag != "ptr":
            return mk("ptr", p.args[0], p.args[1] + e, True)
        p = v
    return mk("ptr", ("h", m.snap(st, p)), e, True)


def reg(prefixes, name):
    def deco(f):
        for p in prefixes:
            MODELS[p + name] = f
        return f
    return deco


@reg(MT, "get")
def m_get(m, st, f, ta, a, l):
    return ret(st, map_get(mapval(m, st, a[0]), m.snap(st, a[1])))


@reg(MT, "get_mut")
def m_get_mut(m, st, f, ta, a, l):
    k = m.snap(st, a[1])
    return [(s, ("ret", NONE if v == "None" else some(slot(m, s, a[0], k))))
            for s, v, x in sp_opt(m, st, map_get(mapval(m, st, a[0]), k))]


@reg(MT, "contains_key")
def m_has(m, st, f, ta, a, l):
    return [(s, ("ret", boolean(v == "Some"))) for s, v, x in sp_opt(m, st, map_get(mapval(m, st, a[0]), m.snap(st, a[1])))]


for _p in STY:
    MODELS[_p + "contains"] = m_has
    MODELS[_p + "get"] = m_get


@reg(MT, "insert")
def m_insert(m, st, f, ta, a, l):
    mp, k, v = mapval(m, st, a[0]), m.snap(st, a[1]), m.snap(st, a[2])
    m.event(st, "map.insert", [mp, k, v], UNIT, l)
    mapput(m, st, a[0], map_set(mp, k, v))
    return ret(st, map_get(mp, k))


@reg(STY, "insert")
def s_insert(m, st, f, ta, a, l):
    mp, k = mapval(m, st, a[0]), m.snap(st, a[1])
    m.event(st, "map.insert", [mp, k, UNIT], UNIT, l)
    mapput(m, st, a[0], map_set(mp, k, UNIT))
    return ret(st, isnone(map_get(mp, k)))


@reg(MT, "remove")
def m_remove(m, st, f, ta, a, l):
    mp, k = mapval(m, st, a[0]), m.snap(st, a[1])
    g = map_get(mp, k)
    m.event(st, "map.remove", [mp, k], UNIT, l)
    if m.variant_of(st, g) != "None":
        mapput(m, st, a[0], map_del(mp, k))
    return ret(st, g)


@reg(STY, "remove")
def s_remove(m, st, f, ta, a, l):
    mp, k = mapval(m, st, a[0]), m.snap(st, a[1])
    m.event(st, "map.remove", [mp, k], UNIT, l)
    mapput(m, st, a[0], map_del(mp, k))
    return ret(st, m.neg(isnone(map_get(mp, k))))


def boxed_vec(m, st, f, ta, a, l):
    """a `vec![..]`: what was written to the uninitialised box"""
    v = m.snap(st, a[0])
    for n in ("value", "value"):
        v = next((w for _, k, w in v.args[1] if k == n), None) if v.tag == "upd" else None
        if v is None:
            return None
    return ret(st, v)


MODELS["alloc::boxed::box_assume_init_into_vec_unsafe"] = boxed_vec


for _p in MT + STY:
    MODELS[_p + "clear"] = lambda m, st, f, ta, a, l: (mapput(m, st, a[0], EMPTYMAP), ret(st, UNIT))[1]
for _n in ("alloc::collections::btree::map::BTreeMap::<K, V>::new", "alloc::collections::btree::set::BTreeSet::<T>::new",
           "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::set::HashSet::<T>::new"):
    MODELS[_n] = lambda m, st, f, ta, a, l: ret(st, EMPTYMAP)


def mk_entry(prefix):
    def entry(m, st, f, ta, a, l):
        k = m.snap(st, a[1])
        out = []
        for s, v, x in sp_opt(m, st, map_get(mapval(m, st, a[0]), k)):
            w = "Occupied" if v == "Some" else "Vacant"
            out += ret(s, adt(prefix + "Entry", w, ("0",), (adt("mapentry", w, ("map", "key"), (a[0], k)),)))
        return out
    return entry


for _p, _e in zip(MT, ("alloc::collections::btree::map::entry::", "std::collections::hash::map::", "std::collections::hash::map::", "hashbrown::map::", "indexmap::map::core::entry::")):
    MODELS[_p + "entry"] = mk_entry(_e)


def ent(m, st, v):
    v = m.deref(st, v)
    if v.tag == "adt" and v.args[0] != "mapentry" and v.args[3]:
        v = m.deref(st, v.args[3][0])
    return v if v.tag == "adt" and v.args[0] == "mapentry" else None


def entry_method(f, name, body):
    for p in ENT:
        for g in ("<'a, K, V, A>", "<'a, K, V>", "<'_, K, V, S, A>", "<'a, K, V, S, A>", "<'_, K, V, A>", "<'_, K, V>"):
            MODELS[f"{p}{f}::{g}::{name}"] = body


def wrapent(fn):
    def g(m, st, f, ta, a, l):
        e = ent(m, st, a[0])
        return None if e is None else fn(m, st, e, e.args[3][0], m.snap(st, e.args[3][1]), a, l)
    return g


def e_insert(m, st, e, mp, k, a, l):
    old = map_get(mapval(m, st, mp), k)
    m.event(st, "map.insert", [mapval(m, st, mp), k, a[1]], UNIT, l)
    mapput(m, st, mp, map_set(mapval(m, st, mp), k, m.snap(st, a[1])))
    if e.args[1] == "Vacant":
        return ret(st, slot(m, st, mp, k))
    return ret(st, pay(m, st, old, "Some"))


def e_remove(m, st, e, mp, k, a, l):
    old = map_get(mapval(m, st, mp), k)
    m.event(st, "map.remove", [mapval(m, st, mp), k], UNIT, l)
    mapput(m, st, mp, map_del(mapval(m, st, mp), k))
    return ret(st, pay(m, st, old, "Some"))


def e_slot(m, st, e, mp, k, a, l):
    return ret(st, slot(m, st, mp, k))


def e_or(getv):
    def f(m, st, e, mp, k, a, l):
        if e.args[1] == "Occupied":
            return ret(st, slot(m, st, mp, k))
        def fin(m2, s, v):
            m2.event(s, "map.insert", [mapval(m2, s, mp), k, v], UNIT, l)
            mapput(m2, s, mp, map_set(mapval(m2, s, mp), k, m2.snap(s, v)))
            return ret(s, slot(m2, s, mp, k))
        return getv(m, st, a, fin)
    return f


def e_modify(m, st, e, mp, k, a, l):
    whole = m.deref(st, a[0])
    if e.args[1] == "Vacant":
        return ret(st, whole)
    return call(st, a[1], [slot(m, st, mp, k)], lambda m2, s, v: ret(s, whole))


entry_method("OccupiedEntry", "insert", wrapent(e_insert))
entry_method("VacantEntry", "insert", wrapent(e_insert))
entry_method("OccupiedEntry", "remove", wrapent(e_remove))
for _n in ("get", "get_mut", "into_mut"):
    entry_method("OccupiedEntry", _n, wrapent(e_slot))
for _t in ("OccupiedEntry", "VacantEntry", "Entry"):
    entry_method(_t, "key", wrapent(lambda m, st, e, mp, k, a, l: ret(st, k)))
entry_method("VacantEntry", "into_key", wrapent(lambda m, st, e, mp, k, a, l: ret(st, k)))
entry_method("Entry", "or_insert", wrapent(e_or(lambda m, st, a, fin: fin(m, st, a[1]))))
entry_method("Entry", "or_insert_with", wrapent(e_or(lambda m, st, a, fin: call(st, a[1], [], fin))))
entry_method("Entry", "and_modify", wrapent(e_modify))


def _or_default(m, st, f, ta, a, l):
    def getv(m2, s, a2, fin):
        r = default_of(m2, s, ta[1] if len(ta) > 1 else ("other", "?"))
        (s2, act), = r
        return fin(m2, s2, act[1]) if act[0] == "ret" else call(s2, act[1], act[2], fin)
    return wrapent(e_or(getv))(m, st, f, ta, a, l)


entry_method("Entry", "or_default", _or_default)


# ---------------------------------------------------------------------------------------------- iterators
ITERLIKE = ("iter", "map", "filter", "filter_map", "enumerate", "zip", "rev", "chain", "take", "skip", "take_while", "skip_while", "step_by",
            "flat_map", "flatten", "inspect", "chunks", "windows", "map_while", "range", "scan", "peekable")


def as_iter(m, st, v):
    v = m.deref(st, v)
    if v.tag in ITERLIKE:
        return v
    if v.tag == "phi" or v.tag == "adv":
        o = v
        while o.__class__ is T and o.tag == "phi" and o in st.phi and st.phi[o] is not o:
            o = st.phi[o]
        return mk("iter", v) if o.__class__ is T and o.tag in ("emptymap", "mapset") else v
    if v.tag == "adt" and "range::Range" in v.args[0]:
        return mk("range", *[m.snap(st, x) for x in v.args[3]])
    if v.tag == "adt" and v.args[0] == OPT and v.args[1] == "None":
        return mk("iter", mk("arr", ()))
    return mk("iter", m.snap(st, v))


@model("core::iter::traits::collect::IntoIterator::into_iter", ws=True)
def into_iter(m, st, f, ta, a, l):
    return ret(st, as_iter(m, st, a[0]))


ITERFN = """core::slice::<impl [T]>::iter|core::slice::<impl [T]>::iter_mut|alloc::collections::btree::map::BTreeMap::<K, V, A>::iter|alloc::collections::btree::set::BTreeSet::<T, A>::iter|core::option::Option::<T>::iter|alloc::collections::vec_deque::VecDeque::<T, A>::iter|hashbrown::set::HashSet::<T, S, A>::iter|std::collections::hash::map::HashMap::<K, V, S, A>::iter""".split("|")
for _n in ITERFN:
    MODELS[_n] = lambda m, st, f, ta, a, l: ret(st, mk("iter", m.snap(st, a[0])))
for _n, _t in (("keys", "keys"), ("values", "values"), ("into_values", "values"), ("into_keys", "keys")):
    MODELS["alloc::collections::btree::map::BTreeMap::<K, V, A>::" + _n] = (lambda t: lambda m, st, f, ta, a, l: ret(st, mk("iter", mk(t, m.snap(st, a[0])))))(_t)
for _n in ("cloned", "copied", "by_ref", "fuse", "peekable", "into_iter"):
    MODELS[I + _n] = lambda m, st, f, ta, a, l: ret(st, a[0])
MODELS["core::str::<impl str>::chars"] = lambda m, st, f, ta, a, l: ret(st, mk("iter", mk("chars", m.snap(st, a[0]))))
MODELS["core::str::<impl str>::bytes"] = lambda m, st, f, ta, a, l: ret(st, mk("iter", m.snap(st, a[0])))
MODELS["core::slice::<impl [T]>::chunks"] = lambda m, st, f, ta, a, l: ret(st, mk("iter", mk("chunks", m.snap(st, a[0]), m.snap(st, a[1]))))
MODELS["core::iter::sources::once::once"] = lambda m, st, f, ta, a, l: ret(st, mk("iter", mk("arr", (a[0],))))
MODELS["core::slice::raw::from_ref"] = lambda m, st, f, ta, a, l: ret(st, mk("arr", (a[0],)))
for _n in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map"):
    MODELS[I + _n] = (lambda t: lambda m, st, f, ta, a, l: ret(st, mk(t, as_iter(m, st, a[0]), a[1])))(_n)
for _n in ("enumerate", "rev", "flatten"):
    MODELS[I + _n] = (lambda t: lambda m, st, f, ta, a, l: ret(st, mk(t, as_iter(m, st, a[0]))))(_n)
for _n in ("take", "skip", "step_by"):
    MODELS[I + _n] = (lambda t: lambda m, st, f, ta, a, l: ret(st, mk(t, as_iter(m, st, a[0]), m.snap(st, a[1]))))(_n)
for _n in ("zip", "chain"):
    MODELS[I + _n] = (lambda t: lambda m, st, f, ta, a, l: ret(st, mk(t, as_iter(m, st, a[0]), as_iter(m, st, a[1]))))(_n)


@model("core::ops::range::RangeInclusive::<Idx>::new")
def range_incl(m, st, f, ta, a, l):
    return ret(st, mk("range", m.snap(st, a[0]), m.snap(st, a[1]), mk("incl")))


def in_range(incl):
    def f(m, st, fid, ta, a, l):
        t = ta[0] if ta else None
        if not t or t[0] != "prim" or t[1].startswith("f"):
            return None
        r, x = m.snap(st, a[0]), m.snap(st, a[1])
        if r.tag == "range" and len(r.args) == (3 if incl else 2):
            lo, hi = r.args[:2]
        elif r.tag == "adt" and not incl:
            lo, hi = m.project(r, ("f", "start")), m.project(r, ("f", "end"))
        else:
            return None
        out = []
        for s, b in m.branch(st, m.compare("le", lo, x, t)):
            out += [(s2, ("ret", boolean(b2))) for s2, b2 in m.branch(s, m.compare("le" if incl else "lt", x, hi, t))] if b else ret(s, FALSE)
        return out
    return f


MODELS["core::ops::range::Range::<Idx>::contains"] = in_range(False)
MODELS["core::ops::range::RangeInclusive::<Idx>::contains"] = in_range(True)


def pull(m, st, c, k):
    """actions for 'the iterator yields one element e': k(m, state, e); skipped elements end the partition"""
    c = m.deref(st, c)
    t = c.tag
    if t == "map":
        return pull(m, st, c.args[0], lambda m2, s, e: call(s, c.args[1], [e], lambda m3, s3, v: k(m3, s3, v)))
    if t == "inspect":
        return pull(m, st, c.args[0], lambda m2, s, e: call(s, c.args[1], [e], lambda m3, s3, v: k(m3, s3, e)))
    if t in ("filter", "take_while", "skip_while"):
        def onp(m2, s, e):
            def onb(m3, s3, v):
                out = []
                for s4, b in m3.branch(s3, v):
                    keep = b if t != "skip_while" else not b
                    out += k(m3, s4, e) if keep else [(s4, ("back", ("skip", c)))]
                return out
            return call(s, c.args[1], [e], onb)
        return pull(m, st, c.args[0], onp)
    if t in ("filter_map", "map_while"):
        def onp(m2, s, e):
            def ono(m3, s3, v):
                out = []
                for s4, var, x in sp_opt(m3, s3, v):
                    out += k(m3, s4, pay(m3, s4, x, "Some")) if var == "Some" else [(s4, ("back", ("skip", c)))]
                return out
            return call(s, c.args[1], [e], ono)
        return pull(m, st, c.args[0], onp)
    if t == "enumerate":
        return pull(m, st, c.args[0], lambda m2, s, e: k(m2, s, mk("tup", (mk("pos", m2.snap(s, c.args[0])), e))))
    if t == "zip":
        return pull(m, st, c.args[0], lambda m2, s, e: pull(m2, s, c.args[1], lambda m3, s3, e2: k(m3, s3, mk("tup", (e, e2)))))
    if t == "chain":
        s2 = st.copy()
        return pull(m, st, c.args[0], k) + pull(m, s2, c.args[1], k)
    if t in ("rev",):
        return pull(m, st, c.args[0], k)
    if t == "flat_map":
        return pull(m, st, c.args[0], lambda m2, s, e: call(s, c.args[1], [e], lambda m3, s3, v: pull(m3, s3, as_iter(m3, s3, v), k)))
    if t == "flatten":
        return pull(m, st, c.args[0], lambda m2, s, e: pull(m2, s, as_iter(m2, s, e), k))
    if t in ("take", "skip", "step_by"):
        return pull(m, st, c.args[0], k)
    if t == "iter":
        x = c.args[0]
        if x.tag == "adt" and x.args[0] == OPT and x.args[1] == "Some":
            return k(m, st, x.args[3][0])
        if x.tag == "arr" and len(x.args[0]) == 1:
            return k(m, st, x.args[0][0])
        if x.tag == "arr" and 1 < len(x.args[0]) <= 8 and not all(y.tag == "int" for y in x.args[0]):
            out = []
            for i, y in enumerate(x.args[0]):
                s = st.copy() if i + 1 < len(x.args[0]) else st
                out += k(m, s, y)
            return out
        return k(m, st, mk("elem", x))
    if t == "range":
        e = mk("elem", m.snap(st, c))
        lo, hi = c.args[0], c.args[1] if len(c.args) > 1 else None
        if lo.tag == "int":
            m.bound(st, e, lo.args[0], None)
        if hi is not None and hi.tag == "int":
            m.bound(st, e, None, hi.args[0] - (0 if len(c.args) > 2 else 1))
        elif hi is not None:
            st.truth[mk("lt", e, hi) if len(c.args) == 2 else mk("lt", hi, e)] = len(c.args) == 2
        return k(m, st, e)
    return k(m, st, mk("elem", m.snap(st, c)))


def exhausted(m, st, c):
    st.facts.append(("exh", m.snap(st, c)))
    return st


def iter_known_empty(m, st, c):
    c = m.deref(st, c)
    return c.tag == "iter" and c.args[0].tag == "arr" and not c.args[0].args[0]


@model(I + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back", ws=True)
def it_next(m, st, f, ta, a, l):
    p = a[0]
    v = m.deref(st, p)
    base = v
    n = 0
    while base.tag in ("phi", "adv") and n < 5:
        base = st.phi.get(base, base) if base.tag == "phi" else base
        n += 1
        if base.tag == "adv":
            base = base.args[0]
        if base.tag == "phi" and base not in st.phi:
            break
    if base.tag not in ITERLIKE and not (base.tag == "adt" and "range::Range" in base.args[0]):
        return None     # a parser or stream with a `next` method: uninterpreted
    base = as_iter(m, st, base)
    if f.endswith("next_back"):
        base = mk("rev", base)
    s2 = st.copy()
    out = []
    # exhausted
    s0 = exhausted(m, s2, base)
    out += ret(s0, NONE)
    if not iter_known_empty(m, st, base):
        if p.tag == "ptr":
            put(m, st, p, mk("adv", m.snap(st, v)))
        out += pull(m, st, base, lambda m2, s, e: ret(s, some(e)))
    return out


def consume(m, st, c, on_elem, finish, by=()):
    """iterate to the end: finish(state) once, plus the per-element partitions of on_elem; by: the closures applied to the elements"""
    c = as_iter(m, st, c)
    m.carried(st, c, (c,) + tuple(by))
    base = c
    if base.tag == "phi":
        base = st.phi.get(base, base)
    s2 = st.copy()
    out = finish(exhausted(m, s2, base))
    if not iter_known_empty(m, st, base):
        out = out + pull(m, st, base, on_elem)
    return out


def backk(c, v=None):
    return lambda m, s, x: [(s, ("back", ("iter", c), x))]


@model(I + "for_each")
def for_each(m, st, f, ta, a, l):
    c = as_iter(m, st, a[0])
    return consume(m, st, c, lambda m2, s, e: call(s, a[1], [e], backk(c)), lambda s: ret(s, UNIT), a[1:])


@model(I + "try_for_each")
def try_for_each(m, st, f, ta, a, l):
    c = as_iter(m, st, a[0])
    isopt = ta and ta[-1][0] == "adt" and ta[-1][1] == OPT

    def k(m2, s, v):
        out = []
        for s2, var, x in m2.split(s, v, ("None", "Some") if isopt else ("Ok", "Err")):
            if var in ("Ok", "Some"):
                out.append((s2, ("back", ("iter", c))))
            else:
                out += ret(s2, NONE if var == "None" else err(pay(m2, s2, x, "Err")))
        return out
    return consume(m, st, c, lambda m2, s, e: call(s, a[1], [e], k), lambda s: ret(s, some(UNIT) if isopt else ok(UNIT)), a[1:])


def singles(m, st, c):
    """an iterator over a few known elements as iterators over one each"""
    c = m.deref(st, c)
    if c.tag in ("map", "inspect"):
        r = singles(m, st, c.args[0])
        return r and [mk(c.tag, x, c.args[1]) for x in r]
    if c.tag == "iter" and c.args[0].tag == "arr" and 0 < len(c.args[0].args[0]) <= 4:
        return [mk("iter", mk("arr", (x,))) for x in c.args[0].args[0]]
    return None


def quant(is_all):
    def f(m, st, fid, ta, a, l):
        c = as_iter(m, st, a[0])
        parts = singles(m, st, c)
        if parts:
            def go(i, s):
                def one(m3, s3, v):
                    out = []
                    for s4, b in m3.branch(s3, v):
                        out += go(i + 1, s4) if b == is_all else ret(s4, boolean(not is_all))
                    return out
                return pull(m, s, parts[i], lambda m2, s2, e: call(s2, a[1], [e], one)) if i < len(parts) else ret(s, boolean(is_all))
            return go(0, st)

        def k(m2, s, v):
            out = []
            for s2, b in m2.branch(s, v):
                out.append((s2, ("back", ("iter", c))) if b == is_all else (s2, ("ret", boolean(not is_all))))
            return out
        return consume(m, st, c, lambda m2, s, e: call(s, a[1], [e], k), lambda s: ret(s, boolean(is_all)), a[1:])
    return f


MODELS[I + "all"] = quant(True)
MODELS[I + "any"] = quant(False)


@model(I + "find", I + "find_map", I + "position")
def find(m, st, f, ta, a, l):
    c = as_iter(m, st, a[0])

    def on(m2, s, e):
        def k(m3, s3, v):
            out = []
            if f.endswith("find_map"):
                for s4, var, x in sp_opt(m3, s3, v):
                    out.append((s4, ("back", ("iter", c))) if var == "None" else (s4, ("ret", some(pay(m3, s4, x, "Some")))))
                return out
            for s4, b in m3.branch(s3, v):
                r = some(mk("pos", m3.snap(s4, c))) if f.endswith("position") else some(e)
                out.append((s4, ("ret", r)) if b else (s4, ("back", ("iter", c))))
            return out
        return call(s, a[1], [e], k)
    return consume(m, st, c, on, lambda s: ret(s, NONE), a[1:])


@model(I + "fold")
def fold(m, st, f, ta, a, l):
    c = as_iter(m, st, a[0])
    acc = mk("acc", m.snap(st, c), m.snap(st, a[1]))
    return consume(m, st, c, lambda m2, s, e: call(s, a[2], [acc, e], backk(c)), lambda s: ret(s, mk("fold", m.snap(s, c), m.snap(s, a[1]), m.snap(s, a[2]))), a[2:])


@model(I + "try_fold")
def try_fold(m, st, f, ta, a, l):
    c = as_iter(m, st, a[0])
    acc = mk("acc", m.snap(st, c), m.snap(st, a[1]))
    isopt = ta and any(t[0] == "adt" and t[1] == OPT for t in ta[-1:])
    res = ta and any(t[0] == "adt" and t[1] == RES for t in ta[-1:])

    def k(m2, s, v):
        out = []
        vs = ("None", "Some") if isopt else ("Ok", "Err") if res else ("Continue", "Break")
        for s2, var, x in m2.split(s, v, vs):
            if var in ("Ok", "Some", "Continue"):
                out.append((s2, ("back", ("iter", c), pay(m2, s2, x, var))))
            else:
                out += ret(s2, NONE if var == "None" else err(pay(m2, s2, x, "Err")) if var == "Err" else x)
        return out
    fin = mk("fold", m.snap(st, c), m.snap(st, a[1]), m.snap(st, a[2]))
    wrapf = some if isopt else ok if res else (lambda v: adt("core::ops::control_flow::ControlFlow", "Continue", ("0",), (v,)))
    return consume(m, st, c, lambda m2, s, e: call(s, a[2], [acc, e], k), lambda s: ret(s, wrapf(fin)), a[2:])


def has_effect_chain(c):
    return c.tag in ("map", "filter", "filter_map", "inspect", "flat_map", "take_while", "map_while", "skip_while") or (
        c.tag in ("enumerate", "zip", "rev", "chain", "take", "skip", "flatten", "step_by") and any(
            x.__class__ is T and has_effect_chain(x) for x in c.args))


@model(I + "collect", I + "sum", I + "product", I + "count", I + "last", I + "max", I + "min", "core::iter::traits::collect::FromIterator::from_iter")
def collect(m, st, f, ta, a, l):
    name = f.rsplit("::", 1)[-1]
    name = "collect" if name == "from_iter" else name
    c = as_iter(m, st, a[0])
    out_t = ta[-1] if name in ("collect", "sum", "product") and ta else None
    isres = out_t is not None and out_t[0] == "adt" and out_t[1] in (RES, OPT)
    if name == "sum" and isres and out_t[1] == OPT and any(x in repr(out_t) for x in ("amount::Amount", "SignedAmount", "fee::Fee")):
        isres = False           # Option<Amount>: Sum<Amount>; the items are amounts

    def on(m2, s, e):
        if not isres:
            return [(s, ("back", ("iter", c), e))]
        out = []
        for s2, var, x in m2.split(s, e, ("Ok", "Err") if out_t[1] == RES else ("None", "Some")):
            if var in ("Ok", "Some"):
                out.append((s2, ("back", ("iter", c), pay(m2, s2, x, var))))
            else:
                out += ret(s2, NONE if var == "None" else err(pay(m2, s2, x, "Err")))
        return out
    fin = mk(name, m.snap(st, c))
    if isres:
        fin = (ok if out_t[1] == RES else some)(fin)
    if name in ("last", "max", "min"):
        fin = mk(name + "_of", m.snap(st, c))
    if not isres and not has_effect_chain(c):
        return ret(exhausted(m, st, c), fin)
    return consume(m, st, c, on, lambda s: ret(s, fin))


# ---------------------------------------------------------------------------------------------- futures
POLL = "core::task::poll::Poll"


def await_value(m, st, fut, wrap=lambda v: v):
    f = m.deref(st, fut)
    k = retk(wrap)
    if f.tag == "coro":
        fn = m.F.fn(f.args[0])
        if fn is not None and m.depth_ok(st, fn) and not (m.stop and m.stop.search(f.args[0])) and m.inlinable(f.args[0], fn, None):
            st.uid += 1
            from .vf import Frame
            st.stack.append(Frame(st.uid, None, None, None, k=k))
            m.push_fn(st, fn, [f, mk("resume")], dict(f.args[2]), None)
            return [(st, ("noop",))]
    if f.tag == "call" and f.args[0] == "core::future::poll_fn::poll_fn":
        pass
    if f.tag == "pollfn":
        def kp(m2, s, v):
            out = []
            for s2, var, x in m2.split(s, v, ("Ready", "Pending")):
                if var == "Ready":
                    out += ret(s2, wrap(pay(m2, s2, x, "Ready")))
            return out
        return call(st, f.args[0], [mk("resume")], kp)
    v = m.snap(st, f)
    m.event(st, "await", [v], UNIT, None)
    return ret(st, wrap(mk("await", v)))


@model("core::future::future::Future::poll", ws=False)
def poll(m, st, f, ta, a, l):
    return await_value(m, st, a[0], lambda v: adt(POLL, "Ready", ("0",), (v,)))


@model("core::future::poll_fn::poll_fn")
def poll_fn(m, st, f, ta, a, l):
    return ret(st, mk("pollfn", a[0]))


@model("tokio::macros::support::poll_budget_available")
def budget(m, st, f, ta, a, l):
    return ret(st, adt(POLL, "Ready", ("0",), (UNIT,)))


@model("tokio::macros::support::thread_rng_n")
def rng_n(m, st, f, ta, a, l):
    return ret(st, mk("select_start"))


@model("core::pin::pin_new_unchecked_in_helper")
def pin_helper(m, st, f, ta, a, l):
    x = m.deref(st, a[0])
    return ret(st, m.project(x, ("f", "value")) if x.tag == "adt" else x)


@model("tokio::task::blocking::block_in_place")
def in_place(m, st, f, ta, a, l):
    return call(st, a[0], [], retk(lambda v: v))


@model("core::task::poll::Poll::<core::result::Result<T, E>>::map_err", "core::task::poll::Poll::<core::result::Result<T, E>>::map_ok")
def poll_map(m, st, f, ta, a, l):
    out = []
    for s, var, x in m.split(st, a[0], ("Ready", "Pending")):
        if var == "Pending":
            out += ret(s, adt(POLL, "Pending", (), ()))
            continue
        for s2, v2, y in m.split(s, pay(m, s, x, "Ready"), ("Ok", "Err")):
            p = pay(m, s2, y, v2)
            w = lambda r: adt(POLL, "Ready", ("0",), (r,))
            if (v2 == "Err") == ("map_err" in f):
                out += call(s2, a[1], [p], retk(lambda v, v2=v2: w(ok(v) if v2 == "Ok" else err(v))))
            else:
                out += ret(s2, w(ok(p) if v2 == "Ok" else err(p)))
    return out


# ---------------------------------------------------------------------------------------------- pattern models
CLOG = re.compile(r"^(log|tracing|tracing_core)::|^<(log|tracing|tracing_core)::|^<.* as tracing_core::")


def pattern_model(m, st, fid, did, ta, a, line):
    g = NUM.match(did)
    if g:
        ty, mode, op = g.groups()
        from .vf import INT_RANGE, arith
        x = [m.snap(st, y) for y in a]
        r = INT_RANGE.get(ty)
        base = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem"}.get(op)
        if base and len(x) == 2 and r:
            val = None
            if x[0].tag == "int" and x[1].tag == "int":
                val = arith(base, x[0], x[1], ("prim", ty))
                val = val if val.tag == "int" else None
            if mode == "checked":
                if val is not None:
                    return ret(st, some(val) if r[0] <= val.args[0] <= r[1] else NONE)
                p, q = x
                if base in ("add", "mul") and skey(q) < skey(p):
                    p, q = q, p
                return ret(st, mk("chk", base, ty, p, q))
            if mode == "saturating" and val is not None:
                return ret(st, integer(min(max(val.args[0], r[0]), r[1])))
            z = integer(0)
            none = val if val is not None and r[0] <= val.args[0] <= r[1] else x[0] if base in ("add", "sub") and x[1] is z else x[1] if base == "add" and x[0] is z else None
            if none is not None and mode in ("overflowing", "wrapping"):
                return ret(st, mk("tup", (none, boolean(False))) if mode == "overflowing" else none)
            if val is None and base in ("add", "sub", "mul") and (mode == "overflowing" or mode == "saturating" and r[0] == 0):
                p, q = x
                if base in ("add", "mul") and skey(q) < skey(p):
                    p, q = q, p
                for y in x:
                    m.seen_at(y, ty)
                out = []
                for s, o in m.branch(st, mk("ovf", base, ty, p, q)):
                    v = arith(base, p, q, ("prim", ty)) if not o else integer(0 if base == "sub" else r[1]) if mode == "saturating" else mk("num", "wrapping_" + op, ty, p, q)
                    out.append((s, ("ret", v if mode == "saturating" else mk("tup", (v, boolean(o))))))
                return out
        if base in ("add", "mul") and len(x) == 2 and skey(x[1]) < skey(x[0]):
            x = [x[1], x[0]]
        return ret(st, mk("num", mode + "_" + op, ty, *x))
    g = NUM2.match(did)
    if g:
        from .vf import arith
        x = [m.snap(st, y) for y in a]
        if g.group(2) in ("from_str_radix",):
            return None
        if g.group(2) == "pow" and all(y.tag == "int" for y in x) and x[1].args[0] < 300:
            return ret(st, integer(x[0].args[0] ** x[1].args[0]))
        if g.group(2) == "div_ceil" and len(x) == 2 and all(y.tag == "int" for y in x) and g.group(1)[0] == "u" and x[1].args[0]:
            return ret(st, integer(-(-x[0].args[0] // x[1].args[0])))
        if g.group(2) == "abs_diff" and len(x) == 2 and g.group(1)[0] == "u":
            return [(s, ("ret", arith("sub", *(x if gt else x[::-1]), ("prim", g.group(1))))) for s, gt in m.branch(st, m.compare("gt", x[0], x[1], ("prim", g.group(1))))]
        if not any(y.ptr for y in a):
            return ret(st, mk("num", g.group(2), g.group(1), *x))
        return ret(st, mk("num", g.group(2), g.group(1), *x))
    if did.startswith("tracing::instrument::Instrument::"):
        return ret(st, a[0])  # the future itself, within a span
    if CLOG.match(did) or CLOG.match(fid):
        if did.endswith("__is_enabled") or did.endswith("is_never") or did.endswith("::enabled"):
            return ret(st, boolean(did.endswith("is_never")))
        return ret(st, mk("call", did, ()))
    return None


@model("parity_scale_codec::Encode::using_encoded")
def using_encoded(m, st, f, ta, a, l):
    # the contract of the trait: hand the encoding to the closure
    return call(st, a[1], [mk("call", "parity_scale_codec::Encode::encode", (m.snap(st, a[0]),))], retk(lambda v: v))


PRIM_SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}


def static_size(m, t):
    """size in bytes of primitives, arrays of them and single-field wrappers around those"""
    if t[0] == "prim":
        return PRIM_SIZE.get(t[1])
    if t[0] == "array" and str(t[2]).isdigit():
        k = static_size(m, t[1])
        return k and k * int(t[2])
    if t[0] == "adt":
        a = m.F.adts.get(t[1])
        if a and len(a["v"]) == 1 and len(a["v"][0]["f"]) == 1:
            f = a["v"][0]["f"][0]
            return static_size(m, m.F.ty(a["crate"], f[1])) if "crate" in a else None
    return None


@model("core::mem::size_of")
def size_of(m, st, f, ta, a, l):
    if not ta:
        return None
    n = static_size(m, ta[0])
    return ret(st, integer(n) if n else mk("call", f, (mk("str", ":".join(map(str, ta[0][:2]))),)))


@model("core::str::<impl str>::starts_with")
def str_starts_with(m, st, f, ta, a, l):
    """a text starts with what can be stripped off its front"""
    x = [m.snap(st, m.deref(st, y)) for y in a]
    if x[1].tag in ("clos", "fnref"):
        return None
    t = mk("call", "core::str::<impl str>::strip_prefix", tuple(x))
    return [(s, ("ret", boolean(v == "Some"))) for s, v, _ in m.split(st, t, ("None", "Some"))]


def _fluent(m, st, f, ta, a, l):
    """a setter that hands back the reference it was given"""
    if not a or a[0].tag != "ptr":
        return None
    res = mk("call", f, tuple(m.snap(st, x) for x in a))
    m.event(st, f, a, res, l)
    put(m, st, a[0], mk("out", res, 0))
    return ret(st, a[0])


for _n in ("read", "write", "append", "truncate", "create", "create_new"):
    MODELS["std::fs::OpenOptions::" + _n] = _fluent
for _n in ("mode", "custom_flags"):
    MODELS["std::os::unix::fs::OpenOptionsExt::" + _n] = _fluent


def _digest(kind):
    """the compound operations of a digest are its elementary ones in turn"""
    def go(m, st, f, ta, a, l):
        tr = f.rsplit("::", 1)[0]
        if kind == "chain":
            h = m.snap(st, m.deref(st, a[0]))
        else:
            if not ta:
                return None
            from .vf import tystr
            h = mk("call", tr + "::new", (tystr(ta[0]).replace(",", ";"),))
        x = m.snap(st, m.deref(st, a[-1]))
        u = mk("call", tr + "::update", (h, x))
        m.event(st, tr + "::update", [h, x], u, l)
        h = mk("out", u, 0)
        if kind == "digest":
            h = mk("call", tr + "::finalize", (h,))
        return ret(st, h)
    return go


for _t in ("digest::digest::Digest", "digest::Digest"):
    MODELS[_t + "::chain_update"] = _digest("chain")
    MODELS[_t + "::new_with_prefix"] = _digest("new")
    MODELS[_t + "::digest"] = _digest("digest")


def _same_as(other, swap):
    """another spelling of the same external operation"""
    def go(m, st, f, ta, a, l):
        x = [m.snap(st, m.deref(st, y)) for y in a]
        if swap:
            x.reverse()
        res = mk("call", other, tuple(x))
        m.event(st, other, x, res, l)
        return ret(st, res)
    return go


MODELS["secp256k1::key::Keypair::from_secret_key"] = _same_as("secp256k1::key::SecretKey::keypair", True)
MODELS["secp256k1::Keypair::from_secret_key"] = _same_as("secp256k1::SecretKey::keypair", True)
MODELS["secp256k1::key::SecretKey::public_key"] = _same_as("secp256k1::key::PublicKey::from_secret_key", True)
MODELS["secp256k1::SecretKey::public_key"] = _same_as("secp256k1::PublicKey::from_secret_key", True)

IDENT |= {"std::path::PathBuf::as_path", "std::path::Path::to_path_buf"}
