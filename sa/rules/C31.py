"""Atomic types: every operation is the one it is named for, on the wrapped value, with the orderings of its kind; each named type has
the orderings its name says; one-way flags and drop actions."""
from ..rule import *
CRATES = ["utils", "mlwitness"]
S, T_ = "utils::atomics::simple_atomic::", "utils::atomics::atomic_traits::"
O = "const(utils::atomics::simple_atomic::Orderings::ORD_%s, Ord)"
LOAD, STORE, BOTH = O % "LOAD", O % "STORE", O % "LOAD_STORE"
BASIC = {"load": 1, "store": 2, "swap": 2, "compare_exchange": 4, "compare_exchange_weak": 4, "fetch_update": 3, "fetch_and": 2, "fetch_nand": 2, "fetch_or": 2, "fetch_xor": 2}
NUM = ("fetch_add", "fetch_sub", "fetch_max", "fetch_min")
PRIMS = ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize")


def core_op(e):
    """(operation, args) of a call of an atomic"""
    m = re.search(r"(?:atomic::Atomic::<[^>]*>|atomic_traits::Atomic(?:Num)?)::(\w+)$", e.name)
    return (m[1], [show(a) for a in e.args]) if m else None


def forwards(c):
    """the trait methods forward to the inherent ones"""
    n = 0
    for f in c.F.ids():
        m = re.fullmatch(rf"<core::sync::atomic::Atomic(?:<(\w+)>|(\w+)) as {T_}Atomic(Num)?>::(\w+)", f)
        if not m:
            continue
        ty, op = m[1] or m[2], m[4]
        n += 1
        k = BASIC.get(op, 2)

        def same(p):
            es = [core_op(e) for e in p.events]
            a = [f"${i}" for i in range(k + 1)]
            inherent = all(re.search(r"core::sync::atomic::Atomic::<\w+>::", e.name) for e in p.events)
            return p.kind == "ret" and es == [(op, a)] and inherent and (op == "store" or re.fullmatch(rf"Atomic::{op}\({re.escape(', '.join(a))}\)(@\d+)?", sret(p)))
        c.every("forward", c.paths(f), same, f"{op} of {ty} must be that operation with the given values and orderings")
    c.ob("forward#n", n >= len(PRIMS) * len(BASIC) + (len(PRIMS) - 1) * len(NUM), "every operation must be given for every type", T_ + "Atomic", n)


def simple(c):
    A = S + "Atomic::<T, Ord>::"
    args = {"load": [LOAD], "store": ["$1", STORE], "swap": ["$1", BOTH], "compare_exchange": ["$1", "$2", BOTH, LOAD], "compare_exchange_weak": ["$1", "$2", BOTH, LOAD], "fetch_update": [BOTH, LOAD, "$1"]}
    for op in list(BASIC) + list(NUM):
        a = ["$0.0"] + args.get(op, ["$1", BOTH])

        def same(p):
            return p.kind == "ret" and [core_op(e) for e in p.events] == [(op, a)] and (op == "store" or re.fullmatch(rf"Atomic(Num)?::{op}\({re.escape(', '.join(a))}\)(@\d+)?", sret(p)))
        c.every(op, c.paths(A + op), same, f"{op} must be that operation with the orderings of the type")
    new = "Atomic(from(<T as utils::atomics::atomic_traits::HasStdAtomic>::AtomicType, %s), PhantomData)"
    for f, w in ((A + "new", "$0"), (f"<{S}Atomic<T, Ord> as core::convert::From<T>>::from", "$0"), (f"<{S}Atomic<T, Ord> as core::default::Default>::default", "default(T)")):
        c.every("new", c.paths(f), lambda p: sret(p) == new % w, "the initial value must be the given one")
    for f in ("inner", "into_inner"):
        c.every(f, c.paths(A + f), lambda p: sret(p) == "$0.0", "the wrapped atomic must be given")
    want = {"Relaxed": ("Relaxed",) * 3, "AcqRel": ("Acquire", "Release", "AcqRel"), "SeqCst": ("SeqCst",) * 3}
    for k, w in want.items():
        for name, o in zip(("LOAD", "STORE", "LOAD_STORE"), w):
            c.every(f"{k}.{name}", c.paths(f"<{S}{k}Orderings as {S}Orderings>::ORD_{name}"), lambda p: sret(p) == f"Ordering::{o}", "a kind of atomic must have the orderings of its name")


def names(c):
    for f, k in (("relaxed", "Relaxed"), ("acq_rel", "AcqRel"), ("seq_cst", "SeqCst")):
        sig = c.F.fn(c.resolve("mlwitness::atomics::" + f))["sig"]
        got = re.findall(r"Atomic<(\w+), (?:\w+::)*(\w+)>", sig)
        c.ob("names." + f, got == [(p, k + "Orderings") for p in PRIMS], "a named atomic type must be of that type and kind", "utils/src/atomics/simple_atomic.rs", sig[:300])


def flags(c):
    F_ = "utils::set_flag::SetFlag::"
    c.every("flag.new", c.paths(F_ + "new"), lambda p: sret(p) == "SetFlag(false)", "a new flag is not set")
    c.every("flag.test", c.paths(F_ + "test"), lambda p: sret(p) == "$0.0", "testing gives the flag")
    for f in ("set", "test_and_set"):
        c.every("flag." + f, c.paths(F_ + f), lambda p: p.kind == "ret" and sout(0, "0")(p) == "true" and (f == "set" or sret(p) == "$0.0" or sret(p) in ("true", "false") and [v for t, v in p.truth.items() if show(t) == "$0.0"] == [sret(p) == "true"]), "a flag can only be set, and setting tells what it was")
    D = "utils::once_destructor::OnceDestructor"
    c.every("once.new", c.paths(D + "::<F>::new"), lambda p: sret(p) == "OnceDestructor{call_on_drop: Some($0)}", "the action must be kept")
    n = 0
    for p in c.paths(f"<{D}<F> as core::ops::drop::Drop>::drop"):
        v = {show(t): x for t, x in p.var.items()}
        calls = [show(e.args[0]) for e in p.events if e.name == "apply"]
        if v.get("$0.call_on_drop") == "Some":
            n += 1
            c.ob("once.drop", p.kind == "ret" and calls == ["$0.call_on_drop.Some.0"], "dropping must perform the action once", c.loc(f"<{D}<F> as core::ops::drop::Drop>::drop"), repr(p)[:200])
        else:
            c.ob("once.none", not calls, "dropping must perform the action once", D, repr(p)[:200])
    c.ob("once#n", n, "dropping never performs the action", D)


PARTS = [forwards, simple, names, flags]
