"""Account-state deltas: every merge, combine and undo function is summarised path by path and compared with the finite
algebra of (old, new) pairs: a change applies only when its old value equals the current one, merging keeps the first old
and the last new value, undo is the swapped pair / negated amount, zero balances are dropped, all sums are checked."""
from ..rule import *
CRATES = ["accounting"]
A = "accounting::delta::"
DC, AC = A + "delta_data_collection::DeltaDataCollection::<K, T>::", A + "delta_amount_collection::DeltaAmountCollection::<K>::"
ADD = "SignedAmount::add"


def combine(c):
    c.table("combine_data_with_delta", c.paths(A + "combine::combine_data_with_delta"), [
        ("$1 is None", "Ok($0)"),
        ("$0 is None & $1 is Some & $1.Some.0.old is None", "Ok($1.Some.0.new)"),
        ("$0 is None & $1 is Some & $1.Some.0.old is Some & $1.Some.0.new is None", "Err(Error::RemoveNonexistingData)"),
        ("$0 is None & $1 is Some & $1.Some.0.old is Some & $1.Some.0.new is Some", "Err(Error::ModifyNonexistingData)"),
        ("$0 is Some & $1 is Some & $1.Some.0.old is None & $1.Some.0.new is None", "Err(Error::DeltaDataMismatch)"),
        ("$0 is Some & $1 is Some & $1.Some.0.old is None & $1.Some.0.new is Some", "Err(Error::DataCreatedMultipleTimes)"),
        ("$0 is Some & $1 is Some & $1.Some.0.old is Some & eq($0.Some.0, $1.Some.0.old.Some.0)", "Ok($1.Some.0.new)"),
        ("$0 is Some & $1 is Some & $1.Some.0.old is Some & !eq($0.Some.0, $1.Some.0.old.Some.0)", "Err(Error::DeltaDataMismatch)"),
    ])
    s = "Amount::into_signed($0)"
    sum_ = f"{ADD}({s}.Some.0, $1.Some.0)"
    u = f"SignedAmount::into_unsigned({sum_}.Some.0)"
    c.table("combine_amount_delta", c.paths(A + "combine::combine_amount_delta"), [
        ("$1 is None", "Ok($0)"),
        (f"$1 is Some & {s} is None", "Err(_)"),
        (f"$1 is Some & {s} is Some & {sum_} is None", "Err(_)"),
        (f"$1 is Some & {s} is Some & {sum_} is Some & {u} is None", "Err(_)"),
        (f"$1 is Some & {s} is Some & {sum_} is Some & {u} is Some", f"Ok({u}.Some.0)"),
    ])


def data(c):
    g = "mapget($0.data, $1)"
    c.table("DataDelta::new", c.paths(A + "delta_data_collection::DataDelta::<T>::new"), [("", "DataDelta{old: $0, new: $1}")])
    c.table("DataDelta::consume", c.paths(A + "delta_data_collection::DataDelta::<T>::consume"), [("", "($0.old, $0.new)")])
    c.table("DataDelta::invert", c.paths(A + "delta_data_collection::DataDelta::<T>::invert"), [("", "DataDeltaUndo(DataDelta{old: $0.new, new: $0.old})")])
    c.table("DataDeltaUndo::consume", c.paths(A + "delta_data_collection::undo::DataDeltaUndo::<T>::consume"), [("", "$0.0")])
    c.table("get_data", c.paths(DC + "get_data"), [
        (f"{g} is None", "GetDataResult::Missing"),
        (f"{g} is Some & {g}.Some.0.new is None", "GetDataResult::Deleted"),
        (f"{g} is Some & {g}.Some.0.new is Some", f"GetDataResult::Present({g}.Some.0.new.Some.0)"),
    ])
    both = sboth(sret, sout(0, "data"))
    c.table("merge_delta_data_element", c.paths(DC + "merge_delta_data_element"), [
        (f"{g} is None", "Ok(DataDeltaUndo(DataDelta{old: $2.new, new: $2.old})) ; mapset($0.data, $1, $2) || "
                         "Ok(DataDeltaUndo(DataDelta{old: $2.new, new: $2.old})) ; mapset($0.data, $1, DataDelta{old: $2.old, new: $2.new})"),
        (f"{g} is Some & eq($2.old, {g}.Some.0.new)", f"Ok(DataDeltaUndo(DataDelta{{old: $2.new, new: $2.old}})) ; "
         f"mapset($0.data, $1, DataDelta{{old: {g}.Some.0.old, new: $2.new}})"),
        (f"{g} is Some & !eq($2.old, {g}.Some.0.new)", "Err(Error::DeltaDataMismatch) ; _"),
    ], out=both)
    # undoing one change merges the recorded pair: the pair handed over is the inverted one
    c.table("undo_merge_delta_data_element", c.paths(DC + "undo_merge_delta_data_element"), [
        (f"{g} is None", "Ok(()) ; mapset($0.data, $1, $2.0) || Ok(()) ; mapset($0.data, $1, DataDelta{old: $2.0.old, new: $2.0.new})"),
        (f"{g} is Some & eq($2.0.old, {g}.Some.0.new)", f"Ok(()) ; mapset($0.data, $1, DataDelta{{old: {g}.Some.0.old, new: $2.0.new}})"),
        (f"{g} is Some & !eq($2.0.old, {g}.Some.0.new)", "Err(Error::DeltaDataMismatch) ; _"),
    ], out=both)


def whole(c):
    """a collection is merged element by element, all of them, stopping at the first error"""
    d, a = "::merge_delta_data_element$", "::merge_delta_amount_element$"
    loop(c, DC + "merge_delta_data", d, "$1.data", "elem({0}).0", ["elem({0}).1"])
    loop(c, DC + "undo_merge_delta_data", d, "$1.data", "elem({0}).0", ["elem({0}).1.0"])
    loop(c, AC + "merge_delta_amounts", a, "$1.data", "elem({0}).0", ["elem({0}).1"])
    loop(c, AC + "undo_merge_delta_amounts", a, "$1.data", "elem({0}).0", ["SignedAmount::neg(elem({0}).1).Some.0"])


def loop(c, name, stop, src, key, vals):
    ps = c.paths(name, stop="(" + stop + ")")
    short_ = name.rsplit("::", 1)[-1]
    key, vals = key.format(src), [v.format(src) for v in vals]
    nback = 0
    for p in ps:
        calls = [e for e in p.events if re.search(stop, e.name)]
        if p.kind == "back":
            nback += 1
            ok_ = len(calls) == 1 and show(unphi(p, calls[0].args[1])) == key and show(unphi(p, calls[0].args[2])) in vals \
                and view(p).variant(canon(show(unphi(p, calls[0].res)))) == "Ok"
            c.ob(f"{short_}#each", ok_, f"{short_}: every element must be merged exactly once and its error propagated", c.loc(p.fid), repr(p)[:900])
            if short_ == "merge_delta_data" and calls:
                want = (key, show(unphi(p, calls[0].res)) + ".Ok.0")
                got = [(show(unphi(p, e.args[1])), show(unphi(p, e.args[2]))) for e in p.events if e.name == "map.insert"]
                v = show(unphi(p, p.ret)) if p.ret is not None else str(got)
                c.ob("merge_delta_data#undo", v == f"({want[0]}, {want[1]})" or want in got, "merge_delta_data: the undo of each element must be recorded under its key",
                     c.loc(p.fid), v)
        elif p.kind == "ret":
            good = success(p)
            if good:
                c.ob(f"{short_}#all", any(f[0] == "exh" and src in show(f[1]) for f in p.facts), f"{short_}: success before every element was merged", c.loc(p.fid), repr(p)[:900])
            else:
                c.ob(f"{short_}#err", True, "", c.loc(p.fid))
    c.ob(f"{short_}#loop", nback >= 1, f"{short_}: no per-element path", c.loc(ps[0].fid))


def amounts(c):
    g = "mapget($0.data, $1)"

    def rows(v, pre):
        s = f"{ADD}({g}.Some.0, {v})"
        return [
            (f"{pre}{g} is None & eq(0, {v}.val)", "Ok(()) ; $0.data || Ok(()) ; mapdel($0.data, $1)"),
            (f"{pre}{g} is None & !eq(0, {v}.val)", f"Ok(()) ; mapset($0.data, $1, {v})"),
            (f"{pre}{g} is Some & {s} is None", "Err(_) ; $0.data"),
            (f"{pre}{g} is Some & {s} is Some & eq(0, {s}.Some.0.val)", "Ok(()) ; mapdel($0.data, $1)"),
            (f"{pre}{g} is Some & {s} is Some & !eq(0, {s}.Some.0.val)", f"Ok(()) ; mapset($0.data, $1, {s}.Some.0)"),
        ]
    both = sboth(sret, sout(0, "data"))
    c.table("merge_delta_amount_element", c.paths(AC + "merge_delta_amount_element"), rows("$2", ""), out=both)
    i = "Amount::into_signed($2)"
    c.table("add_unsigned", c.paths(AC + "add_unsigned"), [(f"{i} is None", "Err(_) ; $0.data")] + rows(f"{i}.Some.0", f"{i} is Some & "), out=both)
    n = f"SignedAmount::neg({i}.Some.0)"
    c.table("sub_unsigned", c.paths(AC + "sub_unsigned"), [(f"{i} is None", "Err(_) ; $0.data"), (f"{i} is Some & {n} is None", "Err(_) ; $0.data")]
            + rows(f"{n}.Some.0", f"{i} is Some & {n} is Some & "), out=both)


PARTS = [combine, data, whole, amounts]
