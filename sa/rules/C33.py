"""Starting up: root is refused before anything else is done; a data directory is created only where that is asked for, locked
before anything in it is touched, kept locked by the running node, and cleaned only on request, sparing the lock."""
from ..rule import *
from ..terms import *
CRATES = ["utils", "node-lib", "wallet-rpc-lib"]
ENS = "utils::root_user::ForceRunAsRootOptions::ensure_not_running_as_root_user"
STD = "core::|alloc::|std::|<core::|<alloc::|<std::"


def root(c):
    u = "fs::metadata('/proc/self')"
    c.table("root", c.paths(ENS), [("$0.force_allow_run_as_root", "Ok(())"), (f"!$0.force_allow_run_as_root & {u} is Ok & eq(0, Metadata::uid({u}.Ok.0))", "Err(_)"),
                                   (f"!$0.force_allow_run_as_root & {u} is Ok & !eq(0, Metadata::uid({u}.Ok.0))", "Ok(())"), (f"!$0.force_allow_run_as_root & {u} is Err", lambda p: True)])
    for f, stop in (("node_lib::runner::start::{closure#0}", f"^(?!{STD}|node_lib::runner::)|node_lib::runner::(initialize|setup)"),
                    ("wallet_rpc_lib::cmdline::WalletRpcDaemonChainArgs::into_config", f"^(?!{STD}|wallet_rpc_lib::cmdline::)|make_wallet_config")):
        n = 0
        for p in c.paths(f, stop=stop):
            es = [e for e in p.events if not e.name.startswith("drop ") and not re.search(r"(::clone|::deref|::from|::into|::as_ref)$", e.name)]
            ok = es and es[0].name == ENS and len([e for e in es if e.name == ENS]) == 1
            c.ob("first", ok, "running as root must be refused before anything else is done", c.loc(f), repr(p)[:300])
            if not ok:
                continue
            v = p.var.get(es[0].res)
            c.ob("refused", v in ("Ok", "Err") and (v == "Ok" or p.kind == "ret" and sret(p).startswith("Err(") and len(es) == 1), "a program refused must not go on", c.loc(f), repr(p)[:300])
            n += v == "Err"
        c.ob("refused#n", n, "running as root is never refused", c.loc(f))


def prepare(c):
    f = "utils::default_data_dir::prepare_data_dir"
    for p in c.paths(f):
        if p.kind != "ret":
            c.ob("prepare#panic", False, "preparing the directory must not panic", c.loc(f), repr(p)[:300])
            continue
        custom, opt = holds(p, "$1 is Some"), holds(p, "$2 is Some")
        d = "$1.Some.0" if custom else "apply($0)"
        create = (True if holds(p, "$2.Some.0") else False if holds(p, "!$2.Some.0") else None) if opt else not custom if holds(p, "$2 is None") else None
        there = holds(p, f"Path::exists({d})")
        mkd = [e for e in p.events if re.search(r"create_dir", e.name)]
        r = sret(p)
        if there:
            c.ob("prepare#there", r == f"Ok({d})" and not mkd, "an existing directory is used as it is", c.loc(f), repr(p)[:300])
        elif create:
            c.ob("prepare#create", len(mkd) == 1 and mkd[0].name == "std::fs::create_dir_all" and show(mkd[0].args[0]) == d and (r == f"Ok({d})") == (p.var.get(mkd[0].res) == "Ok") and r.startswith(("Ok(", "Err(")),
                 "a missing directory must be created where that is asked for, and is the one used", c.loc(f), repr(p)[:300])
        else:
            c.ob("prepare#missing", create is False and not mkd and r.startswith("Err("), "a missing directory must not be created unless that is asked for", c.loc(f), repr(p)[:300])


EFFECT = re.compile(r"std::fs::|^std::fs|file_rotate|FileRotate|runner::start|create_dir|remove_|File::|OpenOptions")


def setup(c):
    f = "node_lib::runner::setup::{closure#0}"
    stop = f"^(?!{STD}|node_lib::runner::)|node_lib::runner::(start|initialize)$|prepare_data_dir"
    started = cleaned = 0
    for p in c.paths(f, stop=stop):
        if p.kind == "panic":
            continue
        es = [e for e in p.events if EFFECT.search(e.name) and not e.name.startswith("drop ")]
        prep = [e for e in p.events if e.name.endswith("prepare_data_dir")]
        if not es:
            continue
        d = show(prep[0].res) + ".Ok.0" if prep else "?"
        locked = es[0].name == "std::fs::File::create" and show(es[0].args[0]) == f"Path::join({d}, '.lock')"
        c.ob("lock#first", locked, "the data directory must be locked before anything in it is touched", c.loc(f), [e.name for e in es][:4])
        if not locked:
            continue
        lock = es[0]
        if p.var.get(lock.res) == "Err":
            c.ob("lock#create", sret(p).startswith("Err(") and len(es) == 1, "a node that cannot lock its directory must not go on", c.loc(f), repr(p)[:300])
            continue
        ok = len(es) > 1 and es[1].name.endswith("try_lock_exclusive") and show(es[1].args[0]) == show(lock.res) + ".Ok.0"
        c.ob("lock#exclusive", ok, "the data directory must be locked before anything in it is touched", c.loc(f), [e.name for e in es][:4])
        if not ok:
            continue
        if p.var.get(es[1].res) != "Ok":
            c.ob("lock#held", p.var.get(es[1].res) == "Err" and sret(p).startswith("Err(") and len(es) == 2, "a node must not go on in a directory locked by another", c.loc(f), repr(p)[:300])
            continue
        rm = [e for e in es if "remove_" in e.name]
        asked = next((v for t, v in p.truth.items() if "clean_data_option_set(" in show(t)), None)
        c.ob("clean#asked", asked is True or not rm, "the data directory may be cleaned only on request", c.loc(f), repr(p)[-500:])
        for e in rm:
            t = show(e.args[0])
            spared = any(v is False and t in show(x) and "'.lock'" in show(x) and x.tag == "eq" for x, v in p.truth.items())
            c.ob("clean#lock", spared and ("ReadDir" in t or "fs::read_dir(" in t), "cleaning must spare the lock file and touch nothing outside of the directory", c.loc(f), t + " :: " + repr(p)[-700:])
            cleaned += spared
        st = [e for e in es if e.name.endswith("runner::start")]
        c.ob("clean#nostart", not (asked and st), "a node does not start on a directory being cleaned", c.loc(f), repr(p)[-300:])
        r = sret(p) if p.kind == "ret" else ""
        if r.startswith("Ok(") and "DataDirCleanedUp" not in r:
            started += 1
            c.ob("node#locked", f"lock_file: {show(lock.res)}.Ok.0" in r and not any(e.name.startswith("drop ") and "std::fs::File" in e.name for e in p.events), "the running node must hold the lock", c.loc(f), r[-400:])
            c.ob("node#dir", len(st) == 1 and any(show(a) == d for a in st[0].args), "the node must run on the directory locked", c.loc(f), repr(p)[-300:])
    c.ob("started", started, "the node never starts", c.loc(f))
    c.ob("cleaned", cleaned, "the directory is never cleaned", c.loc(f))
    # the lock is given up only when the node has ended
    f = "node_lib::runner::Node::main::{closure#0}"
    for p in c.paths(f, stop=r"subsystem::"):
        if p.kind == "ret":
            i = [k for k, e in enumerate(p.events) if e.name.endswith("subsystem::Manager::main") or e.name.endswith("Manager::main")]
            a = [k for k, e in enumerate(p.events) if e.name == "await"]
            j = [k for k, e in enumerate(p.events) if "drop" in e.name and any("lock_file" in show(x) for x in e.args)]
            c.ob("main", i and a and (not j or min(j) > max(a)), "the lock must be held until the node has ended", c.loc(f), repr(p)[:400] + str([e.name for e in p.events]))


PARTS = [root, prepare, setup]
