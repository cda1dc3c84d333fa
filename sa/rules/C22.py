"""SQLite transactions: which statements are issued when a transaction starts, is committed or dropped, what statement and
parameters each operation uses, what iteration yields, that every SQLite error is reported, and how the database is opened."""
from ..rule import *
CRATES = ["storage-sqlite"]
T_ = "storage_sqlite::"
STOP = "process_sqlite_error|process_io_error"
LK = r"Mutex::lock\(\$0\.connection\)(@\d+)?\.Ok\.0"


def sql(e):
    a = show(e.args[1])
    return " ".join(a.strip("'").rstrip(";").upper().split()) if len(a) < 200 else a


def execs(p):
    return [e for e in p.events if re.search(r"Connection::execute(_batch)?$", e.name)]


def is_begin(s):
    return s in ("BEGIN", "BEGIN TRANSACTION", "BEGIN DEFERRED", "BEGIN DEFERRED TRANSACTION", "BEGIN IMMEDIATE", "BEGIN IMMEDIATE TRANSACTION", "BEGIN EXCLUSIVE", "BEGIN EXCLUSIVE TRANSACTION")


def ro(p):
    return next((v for a, v in p.truth.items() if show(a).startswith("const(")), None)


def count_set(p):
    """the value the counter of read-only transactions has when the lock is released"""
    g = [show(e.args[0]) for e in p.events if "MutexGuard" in e.name]
    m = re.search(r"read_only_tx_count:=(.*)\}$", g[-1]) if g else None
    return (m[1] if m else None) if g else "?"


def start(c):
    for f, want in (("BackendImpl>::transaction_ro", True), ("BackendImpl>::transaction_rw", False)):
        fid = f"<{T_}SqliteImpl as storage_core::backend::" + f
        n = 0
        for p in c.paths(fid, stop=STOP):
            cnt = next((m[0] for m in [re.search(LK + r"\.read_only_tx_count", repr(p))] if m), "?")
            r = ro(p)
            if r is None:
                r = want
            ex = execs(p)
            if p.kind == "panic":
                c.ob("start#panic", re.search(r"Mutex::lock\(\$0\.connection\)(@\d+)? is Err", repr(p)) or "overflow" in str(p.msg) or r is False and holds(p, f"!eq(0, {cnt})"), "starting a transaction may only panic on a poisoned lock or overlapping write transactions", c.loc(fid), repr(p)[:400])
                continue
            if r is not want:
                # the constant parameter is fixed by the function's type, the other half is unreachable here
                continue
            n += 1
            c.ob("start#one", len(ex) <= 1 and all(is_begin(sql(e)) and re.fullmatch(LK + r"\.connection", show(e.args[0])) for e in ex), "starting a transaction issues at most one BEGIN", c.loc(fid), repr(p)[:600])
            new = count_set(p)
            if success(p):
                c.ob("start#tx", sret(p) == "Ok(DbTx{connection: $0.connection, queries: $0.queries})", "the transaction works on the connection and statements of its store", c.loc(fid), sret(p))
                if want:
                    c.ob("start#count", new in (f"add(1, {cnt})", f"add({cnt}, 1)"), "each read-only transaction must be counted", c.loc(fid), f"{new} {repr(p)[:500]}")
                    first = anyof(p, f"eq(1, add(1, {cnt}))", f"eq(0, {cnt})")
                    c.ob("start#ro", first is not None and (len(ex) == 1) == first, "the first read-only transaction, and only that, must begin a transaction of the database", c.loc(fid), repr(p)[:600])
                else:
                    c.ob("start#rw", len(ex) == 1, "a write transaction must begin a transaction of the database", c.loc(fid), repr(p)[:600])
                    c.ob("start#rw-count", new in (None, "0") or holds(p, f"eq({new}, 0)"), "a write transaction is not counted as a read-only one", c.loc(fid), str(new))
                c.ob("start#ok", all(p.var.get(e.res) == "Ok" for e in ex), "a failing BEGIN must be reported", c.loc(fid), repr(p)[:600])
            else:
                c.ob("start#err", sret(p).startswith("Err(error::process_sqlite_error(") and any(p.var.get(e.res) == "Err" for e in ex), "starting may fail only when BEGIN does", c.loc(fid), repr(p)[:600])
        c.ob(f"start#{want}", n, "no path starts the transaction", c.loc(fid))


def finish(c):
    fid = f"<{T_}DbTx<'_, false> as storage_core::backend::TxRw>::commit"
    for p in c.paths(fid, stop=STOP):
        ex = execs(p)
        if p.kind == "panic":
            c.ob("commit#panic", re.search(r"Mutex::lock\(\$0\.connection\)(@\d+)? is Err", repr(p)) or re.search(r"!eq\(0, " + LK + r"\.read_only_tx_count\)", repr(p)), "commit may only panic on a poisoned lock or overlapping transactions", c.loc(fid), repr(p)[:400])
            continue
        good = len(ex) == 1 and sql(ex[0]) in ("COMMIT", "COMMIT TRANSACTION", "END", "END TRANSACTION") and re.fullmatch(LK + r"\.connection", show(ex[0].args[0]))
        c.ob("commit#once", good, "commit must issue COMMIT, once, on the transaction's connection", c.loc(fid), repr(p)[:500])
        c.ob("commit#result", good and success(p) == (p.var.get(ex[0].res) == "Ok"), "commit succeeds exactly when the database's commit does", c.loc(fid), repr(p)[:500])
        # the guard is gone before the transaction is dropped (its destructor locks again)
        ds = [i for i, e in enumerate(p.events) if re.search(r"drop .*DbTx", e.name)]
        gs = [i for i, e in enumerate(p.events) if "MutexGuard" in e.name]
        c.ob("commit#unlock", not ds or gs and max(gs) < min(ds), "the connection must be unlocked before the transaction is dropped", c.loc(fid), repr(p)[:500])
    # COMMIT is issued nowhere else (except when opening the database)
    fid = f"<{T_}DbTx<'_, IS_READONLY> as core::ops::drop::Drop>::drop"
    seen = set()
    for p in c.paths(fid, stop=STOP):
        cnt = next((m[0] for m in [re.search(LK + r"\.read_only_tx_count", repr(p))] if m), "?")
        r, ex = ro(p), execs(p)
        auto = next((v for a, v in p.truth.items() if re.fullmatch(r"Connection::is_autocommit\(" + LK + r"\.connection\)(@\d+)?", show(a))), None)
        if p.kind == "panic":
            c.ob("drop#panic", re.search(r"Mutex::lock\(\$0\.connection\)(@\d+)? is Err", repr(p)) or auto is True and r is True or r is True and holds(p, f"eq(0, {cnt})") or r is False and holds(p, f"!eq(0, {cnt})"),
                 "dropping a transaction may only panic when transactions overlap wrongly", c.loc(fid), repr(p)[:400])
            continue
        rb = [e for e in ex if sql(e) in ("ROLLBACK", "ROLLBACK TRANSACTION") and re.fullmatch(LK + r"\.connection", show(e.args[0]))]
        c.ob("drop#only-rollback", len(ex) == len(rb) <= 1, "dropping a transaction may only roll back", c.loc(fid), repr(p)[:500])
        new = count_set(p)
        if r is True:
            last = anyof(p, f"eq(0, sub({cnt}, 1))", f"eq(1, {cnt})")
            c.ob("drop#ro", last is not None and (len(rb) == 1) == last, "the last read-only transaction, and only that, must end the database's transaction", c.loc(fid), repr(p)[:500])
            c.ob("drop#count", new == f"sub({cnt}, 1)", "dropping a read-only transaction must uncount it", c.loc(fid), repr(p)[:500] + str(new))
            seen.add("ro")
        elif r is False:
            c.ob("drop#rw", auto is not None and (len(rb) == 1) == (not auto), "dropping a write transaction must roll back unless it was committed", c.loc(fid), repr(p)[:500])
            c.ob("drop#rw-count", new is None or new == "?", "dropping a write transaction must not change the count of read-only ones", c.loc(fid), str(new))
            seen.add("rw" if auto else "rw-rollback")
        else:
            c.ob("drop#auto", auto is True and not rb, "dropping must distinguish read-only and write transactions", c.loc(fid), repr(p)[:400])
    c.ob("drop#cases", {"ro", "rw-rollback"} <= seen, "both kinds of transactions must be handled", c.loc(fid), str(seen))


def queries(c):
    q = "$0.queries"
    rd, wr = f"<{T_}DbTx<'_, IS_READONLY> as storage_core::backend::ReadOps>::", f"<{T_}DbTx<'_, false> as storage_core::backend::WriteOps>::"
    idx = r"(DbMapsData::index\(\$0\.queries, \$1\)|\$0\.queries\.0\[\$1\.0\])"
    # the statement texts, per map
    texts = {}
    for p in c.paths(T_ + "queries::SqliteQuery::from_desc", inline={"storage_core"}):
        for n in ("db_name", "get_query", "prefix_iter_query", "put_query", "delete_query"):
            texts[n] = norm(fields(p, p.ret, n)[0])
    name = texts.get("db_name", "?")
    c.ob("sql#name", name == norm("$0.name"), "the table must be named as the map", "", name)
    want = {"get_query": "select value from {} where key = ?", "prefix_iter_query": "select key, value from {} order by key", "put_query": "insert or replace into {} values(?, ?)", "delete_query": "delete from {} where key = ?"}
    alt = {"put_query": ["replace into {} values(?, ?)", "insert or replace into {}(key, value) values(?, ?)"], "prefix_iter_query": ["select key, value from {} order by key asc"]}
    for n, w in want.items():
        c.ob("sql#" + n, texts.get(n) in [norm(x.format("$0.name")) for x in [w] + alt.get(n, [])], f"the statement must be: {w}", "storage/sqlite/src/queries.rs", str(texts.get(n)))
    c.ob("sql#create", [norm(sret(p)) for p in c.paths(T_ + "queries::create_table_query")] == [norm("create table $0(key blob primary key not null, value blob not null)")], "tables must have the key as primary key", "storage/sqlite/src/queries.rs")

    def prep(p, stmt):
        es = [e for e in p.events if re.search(r"Connection>?::prepare(_cached)?$", e.name)]
        return es[0] if len(es) == 1 and re.fullmatch(LK + r"\.connection", show(es[0].args[0])) and re.fullmatch(stmt, show(es[0].args[1])) else None

    def walk(fid, stmt, check, must):
        seen = 0
        for p in c.paths(fid, stop=STOP):
            short_ = fid.rsplit("::", 1)[-1]
            if p.kind == "panic":
                c.ob(short_ + "#panic", re.search(r"Mutex::lock\(\$0\.connection\)(@\d+)? is Err", repr(p)), "a database operation may only panic on a poisoned lock", c.loc(fid), repr(p)[:300])
                continue
            e = prep(p, stmt)
            if not c.ob(short_ + "#stmt", e, "the operation must use its own statement for the given map", c.loc(fid), repr(p)[:500]):
                continue
            bad = [t for t, v in p.var.items() if v == "Err" and re.match(r"(cache::prepare|Statement::|Result::optional|Rows::next|Row::get|Connection::)", show(t))]
            if success(p) or p.kind == "back":
                c.ob(short_ + "#noerr", not bad, "an error of the database must be reported", c.loc(fid), repr(p)[:600])
            else:
                c.ob(short_ + "#err", len(bad) >= 1 and sret(p).startswith("Err(error::process_sqlite_error("), "an operation may fail only when the database does", c.loc(fid), repr(p)[:600])
                continue
            if check(p, show(e.res) + ".Ok.0", short_):
                seen += 1
        c.ob(fid.rsplit("::", 1)[-1] + "#ok", seen >= must, "the operation has no successful path", c.loc(fid))

    def get(p, st, n):
        r = sret(p)
        q = [e for e in p.events if re.search(r"Statement::<.*>::query_row$|Statement::query_row$", e.name)]
        good = len(q) == 1 and show(q[0].args[0]) == st and show(q[0].args[1]) in ("($2)", "[$2]")
        opt = f"Result::optional({show(q[0].res)})" if q else "?"
        if holds(p, f"{opt}.Ok.0 is None"):
            good = good and r == "Ok(None)"
        else:
            good = good and r in (f"Ok(Some(from(Cow<[u8]>, {opt}.Ok.0.Some.0)))", f"Ok(Some(Cow::Owned({opt}.Ok.0.Some.0)))")
        return c.ob("get", good, "a lookup must return the value stored under the key, or nothing exactly when there is none", c.loc(p.fid), repr(p)[:700])
    walk(rd + "get", idx + r"\.get_query", get, 2)
    for f in [i for i in c.F.ids() if i.startswith(rd + "get::{closure")]:
        ps = c.paths(f)
        if any("Row::get(" in repr(p) for p in ps):
            c.every("get#column", ps, lambda p: sret(p) == "Row::get($1, 0)", "the value is the first column of the result")

    def write(args):
        def chk(p, st, n):
            q = [e for e in p.events if re.search(r"Statement::<.*>::execute$|Statement::execute$", e.name)]
            return c.ob(n, len(q) == 1 and show(q[0].args[0]) == st and show(q[0].args[1]) in args and sret(p) == "Ok(())", "a write must execute its statement once with the given key and value", c.loc(p.fid), repr(p)[:600])
        return chk
    walk(wr + "put", idx + r"\.put_query", write(("($2, $3)", "[$2, $3]")), 1)
    walk(wr + "del", idx + r"\.delete_query", write(("($2)", "[$2]")), 1)

    def rows(filtered):
        def chk(p, st, n):
            pushes = [e for e in p.events if e.name.endswith("::push")]
            q = [e for e in p.events if re.search(r"Statement::<.*>::query$|Statement::query$", e.name)]
            nx = [e for e in p.events if re.search(r"Rows::<.*>::next$|Rows::next$", e.name)]
            good = len(q) == 1 and show(q[0].args[0]) == st and show(q[0].args[1]) in ("()", "[]") and len(nx) == 1
            some = {show(t): v for t, v in p.var.items()}
            nxt = show(nx[0].res) if nx else "?"
            if good and p.kind == "ret":
                good = some.get(nxt + ".Ok.0") == "None" and not pushes and re.fullmatch(r"Ok\((iter\()?(Vec::(new|with_capacity)\(.*\)|\[\])\)?\)", sret(p))
                return c.ob(n + "#end", good, "iteration must collect every row of the result", c.loc(p.fid), repr(p)[:700])
            if good:
                k, v = (f"Row::get({nxt}.Ok.0.Some.0, {i}).Ok.0" for i in (0, 1))
                sw = next((v for a, v in p.truth.items() if re.fullmatch(re.escape(f"slice::starts_with({k}, ") + r"(\$2|slice\(\$2, RangeFull\))\)", show(a))), None)
                take = sw if filtered else True
                good = some.get(nxt + ".Ok.0") == "Some" and take is not None and (len(pushes) == 1 and show(pushes[0].args[1]) == f"({k}, {v})" if take else not pushes)
            return c.ob(n + "#row", good, "iteration must yield key and value of each row" + (" whose key starts with the prefix" if filtered else "") + ", in the order of the result", c.loc(p.fid), repr(p)[:700])
        return chk
    walk(rd + "prefix_iter", idx + r"\.prefix_iter_query", rows(True), 3)
    walk(rd + "greater_equal_iter", r"fmt\('SELECT key, value FROM ', " + idx + r"\.db_name, \" WHERE key >= x'\", hex::encode\(\$2\), \"' ORDER BY key\"\)", rows(False), 2)
    for f in ("process_sqlite_error", "process_io_error"):
        c.every(f, c.paths(T_ + "error::" + f), lambda p: p.kind == "ret" and re.match(r"Error::from\((Fatal|Recoverable)::", sret(p)), "an error of the database must stay an error")


def norm(s):
    """a format term as one text, without case and spacing"""
    m = re.fullmatch(r"fmt\((.*)\)", s, re.S)
    if m:
        s = "".join(x[1:-1] if x[:1] in "'\"" else x for x in (unparse((y,)) for y in parse_args(m[1])))
    s = s.replace("DbMapDesc::name($0)", "$0.name")
    return re.sub(r"\s*([(),=])\s*", r"\1", re.sub(r"\s+", " ", s.lower())).strip().rstrip(";")


def parse_args(s):
    return parse(s)


def opening(c):
    fid = f"<{T_}Sqlite as storage_core::backend::Backend>::open"
    n = 0
    for p in c.paths(fid, stop=STOP):
        op = [e for e in p.events if e.name.endswith("Connection::open_with_flags") or e.name.endswith("Connection::open")]
        pr = {}
        for e in p.events:
            if e.name.endswith("pragma_update"):
                pr[show(e.args[2]).strip("'").lower()] = (show(e.args[3]).strip("'").lower(), p.var.get(e.res))
        dis = next((v for a, v in p.truth.items() if show(a) == "$0.options.disable_fsync"), None)
        off = pr.get("synchronous", ("", ""))[0] in ("off", "0", "false")
        c.ob("open#sync", not off or dis is True, "syncing to disk may be turned off only when the options say so", c.loc(fid), repr(p)[:600])
        if p.kind == "panic":
            c.ob("open#panic", "overflow" in str(p.msg), "opening must not panic", c.loc(fid), repr(p)[:300])
            continue
        if not success(p):
            continue
        if p.kind == "back":
            continue
        n += 1
        c.ob("open#one", len(op) == 1, "one connection is opened", c.loc(fid), repr(p)[:500])
        con = show(op[0].res) + ".Ok.0" if op else "?"
        c.ob("open#excl", pr.get("locking_mode") == ("exclusive", "Ok"), "the database must be opened in exclusive mode", c.loc(fid), str(pr))
        c.ob("open#journal", not {"journal_mode", "writable_schema", "ignore_check_constraints"} & set(pr) or pr.get("journal_mode", ("wal",))[0] not in ("off", "memory"), "the rollback journal must stay on", c.loc(fid), str(pr))
        ex = execs(p)
        ss = [sql(e) for e in ex]
        c.ob("open#lock", any(x.startswith("BEGIN EXCLUSIVE") for x in ss) and ss.count("COMMIT") + ss.count("COMMIT TRANSACTION") >= 1 and all(p.var.get(e.res) == "Ok" for e in ex), "opening must take the exclusive lock of the database, or fail", c.loc(fid), str(ss))
        c.ob("open#result", f"connection: {con}" in sret(p) and re.search(r"read_only_tx_count: 0", sret(p)) and re.search(r"queries: DbMapsData::transform\(DbDesc::db_maps\(\$1\), ", sret(p)), "the store holds the opened connection, no transaction, and the statements of its maps", c.loc(fid), sret(p)[:500])
        c.ob("open#tables", any(x[0] == "exh" and "db_map_count" in show(x[1]) or x[0] == "exh" and "db_maps" in show(x[1]) for x in p.facts), "every map must have been checked for its table", c.loc(fid), repr(p)[:300])
        if op and holds(p, "$0.backend is File"):
            c.ob("open#path", show(op[0].args[0]) in ("$0.backend.File.0", "from(PathBuf, $0.backend.File.0)"), "the database file must be the configured one", c.loc(fid), show(op[0].args[0]))
        dirs = [e for e in p.events if e.name.endswith("fs::create_dir_all") or e.name.endswith("fs::create_dir")]
        file = holds(p, "$0.backend is File")
        c.ob("open#dir", not dirs or file, "a directory is created only for a database in a file", c.loc(fid), repr(p)[:300])
    c.ob("open#ok", n, "the database cannot be opened", c.loc(fid))
    c.every("open#default", c.paths(f"<{T_}Options as core::default::Default>::default"), lambda p: sret(p) == "Options{disable_fsync: false}", "syncing to disk is on by default")
    c.every("open#new", c.paths(T_ + "Sqlite::new"), lambda p: re.fullmatch(r"Sqlite\{backend: SqliteStorageMode::File\(.*\$0\)?\), options: Options\{disable_fsync: false\}\}", sret(p)), "a database in a file is opened at its path, with syncing on")
    c.every("open#options", c.paths(T_ + "Sqlite::with_options"), lambda p: sret(p) == "Sqlite{backend: $0.backend, options: $1}", "options replace only the options")
    for p in c.paths(T_ + "Sqlite::open_db", stop=STOP):
        if p.kind != "back":
            continue
        ex = [e for e in execs(p) if "CREATE TABLE" in show(e.args[1])]
        q = [t for t in p.var if show(t).startswith("Result::optional(Statement::query_row(") and show(t).endswith(")")]
        missing = [p.var.get(t) for t in p.var if re.fullmatch(r"Result::optional\(Statement::query_row\(.*\)\)\.Ok\.0", show(t))]
        if not missing:
            continue
        c.ob("open#create", (missing[0] == "None") == (len(ex) == 1) and all(p.var.get(e.res) == "Ok" for e in ex), "a missing table must be created, an existing one left alone", c.loc(p.fid), repr(p)[:500])


PARTS = [start, finish, queries, opening]
