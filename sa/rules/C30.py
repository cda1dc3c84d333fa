"""Wallet secrets at rest: values kept under a key are only ever stored encrypted with it under a fresh nonce and are only returned
after authenticated decryption; the wallet store encrypts, unlocks and locks its secrets consistently."""
from ..rule import *
CRATES = ["utils", "wallet-storage"]
ME = "utils::maybe_encrypted::MaybeEncrypted::<T>::"
W = "wallet_storage::internal::"
TX = W + "store_tx::"


def value(c):
    enc = r"SymmetricKey::encrypt\(KEY, Encode::encode\(\$0\), randomness::make_true_rng\(\)@\d+, None\)"
    n = {"plain": 0, "enc": 0}
    for p in c.paths(ME + "new", stop="symkey::SymmetricKey::"):
        r = sret(p)
        if p.kind == "panic":
            c.ob("new#panic", re.search(enc.replace("KEY", r"\$1\.Some\.0") + r" is Err", repr(p)), "storing a value may only panic when encryption fails", c.loc(p.fid), repr(p)[:300])
        elif holds(p, "$1 is Some"):
            n["enc"] += 1
            c.ob("new#enc", re.fullmatch(r"MaybeEncrypted\{value: " + enc.replace("KEY", r"\$1\.Some\.0") + r"\.Ok\.0, _phantom: .*\}", r), "with a key, the value must be kept encrypted with exactly that key and fresh true randomness", c.loc(p.fid), r)
        else:
            n["plain"] += 1
            c.ob("new#plain", holds(p, "$1 is None") and re.fullmatch(r"MaybeEncrypted\{value: Encode::encode\(\$0\), _phantom: .*\}", r), "only without a key may the value be kept as it is", c.loc(p.fid), repr(p)[:400])
    c.ob("new#both", all(n.values()), "both kinds of values", c.loc(ME + "new"), str(n))
    for f, key in (("try_take", "$1.Some.0"), ("try_decrypt_then_take", "$1")):
        for p in c.paths(ME + f, stop="symkey::SymmetricKey::"):
            r = re.sub(r"slice\(([^,]*(?:\([^()]*\))?[^,]*), RangeFull\)", r"\1", sret(p))
            dec = f"SymmetricKey::decrypt({key}, $0.value, None)"
            v = {show(t): x for t, x in p.var.items()}
            with_key = f != "try_take" or holds(p, "$1 is Some")
            src = dec + ".Ok.0" if with_key else "$0.value"
            take = f"DecodeAll::decode_all({src})"
            if p.kind != "ret":
                c.ob(f + "#panic", False, "taking a value must not panic", c.loc(p.fid), repr(p)[:300])
            elif r.startswith("Ok("):
                c.ob(f + "#ok", r == f"Ok({take}.Ok.0)" and v.get(take) == "Ok" and (not with_key or v.get(dec) == "Ok"), "with a key, a value may be returned only after decryption with it has succeeded, and as a whole", c.loc(p.fid), repr(p)[:400])
            else:
                kind = r.startswith("Err(MaybeEncryptedError::DecryptionError(") if v.get(dec) == "Err" else r.startswith("Err(MaybeEncryptedError::DecodingError(")
                c.ob(f + "#err", kind and (v.get(dec) == "Err" or v.get(take) == "Err"), "a value that decrypts and decodes must be returned; the error tells which of both failed", c.loc(p.fid), repr(p)[:400])
    fs = c.F.adts.get("utils::maybe_encrypted::MaybeEncrypted", {}).get("v", [{}])[0].get("f", [])
    c.ob("private", fs and all(x[2] != "pub" for x in fs), "the kept bytes must not be accessible from outside", "utils/src/maybe_encrypted.rs", str(fs))


def state(p):
    """what the path leaves in encryption_state; calls kept opaque cannot change it other than by their own names"""
    o = show(p.m.project(p.out(mk("arg", 0)), ("f", "encryption_state")))
    return "$0.encryption_state" if re.fullmatch(r"out0\[Store::transaction_\w+\(.*\)(@\d+)?\]\.encryption_state", o) else o


def store(c):
    st = r"StoreTx\w*(<.*>)?.*::(get_|set_|del_|encrypt_|check_|commit|new$)|password_to_sym_key|challenge_to_sym_key|Storage.*::new|transaction_r[ow]"
    S = W + "Store::<B>::"
    for f in ("new", "new_from_dump"):
        k = set()
        for p in c.paths(S + f, stop=st):
            r = sret(p)
            if not r.startswith("Ok("):
                continue
            m = re.fullmatch(r"Ok\(Store\{storage: .*, encryption_state: EncryptionState::(Locked|Unlocked\(None\))\}\)", r)
            ch = [v for t, v in p.var.items() if re.search(r"get_encryption_key_kdf_challenge\(.*\)\.Ok\.0$", show(t))]
            c.ob(f, m and ch and (ch[0] == "None") == (m[1] != "Locked"), "a wallet with a password must be locked when opened, one without unlocked", c.loc(S + f), repr(p)[:400])
            k.update(ch)
        c.ob(f + "#both", k == {"None", "Some"}, "both kinds of wallets must open", c.loc(S + f), str(k))
    f = S + "encrypt_private_keys"
    n = {"Some": 0, "None": 0}
    for p in c.paths(f, stop=st):
        if not success(p):
            c.ob("encrypt#fail", p.kind == "ret" and state(p) == "$0.encryption_state", "a failed change of the password must leave the wallet's state as it was", c.loc(f), repr(p)[:400])
            continue
        # what each step was given
        d = {}
        order = []
        for e in p.events:
            m = re.search(r"::(\w+)$", e.name)
            d.setdefault(m[1] if m else e.name, []).append(e)
            order.append(m[1] if m else e.name)
        pw = p.var.get(mk("arg", 1))
        pw = next((v for t, v in p.var.items() if show(t) == "$1"), None)
        n[pw] = n.get(pw, 0) + 1
        key = "None" if pw == "None" else "Some(password::password_to_sym_key($1.Some.0).Ok.0.0)"
        for s in ("encrypt_root_keys", "encrypt_seed_phrase", "encrypt_standalone_private_keys"):
            es = d.get(s, [])
            c.ob("encrypt#" + s, len(es) == 1 and show(es[0].args[1]) == key and p.var.get(es[0].res) == "Ok", "every secret must be stored anew with the new key", c.loc(f), repr(p)[:500])
        ch = d.get("del_encryption_kdf_challenge" if pw == "None" else "set_encryption_kdf_challenge", [])
        c.ob("encrypt#challenge", len(ch) == 1 and p.var.get(ch[0].res) == "Ok" and (pw == "None" or show(ch[0].args[1]) == "password::password_to_sym_key($1.Some.0).Ok.0.1"), "the challenge of the new password must be stored", c.loc(f), repr(p)[:500])
        cm = d.get("commit", [])
        c.ob("encrypt#commit", len(cm) == 1 and p.var.get(cm[0].res) == "Ok" and order[-1] == "commit" or order and cm and all(o in ("commit", "drop") or "drop" in o for o in order[order.index("commit"):]), "the changes must be committed, after all of them, in one transaction", c.loc(f), str(order))
        c.ob("encrypt#one", len(d.get("transaction_rw_unlocked", [])) == 1, "the changes must be in one transaction", c.loc(f), str(order))
        o = [state(p)]
        c.ob("encrypt#state", o[0] == f"EncryptionState::Unlocked({key})", "afterwards the wallet must work with the new key", c.loc(f), o[0])
    c.ob("encrypt#both", n["Some"] and n["None"], "both setting and removing a password", c.loc(f), str(n))
    f = S + "unlock_private_keys"
    n = 0
    for p in c.paths(f, stop=st):
        o = state(p) if p.kind == "ret" else "$0.encryption_state"
        if success(p):
            n += 1
            v = {show(t): x for t, x in p.var.items()}
            m = re.fullmatch(r"EncryptionState::Unlocked\(Some\((password::challenge_to_sym_key\(\$0, (.*)\)\.Ok\.0)\)\)".replace(r"\$0", r"\$1"), o)
            ck = [e for e in p.events if e.name.endswith("check_can_decrypt_all_root_keys")]
            c.ob("unlock", m and "get_encryption_key_kdf_challenge" in m[2] and len(ck) == 1 and show(ck[0].args[1]) == m[1] and p.var.get(ck[0].res) == "Ok", "the wallet may be unlocked only with a key that has decrypted its root keys", c.loc(f), repr(p)[:500] + o)
        else:
            c.ob("unlock#fail", p.kind == "panic" or o == "$0.encryption_state", "a failed attempt must leave the wallet locked", c.loc(f), repr(p)[:400])
    c.ob("unlock#ok", n, "the wallet cannot be unlocked", c.loc(f))
    f = S + "lock_private_keys"
    for p in c.paths(f, stop=st):
        o = state(p)
        was = {show(t): x for t, x in p.var.items()}
        if success(p):
            c.ob("lock", o == "EncryptionState::Locked" or was.get("$0.encryption_state") == "Locked", "a locked wallet must have dropped its key", c.loc(f), o)
        else:
            c.ob("lock#refuse", was.get("$0.encryption_state.Unlocked.0") == "None" and o == "$0.encryption_state", "locking may fail only without a password", c.loc(f), repr(p)[:300])
    for k, fn in (("ro", "StoreTxRoUnlocked"), ("rw", "StoreTxRwUnlocked")):
        i = [x for x in c.F.ids() if re.fullmatch(rf"<{re.escape(W)}Store<B> as wallet_storage::Transactional<'tx>>::transaction_{k}_unlocked", x)][0]
        for p in c.paths(i, stop=st):
            v = {show(t): x for t, x in p.var.items()}
            r = sret(p)
            if r.startswith("Ok("):
                c.ob("unlocked-tx", v.get("$0.encryption_state") == "Unlocked" and re.fullmatch(rf"Ok\({fn}::new\(Storage::transaction_{k}\(.*\)\.Ok\.0, \$0\.encryption_state\.Unlocked\.0\)\)", r), "a locked wallet must not give access to its secrets, an unlocked one with its own key", c.loc(i), repr(p)[:400])
            else:
                c.ob("unlocked-tx#err", "is Err" in repr(p) or v.get("$0.encryption_state") == "Locked", "an unlocked wallet must give access", c.loc(i), repr(p)[:300])


def secrets(c):
    """every place of the wallet store where a secret is read or written uses the key of its transaction"""
    st = r"MaybeEncrypted|StoreTx\w+.*::(write|read)$"
    n = 0
    seen = set()
    for i in sorted(c.F.ids()):
        if not i.startswith(("<" + TX, TX)) or "closure" in i:
            continue
        uses = [x for x, u in c.F.callers(r"maybe_encrypted::MaybeEncrypted.*::(new|try_take|try_decrypt_then_take)$") if x == i or x.startswith(i + "::{closure")]
        if not uses:
            continue
        f = i.rsplit("::", 1)[-1]
        own = "$0.encryption_key"
        for p in c.paths(i, stop=st):
            for e in p.events:
                m = re.search(r"MaybeEncrypted.*::(new|try_take|try_decrypt_then_take)$", e.name)
                if not m:
                    continue
                n += 1
                seen.add(f)
                want = own if m[1] == "try_take" else "$1" if f.startswith("encrypt_") or m[1] == "try_decrypt_then_take" else own
                c.ob("secret#key", show(e.args[1]) == want, f"secrets must be {'stored' if m[1] == 'new' else 'read'} with the key of the transaction" + (", or the new key" if want == "$1" else ""), c.loc(i), f"{e.name} {show(e.args[1])}")
                if f.startswith("encrypt_") and m[1] == "new":
                    t = [x for x in p.events if x.name.endswith("try_take")]
                    c.ob("secret#same", t and show(e.args[0]) == show(t[0].res) + ".Ok.0", "the secret stored anew must be the one that was stored", c.loc(i), repr(p)[:400])
            if f.startswith("encrypt_") and success(p):
                c.ob("secret#all", any(x[0] == "exh" and "prefix_iter_decoded" in show(x[1]) for x in p.facts), "all stored secrets must be stored anew", c.loc(i), repr(p)[:500])
            if f.startswith("encrypt_") and p.kind == "back":
                for e in p.events:
                    if e.name.endswith("::write"):
                        c.ob("secret#write", re.fullmatch(r"elem\((collect\(.*\))\)\.0", show(e.args[1])) and show(e.args[2]) == show(e.args[1])[:-1] + "1", "each secret must be written back under its own key", c.loc(i), repr(p)[:400])
    c.ob("secret#found", {"encrypt_root_keys", "encrypt_seed_phrase", "encrypt_standalone_private_keys", "set_root_key", "set_seed_phrase", "get_root_key", "get_seed_phrase"} <= seen, "secrets are read and written by these functions", "wallet/storage/src/internal/store_tx.rs", str(seen))
    c.count("secret", n, 8)
    f = [x for x in c.F.ids() if x.endswith("check_can_decrypt_all_root_keys") and "StoreTxRo<" in x][0]
    for p in c.paths(f, stop=st):
        v = {show(t): x for t, x in p.var.items()}
        if success(p):
            c.ob("check#all", any(x[0] == "exh" for x in p.facts), "all root keys must be checked", c.loc(f), repr(p)[:300])
        elif p.kind == "back":
            c.ob("check#each", any(re.match(r"MaybeEncrypted::try_decrypt_then_take\(.*, \$1\)", t) and x == "Ok" for t, x in v.items()), "each root key must have been decrypted with the given key", c.loc(f), repr(p)[:300])
    # the stored types
    bad = [s for s in ("DBRootKeys", "DBSeedPhrase")]
    a = c.F.adts
    for t in ("wallet_storage::schema::StandalonePrivateKey", "wallet_storage::StandalonePrivateKey"):
        if t in a:
            f = {x[0]: c.F.ty("wallet_storage", x[1]) if not isinstance(x[1], str) else x[1] for x in a[t]["v"][0]["f"]}
            c.ob("type", "MaybeEncrypted" in str(f.get("private_key")), "a private key must be stored in encrypted form", a[t].get("file", ""), str(f))


def password(c):
    f = W + "password::password_to_sym_key"
    h = r"kdf::hash_password\(randomness::make_true_rng\(\)@\d+, KdfConfig::Argon2id\{.*\}, (\$0|String::as_bytes\(\$0\))\)"
    n = 0
    for p in c.paths(f):
        r = sret(p)
        if r.startswith("Ok("):
            n += 1
            c.ob("password", re.fullmatch(rf"Ok\(\(SymmetricKey::from_raw_key\(SymmetricKeyKind::XChacha20Poly1305, {h}\.Ok\.0\.Argon2id\.hashed_password\)\.Ok\.0, KdfResult::into_challenge\({h}\.Ok\.0\)\)\)", r) and holds(p, "!eq(0, len($0))"), "the key must be derived from the password with a fresh salt, and the challenge of that derivation stored; an empty password is refused", c.loc(f), repr(p)[:600])
            m = re.search(r"salt_length: (?:NonZero\(NonZeroUsizeInner\()?(\d+)", r)
            c.ob("password#salt", m and int(m[1]) >= 16, "the salt must be long enough", c.loc(f), r[:400])
    c.ob("password#ok", n, "no password is accepted", c.loc(f))
    f = W + "password::challenge_to_sym_key"
    for p in c.paths(f):
        r = sret(p)
        if r.startswith("Ok("):
            c.ob("challenge", re.fullmatch(r"Ok\(SymmetricKey::from_raw_key\(SymmetricKeyKind::XChacha20Poly1305, kdf::hash_from_challenge\(\$1, \$0\)\.Ok\.0\.Argon2id\.hashed_password\)\.Ok\.0\)", r), "the key must be derived from the password and the stored challenge", c.loc(f), r)


PARTS = [value, store, secrets, password]
