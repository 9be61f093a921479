"""C21: save composed with start-up."""
from evs import *
from saving import *
from loading import loads


def replay(events):
    """files after the recorded operations: {path: contents}"""
    fs = {}
    for e in events:
        if e[0] != "FS" or e[2]:
            continue
        op, *a = e[1]
        path = lambda x: x.f[0] if isinstance(x, Agg) and x.tag == "file" else x
        if op == "create":
            fs[a[0]] = ()
        elif op in ("write", "write_some"):
            old, new = fs.get(path(a[0]), ()), a[1]
            if old and isinstance(old[-1], tuple) and isinstance(new, T) and new.op == "slice" and new.a[:2] == old[-1]:
                #the rest of what an earlier write accepted the first part of
                old, new = old[:-1], old[-1][0]
            fs[path(a[0])] = old + ((a[1], a[2]) if op == "write_some" else new,)
        elif op == "rename" and a[0] in fs:
            fs[a[1]] = fs.pop(a[0])
        elif op in ("copy", "link") and a[0] in fs:
            fs[a[1]] = fs[a[0]]
        elif op == "remove":
            fs.pop(a[0], None)
    out = {}
    for p, ws in fs.items():
        items = []
        for w in ws:
            items += [Chunk("blob", T("first_part", *w))] if isinstance(w, tuple) else w.items if isinstance(w, Seq) else [Chunk("blob", w)]
        out[p] = items[0].x if len(items) == 1 and isinstance(items[0], Chunk) else T("bytes", Seq(items))
    return out


def bare(v):
    return v.parts[0] if isinstance(v, Str) and len(v.parts) == 1 and not isinstance(v.parts[0], str) else v


def dbs_of(I, st, v):
    """{name: store} of a loaded state, or None"""
    v = I.deep(st, v)
    if not is_ok(v):
        return None
    for x in v.f[0].f if isinstance(v.f[0], Agg) else ():
        if isinstance(x, Agg) and x.tag == "mutex":
            m = I.deep(st, st.cells.get(x.f[1]))
            if isinstance(m, MapV) and m.base is None:
                return {bare(k): y for k, y in map_final_(m) if y is not ABSENT}
    return None


def run(ctx):
    ctx.program()
    ctx.explanation = ("Saving is interpreted on zero to three unknown databases with every file operation recorded; the files that leaves behind are what start-up is then interpreted "
                       "on. The databases of the resulting state must be exactly those saved. Failing writes and unreadable files are interpreted too.")
    ctx.rule("new(save(databases)) has the same databases under the same names")
    ctx.rule("a database whose file could not be written is still listed; the others are saved as usual")
    ctx.rule("an index or database that cannot be read is an error, not an absent database")
    ctx.assumptions += ["a store's serialised form opens as that store (C04)"]
    ctx.floor = 3
    for n in (0, 1, 2, 3):
        guard(ctx, f"{n} databases", "start-up loads what was saved", lambda: composed(ctx, n))
    guard(ctx, "failed write", "a failed write does not lose other databases or the entry in the index", lambda: failed(ctx))
    guard(ctx, "unreadable", "what cannot be read is reported", lambda: unreadable(ctx))


def load_all(ctx, files, st, fail=None):
    return loads(ctx, lambda p: files.get(p), fail=fail or (lambda op, a, k: op == "open" and k == "NotFound" and a[0] not in files), st=st)


def composed(ctx, n):
    key, desc = f"{n} databases", "start-up loads what was saved"
    k = 0
    for I, st, v, names in saves(ctx, n, fail=lambda *a: False):
        if not is_ok(v):
            ctx.ob(key, None, desc, v)
            continue
        files = replay(st.events)
        want = {N[i]: store(MapV(T("db", N[i]))) for i in range(n)}
        for p in files:
            for x in N[:n]:
                if mentions(p, x):
                    cut = [t for q in p.parts if isinstance(q, T) for t in subterms(q) if t.op == "stem"]
                    ctx.ob("distinct files", True if x in p.parts else False if cut else None, "different databases are saved in different files",
                           f"a database is saved as {p}: names that differ only after their last dot share a file")
        for I2, s2, w in load_all(ctx, files, st.copy()):
            k += 1
            got = dbs_of(I2, s2, w)
            compare(ctx, key, desc, got, want, w, files)
    if not k:
        ctx.ob(key, None, desc, "no path")


def compare(ctx, key, desc, got, want, w, files):
    if got is None:
        und = opaque(w) if not isinstance(w, Stop) else w.kind != "panic"
        return ctx.ob(key, None if und else False, desc, f"start-up gives {short(w)} on {files}")
    got = {k: (Agg(x.tag, x.var, x.f) if isinstance(x, Agg) else x) for k, x in got.items()}
    if got == want:
        return ctx.ob(key, True, desc)
    und = any(opaque(k) or opaque(x) for k, x in got.items())
    ctx.ob(key, None if und else False, desc, f"saved {want}, loaded {got}; files {short(files, 600)}")


def failed(ctx):
    #the first database's contents cannot be written, everything else works
    def fail(op, a, k):
        return op in ("write", "sync", "rename") and k == "Other" and any(
            mentions(x.f[0] if isinstance(x, Agg) else x, N[0]) for x in a if isinstance(x, Str) or isinstance(x, Agg) and x.tag == "file")
    desc = "a database that could not be written stays in the index, and the others are saved"
    for I, st, v, names in saves(ctx, 2, fail=fail):
        bad = [e for e in st.events if e[0] == "FS" and e[2]]
        if not bad:
            continue
        key = f"failed {bad[0][1][0]}"
        files = replay(st.events)
        if is_err(v):
            ctx.ob(key, True, desc, "reported")
            continue
        #an older version of the first database
        old = store(MapV(T("old")))
        for f in list(files):
            g = renamed(f, N[1], N[0])
            if g != f:
                files[g] = sered(old)
        want = {N[0]: old, N[1]: store(MapV(T("db", N[1])))}
        for I2, s2, w in load_all(ctx, files, st.copy()):
            compare(ctx, key, desc, dbs_of(I2, s2, w), want, w, files)


def unreadable(ctx):
    for I, st, v, names in saves(ctx, 2, fail=lambda *a: False):
        files = replay(st.events)
        index = [p for p in files if not any(mentions(p, x) for x in N)]
        mine = [p for p in files if mentions(p, N[0])]
        if len(index) != 1 or len(mine) != 1:
            ctx.ob("unreadable", None, "what cannot be read is reported", f"{files}")
            continue
        for what, p in (("index", index[0]), ("database", mine[0])):
            for how in ("I/O error", "malformed contents"):
                key, desc = f"unreadable {what}: {how}", f"a{'n' if what == 'index' else ''} {what} that cannot be read is an error, not an absent database"
                f2 = dict(files)
                if how == "malformed contents":
                    f2[p] = T("garbage")
                    fail = lambda op, a, k: op == "open" and k == "NotFound" and a[0] not in f2
                else:
                    fail = lambda op, a, k: op in ("open", "read") and k == "Other" and a[0] == p
                for I2, s2, w in load_all(ctx, f2, st.copy(), fail):
                    if how == "I/O error" and not any(e[0] == "FS" and e[2] == "Other" for e in s2.events):
                        continue
                    if how != "I/O error" and I2.simp(s2, T("parses", T("garbage"))) != 0:
                        continue
                    got = dbs_of(I2, s2, w)
                    if is_err(w):
                        ctx.ob(key, True, desc)
                    elif got is None:
                        ctx.ob(key, None, desc, w)
                    else:
                        ctx.ob(key, False, desc, f"start-up succeeds with the databases {sorted(map(repr, got))}, {sorted(map(repr, names))} were saved")
