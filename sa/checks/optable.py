"""What each operation of the daemon has to do, shared by C15 (the change) and C16 (the answer)."""
from daemon import *

EXISTING = T("db", NAME)


def kvs(n):
    return {T("sym", f"k{i}"): T("sym", f"v{i}") for i in range(n)}


def scenarios():
    """(operation, label, scenario, contents expected afterwards, answers allowed)"""
    for ex in (0, 1):
        for ow in (0, 1):
            sc = dict(ex=ex, flags={"overwrite_existing": ow})
            after = (None, {}) if not ex or ow else (EXISTING, {})
            yield "add_db", f"existing={ex} overwrite={ow}", sc, after, [("status", 200 if ex else 201)]
            for n in (0, 1, 2, 3):
                after = (None if not ex or ow else EXISTING, kvs(n))
                yield "add_db_with_content", f"existing={ex} overwrite={ow} uploaded={n}", dict(sc, n=n, parses=1), after, [("status", 200 if ex else 201)]
            yield ("add_db_with_content", f"existing={ex} overwrite={ow} malformed", dict(sc, n=1, parses=0), (EXISTING, {}) if ex else None, [("error", "StoreError")])
        e = [("status", 200)] if ex else [("error", "DatabaseNotFound")]
        yield "clear_db", f"existing={ex}", dict(ex=ex), (None, {}) if ex else None, e
        yield "remove_db", f"existing={ex}", dict(ex=ex), None, e + ([("error", "IO")] if ex else [])
        yield "get_db", f"existing={ex}", dict(ex=ex), (EXISTING, {}) if ex else None, ["contents"] if ex else e
        for kx in (0, 1) if ex else (0,):
            for ow in (0, 1):
                for cr in (0, 1):
                    if ex:
                        after = (EXISTING, {KEY: VALUE} if not kx or ow else {})
                        r = ("OverwroteKeyInExistingDB" if ow else "FoundExistingKey") if kx else "InsertedKeyIntoExistingDB"
                    else:
                        after, r = ((None, {KEY: VALUE}), "InsertedKeyIntoNewDB") if cr else (None, "UnableToFindDB")
                    yield ("add_kv", f"existing={ex} key={kx} overwrite={ow} create={cr}", dict(ex=ex, kx=kx, flags={"overwrite_key": ow, "create_new_database": cr}), after,
                           [("creation", r)])
            base = (EXISTING, {}) if ex else None
            e = [("error", "DatabaseNotFound")] if not ex else [("error", "KeyNotFound")] if not kx else [("status", 200)]
            yield "rm_key", f"existing={ex} key={kx}", dict(ex=ex, kx=kx), (EXISTING, {KEY: ABSENT}) if ex and kx else base, e
            yield "get_value", f"existing={ex} key={kx}", dict(ex=ex, kx=kx), base, ["stored value"] if ex and kx else e


def sweep(ctx, judge):
    hs = handlers(ctx)
    for op, label, sc, after, answers in scenarios():
        if op not in hs:
            continue
        parses = sc.pop("parses", None)

        def cfg(I):
            I.parses = parses

        def go():
            n = 0
            for I, st, v, cell in outcomes(ctx, hs[op], cfg=cfg, **sc):
                if isinstance(v, Stop) and v.kind in ("diverge",):
                    continue
                n += 1
                judge(op, label, sc, after, answers, I, st, v, cell, hs[op])
            if not n:
                ctx.ob(f"{op} {label}", None, "the request is answered", "no path")
        guard(ctx, f"{op} {label}", "the request does what was asked for", go)


def refused_name(ctx, I, st, v):
    return response(ctx, I, st, v) == ("error", "InvalidDatabaseName")
