"""C16: what each request answers."""
from optable import *


def run(ctx):
    ctx.program()
    ctx.explanation = ("Every handler registered with the router is interpreted for each combination of existing/absent database, existing/absent key and request flags; the answer on "
                       "every path (status, outcome, error kind or contents) is compared with the case that occurred.")
    ctx.rule("created exactly when absent before, existing when present; each insertion outcome names its case; not-found exactly when the database or key is absent")
    ctx.floor = 5

    def judge(op, label, sc, after, answers, I, st, v, cell, hp):
        key, desc = f"{op} {label}", "the answer names the case that occurred"
        r = response(ctx, I, st, v)
        if r is None:
            return ctx.ob(key, None, desc, v)
        if r == ("error", "InvalidDatabaseName"):
            #only a name can be the reason
            return ctx.ob(key + " name refused", op in ("add_db", "add_db_with_content", "add_kv") if not sc["ex"] or op != "add_kv" else None,
                          "only requests that can create a database refuse names", f"{hp}: {r}")
        if r in answers:
            if r == ("error", "IO"):
                return ctx.ob(key, bool(st.x.get("io")), desc, "an I/O error is answered although no operation failed")
            return ctx.ob(key, True, desc)
        if answers[0] == "contents":
            want = Seq([Chunk("blob", sered(store(MapV(EXISTING))))])
            good = r[0] == "value" and (r[1] == want or r[1] == T("cachedvalue", NAME))
            return ctx.ob(key, True if good else None if opaque(r[1]) and r[0] == "value" else False, desc, f"{hp} answers {r}")
        if answers[0] == "stored value":
            good = r[0] == "value" and r[1] == T("get", EXISTING, KEY)
            return ctx.ob(key, True if good else None if opaque(r[1]) and r[0] == "value" else False, desc, f"{hp} answers {r}")
        if op == "get_db" and r == ("value", T("cachedvalue", NAME)):
            #whether a cached copy can be out of date is C17's subject
            return
        ctx.ob(key, False, desc, f"{hp} answers {r}, expected {answers}")
    sweep(ctx, judge)
    hs = handlers(ctx)

    def names():
        n1, n2 = T("sym", "name1"), T("sym", "name2")
        for k in range(3):
            es = [(n1, store(MapV(T("db", n1)))), (n2, store(MapV(T("db", n2))))][:k]
            for I, st, v, cell in outcomes(ctx, hs["get_all_dbs"], dbs=MapV(None, es)):
                r = response(ctx, I, st, v)
                if r is None or not isinstance(r[1], Seq):
                    ctx.ob(f"get_all_dbs {k}", None if r is None or r[0] != "error" else False, "the names of all databases are listed", v)
                    continue
                got, want = sorted(map(repr, r[1].items)), sorted(repr(a) for a, _ in es)
                ctx.ob(f"get_all_dbs {k}", got == want if not any(opaque(x) for x in r[1].items) else None, "the names of all databases are listed", f"{got}, expected {want}")
    if "get_all_dbs" in hs:
        guard(ctx, "get_all_dbs", "the names of all databases are listed", names)
