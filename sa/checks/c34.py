"""C34: the command-line tool exports, imports and shows all of what was chosen, and says so when something failed."""
from mousefn import *
from c27 import NAMES, plain, history

FAILS = ("LISTERR", "GETERR", "ASKERR", "PARSEERR", "CHANGEERR")


def failures(st):
    return [e for e in st.events if e[0] in FAILS or e[0] == "FS" and e[2] is not None]


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("fun_main is interpreted for every command, with every request, prompt, file operation and conversion succeeding and failing; files are read in two pieces. What is written, "
                       "sent and printed is compared with what was chosen, and the result with whether anything failed. main is interpreted with both results of fun_main.")
    ctx.rule("an export writes to the file named the JSON of exactly the database chosen, with the types asked for, and creates no file when there is no JSON")
    ctx.rule("an import stores what the whole content of the file named describes; showing prints the database chosen")
    ctx.rule("a failed request, prompt, file operation or parse makes fun_main fail, and main ends with a status other than zero then, and with zero otherwise")
    ctx.floor = 8
    ctx.assumptions.append("Store's conversions to and from JSON are units here (C13, C14)")
    if not ctx.need(MAIN, PICKV, "mouse::main") or not all(x in P.adts for x in ("mouse::Commands", "mouse::Arguments")):
        return
    for v in commands(P):
        cmd, fields = v["n"], [n for n, _ in v["f"]]
        for n in (0, 1, 2):
            guard(ctx, f"{cmd}, {n} databases", "the command can be followed", lambda cmd=cmd, fields=fields, n=n: command(ctx, cmd, fields, NAMES[:n]))
    guard(ctx, "status", "the exit status can be followed", lambda: status(ctx))


def command(ctx, cmd, fields, names):
    I, store = machine(ctx, names, can_fail=True)
    I.prompt_errors = True
    I.maxask = 4
    I.max_paths = 3000
    I.answers = lambda I, st, n, p, ty: [Str((names[0] if names else "fresh",)), Str(("fresh",))] if "name" in str(plain(p.f[0])).lower() else None
    fl = {n: Str(("fresh",)) if n == "db_name" else T("sym", n, "bool") if "types" in n else T("sym", n) for n in fields}
    done = 0
    for st, v in I.run(MAIN, [start(ctx.program(), cmd, fl)], State()):
        ctx.paths += 1
        ctx.current[0] = st
        h = history(st)
        if isinstance(v, Stop):
            continue
        v = I.deep(st, v)
        if not (isinstance(v, Agg) and v.tag == RES):
            ctx.ob(f"{cmd}: result", None, "the result is known", v)
            continue
        bad = failures(st)
        if bad:
            ctx.ob(f"{cmd}: failure", v.var == 1, "a failure is reported", f"{[x[0] if x[0] != 'FS' else x[1][0] + ' failed' for x in bad]}, but it ends well: {h}")
            if v.var == 0:
                continue
        if v.var == 1:
            ctx.ob(f"{cmd}: success", bool(bad) or "NoDatabases" in variant(ctx, v) or None, "it fails only when something failed", f"{short(v)}: {h}")
            continue
        done += 1
        if cmd == "ExportToJSON":
            export(ctx, st, fl, h, store)
        elif cmd == "ImportFromJSON":
            imported(ctx, st, fl, h)
        elif cmd in ("ViewAll", "DebugViewAll"):
            shown(ctx, st, cmd, h, store)
    ctx.current[0] = None


def variant(ctx, v):
    e = v.f[0]
    return ctx.program().adts[e.tag]["v"][e.var]["n"] if isinstance(e, Agg) and e.tag in ctx.program().adts else ""


def picked(st):
    p = [e for e in st.events if e[0] == "ASK" and e[2] in ("FuzzySelect", "Select") and isinstance(e[4], Seq) and e[4].items]
    return plain(p[-1][4].items[p[-1][5]]) if p else NAMES[0]


def export(ctx, st, fl, h, store):
    key, ev = "ExportToJSON: ", st.events
    js = [e for e in ev if e[0] == "TOJSON"]
    none = any(e[0] == "JSONNONE" for e in ev)
    w = [e for e in ev if e[0] == "FS" and e[1][0] == "write"]
    cr = [e for e in ev if e[0] == "FS" and e[1][0] in ("create", "openw")]
    if none:
        ctx.ob(key + "nothing to write", not w and not cr, "no file is created or emptied when there is no JSON to write", f"{[e[1] for e in cr + w]}")
        return
    g = [e for e in ev if e[0] == "GET"]
    ctx.ob(key + "database", bool(g) and plain(g[-1][1]) == picked(st), "the database exported is the one chosen", h)
    if len(js) != 1:
        ctx.ob(key + "conversion", None, "the store is converted once", [e[:2] for e in js])
        return
    ctx.ob(key + "whole store", js[0][1] == store, "the store converted is the one received", short(js[0][1]))
    types = next((v for n, v in fl.items() if "types" in n), None)
    ctx.ob(key + "types", js[0][2] == types if types is not None else None, "type annotations are added exactly when asked for", short(js[0][2]))
    loc = next((v for n, v in fl.items() if "location" in n), None)
    text = T("json", js[0][1], js[0][2])
    ctx.ob(key + "written", len(w) >= 1, "the JSON is written", h or "nothing is written")
    if len(w) == 1:
        d = w[0][1][-1]
        r = rendered(d)
        ctx.ob(key + "contents", None if len(r) != 1 else r[0] == text, "what is written is all of the JSON", short(d))
        p = w[0][1][1]
        p = p.f[0] if isinstance(p, Agg) and p.tag == "file" else p
        p = p.parts[0] if isinstance(p, Str) and len(p.parts) == 1 else p
        ctx.ob(key + "file", p == loc, "the file written is the one named", short(p))


def rendered(v):
    """the values whose JSON text is in v"""
    if isinstance(v, T) and v.op == "json" and len(v.a) > 1 and isinstance(v.a[1], str):
        return [v.a[0]]
    k = v.a if isinstance(v, T) else v.f if isinstance(v, Agg) else v.items if isinstance(v, Seq) else v.parts if isinstance(v, Str) else (v.x,) if isinstance(v, Chunk) else ()
    return [x for y in k for x in rendered(y)]


def contains(v, x):
    if v == x:
        return True
    k = v.a if isinstance(v, T) else v.f if isinstance(v, Agg) else v.items if isinstance(v, Seq) else v.parts if isinstance(v, Str) else (v.x,) if isinstance(v, Chunk) else v if isinstance(v, tuple) else ()
    return any(contains(y, x) for y in k)


def imported(ctx, st, fl, h):
    key, ev = "ImportFromJSON: ", st.events
    ch = [e for e in ev if e[0] == "CHANGE"]
    pr = [e for e in ev if e[0] == "PARSE"]
    loc = next((v for n, v in fl.items() if "location" in n), None)
    if not ch or not pr:
        ctx.ob(key + "sent", None, "what is parsed is sent", h)
        return
    d = pr[-1][1]
    ctx.ob(key + "contents", ch[-1][2].get("store") == T("parsed", d), "what is sent is what was parsed", h)
    if isinstance(d, Seq) and all(isinstance(c, Chunk) for c in d.items):
        x = [c.x for c in d.items]
        body = T("content", Str((loc,)))
        if all(isinstance(y, T) and y.op == "part" for y in x):
            ctx.ob(key + "whole file", x == [T("part", body, i) for i in range(2)], "all of the file named is parsed", short(d))
        else:
            ctx.ob(key + "whole file", True if x == [body] else False if any(isinstance(y, Agg) and y.tag == "readbuf" for y in x) else None, "all of the file named is parsed", short(d))
    else:
        ctx.ob(key + "whole file", contains(d, loc) and not contains(d, T("part", T("content", Str((loc,))), 0)) or None, "all of the file named is parsed", short(d))


def shown(ctx, st, cmd, h, store):
    g = [e for e in st.events if e[0] == "GET"]
    pr = [e for e in st.events if e[0] == "print"]
    ctx.ob(f"{cmd}: database", bool(g) and plain(g[-1][1]) == picked(st), "the database shown is the one chosen", h)
    ctx.ob(f"{cmd}: shown", any(contains(e[1], store) for e in pr) or (False if not pr else None), "all of it is printed", [short(e[1]) for e in pr])


def status(ctx):
    I = ctx.interp({MAIN: lambda I, st, a, c: [(mark(st.copy(), "BAD"), err(T("failure"))), (mark(st, "GOOD"), ok(UNIT))]})
    for st, v in I.run("mouse::main", [], State()):
        ctx.paths += 1
        bad = any(e[0] == "BAD" for e in st.events)
        if not bad and not any(e[0] == "GOOD" for e in st.events):
            continue
        ex = next((e for e in st.events if e[0] == "call" and e[1] == "process::exit"), None)
        code = ex[2][0] if ex and ex[2] else None
        if code is None and not isinstance(v, Stop):
            v = I.deep(st, v)
            if isinstance(v, Agg) and v.tag == RES:
                code = v.var
            elif v == UNIT:
                code = 0
        if code is None and isinstance(v, Stop) and v.kind == "panic":
            code = 101
        ctx.ob("status on " + ("failure" if bad else "success"), None if not is_int(code) else (code != 0) == bad, "the exit status tells whether the command failed", f"status {code}")


def mark(st, what):
    st.ev(what)
    return st
