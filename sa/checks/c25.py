"""C25: statuses mean the same on both sides."""
from net import *

STATUSES = (200, 201, 204, 400, 401, 404, 405, 409, 410, 413, 415, 422, 429, 500, 502, 503)


def one_status(ctx, I, v):
    """[(state, status)] of an error value's response"""
    return http(I, State(), ctx, v)


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("The conversion of every error kind into a response is interpreted, as is every client operation for each of a list of statuses; a request's outcome in the daemon is "
                       "answered by the daemon's code and the answer given to the client's code.")
    ctx.rule("absent database: 410; I/O failure: 5xx; request faults: 4xx other than 410; never a success status")
    ctx.rule("every client operation returns an error for every failure status, except an absent database on 410; 201 means created and 200 existing")
    ctx.floor = 5
    ctx.assumptions.append("reqwest and ureq report the status the daemon sent; ureq turns every status from 400 into its Status error")
    a = P.adts.get(SE)
    if not a:
        ctx.ob("anchor:" + SE, False, "the daemon's error type exists", "not found")
    else:
        for n, x in enumerate(a["v"]):
            def go(n=n, x=x):
                I = netinterp(ctx)
                fields = [T("sym", ("payload", i)) for i in range(len(x["f"]))]
                for st, (s, b) in one_status(ctx, I, Agg(SE, n, fields)):
                    key, desc = f"status of {x['n']}", "each error kind is answered with the class of status it means"
                    if not is_int(s):
                        ctx.ob(key, None, desc, f"{b}")
                    elif x["n"] == "DatabaseNotFound":
                        ctx.ob(key, s == 410, desc, f"a missing database is answered with {s}, not 410")
                    elif x["n"] == "IO":
                        ctx.ob(key, 500 <= s < 600, desc, f"an I/O failure is answered with {s}")
                    elif x["n"] in ("KeyNotFound", "StoreError", "ValueError", "InvalidDatabaseName", "IntegerSerError"):
                        ctx.ob(key, 400 <= s < 500 and s != 410, desc, f"a fault in the request is answered with {s}")
                    else:
                        ctx.ob(key, 400 <= s < 600, desc, f"an error is answered with {s}")
            guard(ctx, f"status of {x['n']}", "each error kind is answered with the class of status it means", go)
        for src, want in (("std::io::error::Error", "5xx"), ("core::io::error::Error", "5xx"), ("tokio::io::Error", "5xx"), ("sourisdb::store::StoreSerError", "4xx"),
                          ("sourisdb::values::ValueSerError", "4xx"), ("sourisdb::types::integer::IntegerSerError", "4xx")):
            f = P.fns.get(f"<{SE} as core::convert::From<{src}>>::from")
            if not f:
                continue

            def conv(f=f, src=src, want=want):
                I = netinterp(ctx)
                for st, v in I.run(f, [T("sym", "cause")]):
                    for st, (s, b) in http(I, st, ctx, v):
                        key, desc = f"status of a converted {src.rsplit('::', 1)[1]} ({src.split('::')[0]})", "an error keeps its meaning when converted"
                        ctx.ob(key, None if not is_int(s) else 500 <= s < 600 if want == "5xx" else 400 <= s < 500 and s != 410, desc, f"{src} is answered with {s}, expected {want}")
            guard(ctx, f"status of a converted {src}", "an error keeps its meaning when converted", conv)
    rj = "sourisdb::axum::SourisRejection"
    if rj in P.adts:
        for n, x in enumerate(P.adts[rj]["v"]):
            def go2(n=n, x=x):
                I = netinterp(ctx)
                I.models = dict(I.models)
                I.models["BytesRejection::status"] = lambda I, st, a, c: sc(413)
                for st, (s, b) in one_status(ctx, I, Agg(rj, n, [T("sym", "cause")])):
                    ctx.ob(f"status of rejection {x['n']}", None if not is_int(s) else 400 <= s < 500 and s != 410, "malformed request data is answered with a client error", f"answered with {s}")
            guard(ctx, f"status of rejection {x['n']}", "malformed request data is answered with a client error", go2)
    for adt in (SCL, ACL):
        side = adt.rsplit("::", 1)[1]
        for op in OPS:
            if f"{adt}::{op}" not in P.fns:
                ctx.ob(f"anchor:{side}::{op}", False, "the client operation exists", "not found")
                continue
            for s in STATUSES:
                def go3(adt=adt, op=op, s=s, side=side):
                    client_status(ctx, adt, op, s, side)
                guard(ctx, f"{side}::{op} on {s}", "clients act on statuses as the daemon means them", go3)
    #a missing database and the two ways of creating one, from the daemon's answer to the client's result
    hs = handlers(ctx)
    for op, hop in (("create_new_db", "add_db"), ("add_db_with_contents", "add_db_with_content"), ("get_store", "get_db"), ("remove_db", "remove_db"), ("remove_entry_from_db", "rm_key")):
        if hop not in hs:
            continue
        for ex in (0, 1):
            for ow in (0, 1):
                def go4(op=op, hop=hop, ex=ex, ow=ow):
                    whole(ctx, hs[hop], op, ex, ow)
                guard(ctx, f"{op} existing={ex} overwrite={ow}", "the client reports what the daemon did", go4)


def client_status(ctx, adt, op, s, side):
    key, desc = f"{side}::{op} on {s}", "clients act on statuses as the daemon means them"
    #the body is one that would parse, so that only the status can make the difference
    body = {"get_all_dbs": T("json", Seq((T("sym", "n1"),))), "add_entry_to_db": T("json", T("sym", "creation")), "get_store": sered(store(MapV(DB)))}.get(op, T("rspbody"))
    I = netinterp(ctx)
    I.transport_fails = False
    I.reply = (s, Seq([Chunk("blob", body)]))
    n = 0
    for st, v in call_client(I, State(), ctx, adt, op, {"overwrite": T("sym", "ow", "bool"), "create": T("sym", "cr", "bool")}):
        if isinstance(v, Stop):
            if v.kind == "panic" and s >= 300:
                ctx.ob(key, False, desc, f"panics on status {s}")
            elif s in (200, 201) and not (op in ("get_all_dbs", "get_store", "add_entry_to_db", "remove_db", "remove_entry_from_db", "new") and s == 201):
                ctx.ob(key, None, desc, v)
            continue
        v = I.deep(st, v)
        n += 1
        if s == 410 and op in ("get_store", "remove_db", "remove_entry_from_db"):
            absent = {"get_store": ok(NONE), "remove_db": ok(0), "remove_entry_from_db": ok(UNIT)}[op]
            ctx.ob(key, True if is_err(v) or v == absent else None if opaque(v) else False, desc, f"a missing database is reported as {v}")
        elif s >= 300:
            ctx.ob(key, is_err(v) if isinstance(v, Agg) and v.tag == RES else None, desc, f"status {s} gives {v}")
            if is_err(v):
                codes = [status_of(x) for x in aggs(v) if x.tag == SC]
                if codes:
                    ctx.ob(key + " (code)", codes == [s], "an error names the status that was received", f"status {s} gives {v}")
        elif op in ("create_new_db", "add_db_with_contents") and s in (200, 201):
            ctx.ob(key, None if opaque(v) else v == ok(int(s == 201)), desc, f"status {s} gives {v}; 201 means created, 200 existing")
        elif s == 200:
            want = {"get_all_dbs": ok(Seq((T("sym", "n1"),))), "add_entry_to_db": ok(T("sym", "creation")), "remove_entry_from_db": ok(UNIT)}.get(op)
            if op == "get_store":
                good = v in (ok(store(MapV(DB))), ok(some(store(MapV(DB)))))
            elif op == "remove_db":
                good = v in (ok(1), ok(UNIT))
            elif op == "new":
                good = is_ok(v)
            else:
                good = v == want
            ctx.ob(key, True if good else False if is_err(v) or not opaque(v) else None, desc, f"status 200 gives {v}")
        elif op == "new":
            ctx.ob(key, is_err(v), "a healthcheck that does not answer 200 means the daemon is not healthy", f"status {s} gives {v}")


def aggs(v):
    out, st = [], [v]
    while st:
        x = st.pop()
        if isinstance(x, Agg):
            out.append(x)
            st.extend(x.f)
    return out


def whole(ctx, hp, op, ex, ow):
    key, desc = f"{op} existing={ex} overwrite={ow}: daemon to client", "the client reports what the daemon did"
    for I, st, v, cell in outcomes(ctx, hp, ex=ex, kx=1, flags={"overwrite_existing": ow}, n=1, cfg=lambda I: setattr(I, "parses", 1)):
        if isinstance(v, Stop) or response(ctx, I, st, v) == ("error", "InvalidDatabaseName") or st.x.get("io"):
            continue
        if is_ok(v) and isinstance(v.f[0], T) and v.f[0].op == "cachedvalue":
            continue
        J = netinterp(ctx)
        for s2, (s, b) in http(J, st.copy(), ctx, v):
            if not is_int(s):
                ctx.ob(key, None, desc, b)
                continue
            for adt in (SCL, ACL):
                J = netinterp(ctx)
                J.transport_fails = False
                J.reply = (s, b)
                for s3, r in call_client(J, State(), ctx, adt, op, {"overwrite": ow}):
                    if isinstance(r, Stop):
                        ctx.ob(key, None if r.kind != "panic" else False, desc, f"the daemon answers {s}: {r}")
                        continue
                    r = J.deep(s3, r)
                    said = response(ctx, I, st, v)
                    if said and said[0] == "error":
                        good = is_err(r) or said[1] == "DatabaseNotFound" and r in (ok(NONE), ok(0))
                    elif op in ("create_new_db", "add_db_with_contents"):
                        good = r == ok(int(said[1] == 201 if said and said[0] == "status" and said[1] in (200, 201) else not ex))
                    else:
                        good = is_ok(r) and r not in (ok(NONE), ok(0))
                    if not good and op == "get_store" and ex and opaque(r):
                        good = None
                    if good is False and opaque(b) and op == "get_store" and ex:
                        good = None
                    ctx.ob(f"{key} ({adt.rsplit('::', 1)[1]})", good, desc, f"the daemon answers {s}, the client returns {r}")
