"""C24: the clients' requests are what the daemon's routes take, and do there what was asked for."""
from net import *
from optable import EXISTING


def flags_of(op):
    n = [x for x, v in OPS[op] if v is None]
    out = [{}]
    for x in n:
        out = [dict(d, **{x: b}) for d in out for b in (0, 1)]
    return out


def expected(op, fl, ex, kx):
    """contents of the database afterwards"""
    base = (EXISTING, {}) if ex else None
    if op == "create_new_db":
        return (None, {}) if not ex or fl["overwrite"] else base
    if op == "add_db_with_contents":
        return (None if not ex or fl["overwrite"] else EXISTING, {T("sym", "k0"): T("sym", "v0")})
    if op == "add_entry_to_db":
        if ex:
            return (EXISTING, {KEY: VALUE} if not kx or fl["overwrite"] else {})
        return (None, {KEY: VALUE}) if fl["create"] else None
    if op == "remove_entry_from_db":
        return (EXISTING, {KEY: ABSENT}) if ex and kx else base
    if op == "remove_db":
        return None
    return base


#the handler behind each operation and the role of each parameter, to tell a wrong request from a wrong answer to a right one
HANDLER = {"create_new_db": "add_db", "add_db_with_contents": "add_db_with_content", "add_entry_to_db": "add_kv", "remove_entry_from_db": "rm_key", "remove_db": "remove_db", "get_store": "get_db"}
_ref = {}


def reference(ctx, op, fl, ex, kx):
    """what the daemon does when its own handler for the operation gets exactly what the operation was called with"""
    k = (op, tuple(sorted(fl.items())), ex, kx)
    if k not in _ref:
        _ref[k] = out = []
        h = next((h for n, h in handlers(ctx).items() if n == HANDLER.get(op)), None)
        if h is None:
            return out
        fl2 = {}
        for n in ("overwrite_existing", "overwrite_key"):
            if "overwrite" in fl:
                fl2[n] = fl["overwrite"]
        if "create" in fl:
            fl2["create_new_database"] = fl["create"]

        def cfg(I):
            I.parses = 1
        for I, st, v, cell in outcomes(ctx, h, ex=ex, kx=kx, flags=fl2, n=1, cfg=cfg):
            if not isinstance(v, Stop):
                r = response(ctx, I, st, v)
                if r and r[0] == "error" and (r[1] == "InvalidDatabaseName" or st.x.get("io")):
                    continue
                out.append(db_after(I, st, cell, NAME, ex))
    return _ref[k]


UPLOAD = store(MapV(None, [(T("sym", "k0"), T("sym", "v0"))]))


def unwrap_str(x):
    while isinstance(x, Str) and len(x.parts) == 1 and not isinstance(x.parts[0], str):
        x = x.parts[0]
    return x


def run(ctx):
    ctx.program()
    ctx.explanation = ("The router is obtained by interpreting main, each client operation is interpreted up to the request it sends, the request's query is fed to the Deserialize implementation of the "
                       "route's query type, its body to the route's extractor, and the handler is interpreted on the result; its effect on the databases is compared with the operation's meaning.")
    ctx.rule("method and path are those of a route; the query deserialises; the body is decoded by the format it was written in; the handler then does what the client's operation is for")
    ctx.floor = 5
    ctx.assumptions.append("query values given to the HTTP libraries' query functions are percent-encoded by them and decoded by axum")
    rs = routes(ctx)
    if not rs:
        for op in OPS:
            ctx.ob(f"{op}: route", None, "the router can be read", "main could not be followed to the router")
        return
    ctx.stats["routes"] = [f"{m} {p} {h}" for p, m, h in rs]
    for adt in (SCL, ACL):
        side = adt.rsplit("::", 1)[1]
        for op in OPS:
            if f"{adt}::{op}" not in ctx.P.fns:
                ctx.ob(f"anchor:{side}::{op}", False, "the client operation exists", "not found")
                continue
            for fl in flags_of(op):
                label = f"{side}::{op}" + "".join(f" {k}={v}" for k, v in fl.items())

                def go(adt=adt, op=op, fl=fl, label=label):
                    one(ctx, adt, op, fl, label, rs)
                guard(ctx, label, "the client's request is served by the daemon", go)


def one(ctx, adt, op, fl, label, rs):
    I = netinterp(ctx)
    I.transport_fails = False
    I.reply = (200, Seq([Chunk("blob", T("rspbody"))]))
    import net
    old = net.UP
    seen = set()
    try:
        net.OPS["add_db_with_contents"][2] = ("store", UPLOAD)
        res = call_client(I, State(), ctx, adt, op, fl)
    finally:
        net.OPS["add_db_with_contents"][2] = ("store", old)
    if not res:
        ctx.ob(label, None, "a request is sent", "no path")
    for st, v in res:
        q = sent(st)
        if not q:
            if isinstance(v, Stop) and v.kind == "diverge":
                continue
            ctx.ob(label + ": sends", None if isinstance(v, Stop) or not is_ok(v) else False, "every operation sends its request", f"{v}")
            continue
        ctx.ob(label + ": one request", len(q) == 1, "an operation is one request", f"sends {[split_url(I, st, r)[1] for r in q]}")
        for r in q:
            if r in seen:
                continue
            seen.add(r)
            request(ctx, I, st, op, fl, label, r, rs)


def request(ctx, I, st, op, fl, label, r, rs):
    m = r.f[0].a[0]
    auth, path, pairs = split_url(I, st, r)
    if path is None or m is None:
        return ctx.ob(label + ": route", None, "method and path are those of a route", f"{r}")
    ctx.ob(label + ": address", auth == "http://\0:\0" if auth else None, "requests go to the host and port the client was made for", f"{r.f[1]}")
    hosts = [p for p in r.f[1].parts if not isinstance(p, str)]
    ctx.ob(label + ": host", True if len(hosts) >= 2 and hosts[0] == HOST and (hosts[1] == PORT or PORT in list(subterms(hosts[1]))) else None, "requests go to the host and port the client was made for", f"{hosts}")
    hp = [h for p, mm, h in rs if p == path and (mm == m or mm == "any")]
    if not hp:
        known = [h for p, mm, h in rs if p == path]
        if any("\0" in str(x) for x in (path,)) or not all(isinstance(p, str) for p, _, _ in rs):
            return ctx.ob(label + ": route", None, "method and path are those of a route", f"{m} {path}")
        return ctx.ob(label + ": route", False, "method and path are those of a route", f"the client sends {m} {path}; " + ("the route has another method" if known else "there is no such route"))
    ctx.ob(label + ": route", True, "method and path are those of a route")
    hp = hp[0]
    if op == "new":
        return
    if hp not in ctx.P.fns:
        return ctx.ob(label + ": effect", None, "the handler can be followed", hp)
    raw = [x for x in pairs if any(t.op == "raw" and t.a[0] in (NAME, KEY) for t in subterms(x))]
    ctx.ob(label + ": encoding", not raw, "names and keys are percent-encoded in the query", f"{raw} is put into the URL as it is")
    body = None
    if r.f[3].var == 1:
        body = r.f[3].f[0]
    for ex in (0, 1):
        for kx in ((0, 1) if ex and op in ("add_entry_to_db", "remove_entry_from_db") else (0,)):
            serve(ctx, op, fl, f"{label}: effect existing={ex} key={kx}", hp, pairs, body, ex, kx)


def serve(ctx, op, fl, key, hp, pairs, body, ex, kx):
    """the handler run on a request"""
    desc = "the request does in the daemon what the client's operation is for"
    I = netinterp(ctx)
    st = State()
    sv, cell = state(I, st, ctx, None)
    if sv is None:
        return ctx.ob(key, None, desc, "the fields of SourisState are not recognised")
    for t, b in ((T("has", DB, NAME), ex), (T("has", T("db", NAME), KEY), kx)):
        I.assume(st, t, b)
        st.bt[t] = b
    fn = ctx.P.fns[hp]
    b = fn.j["body"]
    argstates = [(st, [])]
    for i in range(b["argc"]):
        t = fn.types[b["locals"][i + 1][0]]
        s = t["s"]
        nxt = []
        for s0, args in argstates:
            if s.startswith(("axum::extract::query::Query<", "axum::extract::Query<")):
                inner = fn.types[t["a"][0]]["p"]
                rr = build_query(I, s0, ctx, inner, pairs)
                if rr is None:
                    return ctx.ob(key, None, desc, f"the query type {inner} is not understood")
                for s1, v in rr:
                    v = v if isinstance(v, Stop) else I.deep(s1, v)
                    if isinstance(v, Stop) or not isinstance(v, Agg) or v.tag != RES:
                        ctx.ob(key, None, desc, f"{v}")
                    elif v.var == 1:
                        ctx.ob(key, False, desc, f"the daemon refuses the query {[tuple(x.f) for x in pairs]} of the client: {inner} does not deserialise from it ({v.f[0]})")
                    else:
                        nxt.append((s1, args + [Agg(t["p"], 0, (v.f[0],))]))
            elif s == "bytes::bytes::Bytes":
                if body is None:
                    nxt.append((s0, args + [Seq(())]))
                else:
                    nxt.append((s0, args + [body]))
            elif s in (VAL, STORE):
                f = next((f for p, f in ctx.P.fns.items() if "FromRequest<" in p and (f" for {s}>" in p or p.startswith(f"<{s} as ")) and p.endswith("::from_request")), None)
                if f is None:
                    return ctx.ob(key, None, desc, f"the extractor of {s} is not understood")
                I.models = dict(I.models)
                I.hooks["axum_core::extract::FromRequest::from_request"] = lambda I, st, a, c: future("bytes", lambda I, st, a, c: ok(body if body is not None else Seq(())), [])
                I.models["Bytes::from_request"] = I.models["FromRequest::from_request"] = I.hooks["axum_core::extract::FromRequest::from_request"]
                I.hooks["axum_core::extract::request_parts::<impl axum_core::extract::FromRequest<S> for bytes::bytes::Bytes>::from_request"] = I.models["FromRequest::from_request"]
                for s1, v in run_handler(I, s0, ctx, f.path, [T("request"), T("state")]):
                    v = v if isinstance(v, Stop) else I.deep(s1, v)
                    if isinstance(v, Stop) or not isinstance(v, Agg) or v.tag != RES:
                        ctx.ob(key, None, desc, f"extractor: {v}")
                    elif v.var == 1:
                        ctx.ob(key, False, desc, f"the daemon cannot decode the body the client sends: {body} gives {v.f[0]}")
                    else:
                        nxt.append((s1, args + [v.f[0]]))
            else:
                nxt.append((s0, args + [extractor(I, s0, ctx, fn, b["locals"][i + 1][0], sv)]))
        argstates = nxt
    want = expected(op, fl, ex, kx)
    for s0, args in argstates:
        for s1, v in run_handler(I, s0, ctx, hp, args):
            ctx.paths += 1
            if isinstance(v, Stop):
                ctx.ob(key, None, desc, v)
                continue
            r = response(ctx, I, s1, v)
            if r and r[0] == "error" and (r[1] == "InvalidDatabaseName" or s1.x.get("io")):
                continue
            if op == "get_all_dbs":
                ctx.ob(key, None if r is None else r[0] in ("json", "value"), desc, f"{r}")
                continue
            if op == "get_store" and ex:
                good = r and r[0] == "value" and (r[1] == Seq([Chunk("blob", sered(store(MapV(EXISTING))))]) or r[1] == T("cachedvalue", NAME))
                ctx.ob(key, True if good else None if r and r[0] == "value" and opaque(r[1]) else False, desc, f"answers {r}")
                continue
            if op == "get_store" and r == ("value", T("cachedvalue", NAME)):
                continue
            got, others = db_after(I, s1, cell, NAME, ex)
            if isinstance(got, tuple) and got[0] == "opaque":
                ctx.ob(key, None, desc, f"{got}")
                continue
            if got == want and not others:
                ctx.ob(key, True, desc)
            elif any(opaque(x) for _, x in others) or got is not None and (opaque(got[0]) or any(opaque(x) for kv in got[1].items() for x in kv if isinstance(x, (T, Agg)))):
                ctx.ob(key, None, desc, f"leaves {got} and changes {others}")
            elif (got, others) in reference(ctx, op, fl, ex, kx):
                #the request is the right one, what the daemon makes of it is for C15 and C16
                ctx.ob(key, True, desc)
            else:
                ctx.ob(key, False, desc, f"the database holds {got} afterwards, expected {want}; other databases changed: {others}")
