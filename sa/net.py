"""Models of the HTTP clients (reqwest, ureq), of query strings and of answers, and running a client against the daemon's handlers."""
from daemon import *
import re
import models2
from stdmodels import MODELS

CE = "sourisdb::client::ClientError"
ACL, SCL = "sourisdb::client::async_client::AsyncClient", "sourisdb::client::sync_client::SyncClient"
UERR = "ureq::error::Error"


def sc(n):
    return Agg(SC, 0, (Agg("core::num::nonzero::NonZero", 0, (Agg("core::num::niche_types::NonZeroU16Inner", 0, (n,)),)),))


# ---- requests ----------------------------------------------------------------------------------------------------------
# ("req", method, url, (query pairs), body or None)
def req_of(I, st, v):
    v = L(I, st, v)
    return v if isinstance(v, Agg) and v.tag == "req" else None


def methods_of(owner):
    for m in ("get", "post", "put", "delete", "patch", "head"):
        def f(I, st, a, c, m=m):
            return Agg("req", None, (T("method", m), as_str(I, st, a[1]), Seq(()), NONE))
        MODELS[f"{owner}::{m}"] = f


@model("Agent::request", "Client::request")
def m_request(I, st, a, c):
    m = I.deep(st, L(I, st, a[1]))
    n = m.const().lower() if isinstance(m, Str) and m.const() else None
    if n is None:
        s = repr(m)
        n = next((x for x in ("get", "post", "put", "delete", "patch", "head") if x.upper() in s or x.title() + "[" in s), None)
    return Agg("req", None, (T("method", n), as_str(I, st, a[2]), Seq(()), NONE))


methods_of("Agent")
methods_of("Client")


def pairs_of(I, st, v, ty=""):
    """the query parameters a value serialises to, or None"""
    flags = "bool" in ty and not any(re.search(r"\b%s\b" % t, ty) for t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"))
    v = I.deep(st, L(I, st, v))
    while isinstance(v, Ref):
        v = I.deep(st, L(I, st, v))
    if isinstance(v, Seq):
        out = []
        for x in v.items:
            x = I.deep(st, x)
            if not (isinstance(x, Agg) and len(x.f) == 2):
                return None
            out.append(tup(plain(I, st, x.f[0]), plain(I, st, x.f[1], flags)))
        return out
    if isinstance(v, MapV) and v.base is None:
        return [tup(plain(I, st, k), plain(I, st, x, flags)) for k, x in v.over]
    if isinstance(v, Agg) and v.tag in I.P.adts and I.P.adts[v.tag]["kind"] == "struct":
        ts = I.P.adts[v.tag]["types"]
        return [tup(Str((n,)), plain(I, st, x, ts[t]["s"] == "bool")) for (n, t), x in zip(I.P.adts[v.tag]["v"][0]["f"], v.f)]
    return None


def plain(I, st, v, flag=False):
    """a scalar as the text of a query parameter"""
    v = I.deep(st, L(I, st, v))
    if flag and v in (0, 1):
        return Str((("false", "true")[v],))
    if isinstance(v, Str):
        return v if len(v.parts) != 1 else Str((v.parts[0],))
    return Str((v,)) if not is_int(v) else Str((T("num", v),))


@model("RequestBuilder::query", "Request::query", "Request::query_pairs")
def m_query(I, st, a, c):
    r = req_of(I, st, a[0])
    if r is None:
        return None
    if c.key == "Request::query":
        new = [tup(plain(I, st, a[1]), plain(I, st, a[2]))]
    else:
        new = pairs_of(I, st, a[1], c.argtys[1]["s"] if len(c.argtys or ()) > 1 else "")
    if new is None:
        new = [T("queries", I.deep(st, L(I, st, a[1])))]
    return Agg("req", None, (r.f[0], r.f[1], Seq(list(r.f[2].items) + new), r.f[3]))


@model("RequestBuilder::body", "RequestBuilder::json")
def m_body(I, st, a, c):
    r = req_of(I, st, a[0])
    if r is None:
        return None
    return Agg("req", None, r.f[:3] + (some(body_of(I, st, a[1], c.key.endswith("json"))),))


def body_of(I, st, v, json=False):
    v = I.deep(st, L(I, st, v))
    while isinstance(v, Ref):
        v = I.deep(st, L(I, st, v))
    return Seq([Chunk("blob", T("json", v))]) if json else v


@model("RequestBuilder::header", "RequestBuilder::headers", "RequestBuilder::timeout", "RequestBuilder::version", "Request::set", "Request::timeout", "RequestBuilder::bearer_auth",
       "Client::builder", "RequestBuilder::basic_auth")
def m_req_same(I, st, a, c):
    return L(I, st, a[0]) if a else T("builder")


def send(I, st, r, c):
    """[(state, status | None for a transport failure)] with one SEND event each"""
    st.ev("SEND", r, c.span)
    n = sum(1 for e in st.events if e[0] == "SEND")
    out = []
    if getattr(I, "transport_fails", True):
        s = st.copy()
        s.x["transport"] = 1
        out.append((s, None))
    rep = getattr(I, "reply", None)
    out.append((st, rep(st, r, n) if callable(rep) else rep))
    return out


def rsp(status, body, n=0):
    return Agg("rsp", None, (status, body, n))


@model("RequestBuilder::send", "Client::execute")
def m_send(I, st, a, c):
    return future("send", do_send, a)


def do_send(I, st, a, c):
    r = req_of(I, st, a[-1])
    if r is None:
        return [(st, T("call", "send"))]
    out = []
    for s, p in send(I, st, r, c):
        out.append((s, err(T("reqwesterr", "transport")) if p is None else ok(rsp(*p))))
    return out


@model("Request::call", "Request::send_bytes", "Request::send_string", "Request::send_json", "Request::send")
def m_call(I, st, a, c):
    r = req_of(I, st, a[0])
    if r is None:
        return None
    n = c.key.split("::")[1]
    if n != "call":
        r = Agg("req", None, r.f[:3] + (some(body_of(I, st, a[1], n == "send_json")),))
    out = []
    vs, vt = I.P.variant(UERR, "Status"), I.P.variant(UERR, "Transport")
    for s, p in send(I, st, r, c):
        if p is None:
            out.append((s, err(Agg(UERR, vt, (T("transport"),)))))
        elif p[0] >= 400:
            out.append((s, err(Agg(UERR, vs, (p[0], rsp(*p))))))
        else:
            out.append((s, ok(rsp(*p))))
    return out


# ---- answers -----------------------------------------------------------------------------------------------------------
def rsp_of(I, st, v):
    v = L(I, st, v)
    while isinstance(v, Ref):
        v = L(I, st, v)
    return v if isinstance(v, Agg) and v.tag == "rsp" else None


@model("Response::status", "Error::status")
def m_status(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, T) and v.op == "reqwesterr":
        return some(sc(v.a[1])) if v.a[0] == "status" else NONE
    r = rsp_of(I, st, a[0])
    if r is None:
        return None
    return sc(r.f[0]) if "StatusCode" in c.dest_ty["s"] else r.f[0]


@model("StatusCode::as_u16")
def m_as_u16(I, st, a, c):
    return status_of(L(I, st, a[0]))


@model("StatusCode::from_u16")
def m_from_u16(I, st, a, c):
    v = L(I, st, a[0])
    return (ok(sc(v)) if 100 <= v < 1000 else err(T("invalidstatus"))) if is_int(v) else None


MODELS["http::status::StatusCode::try_from"] = m_from_u16


def m_sc_try(I, st, a, c):
    return m_from_u16(I, st, a, c)


def status_class(lo, hi):
    def f(I, st, a, c):
        v = status_of(L(I, st, a[0]))
        return int(lo <= v < hi) if is_int(v) else None
    return f


for n, lo, hi in (("is_success", 200, 300), ("is_client_error", 400, 500), ("is_server_error", 500, 600), ("is_redirection", 300, 400), ("is_informational", 100, 200)):
    MODELS["StatusCode::" + n] = status_class(lo, hi)


def m_sc_eq(neg):
    def f(I, st, a, c):
        x, y = (L(I, st, v) for v in a)
        while isinstance(x, Ref):
            x = L(I, st, x)
        while isinstance(y, Ref):
            y = L(I, st, y)
        x, y = status_of(x), status_of(y)
        return int((x == y) != neg) if is_int(x) and is_int(y) else None
    return f


@model("Response::error_for_status", "Response::error_for_status_ref")
def m_efs(I, st, a, c):
    r = rsp_of(I, st, a[0])
    if r is None or not is_int(r.f[0]):
        return None
    return err(T("reqwesterr", "status", r.f[0])) if 400 <= r.f[0] < 600 else ok(a[0] if c.key.endswith("ref") else r)


def reading(kind):
    def f(I, st, a, c):
        if "ureq" in c.target:
            return [(s, v) for s, v in read_body(I, st, a, c, kind)]
        return future("body " + kind, lambda I, st, a, c2: read_body(I, st, a, c, kind), a)
    return f


def read_body(I, st, a, c, kind):
    r = rsp_of(I, st, a[0])
    if r is None:
        return [(st, T("call", c.key))]
    out = []
    if getattr(I, "transport_fails", True):
        s = st.copy()
        s.x["transport"] = 1
        out.append((s, err(T("ioerr", "Other", "body", len(st.events)) if "ureq" in c.target else T("reqwesterr", "body"))))
    if kind == "bytes":
        out.append((st, ok(r.f[1])))
    else:
        out.extend(parse_json(I, st, r.f[1], "ioerr" if "ureq" in c.target else "reqwesterr"))
    return out


def parse_json(I, st, b, e):
    b = I.deep(st, b)
    if isinstance(b, Seq) and len(b.items) == 1 and isinstance(b.items[0], Chunk):
        b = b.items[0].x
    if isinstance(b, T) and b.op == "json":
        return [(st, ok(b.a[0]))]
    out = []
    bad = T("ioerr", "InvalidData", "json", len(st.events)) if e == "ioerr" else T(e, "decode")
    for s, k in I.decide(st, T("parsesjson", b)):
        out.append((s, ok(T("parsed", "json", b)) if k else err(bad)))
    return out


for n, k in (("bytes", "bytes"), ("json", "json"), ("text", "bytes"), ("into_json", "json"), ("into_string", "bytes")):
    MODELS["Response::" + n] = reading(k)


@model("Response::into_reader")
def m_into_reader(I, st, a, c):
    r = rsp_of(I, st, a[0])
    b = I.deep(st, r.f[1]) if r else None
    if isinstance(b, Seq) and len(b.items) == 1 and isinstance(b.items[0], Chunk):
        return Agg("file", None, (T("rspbody", b.items[0].x), "r", 0))
    return Agg("file", None, (T("rspbody", b), "r", 0))


_from_slice = {k: MODELS.get(k) for k in ("de::from_slice", "serde_json::from_slice", "de::from_str", "serde_json::from_str", "de::from_reader", "serde_json::from_reader")}


def m_from_slice(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    x = v.items[0].x if isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], Chunk) else v
    if getattr(I, "net", False) and "serde_json::value::Value" not in c.dest_ty["s"]:
        return parse_json(I, st, v, "serdeerr")
    o = _from_slice.get(c.key)
    return o(I, st, a, c) if o else None


for k in _from_slice:
    MODELS[k] = m_from_slice


# ---- clients -----------------------------------------------------------------------------------------------------------
def h_value_ser(I, st, a, c):
    v, t = I.deep(st, L(I, st, a[0])), I.deep(st, L(I, st, a[1]))
    return Seq([Chunk("blob", T("vser", v, t if isinstance(t, (T, Agg)) else T("tree")))])


def h_value_deser(I, st, a, c):
    cu = I.deep(st, L(I, st, a[0]))
    t = I.deep(st, L(I, st, a[1])) if len(a) > 1 else NONE
    for x in subterms(cu):
        if x.op == "vser":
            if x.a[1] == t or (x.a[1] == NONE) == (t == NONE):
                return ok(x.a[0])
            break
    n = T("sym", ("decoded", cu, t))
    out = []
    for s, b in I.decide(st, T("decodes", cu)):
        out.append((s, ok(n) if b else err(T("ValueSerError", cu))))
    return out


def net_hooks():
    h = daemon_hooks()
    h[VAL + "::ser"] = h_value_ser
    h[VAL + "::deser"] = h_value_deser
    h["<http::status::StatusCode as core::cmp::PartialEq>::eq"] = m_sc_eq(False)
    h["core::cmp::PartialEq::ne"] = lambda I, st, a, c: m_sc_eq(True)(I, st, a, c) if c.argtys and "StatusCode" in c.argtys[0]["s"] else None
    h["<http::status::StatusCode as core::convert::TryFrom<u16>>::try_from"] = m_sc_try
    return h


def netinterp(ctx, **kw):
    I = ctx.interp(net_hooks(), **kw)
    I.net, I.ctx = True, ctx
    I.opaque_max = 2
    I.mapval = lambda st, base, key: store(MapV(T("db", key))) if base is DB else T("get", base, key)
    I.fs = lambda st, p: p.parts[0].a[0] if isinstance(p, Str) and p.parts and isinstance(p.parts[0], T) and p.parts[0].op == "rspbody" else p.a[0] if isinstance(p, T) and p.op == "rspbody" else T("file", p)
    I.io_fail = lambda op, args, k: getattr(I, "transport_fails", True) and k == "Other"
    return I


HOST, PORT = T("sym", "host"), T("sym", "port", "u32")


def client_self(I, st, adt):
    a = I.P.adts.get(adt)
    if a is None:
        return None
    f = []
    for n, t in a["v"][0]["f"]:
        ty = a["types"][t]["s"]
        f.append(Str((HOST,)) if "String" in ty or "str" in ty else PORT if ty == "u32" else T("httpclient"))
    return Agg(adt, 0, f)


UP = store(MapV(T("sym", "uploaded")))
OPS = {
    "new": [("path", Str((HOST,))), ("port", PORT)],
    "get_all_dbs": [],
    "create_new_db": [("overwrite", None), ("name", Str((NAME,)))],
    "get_store": [("name", Str((NAME,)))],
    "add_db_with_contents": [("overwrite", None), ("name", Str((NAME,))), ("store", UP)],
    "add_entry_to_db": [("name", Str((NAME,))), ("create", None), ("overwrite", None), ("key", Str((KEY,))), ("value", VALUE)],
    "remove_entry_from_db": [("name", Str((NAME,))), ("key", Str((KEY,)))],
    "remove_db": [("name", Str((NAME,)))],
}


def call_client(I, st, ctx, adt, op, flags):
    """[(state, result)] of one client operation; flags give the boolean arguments by name"""
    fn = ctx.P.fns.get(f"{adt}::{op}")
    if fn is None:
        return None
    args = []
    if op != "new":
        args.append(client_self(I, st, adt))
    for n, v in OPS[op]:
        args.append(flags[n] if v is None else v)
    b = fn.j["body"]
    if b["argc"] != len(args):
        raise ValueError(f"{op} takes {b['argc']} arguments")
    if op == "new" and adt == ACL:
        args[1] = some(PORT)
    out = []

    class FC:
        frame = None
        span = fn.span
    for s, v in I.run(fn, args, st):
        if isinstance(v, Stop):
            out.append((s, v))
        elif isinstance(v, Agg) and (v.tag.startswith("coroutine:") or v.tag == "future"):
            out.extend(run_future(I, s, v, FC))
        else:
            out.append((s, v))
        ctx.paths += 1
    return out


def sent(st):
    return [e[1] for e in st.events if e[0] == "SEND"]


def split_url(I, st, r):
    """(authority parts, path text or None, query pairs) of a request"""
    u = r.f[1]
    pairs = list(r.f[2].items)
    parts = list(u.parts)
    i = next((i for i in range(len(parts) - 1, -1, -1) if isinstance(parts[i], str) and "/" in parts[i].replace("://", "")), None)
    #the path starts at the first '/' after the authority
    text = "".join(p if isinstance(p, str) else "\0" for p in parts)
    if "://" not in text:
        return None, None, pairs
    j = text.find("/", text.index("://") + 3)
    auth, path = (text[:j], text[j:]) if j >= 0 else (text, "/")
    if "?" in path:
        path, q = path.split("?", 1)
        k = auth.count("\0") + path.count("\0")
        op = [p for p in parts if not isinstance(p, str)][k:]
        for x in q.split("&"):
            n, _, w = x.partition("=")
            v = []
            for ch in w.split("\0"):
                v.append(ch)
                v.append(None)
            v.pop()
            v = [p if p is not None else T("raw", op.pop(0)) for p in v]
            pairs.insert(0, tup(Str((n,)), Str(v)))
    return auth, (path if "\0" not in path else None), pairs


# ---- query strings and answers -----------------------------------------------------------------------------------------
def build_query(I, st, ctx, adt, pairs):
    """[(state, struct or None when the daemon refuses the query)] by interpreting the struct's own Deserialize implementation"""
    vis = {}
    for p, f in ctx.P.fns.items():
        if f"for {adt}>::deserialize::" in p:
            if p.endswith("Visitor<'de>>::visit_map") or "__Visitor<'de> as serde::de::Visitor<'de>>::visit_map" in p or p.endswith("::visit_map"):
                vis["map"] = f
            if "__FieldVisitor" in p and p.endswith("::visit_str"):
                vis["str"] = f
    if len(vis) != 2:
        return None
    cell = I.cell(st, Seq(pairs))
    cur = I.cell(st, NONE)

    def next_key(I, st, a, c):
        q = I.load_loc(st, cell, ())
        if not q.items:
            return ok(NONE)
        x = q.items[0]
        I.store(st, Ref(cell), Seq(q.items[1:]))
        I.store(st, Ref(cur), x.f[1])
        out = []
        for s, r in I.run(vis["str"], [T("visitor"), x.f[0]], st):
            if is_ok(r):
                out.append((s, ok(some(r.f[0]))))
            else:
                out.append((s, r))
        return out

    def next_value(I, st, a, c):
        v = I.load_loc(st, cur, ())
        t = c.dest_ty["s"]
        inner = t[len("core::result::Result<"):] if t.startswith("core::result::Result<") else t
        opt = inner.startswith("core::option::Option<")
        if opt:
            inner = inner[len("core::option::Option<"):]
        x = None
        if inner.startswith("bool"):
            k = v.const()
            if k in ("true", "false"):
                x = int(k == "true")
            elif k is not None:
                return err(T("serde", "bool"))
        elif inner.startswith("alloc::string::String"):
            x = v
            while isinstance(x, Str) and len(x.parts) == 1 and isinstance(x.parts[0], Str):
                x = x.parts[0]
            if isinstance(x, Str) and len(x.parts) == 1 and not isinstance(x.parts[0], str):
                x = x.parts[0]
        if x is None:
            x = T("queryvalue", inner, v)
        return ok(some(x) if opt else x)
    old = dict(I.hooks)
    for k in ("serde::de::MapAccess::next_key", "serde::de::MapAccess::next_value"):
        I.hooks[k] = {"y": next_key, "e": next_value}[k[-1]]
    for m in ("missing_field", "duplicate_field", "unknown_field", "custom", "invalid_length"):
        MODELS.setdefault("Error::" + m, lambda I, st, a, c: T("serde", "error"))
    I.hooks["serde::private::de::missing_field"] = I.hooks["serde::__private::de::missing_field"] = lambda I, st, a, c: err(T("serde", "missing"))
    try:
        r = I.run(vis["map"], [T("visitor"), T("mapaccess")], st)
    finally:
        I.hooks = old
    return r


def http(I, st, ctx, v, depth=0):
    """[(state, (status, body))] that axum answers for a handler's result"""
    v = I.deep(st, v)
    empty = Seq(())
    if isinstance(v, Agg) and v.tag == "rsp":
        return [(st, v.f[:2])]
    if isinstance(v, Agg) and v.tag == RES:
        return http(I, st, ctx, v.f[0], depth)
    if isinstance(v, Agg) and v.tag == SC:
        return [(st, (status_of(v), empty))]
    if isinstance(v, Agg) and v.tag.endswith("::Json") and len(v.f) == 1:
        return [(st, (200, Seq([Chunk("blob", T("json", v.f[0]))])))]
    if v == UNIT:
        return [(st, (200, empty))]
    if isinstance(v, Agg) and v.tag == "tuple" and v.f:
        if isinstance(v.f[0], Agg) and v.f[0].tag == SC:
            return [(s, (status_of(v.f[0]), b)) for s, (n, b) in http(I, st, ctx, v.f[-1], depth)]
        return http(I, st, ctx, v.f[-1], depth)
    if isinstance(v, (Seq, Str)):
        return [(st, (200, v))]
    for t in ([v.tag] if isinstance(v, Agg) else []) + ([VAL] if v == VALUE or isinstance(v, T) and v.op == "get" else []):
        fn = ctx.P.fns.get(f"<{t} as axum_core::response::into_response::IntoResponse>::into_response")
        if fn and depth < 4:
            out = []
            for s, r in I.run(fn, [v], st):
                if isinstance(r, Stop):
                    out.append((s, (None, r)))
                else:
                    out.extend(http(I, s, ctx, r, depth + 1))
            return out
    return [(st, (None, v))]


@model("IntoResponse::into_response")
def m_into_response(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    return [(s, rsp(n, b)) for s, (n, b) in http(I, st, I.ctx, v)]

