"""Running the command-line tool's main function against a daemon whose databases are known and whose answers are units."""
from prompts import *

MAIN = "mouse::fun_main"
SCL = "sourisdb::client::sync_client::SyncClient"
PICKV = "mouse::value_utils::get_value_from_stdin"
CHANGES = {  #operation: the roles of its arguments
    "create_new_db": ("overwrite", "db"),
    "add_db_with_contents": ("overwrite", "db", "store"),
    "add_entry_to_db": ("db", "create", "overwrite", "key", "value"),
    "remove_entry_from_db": ("db", "key"),
    "remove_db": ("db",),
}
#the parameter names that stand for each role, so that a reordered signature is followed
ROLES = {"overwrite_existing": "overwrite", "overwrite_existing_key": "overwrite", "overwrite_key": "overwrite", "create_new_database_if_needed": "create",
         "create_new_database": "create", "name": "db", "db_name": "db", "database_name": "db", "key": "key", "value": "value", "store": "store", "contents": "store"}


def unref(I, st, v):
    v = I.deep(st, L(I, st, v))
    while isinstance(v, Ref):
        v = I.deep(st, L(I, st, v))
    if isinstance(v, Str) and len(v.parts) == 1 and not isinstance(v.parts[0], str):
        v = v.parts[0]
    return v


def roles(P, fn):
    """the roles of the parameters after self, from their names, or None"""
    f = P.fns.get(fn)
    if f is None:
        return None
    names = param_names(f)
    if names is None:
        return None
    return [ROLES.get(n) for n in names[1:]]


def param_names(f):
    b = f.j["body"]
    return [x[1] if isinstance(x, list) and len(x) > 1 else None for x in b["locals"][1:b["argc"] + 1]]


def machine(ctx, names, keys=("k0", "k1"), can_fail=False):
    I = ctx.interp()
    P = ctx.program()
    store_v = Agg("sourisdb::store::Store", 0, (MapV(None, [(Str((k,)), T("sym", "v" + k)) for k in keys]),))

    def new(I, st, a, c):
        return ok(Agg(SCL, 0, (T("client"), T("path"), T("port"))))

    def all_dbs(I, st, a, c):
        if can_fail:
            s = st.copy()
            s.ev("LISTERR", c.span)
            st.ev("LIST", c.span)
            return [(st, ok(Seq([Str((n,)) for n in names]))), (s, err(T("clienterr", "get_all_dbs")))]
        st.ev("LIST", c.span)
        return ok(Seq([Str((n,)) for n in names]))

    def get_store(I, st, a, c):
        bad = st.copy()
        st.ev("GET", unref(I, st, a[1]), c.span)
        if not can_fail:
            return ok(store_v)
        bad.ev("GETERR", unref(I, st, a[1]), c.span)
        return [(st, ok(store_v)), (bad, err(T("clienterr", "get_store")))]

    I.hooks[SCL + "::new"] = new
    I.hooks[SCL + "::get_all_dbs"] = all_dbs
    I.hooks[SCL + "::get_store"] = get_store
    for op in CHANGES:
        rs = roles(P, f"{SCL}::{op}") or []
        if sorted(map(str, rs)) != sorted(CHANGES[op]):
            rs = CHANGES[op]

        def change(I, st, a, c, op=op, rs=rs):
            args = [unref(I, st, x) for x in a[1:]]
            st.ev("CHANGE", op, dict(zip(rs, args)), c.span)
            if not can_fail:
                return ok(T("changed", op, sum(1 for e in st.events if e[0] == "CHANGE")))
            s = st.copy()
            s.ev("CHANGEERR", op, c.span)
            return [(st, ok(T("changed", op))), (s, err(T("clienterr", op)))]
        I.hooks[f"{SCL}::{op}"] = change
    #any other method that talks to the daemon
    for p in list(P.fns):
        if p.startswith(SCL + "::") and p not in I.hooks and "{closure" not in p:
            I.hooks[p] = lambda I, st, a, c, p=p: (st.ev("OTHER", p, tuple(unref(I, st, x) for x in a[1:]), c.span), T("call", p))[1]

    def value(I, st, a, c):
        n = sum(1 for e in st.events if e[0] == "VALUE")
        st.ev("VALUE", n, c.span)
        return ok(T("entered", n))
    I.hooks[PICKV] = value

    def from_json(I, st, a, c):
        st.ev("PARSE", unref(I, st, a[0]), c.span)
        s = st.copy()
        s.ev("PARSEERR", c.span)
        return [(st, ok(T("parsed", unref(I, st, a[0])))), (s, err(T("jsonerr")))]
    I.hooks["sourisdb::store::Store::from_json_bytes"] = from_json
    I.hooks["sourisdb::store::Store::from_json"] = from_json
    I.hooks["sourisdb::store::Store::to_json"] = lambda I, st, a, c: to_json(I, st, a)
    I.fs = lambda st, p: T("content", p)
    I.split_reads = 2
    return I, store_v


def to_json(I, st, a):
    st.ev("TOJSON", unref(I, st, a[0]), unref(I, st, a[1]))
    s = st.copy()
    s.ev("JSONNONE")
    return [(st, some(T("json", unref(I, st, a[0]), unref(I, st, a[1])))), (s, NONE)]


def commands(P):
    return P.adts["mouse::Commands"]["v"]


def start(P, variant, fields):
    vs = commands(P)
    i = next(i for i, v in enumerate(vs) if v["n"] == variant)
    cmd = Agg("mouse::Commands", i, [fields[n] for n, _ in vs[i]["f"]])
    args = {"path": T("sym", "host"), "command": cmd}
    return Agg("mouse::Arguments", 0, [args[n] for n, _ in P.adts["mouse::Arguments"]["v"][0]["f"]])
