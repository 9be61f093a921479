"""C18: only safe names, and files only inside the data directory."""
from evs import *
from saving import *
import saving

CREATING = ("add_db", "add_db_with_content", "add_kv")
BAD = ["meta", "caf\u00e9", "\u6570", "a\u0301b", "../x", "a/b", "/etc/passwd", "x/", "a\\b", "..\\x", "/", "\\"]
GOOD = ["users", "a", "metadata", "my-db_2", "Meta2"]


def run(ctx):
    saving._file["ctx"] = ctx
    ctx.program()
    ctx.explanation = ("Every handler is interpreted for an unknown name; on each path that ends with a database that did not exist before, the conditions passed on the way must exclude "
                       "the reserved name, non-ASCII names and path separators. Where those conditions are not recognised, the handler is interpreted on constant names of each "
                       "forbidden class, by constant propagation through whatever the check does. File operations of handlers and of saving are checked for staying inside the data "
                       "directory.")
    ctx.rule("a path that creates a database excludes every forbidden name; a forbidden name is answered with InvalidDatabaseName and changes nothing; harmless names are not refused")
    ctx.rule("every file created, written, renamed or removed is named by the data directory, a separator and a name without separators: a database that exists, or a constant")
    ctx.floor = 3
    hs = handlers(ctx)
    for op, hp in sorted(hs.items()):
        guard(ctx, op, "only safe names enter", lambda: names(ctx, op, hp))
        guard(ctx, op + ": files", "files stay inside the data directory", lambda: files(ctx, op, hp))

    def save():
        for I, st, v, ns in saves(ctx, 2):
            for e in st.events:
                if e[0] == "FS" and e[1][0] not in ("exists", "open", "read"):
                    inside(ctx, I, st, "save", e, lambda x: x in ns)
    guard(ctx, "save: files", "files stay inside the data directory", save)


def names(ctx, op, hp):
    general = set()
    for flags in [{}]:
        for I, st, v, cell in outcomes(ctx, hp, ex=0, n=1):
            if isinstance(v, Stop):
                continue
            m = I.deep(st, st.cells.get(cell))
            for k, x in map_final_(m):
                if x is ABSENT or I.simp(st, T("has", DB, k)) != 0:
                    continue
                ctx.ob(f"{op}: creates only the name given", True if k == NAME else None if opaque(k) else False, "the database created is the one named in the request", f"{hp}: {short(k)}")
                for what, how in (("reserved", reserved), ("non-ASCII", ascii_), ("separator /", lambda st, n: sep(st, n, 47)), ("separator \\", lambda st, n: sep(st, n, 92))):
                    if k == NAME and not how(st, NAME):
                        general.add(what)
    #names of every class, through whatever the code does with them
    for b in BAD + GOOD:
        cls = "reserved" if b == "meta" else "non-ASCII" if not b.isascii() else "separator /" if "/" in b else "separator \\" if "\\" in b else "harmless"
        key = f"{op}: {cls}"
        n = 0
        for I, st, v, cell in outcomes(ctx, hp, ex=0, n=1, name=Str((b,)), cfg=lambda I: setattr(I, "parses", 1)):
            if isinstance(v, Stop):
                ctx.ob(key, None, "the request is answered", v)
                continue
            n += 1
            after, others = db_after(I, st, cell, Str((b,)), 0)
            r = response(ctx, I, st, v)
            entered = after is not None or bool(others)
            if cls == "harmless":
                ctx.ob(key, not (r == ("error", "InvalidDatabaseName")), "harmless names are not refused", f"{hp} refuses {b!r}")
                continue
            ctx.ob(key, not entered, "a forbidden name never enters the daemon", f"{hp} with the name {b!r} leaves {after} {others}; answer {r}")
            if op in ("add_db", "add_db_with_content") and r is not None:
                ctx.ob(key + ": refused", r == ("error", "InvalidDatabaseName"), "a forbidden name is answered with the invalid-name error", f"{hp} answers {r} for {b!r}")
            if op == "add_kv" and r is not None:
                create = [x for q, x in st.iv.items() if q.op == "sym" and q.a[0] == "create_new_database"]
                if create and create[0][0] == 1:
                    ctx.ob(key + ": refused", r == ("error", "InvalidDatabaseName"), "a forbidden name is answered with the invalid-name error", f"{hp} answers {r} for {b!r}")
        if not n:
            ctx.ob(key, None, "the request is answered", "no path")
    if op in CREATING:
        for what in ("reserved", "non-ASCII", "separator /", "separator \\"):
            ctx.ob(f"{op}: {what} in general", True if what not in general else None, "the conditions of every creating path exclude the class of names",
                   "the conditions are not of a recognised form; decided on constant names only")


def fact(st, t):
    f = st.iv.get(t)
    return f[0] if f and f[0] == f[1] else None


def reserved(st, n):
    return any(t.op == "Eq" and n in t.a and any(isinstance(x, Str) and x.const() == "meta" for x in t.a) and f[1] == 0 for t, f in st.iv.items())


def ascii_(st, n):
    return any(t.op == "pred" and t.a[0] == "is_ascii" and t.a[1] == n and f[0] == 1 for t, f in st.iv.items())


def sep(st, n, ch):
    for t, f in st.iv.items():
        if t.op == "pred" and t.a[0] == "contains" and t.a[1] == n and f[1] == 0:
            p = t.a[2]
            if p == ch or isinstance(p, Seq) and ch in p.items or isinstance(p, Str) and p.const() == chr(ch):
                return True
    return False


def files(ctx, op, hp):
    for ex in (0, 1):
        for I, st, v, cell in outcomes(ctx, hp, ex=ex, n=1):
            for e in st.events:
                if e[0] == "FS" and e[1][0] not in ("exists", "open", "read"):
                    inside(ctx, I, st, op, e, lambda x: I.simp(st, T("has", DB, x)) == 1)


def inside(ctx, I, st, op, e, known):
    for p in e[1][1:]:
        if isinstance(p, Agg) and p.tag == "file":
            p = p.f[0]
        if not isinstance(p, Str):
            continue
        key, desc = f"{op}: {e[1][0]} inside the data directory", "files are touched only inside the data directory"
        parts = list(p.parts)
        if p == BASE and e[1][0] == "mkdir":
            ctx.ob(key, True, desc)
            continue
        if not parts or parts[0] is not BASE.parts[0]:
            ctx.ob(key, None if any(opaque(x) for x in parts if not isinstance(x, str)) else False, desc, f"{op} does {e[1][0]} on {p}")
            continue
        rest = parts[1:]
        if not rest or not isinstance(rest[0], str) or not rest[0].startswith("/"):
            ctx.ob(key, False if rest and all(isinstance(x, str) or x.op == "sym" for x in rest) else None, desc, f"{op} does {e[1][0]} on {p}")
            continue
        rest[0] = rest[0][1:]
        lit = "".join(x for x in rest if isinstance(x, str))
        unk = [x for x in rest if not isinstance(x, str) and not known(x.a[0] if x.op == "stem" else x)]
        bad = "/" in lit or rest == ["..", ] or unk
        ctx.ob(key, True if not bad else None if unk and any(opaque(x) for x in unk) else False, desc,
               f"{op} does {e[1][0]} on {p}" + (f"; {unk} need not be the name of a database that exists" if unk else ""))
