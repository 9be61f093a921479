"""C23: database files change only under the lock."""
from evs import *
from saving import *
import saving

OPS = ("create", "openw", "write", "write_some", "set_len", "rename", "link", "copy", "remove", "remove_dir")


def about_db(p):
    """whether an event touches the file of some database: its path has a part that is not constant besides the data directory"""
    out = []
    for x in p[1:]:
        if isinstance(x, Agg) and x.tag == "file":
            x = x.f[0]
        if isinstance(x, Str):
            out.append(any(isinstance(q, T) and any(y.op == "sym" and y is not BASE.parts[0] for y in subterms(q)) for q in x.parts))
    return any(out)


def vague(op):
    return any(opaque(q) for x in op[1:] if isinstance(x, Str) for q in x.parts if isinstance(q, T))


def run(ctx):
    saving._file["ctx"] = ctx
    ctx.program()
    ctx.explanation = ("Each path through each handler and through saving is interpreted with lock and file operations recorded in order, with every file operation succeeding or failing.")
    ctx.rule("every creation, write, rename or removal of a database's file happens while the databases lock is held, and what is written is the database as it is under that lock")
    ctx.rule("removing a database removes its file; an absent file is not an error, any other failure is reported")
    ctx.floor = 3

    def judge(op, hp, ex, I, st, v, cell, ev):
        if isinstance(v, Stop):
            return ctx.ob(f"{op}: path", None, "paths end with an answer", v)
        fs = [(i, e) for i, e in enumerate(ev) if e[0] == "FS"]
        for i, e in fs:
            if e[1][0] in OPS and about_db(e[1]):
                ctx.ob(f"{op}: {e[1][0]} under the lock", "dbs" in held(ev, i) or (None if vague(e[1]) else False), "database files change only while the lock is held", f"{hp}: {show(ev)}")
        if op == "remove_db" and ex:
            after, _ = db_after(I, st, cell, NAME, ex)
            rm = [e for _, e in fs if e[1][0] == "remove"]
            r = response(ctx, I, st, v)
            ok_ = r and (r[0] == "status" and r[1] is not None and r[1] < 400)
            if after is None or ok_:
                want = file_of(I, st, NAME)
                mine = [e for e in rm if e[1][1] == want]
                ctx.ob(f"{op}: file removed", bool(mine) if not any(opaque(e[1][1]) for e in rm) else None, "removing a database removes its file", f"{hp} removes {[e[1][1] for e in rm]}, the file is {want}")
            other = [e for e in rm if e[2] == "Other"]
            gone = [e for e in rm if e[2] == "NotFound"]
            if other:
                ctx.ob(f"{op}: failure reported", r[0] == "error" if r else None, "a failed removal is reported", f"{hp} answers {r}: {show(ev)}")
            elif gone:
                ctx.ob(f"{op}: absent file", ok_ if r else None, "an absent file is not an error", f"{hp} answers {r}: {show(ev)}")
        if op == "remove_db" and not ex:
            ctx.ob(f"{op}: nothing removed", not any(e[1][0] in ("remove", "remove_dir") for _, e in fs), "no file is removed for a database that does not exist", f"{hp}: {show(ev)}")
    all_paths(ctx, judge)

    def save():
        for I, st, v, names in saves(ctx, 2):
            ev = st.events
            if isinstance(v, Stop):
                ctx.ob("save: path", None, "saving ends", v)
                continue
            for i, e in enumerate(ev):
                if e[0] == "FS" and e[1][0] in OPS and about_db(e[1]):
                    ctx.ob(f"save: {e[1][0]} under the lock", "dbs" in held(ev, i) or (None if vague(e[1]) else False), "database files change only while the lock is held", f"{show(ev)}")
    guard(ctx, "save", "database files change only while the lock is held", save)
