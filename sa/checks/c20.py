"""C20: what a crash during a save can leave behind."""
from evs import *
from saving import *

WR = ("write", "write_some", "set_len")


def run(ctx):
    ctx.program()
    ctx.explanation = ("Saving is interpreted with every file operation recorded in order and able to succeed or fail. Which names are final is taken from what saving renames onto and "
                       "from what start-up opens; at each operation (each possible crash point) the file under a final name must be untouched or complete.")
    ctx.rule("a final name is only ever the target of a rename: it is never opened for writing, truncated, copied onto or removed by a save")
    ctx.rule("a rename onto a final name follows, on that path, a creation of its source, a complete write of the contents and a sync after the last write, all of which succeeded")
    ctx.rule("a failure of any of these operations is not reported as success by the function that writes a file, and nothing is renamed after it")
    ctx.assumptions += ["rename replaces the target atomically (POSIX)", "sync_all/sync_data put the written contents on the disk"]
    ctx.floor = 3
    fin = finals(ctx)
    if not fin:
        ctx.ob("final names", None, "the names of saved files are recognised", "start-up could not be interpreted")
    for n in (0, 1):
        def go():
            k = 0
            for I, st, v, names in saves(ctx, n):
                k += 1
                if isinstance(v, Stop):
                    ctx.ob("save: path", None, "saving ends", v)
                    continue
                judge(ctx, I, st, v, fin)
            if not k:
                ctx.ob("save", None, "saving ends", "no path")
        guard(ctx, f"save {n}", "crash safety of saving", go)

    #the saved files appear at all
    def appears():
        for I, st, v, names in saves(ctx, 1, fail=lambda *a: False):
            done = [e[1][2] for e in st.events if e[0] == "FS" and e[1][0] == "rename"]
            other = [e for e in st.events if e[0] == "FS" and e[1][0] in ("create", "copy", "link")]
            for f in fin:
                f = renamed(Str(f), INDEXED, names[0])
                ctx.ob("save: file replaced", f in done if done else None, "a successful save puts the new contents under the name start-up opens", f"renamed to {done}, start-up opens {f}")
    guard(ctx, "save: appears", "a successful save puts new contents in place", appears)


def finals(ctx):
    """the names start-up opens, as tuples of parts with INDEXED for the database's name"""
    out = set()
    try:
        from loading import opens
        for p in opens(ctx):
            out.add(p)
    except Budget:
        pass
    return out


INDEXED = T("sym", "indexed")


def matches(p, f):
    f = Str(f)
    return p == f or mentions(f, INDEXED) and any(p == renamed(f, INDEXED, n) for n in N)


def judge(ctx, I, st, v, fin):
    ev = [e for e in st.events if e[0] == "FS"]
    targets = {e[1][2] for e in ev if e[1][0] == "rename"}

    def final(p):
        return isinstance(p, Str) and (p in targets or any(matches(p, f) for f in fin))

    def path(x):
        return x.f[0] if isinstance(x, Agg) and x.tag == "file" else x
    failed = {}
    for i, e in enumerate(ev):
        op, bad = e[1][0], e[2]
        ps = [path(x) for x in e[1][1:]]
        if op in ("create", "openw", "copy", "link", "remove", "remove_dir") + WR:
            p = ps[-1] if op in ("copy", "link") else ps[0]
            ctx.ob(f"save: {op} not on a final name", False if final(p) else True if isinstance(p, Str) and not opaque(p) else None,
                   "the file under a final name is never modified in place", f"{op} on {p}: {[x[1:3] for x in ev]}")
        if op == "rename":
            src, dst = ps
            #the history of the source before this point
            h = [(x[1], x[2]) for x in ev[:i] if x[1][0] in ("create", "openw") + WR + ("sync", "flush", "copy", "rename") and path(x[1][1]) == src]
            created = [j for j, (o, b) in enumerate(h) if o[0] == "create" and b is None]
            writes = [j for j, (o, b) in enumerate(h) if o[0] in WR]
            syncs = [j for j, (o, b) in enumerate(h) if o[0] == "sync" and b is None]
            und = opaque(src)
            good = bool(created) and bool(writes) and max(created) < min(writes)
            ctx.ob("save: written before the rename", None if und else good, "the new file is created and written before it replaces the old one", f"{src} to {dst}: {h}")
            if writes:
                ctx.ob("save: whole write", not any(h[j][0][0] == "write_some" for j in writes) or (None if und or h[writes[-1]][0][0] != "write_some" else False), "all of the contents are written",
                       f"a write that may accept only a part of the data is not continued: {h}")
                ctx.ob("save: flushed before the rename", None if und else bool(syncs) and max(syncs) > max(writes), "the new file is flushed to disk before it replaces the old one", f"{src} to {dst}: {h}")
            ctx.ob("save: no rename after a failure", None if und else not any(b for o, b in h if o[0] != "create"), "a file that could not be written in full does not replace the old one",
                   f"{src} to {dst}: {h}")
            data = [h[j][0][2] for j in writes if len(h[j][0]) > 2]
            ctx.ob("save: contents", all(isinstance(d, Seq) and len(d.items) == 1 and isinstance(d.items[0], Chunk) and isinstance(d.items[0].x, T) and d.items[0].x.op == "sered" for d in data)
                   and len(data) == 1 or (None if not data or len(data) > 1 or any(opaque(d) for d in data) else False), "what is written is a serialised store", f"{data}")
    #the function that writes one file reports its failures
    m = [e for e in ev if e[2]]
    last = ev[-1] if ev else None
    if last is not None and last[2] and last[1][0] != "mkdir":
        ctx.ob("save: failure reported", is_err(v) if isinstance(v, Agg) else None, "a failure to write the index is reported", f"{last[1:3]} and then {v}")
