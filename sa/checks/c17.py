"""C17: no stale reads from the cache of serialised databases."""
from evs import *


def run(ctx):
    ctx.program()
    ctx.explanation = ("Each path through each handler is interpreted with its lock, cache and map operations recorded in order. A path that changes a database must discard that "
                       "database's cached copy after taking the lock and before answering; a copy may only be put into the cache, under the name it was read from, while the "
                       "lock under which it was read is still held, and only a copy filed under the name asked for may be served.")
    ctx.rule("change of n on a path => invalidate(n) on that path after the lock is taken")
    ctx.rule("insert(n, bytes) => the lock is held, it has not been released since it was taken, and bytes is the serialised form of n as it is then")
    ctx.rule("a cached answer to a request for n was looked up under n")
    ctx.assumptions += ["with these rules an insertion of old contents happens before the change's lock is taken, so the invalidation that follows removes it, in every interleaving",
                        "moka's insert and invalidate take effect before their futures complete"]
    ctx.floor = 3

    def judge(op, hp, ex, I, st, v, cell, ev):
        if isinstance(v, Stop):
            return ctx.ob(f"{op}: path", None, "paths end with an answer", v)
        ch = changed(I, st, cell, ex)
        for n in ch:
            #from when on other requests can see the change: its lock
            locks = [i for i, e in enumerate(ev) if e[0] == "LOCK" and e[1] == "dbs"]
            first = locks[0] if locks else 0
            #the lock of the last critical section in which something was changed
            muts = [i for i, e in enumerate(ev) if e[0] in ("mapset", "mapdel", "mapclear")]
            if muts:
                first = max([i for i in locks if i < muts[-1]] or [first])
            inv = [i for i, e in enumerate(ev) if e[0] == "CINVALL" or e[0] == "CINV" and (e[1] == n or I.equal(st, e[1], n) is True)]
            good = any(i > first for i in inv)
            und = not good and any(e[0] == "CINV" and opaque(e[1]) for e in ev)
            ctx.ob(f"{op}: change discards the cached copy", None if und else good, "the cached copy is discarded after the lock is taken and before the change is acknowledged",
                   f"{hp} changes {short(n)} with {show(ev)}")
        if not ch:
            ctx.ob(f"{op}: unchanged", True, "the path changes nothing")
        for i, e in enumerate(ev):
            if e[0] != "CSET":
                continue
            h = held(ev, i)
            ctx.ob(f"{op}: cached under the lock", "dbs" in h, "a copy is cached only while the lock is held", f"{hp}: {show(ev)}")
            name, data = e[1], e[2]
            m = I.deep(st, st.cells.get(cell))
            locks = [j for j in range(i) if ev[j][0] == "LOCK"]
            if "dbs" in h:
                ctx.ob(f"{op}: read under the same lock", len(locks) == 1, "the copy is cached in the critical section in which it was read", f"{hp}: {show(ev)}")
            want = Seq([Chunk("blob", sered(store(MapV(T("db", name)))))])
            if ch and any(k == name for k in ch):
                after, _ = db_after(I, st, cell, name, ex)
                want = None
            if want is None:
                ctx.ob(f"{op}: cached contents", None, "what is cached is the serialised form of the database it is filed under", f"{data}")
            else:
                ctx.ob(f"{op}: cached contents", True if data == want else None if opaque(data) else False, "what is cached is the serialised form of the database it is filed under",
                       f"{hp} caches {data} as {name}")
        r = response(ctx, I, st, v)
        if r and any(t.op == "cachedvalue" for t in subterms(r[1])):
            good = r == ("value", T("cachedvalue", NAME))
            ctx.ob(f"{op}: cached answer", good, "a cached answer was filed under the name asked for", f"{hp}: {r}")
    all_paths(ctx, judge)
