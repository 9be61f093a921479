"""C19: one critical section per request."""
from evs import *


def run(ctx):
    ctx.program()
    ctx.explanation = ("Each path through each handler is interpreted with every acquisition and release of the databases lock recorded, releases including those of guards dropped at the "
                       "end of their scope or statement; the databases themselves are reachable only through a guard.")
    ctx.rule("on every path: at most one acquisition, none while held, every acquisition released; at least one on every path that changes or reads the databases")
    ctx.assumptions += ["the type of the databases field makes every access go through a guard (safe Rust)"]
    ctx.floor = 3

    def judge(op, hp, ex, I, st, v, cell, ev):
        if isinstance(v, Stop):
            return ctx.ob(f"{op}: path", None, "paths end with an answer", v)
        depth, n, bad = 0, 0, None
        for e in ev:
            if e[0] == "LOCK" and e[1] == "dbs":
                n += 1
                if depth:
                    bad = "takes the lock while holding it"
                depth += 1
            elif e[0] == "UNLOCK" and e[1] == "dbs":
                depth -= 1
        ctx.ob(f"{op}: no re-locking", bad is None, "the lock is never taken while it is held", f"{hp} {bad}: {show(ev)}")
        ctx.ob(f"{op}: released", depth == 0, "the lock is released before the request finishes", f"{hp}: {show(ev)}")
        ctx.ob(f"{op}: one critical section", n <= 1, "all of a request's reading and changing happens in one critical section", f"{hp} locks {n} times: {show(ev)}")
        if n == 0 and changed(I, st, cell, ex):
            ctx.ob(f"{op}: one critical section", False, "changes happen under the lock", f"{hp}: {show(ev)}")
    all_paths(ctx, judge)
