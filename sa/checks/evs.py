"""Event order of every path through every handler, shared by C17, C19 and C23."""
from optable import *


def all_paths(ctx, judge):
    """judge(op, handler, I, st, v, cell, events) for every path of every handler in every scenario"""
    hs = handlers(ctx)
    for op, hp in sorted(hs.items()):
        def go():
            n = 0
            for ex in (0, 1):
                for I, st, v, cell in outcomes(ctx, hp, ex=ex, n=1):
                    n += 1
                    judge(op, hp, ex, I, st, v, cell, st.events)
            if not n:
                ctx.ob(op, None, "the request is answered", "no path")
        guard(ctx, op, "every path of the handler", go)


def changed(I, st, cell, ex):
    """names of the databases whose contents differ from what they were"""
    after, others = db_after(I, st, cell, NAME, ex)
    out = [k for k, _ in others]
    if after != ((T("db", NAME), {}) if ex else None):
        out.append(NAME)
    return out


def held(events, i):
    """ids of the locks held just before event i"""
    h = []
    for e in events[:i]:
        if e[0] == "LOCK":
            h.append(e[1])
        elif e[0] == "UNLOCK" and e[1] in h:
            h.remove(e[1])
    return h


def show(events):
    return [(e[0],) + tuple(short(x, 80) for x in e[1:-1]) for e in events if e[0] in ("LOCK", "UNLOCK", "CSET", "CINV", "CGET", "FS", "mapset", "mapdel", "CINVALL")]
