"""C22: a graceful stop saves every acknowledged change, and periodic saving goes on until then."""
from mainflow import *


class FC:
    frame = None
    span = "?"


def brief(ev):
    return [e[:3] if e[0] not in ("SPAWN", "SERVE", "STATE") else (e[0],) for e in ev if e[0] in ("SPAWN", "SERVE", "SERVED", "SAVE", "STOP", "RECV", "JOIN", "TICK", "SIGNAL", "ABORT")]


def run(ctx):
    ctx.program()
    ctx.explanation = ("main is interpreted to its end, with creating and saving the state as units; futures polled in a select are each ready or not, so every branch of every select is followed. "
                       "Every spawned task is interpreted with the captured state, with saving succeeding and failing.")
    ctx.rule("serving ends only after a stop signal (interrupt and terminate both), and on every path a save of the served state follows the end of serving: directly, or by joining a task that is told to stop after it and saves before ending")
    ctx.rule("the saver task saves after every tick, whether or not an earlier save failed, and ends only when told to stop")
    ctx.floor = 3
    ctx.assumptions.append("axum's graceful shutdown answers every request in flight before serving ends (its documentation)")
    guard(ctx, "main", "main can be followed", lambda: main_flow(ctx))


def main_flow(ctx):
    I, out = main_paths(ctx)
    sigs, tasks, ended, opaque_end = set(), {}, 0, []
    for st, v in out:
        ctx.paths += 1
        ev = [e for e in st.events]
        names = [e[0] for e in ev]
        if isinstance(v, Stop):
            if v.kind == "diverge" and "serves until" in str(v.info):
                ctx.ob("graceful stop", False, "the daemon stops gracefully", "axum::serve runs without a graceful shutdown signal, so the process is killed with unsaved changes")
            elif v.kind != "panic":
                opaque_end.append(v)
            elif "SERVE" in names and "SAVE" not in names:
                ctx.ob("stop without saving", None, "a stop always ends in a save", f"{v}: {brief(ev)}")
            continue
        if "SERVE" not in names:
            continue
        if "SERVED" not in names:
            opaque_end.append("serving is not awaited")
            continue
        ended += 1
        a, b = names.index("SERVE"), len(names) - 1 - names[::-1].index("SERVED")
        ss = [e[1] for e in ev[a:b] if e[0] == "SIGNAL"]
        ctx.ob("serves until a signal", bool(ss), "serving ends only after a stop signal", f"{brief(ev)}")
        sigs |= set(ss)
        served = [e[1] for e in ev if e[0] == "STATE"]
        cells = {cell_of(x) for x in served} or {None}
        for e in ev:
            if e[0] == "SPAWN":
                tasks[e[1]] = (st, e[2])
        after = [e for e in ev[b:] if e[0] == "SAVE"]
        good = [e for e in after if e[1] in cells]
        how = None
        if good:
            how = True
        elif after and None not in cells:
            how = False
        else:
            #a task that is told to stop after serving has ended
            stops = {e[1] for e in ev[b:] if e[0] == "STOP"}
            for e in ev[b:]:
                if e[0] == "JOIN" and e[1] in tasks:
                    r = task_saves(ctx, I, tasks[e[1]], stops, cells)
                    how = r if how is None or r else how
            if how is None:
                how = False if not any(e[0] in ("await", "call", "callback") and STATE in repr(e) for e in ev[b:]) else None
        ctx.ob("save after the last answer", how, "the served state is saved after the last request has been answered", f"after serving has ended: {brief(ev[b:])}; before: {brief(ev[a:b])}")
    if not ended and not any(k == "graceful stop" for k in ctx.obs):
        ctx.ob("main ends", None, "main can be followed to its end", f"{opaque_end[:3]}")
        return
    for s in ("interrupt", "terminate"):
        ctx.ob(f"signal {s}", (s in sigs) if "?" not in sigs else None, "both ways of asking the daemon to stop are waited for", f"signals that end serving: {sorted(sigs)}")
    savers = 0
    unknown = 0
    for n, (st, fut) in tasks.items():
        r = saver(ctx, I, st, fut, n)
        savers += r is True
        unknown += r is None
    ctx.ob("periodic saving", True if savers else None if unknown else False, "a task saves the databases periodically", f"{len(tasks)} tasks, none saves")


def run_task(ctx, I, st, fut):
    s0 = st.copy()
    s0.events = []
    s0.x["select"] = 0
    return run_future(I, s0, fut, FC)


def task_saves(ctx, I, task, stops, cells):
    """whether a task, told to stop, always saves before it ends"""
    res = None
    for st, v in run_task(ctx, I, *task):
        if isinstance(v, Stop):
            if v.kind in ("diverge",):
                continue
            return None
        names = [(e[0], e[1] if len(e) > 1 else None) for e in st.events]
        rc = [i for i, n in enumerate(names) if n[0] == "RECV" and n[1] in stops]
        if not rc:
            continue
        ok_ = any(n[0] == "SAVE" and n[1] in cells for n in names[rc[-1]:])
        res = ok_ if res is None else res and ok_
    return res


def saver(ctx, I, st, fut, n):
    try:
        paths = run_task(ctx, I, st, fut)
    except Budget:
        return None
    if not any(e[0] == "SAVE" for s, v in paths for e in s.events):
        return None if any(isinstance(v, Stop) and v.kind not in ("diverge", "panic") for s, v in paths) else False
    for s, v in paths:
        ctx.paths += 1
        ev = s.events
        names = [e[0] for e in ev]
        ticks = [i for i, x in enumerate(names) if x in ("TICK", "TIMEOUT")]
        for i, t in enumerate(ticks):
            #each interval that passes is followed by a save before the next one
            nxt = ticks[i + 1] if i + 1 < len(ticks) else len(names)
            done = "SAVE" in names[t:nxt]
            if not done and nxt == len(names) and isinstance(v, Stop):
                continue
            ctx.ob("saves at every tick", done, "every interval ends with a save, also after one that failed", f"{brief(ev)}")
        if isinstance(v, Stop):
            if v.kind == "panic":
                ctx.ob("saver survives failures", False if "SAVE" in names else None, "a failed save does not end periodic saving", f"{v}: {brief(ev)}")
            continue
        if "RECV" not in names:
            failed = [e for e in ev if e[0] == "SAVE" and e[2] == 0]
            ctx.ob("saver runs until told to stop", False, "periodic saving ends only when the daemon stops", f"the task ends after {brief(ev)}" + ("; the last save failed" if failed else ""))
        else:
            ctx.ob("saver runs until told to stop", True, "periodic saving ends only when the daemon stops")
    ctx.ob("saver saves more than once", any(sum(e[0] == "SAVE" for e in s.events) >= 2 and sum(e[0] == "TICK" for e in s.events) >= 2 for s, v in paths) or None, "saving repeats", "")
    return True
