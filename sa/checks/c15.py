"""C15: what each request changes."""
from optable import *


def run(ctx):
    ctx.program()
    ctx.explanation = ("Every handler registered with the router is interpreted for each combination of existing/absent database, existing/absent key and request flags on databases "
                       "that are otherwise unknown; the map left behind on every path is compared with the change the request asks for.")
    ctx.rule("after add_db, add_db_with_content, clear_db, rm_db, add_kv, rm_kv, get_db and get_value the named database holds exactly what the request asks for, and no other database changed")
    ctx.assumptions += ["hash maps behave as maps", "uploads of up to three keys stand for uploads of any size (the same loop body handles each key)", "names that are refused are C18's subject"]
    ctx.floor = 5

    def judge(op, label, sc, after, answers, I, st, v, cell, hp):
        key, desc = f"{op} {label}", "the database holds exactly what the request asks for, and no other database changed"
        got, others = db_after(I, st, cell, NAME, sc["ex"])
        want = after
        if refused_name(ctx, I, st, v):
            want = (EXISTING, {}) if sc["ex"] else None
        if others:
            return ctx.ob(key, None if any(opaque(k) for k, _ in others) else False, desc, f"{hp} also changed {others}")
        if isinstance(v, Stop):
            return ctx.ob(key, False if v.kind == "panic" else None, desc, v)
        if got == want:
            return ctx.ob(key, True, desc)
        if isinstance(got, tuple) and got[0] == "opaque" or got is not None and any(opaque(x) for x in got[1].values() if x is not ABSENT):
            return ctx.ob(key, None, desc, got)
        ctx.ob(key, False, desc, f"{hp} leaves {say(got)}, expected {say(want)}; answer {response(ctx, I, st, v)}; path {facts(st)}")
    sweep(ctx, judge)


def say(x):
    if x is None:
        return "no database"
    return f"{'the existing entries' if x[0] is not None else 'an empty database'} with {x[1]}" if x[1] else "the existing entries" if x[0] is not None else "an empty database"


def facts(st):
    return {repr(k): v[0] for k, v in list(st.iv.items())[:12] if v[0] == v[1]}
