"""C07: a length found in the input never sizes memory before the input backs it."""
from opq import *

DESC = "memory asked for is bounded by the bytes of the input"
MOST, ROOM = 4096, 1 << 20      #elements for each byte of the input, and elements asked for in any case


def last(p):
    return p.split("::")[-1] if not p.endswith("}") else "::".join(p.split("::")[-2:])


def decoded(v):
    """numbers taken from the input a value depends on"""
    return [t for t in subterms(v) if t.op == "sym" and t.a and isinstance(t.a[0], tuple) and t.a[0][0] in ("toint", "int", "byte")]


def bounded(I, st, n):
    u = upper(I, st, n)
    return u is not None and u[0] <= MOST and u[1] <= ROOM, u


def after_bytes(I, st):
    """what has been read so far, where it is known: identifies the place without naming code"""
    out = []
    for t in st.iv:
        if t.op == "sym" and isinstance(t.a[0], tuple) and t.a[0][0] == "byte" and len(t.a) > 1:
            lo, hi = I.bounds(st, t)
            if lo == hi:
                out.append(str(lo))
    return f"memory after reading {' '.join(out[:3])}" if out else "memory"


def judge_size(ctx, key, I, st, n, what):
    if is_int(n):
        ctx.ob(key, n <= ROOM, DESC, f"{what} of {n} elements")
        return
    ok_, u = bounded(I, st, n)
    if ok_:
        ctx.ob(key, True, DESC)
        return
    if not decoded(n) or opaque(n):
        ctx.ob(key, None, DESC, f"{what} of {short(n)} elements")
        return
    w = witness(I, st, n)
    ctx.ob(key, False if w else None, DESC, f"{what} of {short(n)} elements" + (f", at most {u[0]} for each byte of the input and {u[1]}" if u else "")
           + ": nothing compares this number with the bytes there are")


def grown(st, least):
    """whether something in memory holds at least this many elements"""
    for v in st.cells.values():
        for q in parts(v):
            if isinstance(q, (Seq,)) and sum(1 for x in q.items if not isinstance(x, Chunk)) >= least and not unknown_items(q):
                return True
            if isinstance(q, MapV) and len(q.over) >= least:
                return True
    return False


def parts(v, d=0):
    yield v
    if d > 4:
        return
    for x in v.f if isinstance(v, Agg) else v.items if isinstance(v, Seq) and len(v.items) < 40 else ():
        if isinstance(x, (Agg, Seq, MapV)):
            yield from parts(x, d + 1)


def read_so_far(st):
    n = 0
    for v in st.cells.values():
        for q in parts(v):
            if unknown_items(q):
                n = max(n, len(q.items))
    return n


def run(ctx):
    ctx.explanation = ("Every decoder is interpreted on input of which nothing is known. Each place that asks for memory for a number of elements must be reached only with a number that "
                       "the facts of the path bound by a multiple of the length of the input; a loop whose count is a number from the input must not grow memory without reading.")
    ctx.rule(DESC)
    ctx.floor = 20

    def judge(name, I, s, r):
        for e in s.events:
            if e[0] == "alloc":
                judge_size(ctx, f"{name}: {after_bytes(I, e[5] or s)}", I, e[5] or s, e[1], f"{e[4]} in {e[2]}:")
        if isinstance(r, Stop) and r.kind == "cut":
            #a loop that was not followed to its end
            for t in {t for l in s.lin for t in l if isinstance(t, T)} | set(s.iv):
                if t.op == "sym" and decoded(t) and t.a[0][0] == "toint":
                    lo, _ = I.bounds(s, t)
                    if lo is not None and lo >= I.max_visits // 2 and not bounded(I, s, t)[0] and grown(s, I.max_visits // 2) and read_so_far(s) < I.max_visits // 2:
                        ctx.ob(f"{name}: {after_bytes(I, s)}", False, DESC, f"a loop that goes on until {short(t)} grows memory without reading")
        ctx.ob(name, True, DESC)

    def after(name, I):
        for st, n, fn, span, by in I.long:
            key = f"{name}: {after_bytes(I, st)}"
            fills = by.split("::")[-1] in ("collect", "extend", "from_iter", "extend_from_slice", "resize_with")
            ok_, u = bounded(I, st, n)
            if ok_ or not decoded(n):
                ctx.ob(key, True, DESC)
            elif (fills or grown(st, I.range_max)) and read_so_far(st) < I.range_max:
                ctx.ob(key, None if opaque(n) else False, DESC, f"a loop of {short(n)} iterations in {fn} grows memory without reading, and nothing compares the number with the bytes there are")
        I.long.clear()
    sweep(ctx, judge, after=after)
