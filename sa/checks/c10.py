"""C10: conversions from a stored integer."""
from ints import *


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("For each pair of machine integer types the conversion into a stored Integer is interpreted on an arbitrary number, and the conversion out of it on each "
                       "resulting stored form (which bytes are used, which sign); the number is tracked as bytes of one value, so success must carry facts that bound it inside "
                       "the target type and give the same number, and refusal must carry facts that put it outside.")
    ctx.rule("success implies the number lies in the target type's range and is returned unchanged; an error implies that it lies outside")
    ctx.floor = 5
    if not ctx.need(*(tryfrm(t) for t in INTTYS), *(frm(t) for t in INTTYS)):
        return
    for s in INTTYS:
        for t in INTTYS:
            def go():
                I = interp(ctx)
                x = T("sym", "n", s)
                lo, hi = ty_range(t)
                for st, x, v in stored(ctx, I, s):
                    for s2, w in I.run(tryfrm(t), [v], st):
                        ctx.paths += 1
                        judge(ctx, I, s2, x, s, t, w)
            guard(ctx, f"{s} to {t}", "a number converts exactly or not at all", go)


def judge(ctx, I, st, x, s, t, w):
    lo, hi = ty_range(t)
    a, b = I.bounds(st, x)
    if is_ok(w):
        key, desc = f"{s} to {t}: exact", "a successful conversion gives the stored number"
        inside = True if a >= lo and b <= hi else False if b < lo or a > hi else None
        if inside is False:
            return ctx.ob(key, False, desc, f"numbers from {a} to {b} are converted to {short(w.f[0])}")
        want = I.cast(st, "IntToInt", x, s, t)
        r = same(I, st, want, w.f[0])
        if r[0] is True and inside:
            return ctx.ob(key, True, desc)
        #compare with the number itself, not with what it wraps to
        d = differ(I, st, x, w.f[0])
        ctx.ob(key, True if d is True else None if d is None else False, desc, f"{short(x)} becomes {short(w.f[0])}, for example {d}; {r[1]}")
    elif is_err(w):
        key, desc = f"{s} to {t}: refused", "a refused number does not fit"
        if b < lo or a > hi:
            return ctx.ob(key, True, desc)
        if lo <= a and b <= hi:
            #every number on this path fits, and the path is feasible unless its facts contradict each other
            d = witness(I, st, x)
            return ctx.ob(key, False if isinstance(d, dict) or is_int(I.simp(st, x)) else None, desc, f"numbers from {a} to {b} are refused: {w}; {d}")
        d = differ(I, st, inrange(x, lo, hi), 0)
        ctx.ob(key, False if isinstance(d, dict) else True if d is True else None, desc, f"numbers from {a} to {b} are refused: {w}; {d}")
    else:
        ctx.ob(f"{s} to {t}: panic", False if isinstance(w, Stop) and w.kind == "panic" else None, "conversions do not panic", w)


def inrange(x, lo, hi):
    return T("and", T("Ge", x, lo), T("Le", x, hi))
