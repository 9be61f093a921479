"""C11: conversions between floats and stored integers."""
import math
from ints import *
import feval

LO, HI = -(1 << 127), 1 << 128


def representatives(ty, consts):
    eps = 2.0 ** -52 if ty == "f64" else 2.0 ** -23
    emax = 1024 if ty == "f64" else 128
    base = {0.0, 0.25, 0.5, 0.75, 1.5, 2.5, 3.7, 100.1, eps, 2 * eps, 3 * eps, 1 + eps, 1 - eps, 1 + 2 * eps, 1 - 4 * eps, 1e-30, 0.999, 1e10 + 0.5}
    for k in range(0, emax):
        base.add(2.0 ** k)
        if k < (52 if ty == "f64" else 22):
            base |= {2.0 ** k + 0.5, 2.0 ** k + 0.25, 2.0 ** k - 0.25}
    base |= {abs(c) for c in consts if math.isfinite(c)}
    out = {math.inf, -math.inf}
    for b in base:
        b = feval.rnd(b, ty)
        for x in (b, feval.nextafter(b, math.inf, ty), feval.nextafter(b, 0.0, ty) if b else b):
            out |= {x, -x}
    return [x for x in sorted(out)] + [-0.0, math.nan]


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("The conversion from each float type is interpreted on an unknown float; the outcome of each path is a formula over comparisons of the float and its rounded or "
                       "fractional parts with constants. Those atoms are constant on the regions between the constants that occur in them, so each path's formula is evaluated at the "
                       "representatives of every region (each constant, each power of two, their neighbours, halves and quarters, zeroes, infinities, NaN) and compared with the specification. "
                       "Conversions to floats are compared as terms.")
    ctx.rule("exactly one path is taken per region; whole and within [-2^127, 2^128) gives that number, everything else an error (fractions up to the documented epsilon may round)")
    ctx.floor = 5
    fns = {t: f"<{INT} as core::convert::TryFrom<{t}>>::try_from" for t in ("f32", "f64")}
    if not ctx.need(*fns.values()):
        return
    for t, f in fns.items():
        guard(ctx, t, "a float converts exactly or not at all", lambda: into(ctx, t, f))
    for t in ("f32", "f64"):
        f = f"<{t} as core::convert::From<{INT}>>::from"
        f = f if f in P.fns else f"sourisdb::types::integer::<impl core::convert::From<{INT}> for {t}>::from"
        if f in P.fns:
            guard(ctx, "to " + t, "a stored integer becomes the nearest float", lambda: outof(ctx, t, f))


def into(ctx, t, f):
    I = ctx.interp(int_hooks())
    v = T("sym", "v", t)
    paths = []
    consts = set()
    for st, r in I.run(f, [v]):
        ctx.paths += 1
        conds = [(c, b[0]) for c, b in st.iv.items() if b[0] is not None and b[0] == b[1]]
        paths.append((st, conds, r))
        for c, _ in conds:
            for q in subterms(c):
                if q.op in ("fconst", "i2f"):
                    try:
                        consts.add(feval.ev(q, {}))
                    except feval.NoEval:
                        pass
    eps = 2.0 ** -52 if t == "f64" else 2.0 ** -23
    seen = 0
    for x in representatives(t, consts):
        env = {v: x}
        hit = None
        try:
            for st, conds, r in paths:
                if all(feval.ev(c, env) == w for c, w in conds):
                    hit = (st, r)
                    break
        except feval.NoEval as e:
            ctx.ob(f"{t}: decided", None, "every region is decided", f"cannot evaluate {e}")
            return
        if hit is None:
            ctx.ob(f"{t}: decided", None, "every region is decided", f"no path for {x!r}")
            continue
        st, r = hit
        seen += 1
        whole = math.isfinite(x) and x == math.trunc(x)
        if isinstance(r, Stop):
            ctx.ob(f"{t}: panics", False if r.kind == "panic" else None, "conversions do not panic", f"{x!r}: {r}")
            continue
        if not math.isfinite(x):
            ctx.ob(f"{t}: not a finite number", is_err(r), "NaN and infinities are refused", f"{x!r} gives {r}")
        elif whole and LO <= int(x) < HI:
            key, desc = f"{t}: whole numbers", "every whole number in range converts to itself"
            if is_err(r):
                ctx.ob(key, False, desc, f"{x!r} gives {r}")
                continue
            try:
                y = r.f[0]
                y = feval.ev(y.a[0], env) if isinstance(y, T) and y.op == "Int" else None
            except feval.NoEval:
                y = None
            ctx.ob(key, None if y is None else y == int(x), desc, f"{x!r} becomes {y} ({short(r)})")
        elif whole:
            ctx.ob(f"{t}: too large", is_err(r), "numbers out of range are refused", f"{x!r} gives {r}")
        elif abs(x - feval.rround(x)) > eps:
            ctx.ob(f"{t}: fractions", is_err(r), "numbers with a fractional part are refused", f"{x!r} gives {r}")
    ctx.stats.setdefault("regions", {})[t] = seen


def outof(ctx, t, f):
    I = interp(ctx)
    for s in INTTYS:
        for st, x, v in stored(ctx, I, s):
            for s2, r in I.run(f, [v], st):
                ctx.paths += 1
                key, desc = f"{s} to {t}", "a stored integer becomes the float nearest to it"
                if isinstance(r, Stop):
                    ctx.ob(key, False if r.kind == "panic" else None, desc, r)
                    continue
                if isinstance(r, T) and r.op == "i2f" and r.a[0] == t:
                    y = r.a[1]
                    while isinstance(y, T) and y.op == "cast":
                        lo, hi = I.bounds(s2, y.a[1])
                        q = ty_range(y.a[0])
                        if lo < q[0] or hi > q[1]:
                            break
                        y = y.a[1]
                    e = True if y is x else I.equal(s2, x, y)
                    if e is not True:
                        d = differ(I, s2, x, y)
                        e = False if isinstance(d, dict) else True if d is True else None
                    ctx.ob(key, e, desc, f"{short(x)} becomes {short(r)}")
                elif isinstance(r, T) and r.op == "fconst":
                    lo, hi = I.bounds(s2, x)
                    ctx.ob(key, feval.const(*r.a) == feval.i2f(lo, t) if lo == hi else None, desc, f"{lo} becomes {r}")
                else:
                    ctx.ob(key, None, desc, r)
