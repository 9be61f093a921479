"""C32: polar and cartesian form name the same number."""
import math
from ints import *
import feval

FROM = IMAG + "::polar_from_cartesian"
POLAR, CART = IMAG + "::to_polar_form", IMAG + "::to_cartesian_form"
DESC = "the polar form of a number is its distance from zero and its angle"
DESC2 = "the cartesian form of a number is its modulus times the cosine and the sine of its argument"
AXIS = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -3.0, 7.0, -12.0, 1e-9, -1e-9, 1e10, -1e10, 1e38, -1e38, 3e38, 1e200, -1e200, 1e-200]


def agree(x, y, scale):
    return x == y or math.isfinite(x) and abs(x - y) <= 1e-9 * scale


def on(conds, env):
    return all(holds(c, env) == w for c, w in conds)


def holds(c, env):
    if c.op == "converts":
        x = feval.ev(c.a[0], env)
        return int(math.isfinite(x) and x == math.trunc(x) and -2.0 ** 127 <= x < 2.0 ** 128)
    return feval.ev(c, env)


def fixed(st):
    return [(c, b[0]) for c, b in st.iv.items() if b[0] is not None and b[0] == b[1]]


def sure(st, sy):
    """whether everything known about a path is about these unknowns, so that evaluating it settles whether it is taken"""
    return all(b[0] is not None and b[0] == b[1] for c, b in st.iv.items() if any(s in set(subterms(c)) for s in sy))


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("The three conversions are interpreted on unknown floats and unknown stored integers. The result is a formula over the inputs: the polar form must be "
                       "hypot and atan2 of the imaginary and the real part, the cartesian form modulus times cosine and modulus times sine, in their roles. A formula of another "
                       "shape is evaluated, under its path's facts, at representative points of every quadrant, axis and magnitude; a point where it names another number is a violation.")
    ctx.rule("polar(x, y) = (hypot(x, y), atan2(y, x)); cartesian(m, a) = (m cos a, m sin a) or the unchanged polar number; the form asked for is returned unchanged")
    ctx.floor = 5
    if not ctx.need(FROM, POLAR, CART):
        return
    guard(ctx, "polar", DESC, lambda: polar(ctx))
    guard(ctx, "integers to polar", DESC, lambda: ints_polar(ctx))
    guard(ctx, "cartesian", DESC2, lambda: cartesian(ctx))
    guard(ctx, "as it is", "a number already in the form asked for is returned unchanged", lambda: already(ctx))


def judge(ctx, key, outs, x, y):
    """outs: [(state, result)] of converting x + yi, leaves of the result's formulas, to polar form"""
    points = []
    for st, r in outs:
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, DESC, r)
            continue
        if not (isinstance(r, Agg) and r.tag == IMAG):
            ctx.ob(key, None, DESC, r)
            continue
        if r.var != 1:
            ctx.ob(key, None if opaque(r) else False, "converting to polar form gives polar form", f"{short(r)}")
            continue
        m, a = r.f
        if m in (T("fcall", "hypot", x, y), T("fcall", "hypot", y, x)) and a == T("fcall", "atan2", y, x):
            ctx.ob(key, True, DESC)
        else:
            points.append((st, m, a))
    for st, m, a in points:
        bad = None
        seen = 0
        for u in AXIS:
            for v in AXIS + [-0.0]:
                env = {x: u, y: v}
                try:
                    if not on(fixed(st), env):
                        continue
                    mm, aa = feval.ev(m, env), feval.ev(a, env)
                except (feval.NoEval, OverflowError):
                    continue
                seen += 1
                h = math.hypot(u, v)
                if not (agree(mm, h, h) and -math.pi <= aa <= math.pi and agree(mm * math.cos(aa), u, h) and agree(mm * math.sin(aa), v, h)):
                    bad = bad or f"{u} + {v}i becomes modulus {mm}, argument {aa}"
        if bad and sure(st, (x, y)):
            ctx.ob(key, False, DESC, f"modulus {short(m)}, argument {short(a)}: {bad}")
        else:
            ctx.ob(key, None, DESC, f"modulus {short(m)}, argument {short(a)}: right at {seen} points" if not bad else bad)


def polar(ctx):
    I = ctx.interp(int_hooks())
    x, y = T("sym", "re", "f64"), T("sym", "im", "f64")
    outs = list(I.run(FROM, [x, y]))
    ctx.paths += len(outs)
    judge(ctx, "polar", outs, x, y)


def ints_polar(ctx):
    def conv(I, st, a, c):
        return T("flt", I.deep(st, a[0]))
    hooks = dict(int_hooks())
    for f in ("sourisdb::types::integer::<impl core::convert::From<%s> for f64>::from" % INT, f"<f64 as core::convert::From<{INT}>>::from"):
        hooks[f] = conv
    I = ctx.interp(hooks)
    p, q = T("Int", T("sym", "re", "i64"), "i64"), T("Int", T("sym", "im", "i64"), "i64")
    outs = list(I.run(POLAR, [Agg(IMAG, 0, (p, q))]))
    ctx.paths += len(outs)
    judge(ctx, "integers to polar", outs, T("flt", p), T("flt", q))


def cartesian(ctx):
    key = "cartesian"
    def conv(I, st, a, c):
        x = I.simp(st, L(I, st, a[0]))
        k = T("converts", x)
        return [(s, ok(T("toint", x)) if b else err(T("refused", x))) for s, b in I.decide(st, k)]
    hooks = dict(int_hooks())
    hooks[f"<{INT} as core::convert::TryFrom<f64>>::try_from"] = conv
    I = ctx.interp(hooks)
    m, a = T("sym", "modulus", "f64"), T("sym", "argument", "f64")
    outs = list(I.run(CART, [Agg(IMAG, 1, (m, a))]))
    ctx.paths += len(outs)
    cos, sin = T("fcall", "cos", a), T("fcall", "sin", a)
    whole = 0
    for st, r in outs:
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, DESC2, r)
            continue
        if is_ok(r):
            r = r.f[0]
            if not (isinstance(r, Agg) and r.tag == IMAG and len(r.f) == 2):
                ctx.ob(key, None, DESC2, short(r))
                continue
            if r.var != 0:
                ctx.ob(key, False, "converting to cartesian form gives cartesian form", short(r))
                continue
            whole += 1
            for role, t, want in (("real", r.f[0], cos), ("imaginary", r.f[1], sin)):
                part(ctx, key + " " + role, st, t, want, m, a)
        elif is_err(r):
            p = r.f[0]
            p = p.f[0] if isinstance(p, Agg) and p.f else p
            want = Agg(IMAG, 1, (m, a))
            k, d = "cartesian refused", "a number that has no cartesian form is given back as it was"
            if p == want:
                ctx.ob(k, True, d)
            else:
                ctx.ob(k, False if isinstance(p, Agg) and p.tag == IMAG and not opaque(p) and clearly(p, want, m, a) else None, d, f"{short(want)} became {short(p)}")
            why = [q for q in subterms(r.f[0].f[1])] if isinstance(r.f[0], Agg) and len(r.f[0].f) == 2 and isinstance(r.f[0].f[1], T) else []
            if not any(q.op == "refused" for q in why):
                ctx.ob("cartesian refusals", None, "only numbers without a cartesian form are refused", short(r))
        else:
            ctx.ob(key, None, DESC2, short(r))
    ctx.ob("cartesian possible", True if whole else False if all(is_err(r) for _, r in outs) else None, "numbers whose parts are integers have a cartesian form", "no path succeeds")


def clearly(p, want, m, a):
    if p.var != 1:
        return True
    for u, v in ((2.0, 0.25), (3.0, -2.5), (0.1, 3.0)):
        try:
            got = [feval.ev(t, {m: u, a: v}) for t in p.f]
        except feval.NoEval:
            return False
        if got != [u, v]:
            return True
    return False


def part(ctx, key, st, t, want, m, a):
    if not (isinstance(t, T) and t.op == "toint"):
        ctx.ob(key, None, DESC2, short(t))
        return
    x = t.a[0]
    if x in (T("fMul", m, want, "f64"), T("fMul", want, m, "f64")):
        ctx.ob(key, True, DESC2)
        return
    bad = None
    seen = 0
    for u in (0.0, 1.0, 2.0, 13.0, 0.5, 1e10, 1e38, -3.0):
        for v in (0.0, -0.0, 0.25, 1.0, 2.0, 3.0, math.pi, math.pi / 2, -0.25, -1.0, -2.0, -3.0, -math.pi, -math.pi / 2, 5.0, 7.0, -9.0):
            env = {m: u, a: v}
            try:
                if not on(fixed(st), env):
                    continue
                got, w = feval.ev(x, env), u * feval.ev(want, env)
            except (feval.NoEval, OverflowError):
                continue
            seen += 1
            if not agree(got, w, abs(u)):
                bad = bad or f"modulus {u}, argument {v} give {got} instead of {w}"
    if bad and sure(st, (m, a)):
        ctx.ob(key, False, DESC2, f"{short(x)}: {bad}")
    else:
        ctx.ob(key, None, DESC2, f"{short(x)}: right at {seen} points" if not bad else bad)


def already(ctx):
    desc = "a number already in the form asked for is returned unchanged"
    for f, v in ((POLAR, Agg(IMAG, 1, (T("sym", "modulus", "f64"), T("sym", "argument", "f64")))),
                 (CART, Agg(IMAG, 0, (T("Int", T("sym", "re", "i64"), "i64"), T("Int", T("sym", "im", "i64"), "i64"))))):
        I = ctx.interp(int_hooks())
        for st, r in I.run(f, [v]):
            ctx.paths += 1
            key = "as it is: " + f.split("::")[-1]
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, r)
                continue
            if f == CART:
                if not is_ok(r):
                    ctx.ob(key, None if opaque(r) else False, desc, short(r))
                    continue
                r = r.f[0]
            r = I.deep(st, r)
            e = same(I, st, v, r)
            ctx.ob(key, e[0], desc, e[1])
