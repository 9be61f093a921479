"""C37: arithmetic on stored integers."""
from ints import *
from c35 import plainly

OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div"}
SMALL, WIDE = ("u32", "i32"), ("u8", "i8", "u16", "i16", "u64", "i64")
CONSTS = {"u": (0, 1, 2, 3, 10, 255, 256, (1 << 64) - 1, 1 << 64, (1 << 127) - 1, 1 << 127, (1 << 128) - 1),
          "i": (0, 1, -1, 2, -2, 3, 7, -7, 10, -128, -129, 255, 256, -256, -257, (1 << 63) - 1, -(1 << 63), (1 << 127) - 1, -(1 << 127))}
U, S = (0, (1 << 128) - 1), (-(1 << 127), (1 << 127) - 1)


def path(op):
    return f"<{INT} as core::ops::arith::{op}>::{OPS[op]}"


def exact(op, x, y):
    if op == "Add":
        return x + y
    if op == "Sub":
        return x - y
    if op == "Mul":
        return x * y
    if y == 0:
        return None
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def possible(op, s, t, x, y):
    """the exact result if the arithmetic has to give it: in u128 for two unsigned numbers, in i128 otherwise"""
    r = U if s[0] == t[0] == "u" else S
    z = exact(op, x, y)
    inside = lambda n: r[0] <= n <= r[1]
    return z if z is not None and inside(x) and inside(y) and inside(z) else None


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Each operator is interpreted on two arbitrary stored integers of every pairing of kinds: on a path that returns, the result must be that operation on the two numbers, in this order, "
                       "carried out in u128 when both are unsigned and in i128 otherwise, without wrapping. Pairs of constants around every limit are followed by constant propagation and must give "
                       "the exact result when it fits, and nothing when it does not.")
    ctx.rule("a + b, a - b, a * b, a / b is the exact result (truncated towards zero) when it and both operands fit the arithmetic (u128 for two unsigned, i128 otherwise); otherwise a panic, never another number")
    ctx.assumptions += ["overflow checks are on, as in the build analysed; numbers wider than the arithmetic's type are refused by a panic"]
    ctx.floor = 20
    if not ctx.need(*(path(o) for o in OPS)):
        return
    for op in OPS:
        for s, t in [(a, b) for k in ((SMALL, WIDE) if ctx.thorough else (SMALL,)) for a in k for b in k]:
            guard(ctx, f"{op} {s} {t}", "arithmetic is exact", lambda: symbolic(ctx, op, s, t))
        for s in ("u128", "i128"):
            for t in ("u128", "i128"):
                guard(ctx, f"{op} {s} {t}: constants", "arithmetic is exact", lambda: constants(ctx, op, s, t))


def made(I, t, x, st):
    out = []
    for s, v in I.run(frm(t), [x], st):
        out.append((s, v))
    return out


def value(I, s, v):
    """[(state, number)] of an Integer"""
    v = I.load(s, v)
    if isinstance(v, T):
        return [(s, v.a[0] if v.op == "Int" else None)]
    for t in ("i128", "u128"):
        out = []
        for s2, w in I.run(tryfrm(t), [v], s.copy()):
            if is_ok(w):
                out.append((s2, w.f[0]))
        if out:
            return out
    return [(s, None)]


def constants(ctx, op, s, t):
    key, desc = f"{op} {s} {t}: constants", "arithmetic gives the exact result when it fits, and nothing otherwise"
    I = interp(ctx)
    for x in CONSTS[s[0]]:
        for y in CONSTS[t[0]]:
            want = possible(op, s, t, x, y)
            for s1, a in made(I, s, x, State()):
                for s2, b in made(I, t, y, s1):
                    for s3, r in I.run(path(op), [a, b], s2):
                        ctx.paths += 1
                        how = f"{x}{s} {op} {y}{t}"
                        sure = not s3.iv
                        if isinstance(r, Stop):
                            ctx.ob(key, (want is None if sure else None) if r.kind == "panic" else None, desc, f"{how}: {r}" if want is not None else "")
                            continue
                        for s4, z in value(I, s3, r):
                            z = I.simp(s4, z) if z is not None else None
                            if not is_int(z) or s4.iv:
                                ctx.ob(key, None, desc, f"{how}: {short(z)}")
                            else:
                                ctx.ob(key, z == exact(op, x, y), desc, f"{how} gives {z}, not {want}")


def symbolic(ctx, op, s, t):
    key, desc = f"{op} {s} {t}", "the result is this operation on these two numbers, in their order"
    #the result's own representation is C10's and C33's business
    hooks = {**cursor_hooks(), **{frm(k): h_int_from(k) for k in ("u128", "i128")}}
    I = ctx.interp(hooks)
    I.merge = True
    x, y = T("sym", "n", s), T("sym", "m", t)
    good = 0
    for s1, a in made(I, s, x, State()):
        for s2, b in made(I, t, y, s1):
            for s3, r in I.run(path(op), [a, b], s2):
                ctx.paths += 1
                if isinstance(r, Stop):
                    if r.kind != "panic":
                        ctx.ob(key, None, desc, r)
                    continue        #whether refusing is right is decided on constants
                for s4, z in value(I, s3, r):
                    good += 1
                    if z is None:
                        ctx.ob(key, None, desc, short(r))
                        continue
                    ctx.ob(key, *compare(I, op, s4, s, t, x, y, z, desc))
    ctx.ob(f"{key}: returns", True if good else None, "some path returns")


def compare(I, op, st, s, t, x, y, z, desc):
    p, q, z = (I.simp(st, v) for v in (x, y, z))
    if is_int(p) and is_int(q) and is_int(z):
        return (True, desc, "") if z == exact(op, p, q) else (False if witness(I, st, x, y) else None, desc, f"{p}{s} {op} {q}{t} gives {z}")
    base = plainly(I, st, z)
    if p == 0 and op in ("Mul", "Div") or q == 0 and op == "Mul":
        if z == 0:
            return True, desc, ""
    elif p == 0 and op == "Add" and base == q or q == 0 and op in ("Add", "Sub") and base == plainly(I, st, p):
        return True, desc, ""
    if isinstance(base, T) and base.op == op and [plainly(I, st, k) for k in base.a[:2]] in [[k, l][::o] for k in (p, x) for l in (q, y) for o in ((1, -1) if op in ("Add", "Mul") else (1,))]:
        return True, desc, ""
    n = 0
    for d, e in assignments(I, st, leaves(x, y, z, *st.iv), 40):
        p, q, r = (v if is_int(v) else e.ev(v) for v in (x, y, z))
        if not all(isinstance(k, int) for k in (p, q, r)):
            continue
        n += 1
        if r != exact(op, p, q):
            return False, desc, f"{p}{s} {op} {q}{t} gives {r}"
    return None, desc, f"gives {short(z)}"
