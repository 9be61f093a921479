"""C35: an integer's text and its serde form are the number."""
from ints import *

SHOW = f"<{INT} as core::fmt::Display>::fmt"
READ = f"<{INT} as core::str::traits::FromStr>::from_str"
SER = f"<{INT} as serde::ser::Serialize>::serialize"
LO, HI = -(1 << 127), (1 << 128) - 1


def numerals(deep):
    ks = range(0, 131) if deep else (0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 130)
    ns = {0, 1, 2, 5, 9, 10, 11, 99, 100, 12345} | {(1 << k) + d for k in ks for d in (-1, 0, 1)} | {10 ** k for k in range(0, 42, 1 if deep else 6)}
    ns |= {-n for n in ns} | {LO, LO - 1, HI, HI + 1}
    return [str(n) for n in sorted(ns)] + ["00", "007", "-0", "-00", "-007"]


GARBAGE = ["", "-", "--1", "abc", "1.5", " 1", "1 ", "0x10", "1_000", "-abc", "1e3", "0b", "12a", "-1-", "0-", "NaN"]


def plainly(I, s, y):
    """without the casts that leave the number as it is"""
    while isinstance(y, T) and y.op == "cast":
        a, b = I.bounds(s, y.a[1])
        q = ty_range(y.a[0])
        if a is None or b is None or a < q[0] or b > q[1]:
            break
        y = y.a[1]
    return y


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("An arbitrary stored integer is displayed, and what is printed must be the decimal form of exactly that number, and nothing else. Reading an unknown text must give the number that text "
                       "parses to; constant texts around every power of two, with leading zeros and signs, and texts that are no numbers are followed by constant propagation and must be read, or refused, "
                       "accordingly. The serde serialisation and every visitor of the deserialisation must pass the number on unchanged.")
    ctx.rule("display(i) is the numeral of i; from_str(numeral of n) is n for n in [-2^127, 2^128), an error for anything else; serialize and visit_* keep the number")
    ctx.floor = 20
    if not ctx.need(SHOW, READ):
        return
    for t in INTTYS:
        guard(ctx, f"{t}: shown", "an integer is shown as its number", lambda: shown(ctx, t))
    guard(ctx, "read", "a numeral is read as its number", lambda: read(ctx))
    guard(ctx, "unknown text", "a numeral is read as its number", lambda: unknown(ctx))
    if SER in P.fns:
        for t in INTTYS:
            guard(ctx, f"{t}: serialised", "an integer is serialised as its number", lambda: serialised(ctx, t))
    for f in P.fns:
        if f"<{INT} as serde::de::Deserialize" in f and "::visit_" in f and f.rsplit("visit_", 1)[1] in INTTYS:
            guard(ctx, f.rsplit("::", 1)[1], "a number is deserialised as that number", lambda: visited(ctx, f))


def shown(ctx, t):
    key, desc = f"{t}: shown", "an integer is shown as its number and nothing else"
    I = interp(ctx)
    for st, x, v in stored(ctx, I, t):
        n0 = len(st.events)
        for s, r in I.run(SHOW, [Ref(I.cell(st, v), ()), T("fmt")], st):
            ctx.paths += 1
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, r)
                continue
            parts = []
            for e in s.events[n0:]:
                if e[0] == "fmt":
                    parts += words(I.deep(s, e[1]))
            lo, hi = I.bounds(s, x)
            if parts and all(isinstance(p, str) for p in parts):
                txt = "".join(parts)
                if lo is not None and lo == hi:
                    ctx.ob(key, txt == str(lo), desc, f"{lo} is shown as {txt!r}")
                else:
                    w = witness(I, s, x)
                    ctx.ob(key, False if w else None, desc, f"{w or short(x)} is shown as {txt!r}")
            elif len(parts) == 1 and isinstance(parts[0], T) and parts[0].op == "display":
                y = plainly(I, s, parts[0].a[0])
                if not isinstance(y, (int, T)):
                    w = witness(I, s, x)
                    ctx.ob(key, False if w and isinstance(y, Agg) and not opaque(y) else None, desc, f"{w or short(x)} is shown as {short(parts[0])}")
                    continue
                e = same(I, s, x, y)
                ctx.ob(key, e[0], desc, e[1])
            else:
                ctx.ob(key, None, desc, f"shown as {[short(p) for p in parts]}")


def words(v):
    if isinstance(v, Str):
        return [w for p in v.parts for w in ([p] if isinstance(p, str) else words(p))]
    if isinstance(v, str):
        return [v]
    if isinstance(v, Agg) and v.tag == "fmtargs":
        return [w for x in v.f for w in words(x)]
    return [v]


def number(ctx, I, s, v):
    """[(state, number)] that an Integer stands for, None where it is not clear"""
    out = []
    for t in ("i128", "u128"):
        for s2, w in I.run(tryfrm(t), [v], s.copy()):
            if is_ok(w):
                out.append((s2, w.f[0]))
        if out:
            return out
    return [(s, None)]


def read(ctx):
    I = interp(ctx)
    for txt in numerals(ctx.thorough) + GARBAGE:
        n = int(txt) if txt not in GARBAGE else None
        good = n is not None and LO <= n <= HI
        key = "read numerals" if good else "refused"
        desc = "a numeral is read as its number" if good else "a text that is no storable number is refused"
        for s, r in I.run(READ, [Str([txt])], State()):
            ctx.paths += 1
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, f"{txt!r}: {r}")
            elif is_err(r):
                ctx.ob(key, None if s.iv else not good, desc, f"{txt!r} is refused")
            elif not is_ok(r):
                ctx.ob(key, None, desc, f"{txt!r}: {short(r)}")
            elif not good:
                ctx.ob(key, None if s.iv else False, desc, f"{txt!r} is read as {short(r)}")
            else:
                for s2, y in number(ctx, I, s, r.f[0]):
                    ctx.ob(key, y == n if is_int(y) else None, desc, f"{txt!r} is read as {short(y)}")


def unknown(ctx):
    key, desc = "unknown text", "what is read is the number that the whole text stands for"
    I = ctx.interp(int_hooks())
    text = T("sym", "text")
    for s, r in I.run(READ, [Str([text])]):
        ctx.paths += 1
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" and "idx" not in str(r) and not any(opaque(c) for c in s.iv) else None, desc, r)
        elif is_ok(r) and isinstance(r.f[0], T) and r.f[0].op == "Int":
            y = plainly(I, s, r.f[0].a[0])
            whole = isinstance(y, T) and y.op == "parsed" and y.a[0] in INTTYS and y.a[1] in (text, Str([text]))
            ctx.ob(key, True if whole else None, desc, short(r))


def serialised(ctx, t):
    key, desc = f"{t}: serialised", "an integer is serialised as its number"
    I = interp(ctx)
    for st, x, v in stored(ctx, I, t):
        for s, r in I.run(SER, [Ref(I.cell(st, v), ()), T("serialiser")], st, {"S": "S"}):
            ctx.paths += 1
            if isinstance(r, Stop):
                ctx.ob(key, False if r.kind == "panic" else None, desc, r)
            elif is_ok(r) and isinstance(r.f[0], T) and r.f[0].op == "serialised":
                e = same(I, s, x, plainly(I, s, r.f[0].a[1]))
                ctx.ob(key, e[0], desc, e[1])
            elif is_err(r):
                w = witness(I, s, x)
                ctx.ob(key, False if w else None, desc, f"{w or short(x)} is refused")
            else:
                ctx.ob(key, None, desc, short(r))


def visited(ctx, f):
    t = f.rsplit("visit_", 1)[1]
    key, desc = f"{t}: deserialised", "a number is deserialised as that number"
    I = ctx.interp(int_hooks())
    x = T("sym", "n", t)
    for s, r in I.run(f, [T("visitor"), x], State(), {"E": "E"}):
        ctx.paths += 1
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, desc, r)
        elif is_err(r):
            w = witness(I, s, x)
            ctx.ob(key, False if w and not opaque(r) else None, desc, f"{w or short(x)} is refused")
        elif is_ok(r) and isinstance(r.f[0], T) and r.f[0].op == "Int":
            e = same(I, s, x, plainly(I, s, r.f[0].a[0]))
            ctx.ob(key, e[0], desc, e[1])
        else:
            ctx.ob(key, None, desc, short(r))
