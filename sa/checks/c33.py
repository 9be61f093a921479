"""C33: integers survive their own encoding."""
from ints import *


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("An arbitrary number of each machine type is stored, written, read back and converted again by interpreting the code on a value known only by its bytes; "
                       "every stored shape (number of bytes used, sign) is one path. What comes back must be the same number on each path, compare equal to the Integer written, "
                       "feed the hasher the same data, and leave the cursor at the end of what was written.")
    ctx.rule("ser then deser then try_from is the identity, deser(ser(i)) == i, hash(deser(ser(i))) == hash(i), and the bytes are consumed exactly")
    ctx.floor = 5
    eqf, hashf = f"<{INT} as core::cmp::PartialEq>::eq", f"<{INT} as core::hash::Hash>::hash"
    if not ctx.need(INT + "::ser", INT + "::deser", eqf, hashf, *(frm(t) for t in INTTYS), *(tryfrm(t) for t in INTTYS)):
        return
    for t in INTTYS:
        def go():
            I = interp(ctx)
            for st, x, v in stored(ctx, I, t):
                key = f"{t}: "
                for s1, w in I.run(INT + "::ser", [v], st):
                    if not (isinstance(w, Agg) and isinstance(w.f[1], Seq)):
                        ctx.ob(key + "written", False if isinstance(w, Stop) and w.kind == "panic" else None, "every stored integer can be written", w)
                        continue
                    after = T("sym", "after", "u8")
                    cu = I.cell(s1, cursor(list(w.f[1].items) + [after]))
                    for s2, r in I.run(INT + "::deser", [w.f[0], Ref(cu, ())], s1):
                        ctx.paths += 1
                        if not is_ok(r):
                            ctx.ob(key + "read back", False if not opaque(r) and witness(I, s2, x) else None, "a written integer is read back", f"written as {w}, read: {r}")
                            continue
                        c = s2.cells[cu]
                        at = c.f[1] if isinstance(c, Agg) else None
                        ctx.ob(key + "consumed", at == len(w.f[1].items) if is_int(at) else None, "reading consumes exactly what was written", f"{at} of {len(w.f[1].items)}")
                        back(ctx, I, s2, key, t, x, v, r.f[0], eqf, hashf)
        guard(ctx, t, "integers survive their own encoding", go)
    for t in INTTYS:
        named = f"{INT}::{t}"
        if named not in P.fns:
            continue

        def go2():
            I = ctx.interp(int_hooks())
            x = T("sym", "n", t)
            for st, v in I.run(named, [x]):
                ctx.paths += 1
                r = same(I, st, T("Int", x, t), v)
                ctx.ob(f"{t}: constructor", r[0], "Integer::<type>(n) stores n", r[1])
        guard(ctx, f"{t}: constructor", "Integer::<type>(n) stores n", go2)
    for t in INTTYS:
        def go3():
            json(ctx, t)
        guard(ctx, f"{t}: json", "an integer that JSON can hold comes back from it", go3)


def back(ctx, I, st, key, t, x, v, r, eqf, hashf):
    for s, w in I.run(tryfrm(t), [r], st.copy()):
        ctx.paths += 1
        if is_ok(w):
            y = same(I, s, x, w.f[0])
            ctx.ob(key + "same number", y[0], "the number read back is the number stored", y[1])
        else:
            ctx.ob(key + "same number", False if isinstance(w, Stop) and w.kind == "panic" or is_err(w) and not opaque(w) else None,
                   "the number read back is the number stored", f"{short(r)} gives {w}")
    for a, b, n in ((v, r, "equal"), (r, v, "equal the other way")):
        for s, w in I.run(eqf, [a, b], st.copy()):
            ctx.paths += 1
            w = I.simp(s, w)
            ctx.ob(key + n, bool(w) if is_int(w) else None, "the integer read back equals the one written", f"{short(a, 300)} and {short(b, 300)}: {w}")
    hs = []
    for a in (v, r):
        s0 = st.copy()
        n0 = len(s0.events)
        h = I.cell(s0, T("hasher"))
        for s, w in I.run(hashf, [a, Ref(h, ())], s0):
            hs.append([I.deep(s, e[1]) for e in s.events[n0:] if e[0] == "hash"])
    if len(hs) == 2:
        a, b = Seq([x for x in hs[0]]), Seq([x for x in hs[1]])
        y = same(I, st, a, b) if hs[0] else (None, "nothing hashed")
        ctx.ob(key + "same hash", y[0], "the integer read back hashes like the one written", f"{short(a)} and {short(b)}")
    else:
        ctx.ob(key + "same hash", None, "the integer read back hashes like the one written", f"{len(hs)} paths")


def json(ctx, t):
    if INT + "::to_json" not in ctx.P.fns or INT + "::from_json" not in ctx.P.fns:
        return
    I = ctx.interp(int_hooks())
    x = T("sym", "n", t)
    lo, hi = ty_range(t)
    for st, w in I.run(INT + "::to_json", [T("Int", x, t)]):
        ctx.paths += 1
        if not isinstance(w, Agg) or w.tag != OPT:
            ctx.ob(f"{t}: json", None, "an integer that JSON can hold comes back from it", w)
            continue
        a, b = I.bounds(st, x)
        if w.var == 0:
            fits = -(1 << 63) <= a and b <= (1 << 64) - 1
            ctx.ob(f"{t}: json refused", False if fits else True, "only numbers JSON cannot hold are refused", f"{a} to {b}")
            continue
        num = w.f[0].f[0] if isinstance(w.f[0], Agg) and w.f[0].f else None
        for s2, r in I.run(INT + "::from_json", [num], st):
            ctx.paths += 1
            if isinstance(r, Agg) and r.tag == OPT and r.var == 1:
                v = r.f[0]
                if isinstance(v, T) and v.op == "Int":
                    d = I.equal(s2, v.a[0], x)
                    y = (True, "") if d else compare(I, s2, x, v.a[0])
                    ctx.ob(f"{t}: json", y[0], "an integer that JSON can hold comes back from it", f"{short(num)} {y[1]}")
                else:
                    ctx.ob(f"{t}: json", None, "an integer that JSON can hold comes back from it", r)
            else:
                ctx.ob(f"{t}: json", None if opaque(r) or not isinstance(r, Agg) else False, "an integer that JSON can hold comes back from it", f"{num} gives {r}")


def compare(I, st, x, y):
    #a cast of a number that fits is that number
    while isinstance(y, T) and y.op == "cast":
        lo, hi = I.bounds(st, y.a[1])
        r = ty_range(y.a[0])
        if lo is None or hi is None or lo < r[0] or hi > r[1]:
            break
        y = y.a[1]
    if y is x:
        return True, ""
    d = differ(I, st, x, y)
    return (True if d is True else None if d is None else False), f"{short(x)} became {short(y)}: {d}"
