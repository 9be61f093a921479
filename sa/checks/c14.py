"""C14: the read cursor stays within its data."""
from lib import *
from souris import *

C = f"{CUR}::<'a, T>::"
M64 = (1 << 64) - 1
FROM = "std::io::SeekFrom"
NEW, SETPOS, POS, LEFT = C + "new", C + "set_pos", C + "pos", C + "items_remaining"
ASREF = f"<{CUR}<'a, T> as core::convert::AsRef<[T]>>::as_ref"
NEXT = f"<{CUR}<'a, T> as core::iter::traits::iterator::Iterator>::next"
TAKES = {C + "read": "read", C + "peek": "peek"}
EXACT = {C + "read_exact": "read", C + "peek_exact": "peek"}


def seek_fn(P):
    for f in P.fns:
        if f.startswith(f"<{CUR}<'a, T> as ") and f.endswith("::Seek>::seek"):
            return f


def one(outs):
    outs = [o for o in outs]
    return outs[0] if len(outs) == 1 else (outs[0][0] if outs else None, None)


class Bad(Exception):
    pass


def make(ctx, I, data, pos, st=None):
    """[(state, reference to a cursor over data at pos)], built through the public interface"""
    out = []
    for st, c in I.run(NEW, [data], st or State()):
        if isinstance(c, Stop):
            raise Bad(f"Cursor::new: {c}")
        cell = I.cell(st, c)
        for s, w in I.run(SETPOS, [Ref(cell, ()), pos], st):
            if isinstance(w, Stop):
                raise Bad(f"set_pos: {w}")
            out.append((s, Ref(cell, ())))
    return out


def where(I, st, r):
    s, p = one(I.run(POS, [r], st.copy()))
    return I.simp(s, p) if p is not None and not isinstance(p, Stop) else None


def got(I, st, v):
    """elements of a slice, or None"""
    v = I.deep(st, v)
    return list(v.items) if isinstance(v, Seq) else None


def grid(ctx, seek):
    """every operation at every position of short data, with arguments around every boundary"""
    top = 6 if ctx.thorough else 4
    for n in range(top + 1):
        data = Seq([T("sym", f"d{i}", "u8") for i in range(n)])
        for p in range(n + 1):
            ks = sorted({k for k in list(range(n + 3)) + [M64, M64 - p, M64 - p + 1, 1 << 63, (1 << 63) - 1, (1 << 32), (1 << 32) + 1] if 0 <= k <= M64})
            for f in list(TAKES) + [C + "move_forwards", C + "move_backwards", SETPOS]:
                for k in ks:
                    yield f, n, p, k, data, [k], {}
            for f in EXACT:
                for k in range(n + 3):
                    yield f, n, p, k, data, [], {"N": k}
            for f in (C + "read_remaining", C + "peek_remaining", ASREF, POS, LEFT, C + "is_finished", NEXT):
                yield f, n, p, 0, data, [], {}
            if seek:
                for kind in ("Start", "Current", "End"):
                    rng = [0, 1, 2, n, n + 1, p, 1 << 63, M64, (1 << 63) - 1] if kind == "Start" else \
                          [0, 1, -1, n - p, n - p + 1, -p, -p - 1, -n, -n - 1, (1 << 63) - 1, -(1 << 63), 2]
                    for k in sorted(set(rng)):
                        yield seek, n, p, (kind, k), data, [(kind, k)], {}


def expected(f, n, p, k, data, seek):
    """(answer, position afterwards)"""
    d = list(data.items)
    if f in TAKES or f in EXACT:
        ok_ = p + k <= n
        moves = (TAKES.get(f) or EXACT.get(f)) == "read"
        return (("some", d[p:p + k]) if ok_ else ("none",)), p + k if ok_ and moves else p
    if f == C + "move_forwards":
        return (("is", int(p + k <= n)), p + k if p + k <= n else p)
    if f == C + "move_backwards":
        return (("is", int(k <= p)), p - k if k <= p else p)
    if f == SETPOS:
        return ("any",), min(k, n)
    if f == C + "read_remaining":
        return ("items", d[p:]), n
    if f in (C + "peek_remaining", ASREF):
        return ("items", d[p:]), p
    if f == POS:
        return ("is", p), p
    if f == LEFT:
        return ("is", n - p), p
    if f == C + "is_finished":
        return ("is", int(p == n)), p
    if f == NEXT:
        return (("item", d[p]), p + 1) if p < n else (("none",), p)
    if f == seek:
        q = {"Start": 0, "Current": p, "End": n}[k[0]] + k[1]
        return (("ok", q), q) if 0 <= q <= n else (("err",), p)


def fits(I, st, want, v):
    k = want[0]
    if k == "any":
        return not isinstance(v, Stop)
    if isinstance(v, Stop):
        return False if v.kind == "panic" else None
    v = I.simp(st, I.load(st, v))
    if k == "is":
        return v == want[1] if is_int(v) else None
    if k == "items":
        g = got(I, st, v)
        return None if g is None else g == want[1]
    if not isinstance(v, Agg) or v.var is None:
        return None
    if k in ("ok", "err"):
        if v.tag != RES:
            return None
        if (v.var == 0) != (k == "ok"):
            return False
        return True if k == "err" else v.f[0] == want[1] if is_int(v.f[0]) else None
    if v.tag != OPT:
        return None
    if (v.var == 1) != (k != "none"):
        return False
    if k == "none":
        return True
    if k == "item":
        return I.deep(st, v.f[0]) == want[1]
    g = got(I, st, v.f[0])
    return None if g is None else g == want[1]


def name(f):
    return f.split("::")[-1]


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Every public operation of the cursor is interpreted at every position of data of up to four (thorough: six) unknown elements, with arguments on both sides of every "
                       "boundary including those that overflow; then on data of unknown length at an unknown position with an unknown argument, where the facts of each path must "
                       "imply that the position stays within the data. Positions are set and observed through the cursor's own interface.")
    ctx.rule("reading, peeking, moving and seeking give the elements asked for or fail without moving; the position never leaves the data")
    ctx.floor = 100
    seek = seek_fn(P)
    if not ctx.need(NEW, SETPOS, POS, LEFT, ASREF, NEXT, *TAKES, *EXACT, C + "move_forwards", C + "move_backwards", C + "read_remaining", C + "peek_remaining", C + "is_finished"):
        return
    ctx.ob("seek exists", True if seek else False, "the cursor can be used through std::io::Seek")
    desc = "the elements asked for, or failure without moving"
    for f, n, p, k, data, args, sub in grid(ctx, seek):
        key = f"{name(f)}: at {p} of {n}"

        def go():
            I = ctx.interp()
            try:
                cs = make(ctx, I, data, p)
            except Bad as e:
                return ctx.ob(key, None, desc, e)
            for st, r in cs:
                at = where(I, st, r)
                if at != p:
                    ctx.ob(key, False if is_int(at) else None, desc, f"set_pos({p}) on {n} elements leaves the position at {at}")
                    continue
                a = args
                if f == seek:
                    kind, off = k
                    a = [Agg(FROM, {"Start": 0, "End": 1, "Current": 2}[kind], (off,))]
                want, after = expected(f, n, p, k, data, seek)
                alt = None
                if want[0] == "some" and k == 0:
                    alt = ("none",)     #reading nothing at the end may be refused
                for s, w in I.run(f, [r] + a, st.copy(), dict(sub, T="u8")):
                    ctx.paths += 1
                    ok_ = fits(I, s, want, w)
                    if ok_ is False and alt and fits(I, s, alt, w) and p == n:
                        ok_ = True
                    q = where(I, s, r) if not isinstance(w, Stop) else after
                    if ok_ and q != after:
                        ok_ = False if is_int(q) else None
                    if ok_ is False and (opaque(w) or any("unmodelled" in x for x in s.notes)):
                        ok_ = None
                    ctx.ob(key, ok_, desc, f"{name(f)}({k}) at {p} of {n} elements: {short(w)}, position {q}; expected {want} and {after}")
        guard(ctx, key, desc, go)
    guard(ctx, "unbounded", "the position stays within the data", lambda: unbounded(ctx, seek))


def unbounded(ctx, seek):
    """unknown data, position and argument: the position stays within the data on every path"""
    for f in sorted(ctx.P.fns):
        if not (f.startswith(C) or f.startswith(f"<{CUR}<'a, T> as ")) or f == NEW or "{closure" in f:
            continue
        fn = ctx.P.fns[f]
        body = fn.j["body"]
        key = f"{name(f)}: anywhere"
        desc = "the position stays within the data whatever its length"
        tys = [fn.types[l[0]]["s"] for l in body["locals"][1:body["argc"] + 1]]
        if not tys or not tys[0].startswith("&"):
            continue

        def go():
            I = ctx.interp()
            L_ = T("sym", "len", "usize")
            data = Seq([Chunk("data", T("sym", "data"))])
            pos = T("sym", "p", "usize")
            st = State()
            I.assume_cmp(st, "Le", pos, I.chunk_len(data.items[0]))
            for st, r in make(ctx, I, data, pos, st):
                for a in arguments(tys[1:]):
                    for s, w in I.run(f, [r] + a, st.copy(), {"N": 3, "T": "u8"}):
                        ctx.paths += 1
                        if isinstance(w, Stop):
                            if w.kind == "panic":
                                ctx.ob(key, None, desc, w)
                            continue
                        q = where(I, s, r)
                        total = I.chunk_len(data.items[0])
                        inside = None if q is None else I.cmp(s, "Le", q, total)
                        ctx.ob(key, True if inside == 1 else None, desc, f"position {q} of {total}")
        guard(ctx, key, desc, go)


def arguments(tys):
    if not tys:
        yield []
        return
    t = tys[0]
    xs = [T("sym", "n", t)] if ty_range(t) else [Agg(FROM, i, (T("sym", "n", "u64" if i == 0 else "i64"),)) for i in range(3)] if t.endswith("SeekFrom") else [T("sym", "arg")]
    for x in xs:
        for y in arguments(tys[1:]):
            yield [x] + y
