"""C30: a bit string holds exactly the bits that were pushed."""
from lib import *
from souris import *

MOD = "sourisdb::utilities::bits::"
NEW = f"<{BITS} as core::default::Default>::default"
IDX = f"<{BITS} as core::ops::index::Index<T>>::index"
SHOW = f"<{BITS} as core::fmt::Display>::fmt"
TOVEC = f"{MOD}<impl core::convert::From<{BITS}> for alloc::vec::Vec<bool>>::from"
FROMB = f"<{BITS} as core::convert::From<T>>::from"
ITB = f"<{BITS} as core::iter::traits::collect::FromIterator<bool>>::from_iter"
ITM = f"<{BITS} as core::iter::traits::collect::FromIterator<{BITS}>>::from_iter"
INTO = f"<{BITS} as core::iter::traits::collect::IntoIterator>::into_iter"


class Odd(Exception):
    """a step that does not have exactly one outcome"""


def step(ctx, I, st, f, args, sub=None):
    outs = list(I.run(f, args, st, sub or {}))
    ctx.paths += len(outs)
    if len(outs) != 1:
        raise Odd(f"{f.split('::')[-1]} has {len(outs)} outcomes")
    s, v = outs[0]
    if isinstance(v, Stop):
        if v.kind == "panic":
            raise Panics(f"{v}")
        raise Odd(f"{f.split('::')[-1]}: {v}")
    return s, v


class Panics(Exception):
    pass


def bit(i):
    return T("sym", f"b{i}", "bool")


def agree(I, st, got, want):
    """(True | False | None, why)"""
    got, want = I.simp(st, got), I.simp(st, want)
    if got == want:
        return True, ""
    if not isinstance(got, (int, T)):
        return None, short(got)
    ls = set(leaves(got, want))
    while True:
        more = [t for t in st.iv if set(leaves(t)) & ls]
        n = ls | set(leaves(*more))
        if n == ls:
            break
        ls = n
    if len(ls) > 12 or any(l.a[1] not in ("bool", "u8") for l in ls) or not small(list(ls)):
        return None, f"{short(got)} with {len(ls)} inputs"
    s = st.copy()
    s.iv = {t: f for t, f in st.iv.items() if set(leaves(t)) & ls}
    for d, e in assignments(I, s, sorted(ls, key=repr), 0):
        x, y = e.ev(got), e.ev(want)
        if not isinstance(x, int) or not isinstance(y, int):
            return None, short(got)
        if x != y:
            return False, f"{short(got)} instead of {short(want)}, for example {({repr(k): v for k, v in d.items()})}"
    return True, ""


def empty(ctx, I):
    st, b = step(ctx, I, State(), NEW, [])
    return st, Ref(I.cell(st, b), ())


def push(ctx, I, st, r, xs):
    for x in xs:
        st, _ = step(ctx, I, st, BITS + "::push", [r, x])
    return st


def of(ctx, I, xs):
    st, r = empty(ctx, I)
    return push(ctx, I, st, r, xs), r


def content(ctx, I, st, r, xs, index=True):
    """(True | False | None, why): the bit string holds exactly these bits"""
    st = st.copy()
    worst = (True, "")

    def note(r):
        nonlocal worst
        if r[0] is False and worst[0] is not False or r[0] is None and worst[0] is True:
            worst = r
    s, n = step(ctx, I, st.copy(), BITS + "::len", [r])
    n = I.simp(s, n)
    note((n == len(xs) if is_int(n) else None, f"its length is {n} after {len(xs)} bits"))
    s, e = step(ctx, I, st.copy(), BITS + "::is_empty", [r])
    e = I.simp(s, e)
    note((e == int(not xs) if is_int(e) else None, f"is_empty gives {e} with {len(xs)} bits"))
    s, b = step(ctx, I, st.copy(), BITS + "::get_proper_bytes", [r])
    b = I.deep(s, b)
    if isinstance(b, Seq) and not b.chunks():
        want = (len(xs) + 7) // 8
        note((len(b.items) == want, f"{len(xs)} bits are stored in {len(b.items)} bytes"))
        if len(b.items) == want:
            for i in range(want):
                part = xs[8 * i:8 * i + 8]
                w = 0
                for k, x in enumerate(part):
                    t = x if is_int(x) else T("cast", "u8", x, "bool")
                    t = t << k if is_int(t) else T("Shl", t, k, "u8") if k else t
                    w = t if w == 0 else w | t if is_int(w) and is_int(t) else T("BitOr", w, t, "u8")
                q = agree(I, s, b.items[i], w)
                note((q[0], f"byte {i}: {q[1]}"))
    else:
        note((None, f"bytes {short(b)}"))
    if index and worst[0] is True:
        for i, x in enumerate(xs):
            for s, v in I.run(IDX, [r, i], st.copy(), {"T": "usize"}):
                ctx.paths += 1
                if isinstance(v, Stop):
                    note((False if v.kind == "panic" else None, f"bit {i} of {len(xs)}: {v}"))
                    continue
                q = agree(I, s, I.deep(s, v), x)
                note((q[0], f"bit {i} of {len(xs)}: {q[1]}"))
    return worst


def patterns(n):
    """bits of length n: all unknown when few, and constants with one unknown bit"""
    yield "unknown", [bit(i) for i in range(n)]
    for name, base in (("zeros", [0] * n), ("ones", [1] * n), ("alternating", [i % 2 for i in range(n)])):
        yield name, base


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Bit strings are built through their own interface from bits that are unknown inputs; storage, indexing, popping, display, conversion, concatenation, "
                       "writing and reading are then interpreted, and every resulting bit is compared with the unknown bit it has to be by evaluating the term for all values of "
                       "the at most eight bits that share its byte. Lengths 0 to 34 (thorough: 70) and 255 to 257 are enumerated.")
    ctx.rule("each way of observing a bit string gives the bits pushed, in order, and as many storage bytes as their number needs")
    ctx.floor = 40
    fs = [BITS + "::" + m for m in ("push", "pop", "push_many", "push_into_new", "get_proper_bytes", "len", "is_empty", "clear", "ser", "deser", "from_binary")]
    if not ctx.need(NEW, IDX, SHOW, TOVEC, FROMB, ITB, ITM, INTO, *fs):
        return
    top = 70 if ctx.thorough else 34
    many = list(range(top + 1))

    forking = set()

    def obl(key, desc, f, *xss):
        """f(I, bits...) on unknown bits; code that branches on them is followed for constant bits instead"""
        fam = key.split(":")[0]

        def once(args):
            I = ctx.interp()
            I.merge = False
            return f(I, *args)

        def go():
            try:
                if fam not in forking and "push" not in forking:
                    try:
                        q = once(xss)
                        return ctx.ob(key, q[0], desc, q[1])
                    except Odd as e:
                        if not xss:
                            raise
                        forking.add(fam)
                ctx.stats["by constant contents"] = sorted(forking)
                for k, args in enumerate(constants([len(x) for x in xss])):
                    q = once(args)
                    ctx.ob(key, q[0], desc, q[1])
                    if q[0] is not True:
                        break
            except Panics as e:
                ctx.ob(key, False, desc, f"panics: {e}")
            except Odd as e:
                ctx.ob(key, None, desc, e)
        guard(ctx, key, desc, go)

    for n in many + [255, 256, 257]:
        xs = [bit(i) for i in range(n)]
        kind = f"{n} bits"
        idx = n <= top
        obl(f"push: {kind}", "bits pushed are stored in order", lambda I, xs: content(ctx, I, *of(ctx, I, xs), xs, index=idx), xs)
        obl(f"pop: {kind}", "bits are popped in reverse order of pushing", lambda I, xs: pops(ctx, I, xs), xs)
        obl(f"vector: {kind}", "conversion to a vector gives the bits in order", lambda I, xs: listed(ctx, I, TOVEC, xs), xs)
        obl(f"iterate: {kind}", "iteration gives the bits in order", lambda I, xs: listed(ctx, I, INTO, xs), xs)
        obl(f"from slice: {kind}", "conversion from a slice keeps the bits", lambda I, xs: built(ctx, I, FROMB, Seq(xs), xs, idx, {"T": "[bool]"}), xs)
        obl(f"collect: {kind}", "collecting bits keeps them", lambda I, xs: built(ctx, I, ITB, Seq(xs), xs, idx, {"T": "alloc::vec::Vec<bool>"}), xs)
        obl(f"write and read: {kind}", "a written bit string is read back and nothing more", lambda I, xs: codec(ctx, I, xs, idx), xs)
        for name, ys in patterns(n):
            if name != "unknown" or n <= 5:
                obl(f"display: {kind}", "the display shows the bits in order", lambda I: shown(ctx, I, ys))
        obl(f"clear: {kind}", "a cleared bit string is empty and can be used again", lambda I, xs: cleared(ctx, I, xs), xs)
    for n in range(0, 18):
        xs = [bit(i) for i in range(n)]
        for k in range(n + 1):
            obl(f"push after pop: {n} bits", "bits pushed after popping are stored in place of those popped", lambda I, xs, ys: repush(ctx, I, xs, k, ys), xs, other(9))
        for m in (0, 1, 7, 8, 9, 16):
            obl(f"push_many: {n} bits", "appending keeps both parts in order", lambda I, xs, ys: appended(ctx, I, xs, ys), xs, other(m))
            obl(f"concatenate: {n} bits", "collecting bit strings keeps them in order", lambda I, xs, ys: concatenated(ctx, I, xs, ys), xs, other(m))
        obl(f"push_into_new: {n} bits", "push_into_new leaves the original alone", lambda I, xs, ys: pushed_new(ctx, I, xs, ys[0]), xs, other(1))
    for n in range(0, 6):
        obl(f"from_binary: {n} bytes", "a bit string made of bytes holds exactly their bits", lambda I: binary(ctx, I, n))


def other(m):
    return [T("sym", f"c{i}", "bool") for i in range(m)]


def constants(lens):
    n = sum(lens)
    pats = [[0] * n, [1] * n, [i % 2 for i in range(n)], [1 - i % 2 for i in range(n)], [int((i * i + 3 * i) % 7 < 3) for i in range(n)]]
    if n <= 20:
        for i in range(n):
            pats += [[int(j == i) for j in range(n)], [int(j != i) for j in range(n)]]
    for p in pats:
        out, at = [], 0
        for k in lens:
            out.append(p[at:at + k])
            at += k
        yield out


def pops(ctx, I, xs):
    st, r = of(ctx, I, xs)
    for i in reversed(range(len(xs))):
        st, v = step(ctx, I, st, BITS + "::pop", [r])
        if not (isinstance(v, Agg) and v.tag == OPT):
            return None, short(v)
        if v.var == 0:
            return False, f"nothing is popped with {i + 1} bits left"
        q = agree(I, st, v.f[0], xs[i])
        if q[0] is not True:
            return q[0], f"popping bit {i} of {len(xs)}: {q[1]}"
        if i % 8 in (0, 7):
            q = content(ctx, I, st, r, xs[:i], index=False)
            if q[0] is not True:
                return q[0], f"after popping down to {i}: {q[1]}"
    st, v = step(ctx, I, st, BITS + "::pop", [r])
    return (v.var == 0 if isinstance(v, Agg) and v.tag == OPT else None), f"popping from an empty bit string gives {v}"


def listed(ctx, I, f, xs):
    st, r = of(ctx, I, xs)
    st, v = step(ctx, I, st, f, [st.cells[r.cell]])
    v = I.load(st, v)
    if isinstance(v, Agg) and not isinstance(v, Seq):
        c = [x for x in v.f if isinstance(x, Seq)]
        v = c[0] if len(c) == 1 else v
    v = I.deep(st, v)
    if not isinstance(v, Seq) or v.chunks():
        return None, short(v)
    if len(v.items) != len(xs):
        return False, f"{len(v.items)} bits from {len(xs)}"
    for i, (a, b) in enumerate(zip(v.items, xs)):
        q = agree(I, st, a, b)
        if q[0] is not True:
            return q[0], f"bit {i} of {len(xs)}: {q[1]}"
    return True, ""


def built(ctx, I, f, arg, xs, idx, sub):
    st = State()
    st, b = step(ctx, I, st, f, [arg], sub)
    return content(ctx, I, st, Ref(I.cell(st, b), ()), xs, index=idx)


def codec(ctx, I, xs, idx):
    st, r = of(ctx, I, xs)
    st, w = step(ctx, I, st, BITS + "::ser", [r])
    w = I.deep(st, w)
    if not isinstance(w, Seq) or w.chunks():
        return None, short(w)
    tail = T("sym", "after", "u8")
    cu = Ref(I.cell(st, cursor(list(w.items) + [tail])), ())
    s, v = step(ctx, I, st.copy(), BITS + "::deser", [cu])
    if is_err(v):
        return None if opaque(v) else False, f"{len(xs)} bits written as {len(w.items)} bytes are refused: {short(v)}"
    if not is_ok(v):
        return None, short(v)
    pos = s.cells[cu.cell].f[1]
    if pos != len(w.items):
        return False if is_int(pos) else None, f"reading {len(xs)} bits back consumes {pos} of {len(w.items)} bytes"
    q = content(ctx, I, s, Ref(I.cell(s, v.f[0]), ()), xs, index=idx)
    if q[0] is not True:
        return q[0], "read back: " + q[1]
    #cut short
    if w.items:
        cu = Ref(I.cell(st, cursor(list(w.items)[:-1])), ())
        s, v = step(ctx, I, st.copy(), BITS + "::deser", [cu])
        if is_ok(v):
            return False, f"{len(xs)} bits are read from {len(w.items) - 1} of {len(w.items)} bytes"
    return True, ""


def shown(ctx, I, ys):
    st, r = of(ctx, I, ys)
    out = []
    for s, v in I.run(SHOW, [r, T("fmt")], st):
        ctx.paths += 1
        if isinstance(v, Stop):
            return False if v.kind == "panic" else None, f"{v}"
        txt = list(text(I, s))
        if None in txt:
            return None, "shows something that is not known text"
        txt = "".join(txt)
        want = ""
        for y in ys:
            y = I.simp(s, y)
            if not is_int(y):
                vals = [b for b in (0, 1) if feasible(I, s, T("sym", *y.a), b)]
                if len(vals) != 1:
                    return None, f"bit {y} on the path showing {txt!r}"
                y = vals[0]
            want += str(y)
        if txt != want:
            return False, f"{want!r} is shown as {txt!r}"
    return True, ""


def feasible(I, st, y, b):
    return witness(I, st, y, differing=(y, 1 - b)) is not None


def text(I, st):
    """what was printed, with parts that are not known text as None"""
    for e in st.events:
        if e[0] == "fmt":
            yield from words(I.deep(st, e[1]))


def words(v):
    if isinstance(v, Str):
        for p in v.parts:
            yield from [p] if isinstance(p, str) else words(p)
    elif isinstance(v, str):
        yield v
    elif isinstance(v, Agg) and v.tag == "fmtargs":
        for x in v.f:
            yield from words(x)
    elif isinstance(v, T) and v.op == "display" and is_int(v.a[0]):
        yield str(v.a[0])
    elif is_int(v) and v > 1:
        yield chr(v)
    else:
        yield None


def cleared(ctx, I, xs):
    st, r = of(ctx, I, xs)
    st, _ = step(ctx, I, st, BITS + "::clear", [r])
    q = content(ctx, I, st, r, [])
    if q[0] is not True:
        return q
    ys = [T("sym", f"c{i}", "bool") for i in range(3)]
    st = push(ctx, I, st, r, ys)
    return content(ctx, I, st, r, ys)


def repush(ctx, I, xs, k, ys):
    st, r = of(ctx, I, xs)
    for _ in range(k):
        st, v = step(ctx, I, st, BITS + "::pop", [r])
    st = push(ctx, I, st, r, ys)
    return content(ctx, I, st, r, xs[:len(xs) - k] + ys)


def appended(ctx, I, xs, ys):
    st, r = of(ctx, I, xs)
    s2, o = empty_in(ctx, I, st)
    st = push(ctx, I, s2, o, ys)
    st, _ = step(ctx, I, st, BITS + "::push_many", [r, st.cells[o.cell]])
    return content(ctx, I, st, r, xs + ys)


def empty_in(ctx, I, st):
    st, b = step(ctx, I, st, NEW, [])
    return st, Ref(I.cell(st, b), ())


def concatenated(ctx, I, xs, ys):
    st, r = of(ctx, I, xs)
    st, o = empty_in(ctx, I, st)
    st = push(ctx, I, st, o, ys)
    st, b = step(ctx, I, st, ITM, [Seq([st.cells[r.cell], st.cells[o.cell]])], {"T": f"alloc::vec::Vec<{BITS}>"})
    return content(ctx, I, st, Ref(I.cell(st, b), ()), xs + ys)


def pushed_new(ctx, I, xs, y):
    st, r = of(ctx, I, xs)
    st, b = step(ctx, I, st, BITS + "::push_into_new", [r, y])
    q = content(ctx, I, st, r, xs)
    if q[0] is not True:
        return q[0], "the original: " + q[1]
    return content(ctx, I, st, Ref(I.cell(st, b), ()), xs + [y])


def binary(ctx, I, n):
    bs = [T("sym", f"o{i}", "u8") for i in range(n)]
    st = State()
    st, b = step(ctx, I, st, BITS + "::from_binary", [Seq(bs)])
    r = Ref(I.cell(st, b), ())
    s, k = step(ctx, I, st.copy(), BITS + "::len", [r])
    if k != 8 * n:
        return (False if is_int(k) else None), f"{n} bytes make {k} bits"
    for i in range(8 * n):
        for s, v in I.run(IDX, [r, i], st.copy(), {"T": "usize"}):
            ctx.paths += 1
            if isinstance(v, Stop):
                return False if v.kind == "panic" else None, f"{v}"
            q = agree(I, s, I.deep(s, v), T("BitAnd", T("Shr", bs[i // 8], i % 8, "u8") if i % 8 else bs[i // 8], 1, "u8"))
            if q[0] is not True:
                return q[0], f"bit {i}: {q[1]}"
    return True, ""
