"""Decoders given input of which nothing is known: every read may fail, or give bytes about which nothing is known.

A cursor over such input remembers what has been read from it, so that moving back reads the same again."""
from lib import *
from souris import *
from stdmodels import L

AVAIL = T("sym", "input length", "usize")
TOP = 1 << 40   #no input is longer than a tebibyte
CNEW = f"{CUR}::<'a, T>::new"


def start(reads):
    st = State()
    st.iv[AVAIL] = (0, TOP, frozenset())
    st.x["reads"] = reads
    return st


def stream(name="input"):
    return Agg(CUR, 0, (Seq([Chunk("stream", T("sym", ("stream", name)))]), 0))


def unknown_items(v):
    return isinstance(v, Seq) and len(v.items) > 0 and isinstance(v.items[-1], Chunk) and v.items[-1].kind in ("stream", "raw", "blob")


def opened(I, st, r):
    """the cursor behind a reference when its data is unknown input: (known items, position)"""
    v = L(I, st, r)
    if not (isinstance(v, Agg) and v.tag == CUR and is_int(v.f[1])):
        return None
    d = v.f[0]
    if isinstance(d, Ref):
        d = L(I, st, d)
    if isinstance(d, T):
        d = Seq([Chunk("stream", d)])
    if not unknown_items(d) or v.f[1] > len(d.items) - 1:
        return None
    return d, v.f[1]


def put(I, st, r, items, pos):
    v = L(I, st, r)
    I.store(st, r, Agg(CUR, v.var, (Seq(items), pos) + tuple(v.f[2:])))


def byte(I):
    I.nfresh += 1
    return T("sym", ("byte", I.nfresh), "u8")


def failed(st, what, c):
    st.ev("failed", what, c.frame.fn.path if c.frame else "?", c.span)


def more(st):
    n = st.x.get("reads", 0)
    st.x["reads"] = n - 1
    return n > 0


def short_read(I, st, r, what, c, n=None):
    """[(state)] in which the input ends before what is to be read"""
    s = st.copy()
    left = s.x.get("left")
    d, p = opened(I, s, r)
    if left is not None and left[0] == (p, len(d.items)):
        need = 1 if n is None else n
        if not I.assume_cmp(s, "Gt", need, left[1]):
            return []
        dlt = I.linear(left[1])
        I.linear(need, -1, dlt)
        if I.nonneg(st, dlt):
            return []
    failed(s, what, c)
    return [s]


def o_next(I, st, a, c):
    o = opened(I, st, a[0])
    if o is None:
        return None
    d, p = o
    if p < len(d.items) - 1 and not isinstance(d.items[p], Chunk):
        put(I, st, a[0], d.items, p + 1)
        return some(d.items[p])
    out = [(s, NONE) for s in short_read(I, st, a[0], "read of a byte", c)]
    if more(st):
        b = byte(I)
        put(I, st, a[0], list(d.items[:p]) + [b, d.items[-1]], p + 1)
        out.append((st, some(b)))
    return out


def o_read(move, exact):
    def f(I, st, a, c):
        o = opened(I, st, a[0])
        if o is None:
            return None
        d, p = o
        if exact:
            n = exact_len(c)
            if n is None:
                st.note("read_exact of unknown length")
                return [(st, NONE), (st.copy(), some(I.fresh("read")))]
        else:
            n = I.simp(st, a[1])
        known = list(d.items[p:-1])
        if is_int(n) and 0 <= n <= 64 and len(known) >= n and not any(isinstance(x, Chunk) for x in known[:n]):
            if move:
                put(I, st, a[0], d.items, p + n)
            return some(Seq(known[:n]))
        if known and isinstance(known[0], Chunk) and known[0].kind == "raw" and I.equal(st, known[0].x.a[1], n) is True:
            if move:
                put(I, st, a[0], d.items, p + 1)
            return some(Seq(known[:1]))
        out = []
        for s in short_read(I, st, a[0], "read of several bytes", c, n):
            if not move:
                s.events.pop()
            if I.assume_cmp(s, "Ge", n, 1):
                out.append((s, NONE))
        if is_int(n) and n > TOP:
            return out
        ok_ = more(st) if move else st.x.get("reads", 0) > 0
        if ok_ or is_int(n) and n == 0:
            if is_int(n) and n <= 64:
                while len(known) < n:
                    known.append(byte(I))
                got = known[:n]
                put(I, st, a[0], list(d.items[:p]) + known + [d.items[-1]], p + n if move else p)
                out.append((st, some(Seq(got))))
            elif I.assume_cmp(st, "Le", n, TOP):
                I.nfresh += 1
                r = Chunk("raw", T("raw", I.nfresh, n))
                l = I.linear(AVAIL)
                st.lin.append(I.linear(n, -1, l))
                put(I, st, a[0], list(d.items[:p]) + [r, d.items[-1]], p + 1 if move else p)
                out.append((st, some(Seq([r]))))
        return out
    return f


def exact_len(c):
    t = c.dest_ty
    T_ = c.frame.fn.types
    try:
        t = T_[t["a"][0]]
        t = T_[t["t"]] if t["k"] == "ref" else t
        return t["n"]
    except (KeyError, IndexError, TypeError):
        return None


def o_left(I, st, a, c):
    o = opened(I, st, a[0])
    if o is None:
        return None
    key = (o[1], len(o[0].items))
    left = st.x.get("left")
    if left is None or left[0] != key:
        I.nfresh += 1
        t = T("sym", ("left", I.nfresh), "usize")
        st.iv[t] = (len(o[0].items) - 1 - o[1], TOP, frozenset())
        st.lin.append({AVAIL: 1, t: -1})
        st.x["left"] = left = (key, t)
    return left[1]


def o_finished(I, st, a, c):
    o = opened(I, st, a[0])
    if o is None:
        return None
    n = o_left(I, st, a, c)
    return [(s, int(b)) for s, b in I.decide(st, T("Eq", n, 0))]


def o_pos(I, st, a, c):
    if opened(I, st, a[0]) is None:
        return None
    t = I.fresh("pos")
    st.iv[t] = (0, TOP, frozenset())
    return t


def o_rest(move):
    def f(I, st, a, c):
        o = opened(I, st, a[0])
        if o is None:
            return None
        d, p = o
        if move:
            put(I, st, a[0], list(d.items), len(d.items) - 1)
        return Seq(d.items[p:])
    return f


def o_move(k):
    def f(I, st, a, c):
        o = opened(I, st, a[0])
        if o is None:
            return None
        d, p = o
        n = I.simp(st, a[1])
        if k < 0:
            if is_int(n) and n <= p and not any(isinstance(x, Chunk) for x in d.items[p - n:p]):
                put(I, st, a[0], d.items, p - n)
                return 1
            st.note("cursor moved back over input of unknown length")
            return I.fresh("moved")
        out = []
        for s, v in I.wrapres(st, o_read(True, False)(I, st, [a[0], n], c)):
            if v is NONE and s.events and s.events[-1][0] == "failed":
                s.events.pop()
            out.append((s, int(v is not NONE)))
        return out
    return f


def o_new(I, st, a, c):
    d = I.deep(st, a[0])
    if isinstance(d, Agg) and d.tag == CUR:
        d2 = d.f[0]
        if isinstance(d2, Seq) and is_int(d.f[1]):
            d = Seq(d2.items[d.f[1]:])
    if unknown_items(d):
        return Agg(CUR, 0, (d, 0))
    return None


def o_int_deser(I, st, a, c):
    o = opened(I, st, a[1])
    if o is None:
        return None
    d, p = o
    ss = L(I, st, a[0])
    out = []
    if p == len(d.items) - 1 or isinstance(d.items[p], Chunk):
        q = p
    else:
        q = p + 1
    for s in short_read(I, st, a[1], "integer", c):
        out.append((s, err(ise(I, "NotEnoughBytes"))))
    if not more(st):
        return out
    want = st.x.get("ints")
    if want:
        v, rest = want[0], want[1:]
        st.x["ints"] = rest
        v = T("Int", v, "u128") if isinstance(v, int) else v
    else:
        I.nfresh += 1
        v = T("sym", ("int", I.nfresh))
    for s, _, k in I.variants(st, ss, n=3):
        s = s.copy()
        if v.op == "Int" or I.assume(s, T("discr", T("ss", v)), k):
            I.nfresh += 1
            if q > p and q < len(d.items) - 1:
                #bytes given beyond the first: the number is that one byte
                put(I, s, a[1], d.items, q)
            else:
                put(I, s, a[1], list(d.items[:q]) + [Chunk("raw", T("raw", I.nfresh, T("intlen", v))), d.items[-1]], q + 1)
            out.append((s, ok(v)))
    return out


def o_huf_deser(ty):
    def f(I, st, a, c):
        o = opened(I, st, a[0])
        if o is None:
            return None
        d, p = o
        s = st.copy()
        failed(s, "huffman table", c)
        out = [(s, err(T("undecodable", "huffman table")))]
        if more(st):
            I.nfresh += 1
            put(I, st, a[0], list(d.items[:p]) + [Chunk("raw", T("raw", I.nfresh, T("len", T("sym", ("huf", I.nfresh))))), d.items[-1]], p + 1)
            out.append((st, ok(T("sym", ("huf", I.nfresh)))))
        return out
    return f


def o_bits_deser(I, st, a, c):
    o = opened(I, st, a[0])
    if o is None:
        return None
    d, p = o
    s = st.copy()
    failed(s, "bit string", c)
    out = [(s, err(T("undecodable", "bit string")))]
    if more(st):
        I.nfresh += 1
        put(I, st, a[0], list(d.items[:p]) + [Chunk("raw", T("raw", I.nfresh, T("len", T("sym", ("bits", I.nfresh))))), d.items[-1]], p + 1)
        out.append((st, ok(T("sym", ("bits", I.nfresh)))))
    return out


def o_decode(I, st, a, c):
    h, b = I.deep(st, a[0]), I.deep(st, a[1])
    if not isinstance(h, T) and not isinstance(b, T):
        return None
    s = st.copy()
    failed(s, "bits decoded", c)
    I.nfresh += 1
    x = T("sym", ("decoded", I.nfresh))
    return [(s, err(T("undecodable", "bits"))), (st, ok(Str((x,)) if "string" in c.key else Seq([Chunk("raw", T("raw", I.nfresh, T("len", x)))])))]


def o_unpack(name):
    def f(I, st, a, c):
        o = opened(I, st, a[0])
        if o is None:
            return None
        d, p = o
        s = st.copy()
        failed(s, name + " decompression", c)
        out = [(s, err(T("undecompressable", name)))]
        if more(st):
            I.nfresh += 1
            put(I, st, a[0], list(d.items), len(d.items) - 1)
            out.append((st, ok(Seq([Chunk("raw", T("raw", I.nfresh, T("len", T("sym", ("unpacked", I.nfresh)))))]))))
        return out
    return f


def any_cursor():
    C = f"{CUR}::<'a, T>::"
    return {
        C + "read": o_read(True, False), C + "peek": o_read(False, False), C + "read_exact": o_read(True, True), C + "peek_exact": o_read(False, True),
        C + "items_remaining": o_left, C + "is_finished": o_finished, C + "pos": o_pos,
        C + "read_remaining": o_rest(True), C + "peek_remaining": o_rest(False),
        f"<{CUR}<'a, T> as core::convert::AsRef<[T]>>::as_ref": o_rest(False),
        C + "move_forwards": o_move(1), C + "move_backwards": o_move(-1), C + "new": o_new,
        f"<{CUR}<'a, T> as core::iter::traits::iterator::Iterator>::next": o_next,
    }


def any_ints():
    h = int_hooks()
    h[f"{INT}::deser"] = o_int_deser
    return h


def any_huffman():
    return {f"{HUF}::<char>::deser": o_huf_deser("char"), f"{HUF}::<u8>::deser": o_huf_deser("u8"), f"{BITS}::deser": o_bits_deser,
            f"{HUF}::<char>::decode_string": o_decode, f"{HUF}::<T>::decode": o_decode}


def any_compressors():
    return {d: o_unpack(n) for n, (_, d) in COMPRESSORS.items()}


# ---- what may go wrong on a path -------------------------------------------------------------------------------------------
#input conversions that say "no" with None
OPTIONAL = ("char::from_u32", "methods::from_u32", "convert::from_u32", "NaiveDate::from_ymd_opt", "NaiveTime::from_hms_nano_opt", "NaiveTime::from_hms_opt",
            "NaiveTime::from_hms_micro_opt", "NaiveTime::from_hms_milli_opt", "char::from_digit")


def watch(I):
    """records every call that reports a failure"""
    def after(st, fr, t, v):
        if isinstance(v, Stop):
            return
        if isinstance(v, Agg) and (v.tag == RES and v.var == 1 or v.tag == OPT and v.var == 0):
            f = t[1]
            if f[0] == "k" and f[1].get("c") == "fn":
                fc = f[1]["f"]
                p = fc.get("via") or fc.get("r") or fc["p"]
                if v.tag == RES or norm(p) in OPTIONAL or norm(fc["p"]) in OPTIONAL:
                    st.ev("failed", norm(p), fr.fn.path, t[5])
        elif isinstance(v, T) and v.op == "str_of":
            f = t[1]
            if f[0] == "k" and f[1].get("c") == "fn" and "lossy" in f[1]["f"]["p"]:
                st.ev("failed", "characters replaced by " + norm(f[1]["f"]["p"]), fr.fn.path, t[5])
    I.after = after


def panicking(I, s, r):
    """(violated: True | None, text) of a path that ends in a panic"""
    what, fn, span = r.info[0], r.info[1], r.info[2]
    text = f"{what} in {fn}"
    if any("unmodelled" in n or "approximate" in n for n in s.notes):
        return None, text + ": after calls that are not modelled"
    cond = ()
    if len(r.info) > 4:
        c, want = r.info[4]
        if opaque(c) or hidden(c):
            return None, text + f": on {short(c)}"
        cond = (c, want)
    elif r.kind == "panic?":
        if len(r.info) > 3 and (opaque(r.info[3]) or hidden(r.info[3])):
            return None, text
        if len(r.info) <= 3:
            return None, text
    for t in s.iv:
        if opaque(t):
            return None, text + f": depends on {short(t)}"
    w = witness(I, s, *([cond[0]] if cond else []), differing=None)
    if cond and w is not None:
        w = confirm(I, s, cond)
    if w is None:
        return None, text + ": no input found that takes this path"
    return True, text + f", for example with {str(w)[:300]}"


def hidden(v):
    """a condition on something no number was chosen for"""
    return any(t.op in ("len", "maplen", "strlen", "fails", "fresh") for t in subterms(v))


def confirm(I, s, cond):
    for d, e in assignments(I, s, leaves(cond[0], *s.iv), 600):
        x = e.ev(cond[0])
        if is_int(x) and x == cond[1]:
            return {repr(k): v for k, v in d.items()} or {"any": "input"}
    return None


# ---- the decoders ------------------------------------------------------------------------------------------------------------
STORE = "sourisdb::store::Store"
RAW = lambda n="in": Seq([Chunk("raw", T("raw", n, T("sym", ("bytes", n), "usize")))])


def ref(I, st, v):
    return Ref(I.cell(st, v), ())


def kind_of_tag(I, i):
    f = I.impls.get(("core::convert::TryFrom", TY, None, "try_from")) or next((f for (t, ty, _, m), f in I.impls.items() if m == "try_from" and ty == TY), None)
    if f:
        for s, r in I.run(f, [i], State()):
            if is_ok(r) and isinstance(r.f[0], Agg):
                return r.f[0].var


def scenarios(ctx, only=None):
    """(name, hooks, function, [(case, state, arguments)], substitution)"""
    deep = ctx.thorough
    cur, ints, huf, comp = any_cursor(), any_ints(), any_huffman(), any_compressors()

    def one(reads, mk):
        def f(I):
            st = start(reads)
            yield "", st, mk(I, st)
        return f

    def numbers(reads, mk, lists):
        def f(I):
            for xs in lists:
                st = start(reads)
                st.x["ints"] = tuple(xs)
                yield "", st, mk(I, st)
        return f

    c = lambda I, st: ref(I, st, stream())
    yield "integer", cur, f"{INT}::deser", one(4, lambda I, st: [T("sym", "sign", SS), c(I, st)]), {}

    def short_ints(I):
        for n in range(19):
            for k in range(3):
                st = start(0)
                yield f"{n} bytes", st, [Agg(SS, k, ()), ref(I, st, cursor([T("sym", ("byte", i), "u8") for i in range(n)]))]
    yield "integer from few bytes", {}, f"{INT}::deser", short_ints, {}
    yield "bits", {**cur, **ints}, f"{BITS}::deser", one(6, lambda I, st: [c(I, st)]), {}
    sizes = list(range(0, 26 if deep else 18)) + [63, 64, 65, 1 << 41, (1 << 64) - 1]
    yield "bits of some lengths", {**cur, **ints}, f"{BITS}::deser", numbers(6, lambda I, st: [c(I, st)], [[n] for n in sizes]), {}
    yield "complex number", {**cur, **ints}, f"{IMAG}::deser", one(6, lambda I, st: [T("sym", "bits", "u8"), c(I, st)]), {}
    yield "run lengths", {**cur, **ints}, COMPRESSORS["rle"][1], one(6, lambda I, st: [c(I, st)]), {}
    yield "run lengths of few bytes", {**cur, **ints}, COMPRESSORS["rle"][1], numbers(6, lambda I, st: [c(I, st)], [[n] for n in (0, 1, 2, 3, (1 << 64) - 1)]), {}
    yield "lempel-ziv", {**cur, **ints}, COMPRESSORS["lz"][1], one(6, lambda I, st: [c(I, st)]), {}
    yield "huffman data", {**cur, **ints, **huf}, COMPRESSORS["huffman"][1], one(6, lambda I, st: [c(I, st)]), {}
    for ty in ("u8", "char"):
        yield f"huffman table of {ty}", {**cur, **ints}, f"{HUF}::<{ty}>::deser", one(8 if deep else 7, lambda I, st: [c(I, st)]), {"T": ty}
    yield "binary data", {**cur, **ints, **comp}, f"{BIN}::deser", one(6, lambda I, st: [T("sym", "compression", BC), c(I, st)]), {}

    def values(reads, tables):
        def f(I):
            for h in tables:
                st = start(reads)
                yield "", st, [c(I, st), some(ref(I, st, T("sym", "table"))) if h else NONE]
        return f
    full = {**cur, **ints, **huf, **comp}

    def tagged(I):
        tys = ctx.program().adts[TY]["v"]
        for i in range(16):
            k = kind_of_tag(I, i)
            wide = k is None or tys[k]["n"] in ("Array", "Map", "JSON", "Timezone")
            for h in (0, 1):
                st = start((4 if deep else 3) if wide else 10)
                hi = T("sym", ("byte", "tag"), "u8")
                st.iv[hi] = (16 * i, 16 * i + 15, frozenset())
                its = [hi, Chunk("stream", T("sym", ("stream", "input")))]
                yield f"tag {i}", st, [ref(I, st, Agg(CUR, 0, (Seq(its), 0))), some(ref(I, st, T("sym", "table"))) if h else NONE]
    yield "value", full, f"{VAL}::deser", tagged, {}

    def any_value(I, st, a, c_):
        s = st.copy()
        failed(s, "value", c_)
        I.nfresh += 1
        return [(s, err(T("undecodable", "value"))), (st, ok(T("sym", ("value", I.nfresh))))]
    yield "store", {**full, f"{VAL}::deser": any_value}, f"{STORE}::deser", one(20, lambda I, st: [RAW()]), {}


def sweep(ctx, judge, names=None, after=None):
    """runs every decoder on unknown input and hands every path to judge(name, I, state, result)"""
    P = ctx.program()
    for name, hooks, fn, cases, sub in scenarios(ctx):
        if names and name not in names:
            continue
        if not ctx.need(fn):
            continue

        I = ctx.interp(hooks, max_paths=60000, max_steps=6_000_000)
        I.panics, I.range_max, I.max_visits = True, 14, 60
        watch(I)
        for case, st, args in cases(I):
            key = name + (": " + case if case else "")

            def go():
                t0 = time.time()
                try:
                    paths = I.run(fn, args, st, dict(sub))
                except Budget:
                    #what was found before the budget ran out still counts
                    for s, r in list(I.partial or ()):
                        ctx.paths += 1
                        judge(key, I, s, r)
                    raise
                for s, r in paths:
                    ctx.paths += 1
                    judge(key, I, s, r)
                if after:
                    after(key, I)
                if os.environ.get("SA_TIME"):
                    print(key, round(time.time() - t0, 1))
            guard(ctx, key, "decoder", go)


# ---- sizes measured against the input --------------------------------------------------------------------------------------
def upper(I, st, t, d=0, seen=()):
    """(k, c) with t <= k * length of the input + c, or None"""
    if is_int(t):
        return (0, max(t, 0))
    if not isinstance(t, T) or d > 8 or t in seen:
        return None
    if t == AVAIL:
        return (1, 0)
    seen = seen + (t,)
    best = None

    def offer(x):
        nonlocal best
        if x is not None and (best is None or rank(x) < rank(best)):
            best = x
    #facts: the coefficient of t is negative in  sum >= 0
    targets = {t}
    l0 = I.linear(t)
    for fact in st.lin:
        for x in targets:
            k = fact.get(x, 0)
            if k < 0:
                offer(total(I, st, {y: v for y, v in fact.items() if y != x}, -k, d, seen))
    for fact in st.lin:
        for x in fact:
            if isinstance(x, T) and x.op in ("Div", "div_ceil") and x.a[0] == t and is_int(x.a[1]) and x.a[1] > 0 and x not in seen:
                u = upper(I, st, x, d + 1, seen)
                if u:
                    offer((u[0] * x.a[1], (u[1] + (x.op == "Div")) * x.a[1]))
    if len(l0) > 1 or t not in l0:
        offer(total(I, st, l0, 1, d, seen))
    op = t.op
    if op == "sat":
        if t.a[0] in ("Add", "Mul"):
            offer(arith(I, st, t.a[0], t.a[1], t.a[2], d, seen))
        elif t.a[0] == "Sub":
            offer(upper(I, st, t.a[1], d + 1, seen))
    elif op in ("Mul", "Shl"):
        a, b = t.a[0], t.a[1]
        if op == "Shl" and is_int(b) and b < 64:
            op, b = "Mul", 1 << b
        if op == "Mul":
            offer(arith(I, st, "Mul", a, b, d, seen))
    elif op in ("Div", "Shr", "div_ceil", "Rem", "BitAnd", "cast"):
        for x in (t.a if op == "BitAnd" else t.a[1:2] if op == "cast" else t.a[:1]):
            y = upper(I, st, x, d + 1, seen)
            if y is None:
                continue
            k = t.a[1]
            if op in ("Div", "div_ceil") and is_int(k) and k > 0 and y[0] % k == 0:
                y = (y[0] // k, y[1] // k + 1)
            elif op == "Rem" and is_int(k):
                offer((0, k))
            offer(y)
    elif op == "ite":
        x, y = upper(I, st, t.a[1], d + 1, seen), upper(I, st, t.a[2], d + 1, seen)
        if x and y:
            offer((max(x[0], y[0]), max(x[1], y[1])))
    elif op == "len" and isinstance(t.a[0], T) and t.a[0].op == "raw":
        offer(upper(I, st, t.a[0].a[1], d + 1, seen))
    lo, hi = I.bounds(st, t)
    if hi is not None and (best is None or hi <= 1 << 20):
        offer((0, max(hi, 0)))
    return best


def rank(x):
    return x[1] > 1 << 30, x[0] * TOP + x[1]


def arith(I, st, op, a, b, d, seen):
    x, y = upper(I, st, a, d + 1, seen), upper(I, st, b, d + 1, seen)
    if x is None or y is None:
        return None
    if op == "Add":
        return (x[0] + y[0], x[1] + y[1])
    if y[0] == 0:
        return (x[0] * y[1], x[1] * y[1])
    if x[0] == 0:
        return (y[0] * x[1], y[1] * x[1])
    return None


def total(I, st, l, div, d, seen):
    k = c = 0
    for y, v in l.items():
        if v == 0:
            continue
        if is_int(y):
            c += v
            continue
        if v > 0:
            u = upper(I, st, y, d + 1, seen)
            if u is None:
                return None
            k, c = k + v * u[0], c + v * u[1]
        else:
            lo, _ = I.bounds(st, y)
            if lo is None:
                return None
            c += v * lo
    return (-(-k // div), max(0, -(-c // div)))
