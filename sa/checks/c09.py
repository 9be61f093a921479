"""C09: what cannot be read or parsed is an error of the whole."""
import c02, c14, c31
from opq import *
from models2 import SJ

DESC = "when a read, a parse or a conversion fails on the way, the decoder returns an error"
SHAPE = "what no writer could have produced is an error"


def rejected(ctx, key, I, fn, args, st, sub=None, text="", only=None):
    """no path of fn gives a value (for which only(state, value) holds)"""
    n = 0
    for s, r in I.run(fn, args, st, sub or {}):
        ctx.paths += 1
        n += 1
        if isinstance(r, Stop) or is_err(r) or isinstance(r, Agg) and r.tag == OPT and r.var == 0:
            ctx.ob(key, None if isinstance(r, Stop) and r.kind == "cut" else True, SHAPE, r)
        elif is_ok(r) or isinstance(r, Agg) and r.tag == OPT:
            if only and only(s, r) is not True:
                ctx.ob(key, True if only(s, r) is False else None, SHAPE, f"{text}: {short(r)}")
                continue
            bad = any("unmodelled" in q or "approximate" in q for q in s.notes)
            ctx.ob(key, None if bad else False, SHAPE, f"{text}: {fn} gives {short(r)}")
        else:
            ctx.ob(key, None, SHAPE, f"{text}: {fn} gives {short(r)}")
    if not n:
        ctx.ob(key, None, SHAPE, "no path")


def kinds(ctx):
    """numbers of the kinds: {kind: tag}"""
    I = ctx.interp()
    out = {}
    for i in range(16):
        k = kind_of_tag(I, i)
        if k is not None:
            out[ctx.P.adts[TY]["v"][k]["n"]] = i
    return out


def discriminants(ctx):
    """a number that stands for no variant is refused, and no two numbers stand for one variant"""
    P = ctx.P
    for ty in (SS, BC, TY):
        f = next((f for (t, x, _, m), f in ctx.interp().impls.items() if m == "try_from" and x == ty and t.endswith("TryFrom")), None)
        key = f"number of {ty.split('::')[-1]}"

        def go():
            I = ctx.interp()
            b = T("sym", "number", "u8")
            seen = {}
            n = 0
            for s, r in I.run(f, [b], State()):
                ctx.paths += 1
                n += 1
                lo, hi = I.bounds(s, b)
                if is_ok(r) and isinstance(r.f[0], Agg):
                    v = P.adts[ty]["v"][r.f[0].var]["n"]
                    ok_ = lo == hi and seen.get(v, lo) == lo
                    ctx.ob(f"{key}: {v}", ok_, SHAPE, f"{v} stands for the numbers {lo} to {hi}" + (f" and {seen[v]}" if v in seen else ""))
                    seen[v] = lo
                elif isinstance(r, Stop) or not is_err(r):
                    ctx.ob(key, None, SHAPE, f"{short(r)}")
            for v in P.adts[ty]["v"]:
                if n and v["n"] not in seen:
                    ctx.ob(f"{key}: {v['n']}", None, SHAPE, "no number found for it")
        if f:
            guard(ctx, key, SHAPE, go)


def nested(ctx, tag):
    """JSON and time zones hold a string, and the keys of a map are strings"""
    full = {**any_cursor(), **any_ints(), **any_huffman(), **any_compressors()}
    inv = {v: k for k, v in tag.items()}
    for outer in ("JSON", "Timezone", "Map"):
        if outer not in tag or "String" not in tag:
            continue
        for j in range(16):
            if inv.get(j) == "String":
                continue
            key = f"{outer} of {inv.get(j, 'number ' + str(j))}"

            def go():
                I = ctx.interp(full, max_paths=60000)
                I.range_max, I.max_visits = 14, 60
                b = T("sym", "inner", "u8")
                #a map of one entry, its length in the first byte, or in an integer
                for first, its in ([(16 * tag[outer], [b])] if outer != "Map" else [(16 * tag[outer] + 2, [b]), (16 * tag[outer] + 1, [T("sym", "length", "u8"), b])]):
                    st = start(2)
                    st.x["ints"] = (1,)
                    st.iv[b] = (16 * j, 16 * j + 15, frozenset())
                    cur = Agg(CUR, 0, (Seq([first] + its + [Chunk("stream", T("sym", ("stream", "input")))]), 0))
                    rejected(ctx, key, I, f"{VAL}::deser", [ref(I, st, cur), some(ref(I, st, T("sym", "table")))], st, text=f"a {outer} that holds a {inv.get(j)}")
            guard(ctx, key, SHAPE, go)


def no_table(ctx, tag):
    """a string that needs a table of codes where there is none"""
    full = {**any_cursor(), **any_ints(), **any_huffman(), **any_compressors()}

    def go():
        for low in range(1, 16, 2):
            I = ctx.interp(full)
            st = start(6)
            cur = Agg(CUR, 0, (Seq([16 * tag["String"] + low, Chunk("stream", T("sym", ("stream", "input")))]), 0))
            rejected(ctx, "string without its table", I, f"{VAL}::deser", [ref(I, st, cur), NONE], st, text="a huffman-coded string and no table")
    if "String" in tag:
        guard(ctx, "string without its table", SHAPE, go)


def stores(ctx):
    full = {**any_cursor(), **any_ints(), **any_huffman(), **any_compressors()}
    f = f"{STORE}::deser"
    if not ctx.need(f):
        return
    magic = []

    def find_magic():
        I = ctx.interp({**full, f"{VAL}::deser": lambda I, st, a, c: ok(Agg(VAL, ctx.P.variant(VAL, "Map"), (T("sym", "content"),)))})
        for s, r in I.run(f, [Seq([T("sym", ("magic", i), "u8") for i in range(8)] + [Chunk("raw", T("raw", "rest", T("sym", "rest", "usize")))])], start(12)):
            if is_ok(r):
                magic.append([I.bounds(s, T("sym", ("magic", i), "u8")) for i in range(8)])
    guard(ctx, "magic bytes", SHAPE, find_magic)
    for i in range(8):
        got = {m[i] for m in magic}
        ok_ = len(got) == 1 and all(a == b for a, b in got)
        ctx.ob(f"magic byte {i}", ok_ if magic else None, SHAPE, f"a store is accepted whose byte {i} is any of {sorted(got)}")

    def one(k):
        def value(I, st, a, c):
            return ok(Agg(VAL, k, (T("sym", "content"),)))
        name = ctx.P.adts[VAL]["v"][k]["n"]

        def go():
            I = ctx.interp({**full, f"{VAL}::deser": value})
            st = start(20)
            rejected(ctx, f"store of {name}", I, f, [RAW()], st, text=f"a store whose value is of kind {name}")
        guard(ctx, f"store of {name}", SHAPE, go)
    for k, v in enumerate(ctx.P.adts[VAL]["v"]):
        if v["n"] != "Map":
            one(k)


def lengths(ctx):
    """lengths written next to the data agree with the data"""
    H = {**any_cursor(), **any_ints()}

    def lz():
        I = ctx.interp(H)
        n = T("sym", ("int", "declared"))
        st = start(6)
        st.x["ints"] = (n,)
        want = T("sym", ("toint", n), "usize")
        f = COMPRESSORS["lz"][1]
        for s, r in I.run(f, [ref(I, st, stream())], st):
            ctx.paths += 1
            if not is_ok(r):
                ctx.ob("lempel-ziv length", None if isinstance(r, Stop) else True, SHAPE, r)
                continue
            ln = length_of(I, s, r.f[0])
            e = None if ln is None else I.cmp(s, "Eq", ln, want)
            if e is not True and e is not False and e != 1 and ln is not None:
                e = False if not opaque(ln) and leaves_of(ln) else None
            ctx.ob("lempel-ziv length", e if e is None else bool(e), SHAPE, f"the length written is {short(want)}, {short(ln)} bytes come out")

    def rle():
        for n in (1, 3, 5, 9):
            I = ctx.interp(H)
            st = start(6)
            st.x["ints"] = (n,)
            rejected(ctx, f"run lengths of {n} bytes", I, COMPRESSORS["rle"][1], [ref(I, st, stream())], st, text="a count without a byte")
    if ctx.need(COMPRESSORS["lz"][1], COMPRESSORS["rle"][1]):
        guard(ctx, "lempel-ziv length", SHAPE, lz)
        guard(ctx, "run lengths", SHAPE, rle)


def leaves_of(t):
    return [x for x in subterms(t) if x.op in ("len", "sym")]


def length_of(I, st, v):
    v = I.load(st, v)
    if not isinstance(v, Seq):
        return None
    n = 0
    for x in v.items:
        if isinstance(x, Chunk):
            if x.kind != "raw":
                return None
            n = x.x.a[1] if is_int(n) and n == 0 else T("Add", n, x.x.a[1])
        else:
            n = n + 1 if is_int(n) else T("Add", n, 1)
    return n


def counts(ctx, tag):
    """an array or a map has as many entries as it says"""
    full = {**any_cursor(), **any_ints(), **any_huffman(), **any_compressors()}
    for kind in ("Array", "Map"):
        if kind not in tag or "Null" not in tag or "String" not in tag:
            continue
        for n in (0, 1, 2, 3) + ((6,) if kind == "Array" else ()):
            key = f"{kind} of {n}"

            def go():
                for inline in (True, False):
                    I = ctx.interp(full, max_paths=60000)
                    I.range_max, I.max_visits = 14, 60
                    st = start(2)
                    st.x["ints"] = (n,)
                    its = [16 * tag[kind] + 2 * n] if inline else [16 * tag[kind] + 1, T("sym", "length", "u8")]
                    for have in range(n + 1):
                        its2 = list(its)
                        s0 = st.copy()
                        s0.x["reads"] = 0 if have < n else 1
                        for k in range(have):
                            if kind == "Map":
                                its2 += [16 * tag["String"], T("sym", ("length", k), "u8"), 97 + k]
                            its2 += [16 * tag["Null"]]
                        if kind == "Map":
                            s0.x["ints"] = ((n,) if not inline else ()) + (1,) * n
                            s0.x["reads"] += have
                        s0.x["reads"] += 0 if inline else 1
                        cur = Agg(CUR, 0, (Seq(its2 + [Chunk("stream", T("sym", ("stream", "input")))]), 0))
                        for s, r in I.run(f"{VAL}::deser", [ref(I, s0, cur), NONE], s0):
                            ctx.paths += 1
                            if not is_ok(r):
                                ctx.ob(key, None if isinstance(r, Stop) and r.kind == "cut" else True, SHAPE, r)
                                continue
                            c = I.load(s, r.f[0])
                            c = I.load(s, c.f[0]) if isinstance(c, Agg) and c.tag == VAL and len(c.f) else c
                            got = len(c.items) if isinstance(c, Seq) and not any(isinstance(x, Chunk) for x in c.items) else \
                                len(c.over) if isinstance(c, MapV) and c.base is None else None
                            if isinstance(c, MapV) and not all(isinstance(k, Str) and k.const() is not None for k, _ in c.over):
                                got = None      #keys that may be equal
                            ctx.ob(key, None if got is None else got == n, SHAPE, f"a {kind} of {n} entries comes out with {got}: {short(c)}")
            guard(ctx, key, SHAPE, go)


def nodes(ctx):
    """a tree's node is a leaf or a branch"""
    for ty in ("u8",):
        f = f"sourisdb::utilities::huffman::Node::<{ty}>::deser"
        key = f"huffman node of {ty}"

        def go():
            I = ctx.interp({**any_cursor(), **any_ints()}, max_paths=60000)
            first = T("sym", ("byte", "first"), "u8")
            got = set()
            st = start(5)
            cur = Agg(CUR, 0, (Seq([first, Chunk("stream", T("sym", ("stream", "input")))]), 0))
            argc = ctx.P.fns[f].j["body"]["argc"]
            for s, r in I.run(f, [ref(I, st, cur)] + [0] * (argc - 1), st, {"T": ty}):
                ctx.paths += 1
                if is_ok(r):
                    got.add(I.bounds(s, first))
            ctx.ob(key, len(got) == 2 and all(a == b for a, b in got) if got else None, SHAPE, f"nodes that begin with one of {sorted(got)} are accepted")
        if f in ctx.P.fns:
            guard(ctx, key, SHAPE, go)


def json(ctx):
    """tagged JSON objects one of whose parts is missing or of another kind"""
    P = ctx.P
    conv, back = VAL + "::convert_to_json", VAL + "::convert_from_json"
    if not ctx.need(conv, back):
        return
    num = lambda n: Agg(SJ, 2, (T("num", "u64", n),))
    for name, x in c02.values(P):
        kind = name.split(" ")[0]
        if kind not in ("Binary", "Imaginary", "Timestamp", "Timezone", "Ipv4Addr", "Ipv6Addr"):
            continue
        if kind == "Binary":
            x = Agg(VAL, x.var, [Agg(BIN, 0, [Seq([T("sym", f"b{i}", "u8") for i in range(3)])])])

        def go():
            I = ctx.interp(int_hooks())
            for st, w in I.run(conv, [x, 1], State()):
                if isinstance(w, Stop):
                    continue
                w = I.deep(st, w)
                if isinstance(w, Agg) and w.tag in (OPT, RES):
                    if w.var != (1 if w.tag == OPT else 0):
                        continue
                    w = w.f[0]
                m = w.f[0] if isinstance(w, Agg) and w.tag == SJ and len(w.f) else None
                if not isinstance(m, MapV):
                    ctx.ob(f"JSON {name}", None, SHAPE, f"exported as {short(w)}")
                    continue
                for i, (k, v) in enumerate(m.over):
                    kn = k.const() if isinstance(k, Str) else k
                    if kn == "souris_type":
                        continue
                    rest = [e for j, e in enumerate(m.over) if j != i]
                    bad = [("missing", None), ("null", Agg(SJ, 0, ())), ("a truth value", Agg(SJ, 1, (1,)))]
                    if isinstance(v, Agg) and v.var == 4 and isinstance(v.f[0], Seq):
                        items = v.f[0].items
                        el = lambda y: Agg(SJ, 4, (Seq(list(items[:-1]) + [y]),))
                        bad += [("an array with a null", el(Agg(SJ, 0, ())))]
                        bad += [("an array with a number too large", el(num(1 << 16))), ("a text", Agg(SJ, 3, (Str(("text",)),)))]
                        if kind != "Ipv6Addr":
                            bad += [("an array with 256", el(num(256)))]
                        if kind != "Binary":
                            bad += [("a shorter array", Agg(SJ, 4, (Seq(items[:-1]),))), ("a longer array", Agg(SJ, 4, (Seq(list(items) + [num(1)]),)))]
                    elif isinstance(v, Agg) and v.var == 3:
                        bad += [("a number", num(5))]
                    elif isinstance(v, Agg) and v.var == 2:
                        bad += [("a text", Agg(SJ, 3, (Str(("text",)),)))]
                    for what, y in bad:
                        j = Agg(SJ, w.var, (MapV(m.base, rest + ([(k, y)] if y is not None else [])),))
                        rejected(ctx, f"JSON {name}: {kn} {what}", I, back, [j], st.copy(), text=f"{kn} is {what}")
                    if isinstance(v, Agg) and v.var == 3:
                        j = Agg(SJ, w.var, (MapV(m.base, rest + [(k, Agg(SJ, 3, (Str((T("sym", "unknown text"),)),)))]),))
                        for s, r in unknown_text(ctx, back, j, st):
                            bad_ = [e for e in s.events if e[0] == "failed"]
                            if is_ok(r):
                                ctx.ob(f"JSON {name}: {kn} unreadable", not bad_, SHAPE, f"{bad_[0][1]} fails and the result is {short(r)}" if bad_ else "")
                            else:
                                ctx.ob(f"JSON {name}: {kn} unreadable", None if isinstance(r, Stop) and r.kind == "cut" else True, SHAPE, r)
        guard(ctx, f"JSON {name}", SHAPE, go)


def unknown_text(ctx, fn, j, st):
    I = ctx.interp(int_hooks())
    watch(I)
    for s, r in I.run(fn, [j], st.copy()):
        ctx.paths += 1
        yield s, r


def run(ctx):
    ctx.explanation = ("Every decoder is interpreted on input of which nothing is known, each read, parse and conversion succeeding and failing. On every path on which one "
                       "of them fails the decoder must return an error. What no writer could have produced (a tag that stands for nothing, a key that is no string, "
                       "a length that disagrees with the data, a prefix of what was written, a tagged JSON object with a part missing) must be an error on every path.")
    ctx.rule(DESC)
    ctx.rule(SHAPE)
    ctx.floor = 60

    def judge(name, I, s, r):
        bad = [e for e in s.events if e[0] in ("failed", "dropped-rest")]
        if isinstance(r, Stop):
            ctx.ob(name, None if r.kind == "cut" else True, DESC, r)
            return
        if is_err(r):
            ctx.ob(name, True, DESC)
        elif is_ok(r):
            e = next((e for e in bad if e[0] == "failed"), None)
            ok_ = True if not e else None if any("unmodelled" in n for n in s.notes) else False
            ctx.ob(f"{name}: {e[2].split('::')[-1]}: {e[1]}" if e else name, ok_, DESC, f"{e[1]} fails in {e[2]}, and the result is {short(r)}" if e else "")
        else:
            ctx.ob(name, None, DESC, f"result {short(r)}")
    P = ctx.program()
    tag = {}
    guard(ctx, "tags", SHAPE, lambda: tag.update(kinds(ctx)))
    discriminants(ctx)
    nested(ctx, tag)
    no_table(ctx, tag)
    counts(ctx, tag)
    stores(ctx)
    lengths(ctx)
    nodes(ctx)
    json(ctx)
    cut_short(ctx)
    sweep(ctx, judge)


def cut_short(ctx):
    """every proper prefix of what a writer wrote is refused: nothing is made up for the bytes that are not there"""
    def prefixes(key, I, s, items, reader, pre=()):
        for k in range(len(items)):
            s1 = s.copy()
            cu = I.cell(s1, cursor(list(items[:k])))
            rejected(ctx, f"{key} cut short", I, reader, list(pre) + [Ref(cu, ())], s1, text=f"{key}: the first {k} of {len(items)} bytes")

    def written(key, I, writer, args, st, reader, pick=None, pre=None):
        for s, w in I.run(writer, args, st):
            w = I.deep(s, w) if not isinstance(w, Stop) else w
            body = pick(w) if pick and isinstance(w, Agg) else w
            if not isinstance(body, Seq) or body.chunks():
                ctx.ob(f"{key} cut short", None, SHAPE, f"written as {short(w)}")
                continue
            prefixes(key, I, s, body.items, reader, pre(w) if pre else ())

    for name, (f, g) in COMPRESSORS.items():
        for data in ([7], [1, 1, 1, 2], [3, 1, 4, 1, 5, 9, 2, 6], [0] * 300):
            def go(f=f, g=g, data=data, name=name):
                I = ctx.interp(c31.lz4_hooks(), max_paths=4000, max_steps=6_000_000)
                I.max_visits, I.roomy, I.budget_s = 3000, True, 20
                st = State()
                written(f"{name} of {len(data)} bytes", I, f, [Ref(I.cell(st, Seq(list(data))), ())], st, g)
            guard(ctx, f"{name} of {len(data)} bytes cut short", SHAPE, go)
    for t, xs in (("u64", (0, 1, 237, 238, 239, 255, 256, 1 << 20, (1 << 64) - 1)), ("i64", (0, 5, -1, -2, -128, -256, -257, -(1 << 63))), ("u128", ((1 << 128) - 1,))):
        for x in xs:
            def go(t=t, x=x):
                I = ctx.interp()
                for s, v in I.run(f"<{INT} as core::convert::From<{t}>>::from", [x], State()):
                    written(f"the integer {x}", I, f"{INT}::ser", [v], s, f"{INT}::deser", lambda w: w.f[1], lambda w: [w.f[0]])
            guard(ctx, f"the integer {x} cut short", SHAPE, go)
    for n in (1, 8, 9, 300):
        def go(n=n):
            I = ctx.interp()
            I.max_visits = 2000
            st = State()
            #a bit string is its bytes and how many bits of them count
            bits = Agg(BITS, 0, (Seq([0x55] * (n // 8) + ([1] if n % 8 else [])), n))
            written(f"{n} bits", I, f"{BITS}::ser", [ref(I, st, bits)], st, f"{BITS}::deser")
        guard(ctx, f"{n} bits cut short", SHAPE, go)
