"""C04: layout of a serialised store."""
from lib import *
from souris import *
from c01 import ENUMS

STORE = "sourisdb::store::Store"
MAGIC = b"SOURISDB"


def tagtable(ctx, adt):
    """{tag: variant name}"""
    I = ctx.interp()
    to = ENUMS[adt][0]
    out = {}
    for n, v in enumerate(ctx.P.adts[adt]["v"]):
        for _, x in I.run(to, [Agg(adt, n, ())]):
            if is_int(x):
                out[x] = v["n"]
    return out


METHOD = {"RunLengthEncoding": "rle", "LempelZiv": "lz", "Huffman": "huffman"}


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Store::ser is interpreted on maps with symbolic contents, with each compressor an opaque unit that marks its output, and with building a huffman "
                       "table succeeding and failing; the resulting stream's magic, flag and method tag are compared with what actually follows, and Store::deser is "
                       "interpreted on that stream and on streams with a wrong magic, wrong flag or unassigned method.")
    ctx.rule("magic, huffman flag and compression tag written describe exactly what follows; the reader acts on exactly them")
    ctx.floor = 5
    if not ctx.need(STORE + "::ser", STORE + "::deser", BIN + "::ser", BIN + "::deser", *ENUMS[BC]):
        return
    tags = tagtable(ctx, BC)
    s = lambda n, t=None: T("sym", n, t) if t else T("sym", n)

    def v(n, *f):
        return Agg(VAL, P.variant(VAL, n), f)

    def h_newstr(I, st, a, c):
        t = I.deep(st, a[0])
        out = []
        s1, s2 = st.copy(), st.copy()
        k = T("nohuf", t)
        if I.assume(s1, k, 0):
            out.append((s1, ok(T("sym", ("huf", t)))))
        if I.assume(s2, k, 1):
            out.append((s2, err(T("nohuferr"))))
        return out

    hooks = codec_hooks()
    hooks.update(compressor_hooks())
    hooks[HUF + "::<char>::new_str"] = h_newstr
    stores = {
        "empty": MapV(None, ()),
        "one string": MapV(None, [(Str(("k",)), v("String", Str((s("s"),))))]),
        "number": MapV(None, [(Str(("k",)), v("SingleFloat", s("f", "f32")))]),
        "json and timezone": MapV(None, [(Str(("k",)), v("JSON", s("j"))), (Str(("l",)), v("Timezone", s("tz")))]),
        "nested": MapV(None, [(Str(("k",)), v("Array", Seq([v("Map", MapV(None, [(Str(("q",)), v("String", Str((s("s"),))))])), v("Null", UNIT)])))]),
    }
    streams = []
    for name, m in stores.items():
        def go():
            I = ctx.interp(hooks)
            x = Agg(STORE, 0, (m,))
            for st, r in I.run(STORE + "::ser", [x], State()):
                ctx.paths += 1
                if isinstance(r, Stop) or not isinstance(r, Seq):
                    ctx.ob(f"written:{name}", False if isinstance(r, Stop) and r.kind == "panic" else None, "a store is written", r)
                    continue
                layout(ctx, I, st, name, r, tags)
                c = I.cell(st, r)
                for s2, w in I.run(STORE + "::deser", [r], st.copy()):
                    ctx.paths += 1
                    key = f"opens:{name}"
                    desc = "a serialised store opens again with the same entries"
                    if is_ok(w):
                        okk, why = same(I, s2, x, w.f[0])
                        ctx.ob(key, okk, desc, f"{why}; written as {short(r, 300)}")
                    elif is_err(w):
                        und = opaque(w) or any("unmodelled" in q for q in s2.notes)
                        ctx.ob(key, None if und else False, desc, f"written as {short(r, 300)}, opening fails with {w}")
                    else:
                        ctx.ob(key, False if isinstance(w, Stop) and w.kind == "panic" else None, desc, w)
                if name == "one string":
                    streams.append((I, st, x, r))
        guard(ctx, f"opens:{name}", "a serialised store opens again", go)
    broken(ctx, streams, tags)
    def methods():
        #the method chosen must be the one named, for a blob of its own too
        I = ctx.interp(hooks)
        b = Agg(BIN, 0, (s("bin"),))
        for st, r in I.run(BIN + "::ser", [b], State()):
            ctx.paths += 1
            if not (isinstance(r, Agg) and isinstance(r.f[0], Agg) and isinstance(r.f[1], Seq)):
                ctx.ob("method", None, "compressed data carries its own method's tag", r)
                continue
            named = P.adts[BC]["v"][r.f[0].var]["n"]
            ctx.ob("method", method_of(I, st, r.f[1].items) == METHOD.get(named, "plain"), "compressed data carries its own method's tag", f"{r.f[1]} is labelled {named}")
    guard(ctx, "method", "compressed data carries its own method's tag", methods)


def method_of(I, st, items):
    if len(items) == 1 and isinstance(items[0], Chunk) and items[0].kind == "packed":
        return items[0].x[0]
    if items and not any(isinstance(x, Chunk) and x.kind == "packed" for x in items):
        return "plain"
    return None


def layout(ctx, I, st, name, r, tags):
    it = r.items
    head = it[:8]
    if any(isinstance(x, Chunk) for x in it[:9]) or len(it) < 9:
        ctx.ob(f"magic:{name}", None, "a store starts with its magic", r)
        return
    ctx.ob(f"magic:{name}", tuple(head) == tuple(MAGIC), "a store starts with SOURISDB", f"starts with {head}")
    b = I.simp(st, it[8])
    if not is_int(b):
        ctx.ob(f"flag:{name}", None, "the ninth byte is known on each path", b)
        return
    named = tags.get(b & 0x7F)
    used = method_of(I, st, it[9:])
    ctx.ob(f"method:{name}", named is not None and METHOD.get(named, "plain") == used, "the method named is the method used",
           f"the byte {b:#x} names {named}, the data was packed by {used}")
    inner = it[9].x[1] if used != "plain" and used else None
    if used == "plain":
        body = it[10:]
        body = body[0].x if len(body) == 1 and isinstance(body[0], Chunk) and body[0].kind == "blob" else Seq(body)
    else:
        body = inner
    if isinstance(body, Seq):
        huf = bool(body.items) and isinstance(body.items[0], Chunk) and body.items[0].kind == "huf"
        ctx.ob(f"flag:{name}", bool(b & 0x80) == huf, "the huffman flag is set exactly when a table is written",
               f"the byte is {b:#x} and the contents start with {short(body.items[:1])}")


def broken(ctx, streams, tags):
    if not streams:
        ctx.ob("rejects", None, "damaged headers are rejected", "no stream")
        return

    def go():
        I, st, x, r = streams[0]
        def attempt(key, desc, items):
            for s2, w in I.run(STORE + "::deser", [Seq(items)], st.copy()):
                ctx.paths += 1
                ctx.ob(key, False if is_ok(w) or isinstance(w, Stop) and w.kind == "panic" else True if is_err(w) else None, desc, f"{short(items[:10])} gives {w}")
        for p in range(8):
            for d in (1, 0x20, 0x80, 0xFF):
                it = list(r.items)
                it[p] = it[p] ^ d if is_int(it[p]) else 0
                attempt(f"magic byte {p} checked", "a wrong magic is an error", it)
        for n in range(9):
            attempt(f"short:{n}", "a header cut short is an error", list(r.items)[:n])
        for b in range(128):
            if b not in tags:
                for f in (0, 0x80):
                    it = list(r.items)
                    it[8] = b | f
                    attempt("unknown method", "an unassigned method is an error", it)
    guard(ctx, "rejects", "damaged headers are rejected", go)
    #each method's data is only ever given to its own decompressor
    hooks = codec_hooks()
    hooks.update(compressor_hooks())
    hooks[VAL + "::deser"] = lambda I, st, a, c: ok(T("contents", I.deep(st, a[0])))
    for b, name in tags.items():
        def go2():
            I = ctx.interp(hooks)
            mine = METHOD.get(name)
            body = [Chunk("packed", (mine, Seq([Chunk("blob", T("sym", "body"))])))] if mine else [Chunk("int", T("Int", 3, "usize")), 1, 2, 3]
            n = 0
            for s2, w in I.run(STORE + "::deser", [Seq(list(MAGIC) + [b] + body)]):
                ctx.paths += 1
                n += 1
                ctx.ob(f"decompressor:{name}", False if has_op(w, "misread") else True, "data goes to the decompressor of the method named", w)
            if not n:
                ctx.ob(f"decompressor:{name}", None, "data goes to the decompressor of the method named", "no path")
        guard(ctx, f"decompressor:{name}", "data goes to the decompressor of the method named", go2)
