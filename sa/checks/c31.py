"""C31: each compressor composed with its decompressor, abstractly."""
import itertools
from lib import *
from souris import *
from stdmodels import L
from c05 import words

DESC = "decompressing gives the bytes that were compressed"
LZ4 = "lz4_flex::block::"


def lz4_hooks():
    """the library's block format: what was compressed comes back when there is room for it, and an n-th of 255 is the least it takes"""
    def comp(I, st, a, c):
        x = I.deep(st, L(I, st, a[0]))
        if not isinstance(x, Seq):
            return None
        n = I.seq_len(st, x)
        if is_int(n):
            out = []
            for l in sorted({-(-n // 255) or 1, n + 1, n + n // 255 + 16}):
                out.append((st.copy(), Seq([T("lz4", x, i, l) for i in range(l)])))
            return out
        l = T("sym", ("packed length", x), "usize")
        st.iv[l] = (1, 1 << 48, frozenset())
        k = I.linear(l, 255)
        I.linear(n, -1, k)
        st.lin.append(k)
        return Seq([Chunk("raw", T("raw", ("lz4", x), l))])

    def decomp(I, st, a, c):
        v, n = I.deep(st, L(I, st, a[0])), I.simp(st, a[1])
        x = None
        if isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], Chunk) and v.items[0].kind == "raw":
            r = v.items[0].x
            if isinstance(r.a[0], tuple) and r.a[0][0] == "lz4":
                x = r.a[0][1]
        elif isinstance(v, Seq) and v.items and all(isinstance(t, T) and t.op == "lz4" and t.a[1] == i and t.a[2] == len(v.items) for i, t in enumerate(v.items)):
            x = v.items[0].a[0]
        if x is None:
            #something else than one compressed block: malformed
            return err(T("malformed block")) if isinstance(v, Seq) and not v.chunks() else None
        s = st.copy()
        out = []
        if I.assume_cmp(st, "Ge", n, I.seq_len(st, x)):
            out.append((st, ok(x)))
        if I.assume_cmp(s, "Lt", n, I.seq_len(s, x)):
            out.append((s, err(T("output too small"))))
        return out
    return {LZ4 + "compress::compress": comp, LZ4 + "decompress::decompress": decomp, "lz4_flex::compress": comp, "lz4_flex::decompress": decomp}


def trip(ctx, key, name, data, st=None, hooks=None, visits=None):
    f, g = COMPRESSORS[name]

    def go():
        I = ctx.interp(hooks or {}, max_paths=4000, max_steps=6_000_000)
        I.max_visits, I.roomy = visits or 3000, True
        I.budget_s = 25
        s0 = st.copy() if st else State()
        r0 = Ref(I.cell(s0, Seq(data)), ())
        for s, w in I.run(f, [r0], s0):
            ctx.paths += 1
            if isinstance(w, Stop):
                ctx.ob(key, False if w.kind == "panic" else None, DESC, f"{f} of {short(Seq(data))}: {w.kind} {w.info}")
                continue
            w = I.deep(s, w)
            if not isinstance(w, Seq):
                ctx.ob(key, None, DESC, f"compressed to {short(w)}")
                continue
            cu = I.cell(s, cursor(list(w.items) + [Chunk("tail", T("sym", "tail"))]))
            for s2, r in I.run(g, [Ref(cu, ())], s):
                ctx.paths += 1
                text = f"{short(Seq(data), 160)} is compressed to {short(w, 200)}, and decompressing gives "
                off = next((e for e in s2.events if e[0] == "misaligned" and e[1] and isinstance(e[1][0], Chunk)), None)
                if off:
                    d = differ(I, off[4], I.simp(off[4], off[2]), I.chunk_len(off[1][0]))
                    if d and d is not True:
                        s2.notes = [n for n in s2.notes if "line up" not in n]
                        ctx.ob(key, False, DESC, text + f"a read of {short(off[2])} of {short(I.chunk_len(off[1][0]))} bytes, different for {d}")
                        continue
                if isinstance(r, Stop):
                    ctx.ob(key, False if r.kind == "panic" else None, DESC, text + f"{r.kind} {r.info}")
                    continue
                r = I.deep(s2, r)
                if is_err(r):
                    ctx.ob(key, False if not Seq(data).chunks() or witness(I, s2) else None, DESC, text + short(r))
                elif not is_ok(r) or not isinstance(r.f[0], Seq):
                    ctx.ob(key, None, DESC, text + short(r))
                else:
                    good, why = same(I, s2, Seq(data), flat(r.f[0]))
                    ctx.ob(key, good, DESC, text + short(r.f[0], 200) + ("" if good else ": " + str(why)))
                    pos = s2.cells[cu].f[1]
                    ctx.ob(key, pos == len(w.items) if is_int(pos) else None, DESC, text + f"the bytes but stops after {short(pos)} of {len(w.items)} bytes")
    guard(ctx, key, DESC, go)


def flat(v):
    """repetitions of known length written out"""
    out = []
    for x in v.items:
        rep = isinstance(x, Chunk) and x.kind == "rep" and is_int(x.x[1])
        out.extend([x.x[0]] * x.x[1] if rep else [x])
    return Seq(out)


def distinct(ctx, n):
    xs = [T("sym", f"byte {chr(97 + i)}", "u8") for i in range(n)]
    I = ctx.interp({})
    st = State()
    for a, b in itertools.combinations(xs, 2):
        I.assume_cmp(st, "Ne", a, b)
    return xs, st


def run(ctx):
    ctx.explanation = ("Each compressor is interpreted on data and its result, followed by unknown bytes, is given to the matching decompressor; the result must be the data and the cursor must "
                       "stop after the compressed form. Data: every pattern of equal and different unknown bytes up to five, runs of one unknown byte of lengths around every limit, "
                       "alone and between others, and for Lempel-Ziv data of any length, whose block format is the library's.")
    ctx.rule(DESC)
    ctx.floor = 5
    ctx.assumptions += ["lz4_flex's decompress undoes its compress, given the length, and n bytes take at least n/255", "longer data repeats the patterns analysed"]
    if not ctx.need(*[f for p in COMPRESSORS.values() for f in p]):
        return
    deep = ctx.thorough
    ab, st = distinct(ctx, 6)
    a, b, c = ab[:3]
    for name in COMPRESSORS:
        hooks = lz4_hooks() if name == "lz" else {}
        for n in range(0, (8 if deep else 6) if name == "rle" else 6 if deep else 5):
            for w in words(n):
                if max(w, default=0) < len(ab):
                    trip(ctx, f"{name}: {n} bytes", name, [ab[i] for i in w], st, hooks)
        for n in (1, 2, 3, 7, 16, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 509, 510, 511, 512, 513) + ((764, 765, 766, 1000, 1019, 1020, 1021) if deep else ()):
            trip(ctx, f"{name}: run of {n}", name, [a] * n, st, hooks)
            if name == "huffman" and n > 130 and n not in (254, 255, 256, 257):
                continue
            trip(ctx, f"{name}: run of {n} between others", name, [b] + [a] * n + [c], st, hooks)
            trip(ctx, f"{name}: run of {n} before others", name, [a] * n + [b, a], st, hooks)
            if name != "huffman":
                trip(ctx, f"{name}: two runs of {n}", name, [a] * n + [b] * n, st, hooks)
        for n in (63, 64, 65, 127, 128, 129) + ((255, 256, 257) if name != "huffman" or deep else ()):
            trip(ctx, f"{name}: {n} bytes alternating", name, [(a, b)[i % 2] for i in range(n)], st, hooks)
            if name != "huffman":
                trip(ctx, f"{name}: {n} pairs", name, [(a, a, b)[i % 3] for i in range(n)], st, hooks)
    for n in (65535, 65536, 65537):
        trip(ctx, f"huffman: run of {n}", "huffman", [a] * n, st, visits=70000)
    trip(ctx, "rle: 32768 bytes alternating", "rle", [(a, b)[i % 2] for i in range(32768)], st, visits=40000)
    for n in (9, 17, 64) + ((256,) if deep else ()):
        trip(ctx, f"huffman: {n} different bytes", "huffman", [(7 * i) % 256 for i in range(n)])
        trip(ctx, f"huffman: {n} different bytes, one often", "huffman", [0] * n + [255 - i for i in range(n)])
    trip(ctx, "huffman: fibonacci", "huffman", [x for i, k in enumerate((1, 1, 2, 3, 5, 8, 13, 21, 34)) for x in [i] * k])
    s = State()
    n = T("sym", "length", "usize")
    s.iv[n] = (1, 1 << 40, frozenset())
    trip(ctx, "lz: any length", "lz", [Chunk("raw", T("raw", "data", n))], s, {**int_hooks(), **cursor_hooks(), **lz4_hooks()})
