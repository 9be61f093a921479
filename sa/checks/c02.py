"""C02: abstract composition of writer and reader for every kind that is not a container."""
from lib import *
from souris import *


def values(P):
    def v(n, *f):
        return Agg(VAL, P.variant(VAL, n), f)
    s = lambda n, t=None: T("sym", n, t) if t else T("sym", n)
    yield "Character", v("Character", s("c", "char"))
    yield "String", v("String", Str((s("s"),)))
    yield "Binary", v("Binary", Agg(BIN, 0, (s("bin"),)))
    yield "Boolean", v("Boolean", s("b", "bool"))
    yield "Integer", v("Integer", s("i"))
    yield "Imaginary (cartesian)", v("Imaginary", Agg(IMAG, P.variant(IMAG, "CartesianForm"), (s("re"), s("im"))))
    yield "Imaginary (polar)", v("Imaginary", Agg(IMAG, P.variant(IMAG, "PolarForm"), (s("m", "f64"), s("a", "f64"))))
    yield "Timestamp", v("Timestamp", s("t"))
    yield "JSON", v("JSON", s("j"))
    yield "Null", v("Null", UNIT)
    yield "SingleFloat", v("SingleFloat", s("f", "f32"))
    yield "DoubleFloat", v("DoubleFloat", s("d", "f64"))
    yield "Timezone", v("Timezone", s("tz"))
    yield "Ipv4Addr", v("Ipv4Addr", s("v4"))
    yield "Ipv6Addr", v("Ipv6Addr", s("v6"))


def roundtrip(ctx, I, key, x, huf, tail=True):
    desc = "what is written is read back as the same value, and exactly all of it is consumed"
    n = 0
    for st, r in I.run(VAL + "::ser", [x, huf], State()):
        ctx.paths += 1
        if isinstance(r, Stop):
            ctx.ob(key, False if r.kind == "panic" else None, desc, f"writing does not return: {r}")
            continue
        r = I.load(st, r)
        if not isinstance(r, Seq):
            ctx.ob(key, None, desc, f"writes {r}")
            continue
        t = [Chunk("tail", T("sym", "tail"))] if tail else []
        c = I.cell(st, cursor(list(r.items) + t))
        nev = len(st.events)
        for s2, w in I.run(VAL + "::deser", [Ref(c), huf], st.copy()):
            ctx.paths += 1
            n += 1
            wrote = short(r, 240)
            mis = [e for e in s2.events[nev:] if e[0] == "misaligned"]
            if is_ok(w):
                ok_, why = same(I, s2, x, w.f[0])
                pos = s2.cells[c].f[1]
                if ok_ is True and is_int(pos) and pos != len(r.items):
                    rest = [q for q in r.items[pos:] if not (isinstance(q, Chunk) and I.chunk_len(q) == 0)]
                    if pos > len(r.items) or rest:
                        ok_, why = False, f"the value came back, but {'part of what was written is left over: ' + short(rest) if rest else 'bytes after it were read too'}"
                ctx.ob(key, ok_, desc, f"{why}; written as {wrote}; notes {s2.notes}" if ok_ is not True else "")
            elif is_err(w):
                #an error is a failure to read back, unless it hinges on something the analysis keeps opaque
                und = opaque(w) or any("unmodelled" in q for q in s2.notes)
                ctx.ob(key, None if und else False, desc, f"{short(x)} written as {wrote} cannot be read back: {w}; misaligned reads {mis}")
            else:
                bad = isinstance(w, Stop) and w.kind == "panic"
                ctx.ob(key, False if bad else None, desc, f"written as {wrote}, reading gives {w}")
    if not n:
        ctx.ob(key, None, desc, "no path writes this value")


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Value::ser is interpreted abstractly on a value of each kind with symbolic fields, giving the stream of fields it writes on every path; "
                       "Value::deser is then interpreted on exactly that stream. Every path must give back the same value numbers and stop at the end.")
    ctx.rule("for every kind, every writer path composed with every reader path yields the same fields and consumes exactly what was written")
    ctx.assumptions += ["Integer::ser/deser agree (C33), text coding and bit strings agree (C05, C30), decompressors invert their compressors (C31, not claimed in full)",
                        "chrono, chrono-tz and serde_json text forms parse back to what they were printed from"]
    ctx.floor = 5
    if not ctx.need(VAL + "::ser", VAL + "::deser"):
        return
    hooks = codec_hooks()
    hooks.update(compressor_hooks())
    for name, x in values(P):
        for hn, huf in (("plain", NONE), ("huffman", some(T("sym", "huf")))):
            key = f"{name}:{hn}"
            guard(ctx, key, "round trip", lambda: roundtrip(ctx, ctx.interp(hooks), key, x, huf))
