"""C01: tag tables, enumerated completely by constant propagation through the conversion functions."""
from lib import *
from souris import *

ENUMS = {
    TY: ("sourisdb::values::<impl core::convert::From<%s> for u8>::from" % TY, "<%s as core::convert::TryFrom<u8>>::try_from" % TY),
    SS: ("sourisdb::types::integer::<impl core::convert::From<%s> for u8>::from" % SS, "<%s as core::convert::TryFrom<u8>>::try_from" % SS),
    "sourisdb::types::binary::BinaryCompression": ("sourisdb::types::binary::<impl core::convert::From<sourisdb::types::binary::BinaryCompression> for u8>::from",
                                                   "<sourisdb::types::binary::BinaryCompression as core::convert::TryFrom<u8>>::try_from"),
}
FIELDS = {"Character": T("sym", "c", "char"), "String": Str((T("sym", "s"),)), "Binary": Agg("sourisdb::types::binary::BinaryData", 0, (T("sym", "b"),)),
          "Boolean": T("sym", "b", "bool"), "Integer": T("sym", "i"), "Imaginary": Agg(IMAG, 1, (T("sym", "m", "f64"), T("sym", "a", "f64"))),
          "Timestamp": T("sym", "t"), "JSON": T("sym", "j"), "Null": UNIT, "SingleFloat": T("sym", "f", "f32"), "DoubleFloat": T("sym", "d", "f64"),
          "Array": Seq(), "Map": MapV(), "Timezone": T("sym", "tz"), "Ipv4Addr": T("sym", "v4"), "Ipv6Addr": T("sym", "v6")}


def single(I, fn, *a, st=None):
    outs = I.run(fn, list(a), st)
    return outs


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("Every tag enum's conversion to u8 is evaluated for every variant and its conversion from u8 for all 256 bytes, by constant "
                       "propagation through MIR; the complex-number form bits and the tag nibble written and read by Value::ser and Value::deser are "
                       "enumerated the same way. The tables must be inverse to each other and everything else must be an error.")
    ctx.rule("writer table and reader table of a tag are inverse; unassigned tags are rejected on every path; the tag a value is written with is its own kind's")
    ctx.floor = 5
    tags = {}
    for adt, (to, fr) in ENUMS.items():
        short_ = adt.rsplit("::", 1)[-1]
        if not ctx.need(to, fr):
            continue
        I = ctx.interp()
        names = [v["n"] for v in P.adts[adt]["v"]]
        tags[adt] = {}
        for n, name in enumerate(names):
            outs = single(I, to, Agg(adt, n, ()))
            ctx.paths += len(outs)
            vals = {v if is_int(v) else None for _, v in outs}
            ok_ = len(vals) == 1 and None not in vals
            ctx.ob(f"{short_}.{name}:written", True if ok_ else None, f"the tag of {name} is a constant", outs)
            if ok_:
                tags[adt][name] = vals.pop()
        inv = {}
        for name, t in tags[adt].items():
            inv.setdefault(t, []).append(name)
        for t, ns in inv.items():
            ctx.ob(f"{short_}:unique:{ns[0]}", len(ns) == 1, "no two kinds share a tag", f"{ns} are all written as {t}")
        lim = 16 if adt == TY else 8 if adt == SS else 16
        for name, t in tags[adt].items():
            ctx.ob(f"{short_}.{name}:fits", 0 <= t < lim, "a tag fits the bits it is stored in", f"{name} is written as {t}")
        for b in range(256):
            outs = single(I, fr, b)
            ctx.paths += len(outs)
            for _, v in outs:
                if isinstance(v, Stop) and v.kind == "panic":
                    ctx.ob(f"{short_}:read", False, "reading a tag returns", f"tag {b}: {v}")
                elif is_ok(v) and isinstance(v.f[0], Agg):
                    name = names[v.f[0].var]
                    want = inv.get(b, [])
                    if name in want:
                        ctx.ob(f"{short_}.{name}:read", True, "a tag is read back as what it was written for")
                    else:
                        ctx.ob(f"{short_}.{name}:read", False, "a tag is read back as what it was written for",
                               f"tag {b} is read as {name} but written for {want or 'nothing'}")
                elif is_err(v):
                    if b in inv:
                        ctx.ob(f"{short_}.{inv[b][0]}:read", False, "an assigned tag is accepted", f"tag {b} of {inv[b]} is rejected")
                    else:
                        ctx.ob(f"{short_}:unassigned", True, "an unassigned tag is rejected")
                else:
                    ctx.ob(f"{short_}:read", None, "a tag is read back as what it was written for", f"{b}: {v}")
    if len(tags) != 3:
        return
    forms(ctx)
    kinds(ctx, tags)
    subtags(ctx, tags)


def forms(ctx):
    ser, de = IMAG + "::ser", IMAG + "::deser"
    if not ctx.need(ser, de):
        return
    P = ctx.P
    I = ctx.interp(codec_hooks())
    used = {}
    vals = [("polar", Agg(IMAG, P.variant(IMAG, "PolarForm"), (T("sym", "m", "f64"), T("sym", "a", "f64")))),
            ("cartesian", Agg(IMAG, P.variant(IMAG, "CartesianForm"), (T("sym", "re"), T("sym", "im"))))]
    for form, v in vals:
        for st, r in I.run(ser, [v], State()):
            ctx.paths += 1
            if isinstance(r, Stop) or not isinstance(r, Agg) or not is_int(r.f[0]):
                ctx.ob(f"Imaginary.{form}:written", None, "the form bits are a constant on each path", r)
                continue
            sg = tuple(I.simp(st, T("discr", T("ss", T("sym", x)))) for x in ("re", "im")) if form == "cartesian" else ()
            used.setdefault(r.f[0], set()).add((form, sg))
            ctx.ob(f"Imaginary.{form}:fits", 0 <= r.f[0] < 16, "form bits fit the four bits they are stored in", f"{form} {sg} is written as {r.f[0]}")
            c = I.cell(st, cursor(r.f[1]))
            for s2, w in I.run(de, [r.f[0], Ref(c)], st.copy()):
                ctx.paths += 1
                key = f"Imaginary.{form}{list(sg) if sg else ''}:read"
                if is_err(w):
                    ctx.ob(key, False, "form bits are read back as the same form and signs", f"bits {r.f[0]} are rejected: {w}")
                elif is_ok(w):
                    o, why = same(I, s2, v, w.f[0])
                    ctx.ob(key, o, "form bits are read back as the same form and signs", why)
                else:
                    ctx.ob(key, None, "form bits are read back as the same form and signs", w)
    for b, fs in used.items():
        ctx.ob(f"Imaginary:unique:{b}", len(fs) == 1, "no two forms share their bits", f"{sorted(map(str, fs))} are all written as {b}")
    for b in range(256):
        if b in used:
            continue
        st = State()
        c = I.cell(st, cursor([Chunk("int", T("sym", "p")), Chunk("int", T("sym", "q"))]))
        for s2, w in I.run(de, [b, Ref(c)], st):
            ctx.paths += 1
            ctx.ob("Imaginary:unassigned", False if is_ok(w) else True if is_err(w) else None, "unassigned form bits are rejected",
                   f"form bits {b}, never written, are read as {w}")


def kinds(ctx, tags):
    P = ctx.P
    if not ctx.need(VAL + "::ser", VAL + "::deser"):
        return
    hooks = codec_hooks()
    hooks["sourisdb::types::binary::BinaryData::ser"] = lambda I, st, a, c: tup(Agg("sourisdb::types::binary::BinaryCompression", 0, ()), Seq([Chunk("blob", T("sym", "b"))]))
    I = ctx.interp(hooks)
    for n, v in enumerate(P.adts[VAL]["v"]):
        name = v["n"]
        x = Agg(VAL, n, (FIELDS[name],))
        for huf in (NONE, some(T("sym", "huf"))):
            def go():
                for st, r in I.run(VAL + "::ser", [x, huf], State()):
                    ctx.paths += 1
                    key = f"Value.{name}:tag"
                    if isinstance(r, Stop) or not isinstance(r, Seq) or not r.items:
                        ctx.ob(key, None, "the first byte of a value holds its kind", r)
                        continue
                    m, o = I.known(st, r.items[0])
                    if m == -1 or (m ^ o) & 0xF0:
                        ctx.ob(key, None, "the first byte of a value holds its kind", f"first byte {r.items[0]}")
                        continue
                    ctx.ob(key, (o >> 4) == tags[TY].get(name), "the first byte of a value holds its own kind's tag",
                           f"a {name} is written with tag {o >> 4}, its kind's tag is {tags[TY].get(name)}")
            guard(ctx, f"Value.{name}:tag", "the first byte of a value holds its kind", go)


def subtags(ctx, tags):
    """sub-tags inside the first byte that nothing is written with are rejected by Value::deser"""
    I = ctx.interp(codec_hooks())
    BC = "sourisdb::types::binary::BinaryCompression"
    cases = [("Integer", [b for b in range(4) if b not in tags[SS].values()], [Chunk("int", T("sym", "p"))]),
             ("Binary", [b for b in range(16) if b not in tags[BC].values()], [Chunk("int", T("Int", 0, "usize"))] + [Chunk("blob", T("sym", "x"))]),
             ("Timestamp", [b for b in range(4) if b not in tags[SS].values()], [Chunk("int", T("sym", f"p{k}")) for k in range(7)])]
    for name, subs, rest in cases:
        if name not in tags[TY]:
            continue
        for b in subs:
            def go():
                st = State()
                c = I.cell(st, cursor([tags[TY][name] << 4 | b] + rest))
                for s2, w in I.run(VAL + "::deser", [Ref(c), NONE], st):
                    ctx.paths += 1
                    ctx.ob(f"Value.{name}:subtag", False if is_ok(w) else True if is_err(w) else None, "an unassigned sub-tag in the first byte is rejected",
                           f"first byte {tags[TY][name] << 4 | b:#x} is accepted as {w}")
            guard(ctx, f"Value.{name}:subtag", "an unassigned sub-tag in the first byte is rejected", go)
