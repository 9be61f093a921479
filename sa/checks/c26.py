"""C26: the interactive value prompt offers every kind, and builds the kind that was picked from the parts in their roles."""
import re
from prompts import *

FN = "mouse::value_utils::get_value_from_stdin"
PARTS = {"modulus": ("modulus", "magnitude"), "argument": ("argument", "angle"), "real": ("real",), "imaginary": ("imaginary",),
         "year": ("year",), "month": ("month",), "day": ("day", "date"), "hour": ("hour",), "minute": ("minute",), "second": ("second",),
         "milli": ("milli",)}
LENGTH = 2


def simple(x):
    return re.sub("[^a-z0-9]", "", x.lower())


def label(ctx, I, st, x):
    """the text of a list entry, or None"""
    x = text(I, st, x)
    parts = x.parts if isinstance(x, Str) else (x,)
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, T) and p.op == "fmtpart" and len(p.a) == 4 and p.a[0] == "debug" or isinstance(p, T) and p.op == "display":
            v, tr = (p.a[1], "Debug") if p.op == "fmtpart" else (p.a[0], "Display")
            v = I.deep(st, L(I, st, v))
            fn = isinstance(v, Agg) and I.impls.get(("core::fmt::" + tr, v.tag, None, "fmt"))
            if not fn:
                return None
            s, r = State(), None
            res = [(s, r) for s, r in I.run(fn, [Ref(I.cell(s, v)), T("formatter")], s) if not isinstance(r, Stop)]
            if len(res) != 1:
                return None
            got = [e[1] for e in res[0][0].events if e[0] == "fmt"]
            if not got or not all(isinstance(g, Str) and g.const() is not None for g in got):
                return None
            out += "".join(g.const() for g in got)
        else:
            return None
    return out


def words(p):
    """which parts a prompt's text asks for"""
    s = p.const() if isinstance(p, Str) else None
    if s is None:
        return None
    s = s.lower()
    hit = {k for k, ws in PARTS.items() if any(w in s for w in ws)}
    if "milli" in hit:
        hit.discard("second")
    return hit


def asks(st):
    return [e for e in st.events if e[0] == "ASK"]


def role(ctx, key, desc, st, v, want):
    """v is what was typed at a prompt asking for the part `want`"""
    if not (isinstance(v, T) and v.op == "typed"):
        ctx.ob(key, False if is_int(v) else None, desc, f"the {want} is {short(v)}, not what was typed")
        return
    e = next((e for e in asks(st) if e[1] == v.a[0]), None)
    w = words(e[3]) if e else None
    if not w:
        ctx.ob(key, None, desc, f"what the prompt {e and e[3]} asks for is not known")
        return
    ctx.ob(key, want in w, desc, f"the {want} is what was typed at the prompt {e[3].const()!r}")


def machine(ctx):
    I = ctx.interp()

    def elem(I, st, a, c):
        n = sum(1 for e in st.events if e[0] == "ELEM")
        st.ev("ELEM", n, text(I, st, a[0]), c.span)
        return ok(T("elem", n))
    I.hooks[FN] = elem
    I.fs = lambda st, p: T("content", p)
    I.split_reads = 2
    I.answers = lambda I, st, n, p, ty: [LENGTH] if ty in ("usize", "u64", "u32", "u16", "u8", "i32", "i64") and asked(st) == 2 and I.kind in ("Array", "Map") else None
    return I


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("get_value_from_stdin is interpreted for every entry of its list of kinds and for every answer to its confirmations and lists; what is typed is opaque and "
                       "remembered with the prompt it was typed at, and nested values are units. The kind and the parts of the value returned are compared with the entry "
                       "picked and the prompts.")
    ctx.rule("the entries are as many as the kinds of value, all different, and picking the one labelled K returns a value of the kind K, for every K")
    ctx.rule("each part of the value is what was typed at the prompt naming that part; the elements are in the order asked, under the keys they were asked for")
    ctx.floor = 12
    ctx.assumptions.append("dialoguer's lists return the index of the entry picked (its documentation)")
    if not ctx.need(FN):
        return
    kinds = [v["n"] for v in P.adts[VAL]["v"]]
    guard(ctx, "list", "the list of kinds can be read", lambda: offered(ctx, kinds))


def offered(ctx, kinds):
    I = machine(ctx)
    I.kind, got = None, []
    I.maxask = 1
    I.picks = lambda I, st, n, p: [got.append(p) or 0]
    for st, v in I.run(FN, [Str(("P",)), T("theme")], State(), {"impl Display": "str"}):
        ctx.paths += 1
    items = got[0].f[1] if got else None
    if not isinstance(items, Seq) or items.chunks():
        ctx.ob("list", None, "the kinds offered are a list", items)
        return
    labels = [label(ctx, I, State(), x) for x in items.items]
    for k in kinds:
        n = sum(1 for l in labels if l is not None and simple(l) == simple(k))
        ctx.ob(f"{k} offered", None if None in labels and not n else n == 1, "every kind of value is offered once", f"{n} entries among {labels}")
    known = {simple(k): k for k in kinds}
    for i, l in enumerate(labels):
        want = known.get(simple(l)) if l else None
        guard(ctx, f"entry {l or i}", "picking a kind gives a value of that kind", lambda i=i, l=l, want=want: picked(ctx, i, l or f"number {i}", want, kinds))


def picked(ctx, i, l, want, kinds):
    I = machine(ctx)
    I.kind = want
    I.max_paths = 200
    I.maxask = 12 if want == "Timestamp" else 6 if want == "Map" else 5
    I.picks = lambda I, st, n, p: [i] if n == 0 else None
    key, desc = f"entry {l}", "picking a kind gives a value of that kind"
    done = 0
    for st, v in I.run(FN, [Str(("P",)), T("theme")], State(), {"impl Display": "str"}):
        ctx.paths += 1
        ctx.current[0] = st
        if isinstance(v, Stop):
            if v.kind == "panic":
                ctx.ob(key, False, desc, f"{v} after {answers(st)}")
            continue
        v = I.deep(st, v)
        if not (isinstance(v, Agg) and v.tag == RES):
            ctx.ob(key, None, desc, v)
            continue
        if v.var == 1:
            if "ioerr" not in repr(v) and "dialogueerr" not in repr(v):
                ctx.ob(f"{key} refused", None, "an error only comes from a prompt or a file", f"{v} after {answers(st)}")
            continue
        x = I.deep(st, v.f[0])
        if not (isinstance(x, Agg) and x.tag == VAL):
            ctx.ob(key, None, desc, x)
            continue
        done += 1
        got = kinds[x.var]
        if want is None:
            ctx.ob(key, None, desc, f"a {got}")
            continue
        ctx.ob(key, got == want, desc, f"picking {l} and answering {answers(st)} gives a {got}: {short(x)}")
        if got == want:
            contents(ctx, I, st, want, x.f[0] if x.f else None)
    ctx.current[0] = None
    if not done:
        ctx.ob(key, None, desc, "no path ends with a value")


def answers(st):
    return [f"{e[3].const() if isinstance(e[3], Str) else short(e[3])}: {short(e[5])}" for e in asks(st)[1:]]


def contents(ctx, I, st, kind, x):
    key, desc = f"{kind} parts", "each part is what was entered for it"
    q = asks(st)[1:]
    ad = lambda t, v: I.P.adts[t]["v"][v]
    if kind in ("Character", "String", "Integer", "JSON", "DoubleFloat", "SingleFloat", "Ipv4Addr", "Ipv6Addr"):
        want = q[0][5] if len(q) == 1 else None
        ctx.ob(key, None if want is None else bool(same(I, st, x, want)[0]), desc, f"{short(x)} after {answers(st)}")
    elif kind == "Null":
        pass
    elif kind == "Boolean":
        e = q[-1] if q else None
        l = label(ctx, I, st, e[4].items[e[5]]) if e and isinstance(e[4], Seq) and e[4].items and is_int(e[5]) else None
        if e and e[2] == "Confirm":
            ctx.ob(key, x == e[5] if is_int(x) else None, desc, f"{x} after answering {e[5]}")
            return
        w = {"true": 1, "yes": 1, "false": 0, "no": 0}.get(simple(l or ""))
        ctx.ob(f"{key} {l}", None if w is None or not is_int(x) else x == w, desc, f"{x} after picking {l!r}")
    elif kind == "Imaginary":
        if not (isinstance(x, Agg) and x.tag == IMAG):
            ctx.ob(key, None, desc, x)
            return
        d = ad(IMAG, x.var)
        form = next((label(ctx, I, st, e[4].items[e[5]]) for e in q if isinstance(e[4], Seq) and e[4].items and is_int(e[5])), None)
        if form is not None:
            w = {"Polar": "polar" in form.lower(), "Cartesian": "cartesian" in form.lower()}
            mine = next((k for k in w if k in d["n"]), None)
            ctx.ob(f"{key} form {d['n']}", w[mine] and not all(w.values()) if mine and any(w.values()) else None, "the form is the one picked", f"{d['n']} after picking {form!r}")
        for (n, _), y in zip(d["f"], x.f):
            role(ctx, f"{key} {n}", desc, st, I.deep(st, y), n)
    elif kind == "Timestamp":
        timestamp(ctx, I, st, x, q, key, desc)
    elif kind == "Timezone":
        e = q[-1] if q else None
        if e is None or not isinstance(x, T) or x.op != "idx":
            ctx.ob(key, None, desc, x)
            return
        items = e[4]
        if not isinstance(items, Seq) or not isinstance(x.a[0], Seq):
            ctx.ob(key, None, desc, f"{short(items)}: {short(x)}")
            return
        ctx.ob(key, list(items.items) == list(x.a[0].items) and x.a[1] == e[5], "the timezone is the entry picked of the list shown", f"entry {short(x.a[1])} of {short(x.a[0])}")
        ctx.ob("Timezone list", len(set(items.items)) == len(items.items), "no timezone is listed twice", f"{len(items.items)} entries")
    elif kind == "Binary":
        e = next((e for e in q if e[2] == "Input"), None)
        p = e[5] if e else None
        d = x.f[0] if isinstance(x, Agg) and x.tag == BIN else x
        if p is None or not isinstance(d, Seq):
            ctx.ob(key, None, desc, x)
            return
        blobs = [c.x if isinstance(c, Chunk) else c for c in d.items]
        where = {t for t in names_in(blobs)}
        good = blobs_of(d)
        if good is None:
            ctx.ob(key, None, desc, short(d))
            return
        ctx.ob(key, good == list(range(I.split_reads)), "the bytes are everything read from the file", f"parts {good} of {I.split_reads} read from the file: {short(d)}")
        ctx.ob(key + " path", p in where if where else None, "the file is the one whose path was entered", f"{short(d)} after {answers(st)}")
    elif kind == "Array":
        el = [e for e in st.events if e[0] == "ELEM"]
        if not isinstance(x, Seq) or x.chunks():
            ctx.ob(key, None, desc, x)
            return
        ctx.ob(key, list(x.items) == [T("elem", e[1]) for e in el], "the elements are those entered, in order", f"{short(x)} after {len(el)} elements were entered")
        sizes(ctx, st, "Array", q, len(el))
        for e in el:
            s = e[2].const() if isinstance(e[2], Str) else None
            d = re.findall(r"\d+", s or "")
            if len(d) == 1:
                ctx.ob(f"Array numbering", int(d[0]) == e[1] + 1, "element n is asked for as number n", f"element {e[1] + 1} asked for with {s!r}")
    elif kind == "Map":
        el = [e for e in st.events if e[0] == "ELEM"]
        if not isinstance(x, MapV) or x.base is not None:
            ctx.ob(key, None, desc, x)
            return
        pairs, k = [], None
        for e in st.events:
            if e[0] == "ASK" and e[2] == "Input" and isinstance(e[5], T):
                k = e[5]
            elif e[0] == "ELEM":
                pairs.append((k, T("elem", e[1])))
        if len({k for k, _ in pairs}) != len(pairs):
            ctx.ob(key, None, desc, f"{short(x)}: not every value has a key of its own")
            return
        ctx.ob(key, sorted(map(repr, x.over)) == sorted(map(repr, pairs)), "every value is stored under the key entered for it", f"{short(x)} after {pairs}")
        sizes(ctx, st, "Map", q, len(el))


def sizes(ctx, st, kind, q, n):
    e = next((e for e in q if e[2] == "Input" and is_int(e[5])), None)
    if e:
        ctx.ob(f"{kind} length", n == e[5], "as many elements are asked for as was said", f"{n} elements after {e[5]} was entered")


def names_in(x):
    out = []

    def go(v):
        if isinstance(v, T):
            if v.op == "typed":
                out.append(v)
            for y in v.a:
                go(y)
        elif isinstance(v, (Agg,)):
            for y in v.f:
                go(y)
        elif isinstance(v, Seq):
            for y in v.items:
                go(y)
        elif isinstance(v, Str):
            for y in v.parts:
                go(y)
        elif isinstance(v, Chunk):
            go(v.x)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y)
    go(x)
    return out


def blobs_of(d):
    """the numbers of the parts of the file, in the order they were put into the data"""
    out = []
    for c in d.items:
        b = c.x if isinstance(c, Chunk) else None
        if isinstance(b, Agg) and b.tag == "readbuf":
            out.append("the whole buffer")      #with what was in it before, after what was read
        elif isinstance(b, T) and b.op == "part":
            out.append(b.a[1])
        elif isinstance(b, T) and b.op == "content":
            out.extend(range(2))
        else:
            return None
    return out


NDT = {"ymd": ("year", "month", "day"), "from_hms_milli_opt": ("hour", "minute", "second", "milli"), "from_hms_opt": ("hour", "minute", "second")}


def timestamp(ctx, I, st, x, q, key, desc):
    inputs = [e for e in q if e[2] == "Input"]
    if len(inputs) == 1 and x == inputs[0][5]:
        ctx.ob(key + " as a whole", True, desc, "")
        return
    if not inputs:
        ctx.ob(key + " now", None if not isinstance(x, T) else any("now" in repr(y) for y in (x,)) or None, "with nothing entered the timestamp is the current time", short(x))
        return
    if not (isinstance(x, T) and x.op == "ndt" and len(x.a) == 2):
        ctx.ob(key, None, desc, short(x))
        return
    for y in x.a:
        names = NDT.get(y.op) if isinstance(y, T) else None
        if names is None:
            ctx.ob(f"{key} {getattr(y, 'op', y)}", None, desc, short(y))
            continue
        for n, z in zip(names, y.a):
            role(ctx, f"{key} {n}", desc, st, z, n)
            #of the answers given at the same prompt, the last one counts
            e = next((e for e in inputs if e[5] == z), None)
            if e:
                last = [f for f in inputs if f[3] == e[3]][-1]
                ctx.ob(f"{key} {n} latest", last is e, "a part entered again replaces what was entered before", f"{short(z)} after {answers(st)}")
