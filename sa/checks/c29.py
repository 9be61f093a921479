"""C29: compressing never makes data longer than storing it as it is."""
import itertools, json, re
from lib import *
from souris import *

STORE = "sourisdb::store::Store"
DATA = (0, 5, 300)
NUMBER = re.compile(r'"c": "int", "v": (\d+)')


def filler(name, n):
    return Seq([T("sym", (name, i)) for i in range(n)])


def plain_len(ctx, n):
    """how long the uncompressed form of n bytes is: the bytes after their length"""
    I = ctx.interp()
    for st, v in I.run(f"<{INT} as core::convert::From<usize>>::from", [n]):
        for st, r in I.run(INT + "::ser", [v], st):
            r = I.deep(st, r)
            if isinstance(r, Agg) and len(r.f) == 2 and isinstance(r.f[1], Seq) and not r.f[1].chunks():
                return n + len(r.f[1].items)
    return None


def boundaries(P):
    """lengths around every number that BinaryData::ser, its closures and what it calls in its file mention: where it could change its mind"""
    out = {1, 1000}
    seen, todo = set(), [p for p in P.fns if p == BIN + "::ser" or p.startswith(BIN + "::ser::")]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        f = P.fns[p]
        text = json.dumps(f.j["body"])
        for m in NUMBER.findall(text):
            for c in (int(m) - 1, int(m), int(m) + 1):
                if 6 <= c <= 70000 and len(out) < 40:
                    out.add(c)
        todo += [q for q in P.fns if q not in seen and q.startswith("sourisdb::types::binary::") and not q.startswith("sourisdb::types::binary::tests") and q.count("::") <= 4 and q in text and q not in [c[0] for c in COMPRESSORS.values()]]
    return sorted(out)


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("BinaryData::ser is interpreted on data of three lengths, and of the lengths around every number the code mentions, with each compressor replaced by a unit whose result has every length around that of the uncompressed form, "
                       "in every combination (which covers every order of the four lengths); and on data and results of unknown length. The result must never be longer than the uncompressed form.")
    ctx.rule("the form returned is no longer than the length followed by the bytes, whichever of the forms is shortest")
    ctx.rule("a store is written as its header followed by the form that BinaryData::ser returns, or by the uncompressed one")
    ctx.floor = 5
    if not ctx.need(BIN + "::ser", STORE + "::ser"):
        return
    for n in DATA:
        v = plain_len(ctx, n)
        if v is None:
            ctx.ob(f"{n} bytes", None, "the uncompressed form is known", "the length could not be written")
            continue
        for d in itertools.product(*[[x for x in (-2, -1, 0, 1) if v + x >= 0]] * 3):
            def go(d=d, n=n, v=v):
                concrete(ctx, n, v, {k: v + x for k, x in zip(COMPRESSORS, d)})
            guard(ctx, f"{n} bytes, others {d[0]:+} {d[1]:+} {d[2]:+}", "the result is not longer than the uncompressed form", go)
    for n in boundaries(P):
        v = plain_len(ctx, n)
        if v is None:
            ctx.ob(f"{n} bytes", None, "the uncompressed form is known", "the length could not be written")
            continue
        for d in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)):
            guard(ctx, f"{n} bytes, others {d[0]:+} {d[1]:+} {d[2]:+}", "the result is not longer than the uncompressed form",
                  lambda d=d, n=n, v=v: concrete(ctx, n, v, {k: v + x for k, x in zip(COMPRESSORS, d)}))
    guard(ctx, "any length", "the result is not longer than the uncompressed form", lambda: unknown(ctx))
    guard(ctx, "store", "a store is compressed by BinaryData::ser", lambda: store(ctx))


def concrete(ctx, n, v, lens):
    key = f"{n} bytes, others " + " ".join(f"{lens[k] - v:+}" for k in COMPRESSORS)
    desc = "the result is not longer than the uncompressed form"
    hooks = {}
    for k, (f, _) in COMPRESSORS.items():
        hooks[f] = lambda I, st, a, c, k=k: filler(k, lens[k])
    I = ctx.interp(hooks)
    m = 0
    for st, r in I.run(BIN + "::ser", [Agg(BIN, 0, (filler("data", n),))], State()):
        ctx.paths += 1
        m += 1
        r = I.deep(st, r) if not isinstance(r, Stop) else r
        if isinstance(r, Stop) or not isinstance(r, Agg) or not any(isinstance(x, Seq) and not x.chunks() for x in r.f):
            ctx.ob(key, None, desc, r)
            continue
        q = len([x for x in r.f if isinstance(x, Seq)][0].items)
        ctx.ob(key, q <= v, desc, f"{n} bytes are stored in {q} bytes, the uncompressed form takes {v} ({', '.join(f'{k} {x}' for k, x in lens.items())})")
    if not m:
        ctx.ob(key, None, desc, "no path")


def unknown(ctx):
    #lengths without any bound: whichever way the code chooses, the uncompressed form is among what it chooses from, or is known to be longer
    key, desc = "any length", "the result is not longer than the uncompressed form"
    hooks = int_hooks()
    hooks.update(compressor_hooks())
    I = ctx.interp(hooks)
    data = Seq([Chunk("blob", T("sym", "bin"))])
    for st, r in I.run(BIN + "::ser", [Agg(BIN, 0, (data,))], State()):
        ctx.paths += 1
        r = I.deep(st, r) if not isinstance(r, Stop) else r
        if isinstance(r, Stop) or not isinstance(r, Agg) or not any(isinstance(x, Seq) for x in r.f):
            ctx.ob(key, None, desc, r)
            continue
        s = [x for x in r.f if isinstance(x, Seq)][0]
        packed = [x for x in s.items if isinstance(x, Chunk) and x.kind == "packed"]
        if not packed:
            ctx.ob(key, True, desc)
            continue
        mine = I.seq_len(st, s)
        plain = None
        good = None
        for e in st.events:
            if e[0] == "choose" and e[1].startswith("min"):
                for x, k in zip(e[2], e[3]):
                    sq = [y for y in (x.f if isinstance(x, Agg) else (x,)) if isinstance(y, Seq)]
                    if sq and sq[0].items and isinstance(sq[0].items[-1], Chunk) and sq[0].items[-1].kind == "blob":
                        plain = I.seq_len(st, sq[0])
                        good = True
        if good is None:
            ks = [t for t in st.bt if mine in list(subterms(t))]
            good = False if not ks and not any(e[0] == "choose" for e in st.events) and mine not in st.iv and not any(mine in list(subterms(t)) for t in getattr(st, "lin", ())) else None
        ctx.ob(key, good, desc, f"a form of length {mine} is returned although nothing compares its length with the uncompressed form's")


def store(ctx):
    key, desc = "store", "a store is written as its header and the shortest form of its contents"
    MARK = T("sym", "shortest")
    hooks = codec_hooks()
    hooks[BIN + "::ser"] = lambda I, st, a, c: Agg("tuple", None, (Agg(BC, 1, ()), Seq([Chunk("blob", MARK)])))
    hooks[HUF + "::<char>::new_str"] = lambda I, st, a, c: err(T("nohuferr"))
    I = ctx.interp(hooks)
    for st, r in I.run(STORE + "::ser", [Agg(STORE, 0, (MapV(None, ()),))], State()):
        ctx.paths += 1
        r = I.deep(st, r) if not isinstance(r, Stop) else r
        if not isinstance(r, Seq):
            ctx.ob(key, None, desc, r)
            continue
        m = [x for x in r.items if isinstance(x, Chunk) and x.x == MARK]
        rest = [x for x in r.items if x not in m]
        ctx.ob(key, True if len(m) == 1 and len(rest) <= 16 else None, desc, short(r))
