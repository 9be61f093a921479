"""Running SourisState::new on a modelled file system."""
from daemon import *
from saving import FC, N


def loads(ctx, fs, fail=lambda op, args, k: False, cfg=None, st=None):
    """every path of start-up with the files given by fs(path): [(I, state, result)]"""
    I = dinterp(ctx, max_paths=20000)
    I.io_fail = fail
    I.fs = lambda st, p: fs(p)
    #the data directory is the given one
    I.hooks["std::env::var"] = lambda I, st, a, c: ok(BASE)
    if cfg:
        cfg(I)
    out = []
    for s, f in I.run(STATE + "::new", [], st or State()):
        for s2, v in (run_future(I, s, f, FC) if not isinstance(f, Stop) else [(s, f)]):
            ctx.paths += 1
            out.append((I, s2, v))
    return out


def opens(ctx):
    """the paths start-up opens, with T("sym", "indexed") for the part that comes from the index"""
    P = ctx.P
    n = T("sym", "indexed")
    names = Agg(VAL, P.variant(VAL, "Array"), (Seq([Agg(VAL, P.variant(VAL, "String"), (Str((n,)),))]),))
    out = []

    def fs(p):
        if mentions(p, n):
            return sered(store(MapV(T("db", n))))
        return T("sered", T("anyindex", names))

    def cfg(I):
        def deser(I, st, a, c):
            v = I.deep(st, L(I, st, a[0]))
            if isinstance(v, Seq) and len(v.items) == 1:
                v = v.items[0].x
            if isinstance(v, T) and v.op == "sered" and isinstance(v.a[0], T) and v.a[0].op == "anyindex":
                return ok(store(MapV(T("index"))))
            return h_store_deser(I, st, a, c)
        I.hooks[STORE + "::deser"] = deser
        mv = I.mapval
        I.mapval = lambda st, base, key: names if base == T("index") else mv(st, base, key)
    for I, s, v in loads(ctx, fs, cfg=cfg):
        for e in s.events:
            if e[0] == "FS" and e[1][0] == "open":
                t = tuple(e[1][1].parts)
                if t not in out:
                    out.append(t)
    return out
