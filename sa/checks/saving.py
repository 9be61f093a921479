"""Running SourisState::save and ::new on a modelled file system, shared by C20, C21 and C23."""
from daemon import *

N = [T("sym", "name1"), T("sym", "name2"), T("sym", "name3")]


class FC:
    frame = None
    span = "?"


def dbmap(n):
    return MapV(None, [(N[i], store(MapV(T("db", N[i])))) for i in range(n)])


def saves(ctx, n, fail=lambda op, args, k: True, cfg=None):
    """every path of save with n databases: [(I, state, result, names)]"""
    I = dinterp(ctx, max_paths=20000)
    I.io_fail = fail
    if cfg:
        cfg(I)
    st = State()
    sv, cell = state(I, st, ctx, dbmap(n))
    for i in range(n):
        for j in range(i):
            I.assume(st, T("Eq", *sorted((N[i], N[j]), key=okey)), 0)
    out = []
    for s, f in I.run(STATE + "::save", [sv], st):
        for s2, v in (run_future(I, s, f, FC) if not isinstance(f, Stop) else [(s, f)]):
            ctx.paths += 1
            out.append((I, s2, v, N[:n]))
    return out


_file = {}


def file_of(I, st, name):
    """the file a database is saved in: taken from the daemon's own save"""
    if "f" not in _file:
        _file["f"] = None
        try:
            class C:
                pass
            c = I
            ctx = _file["ctx"]
            for I2, s, v, names in saves(ctx, 1, fail=lambda *a: False):
                for e in s.events:
                    if e[0] == "FS" and e[1][0] in ("rename", "copy") and mentions(e[1][-1], N[0]):
                        _file["f"] = e[1][-1]
                    elif e[0] == "FS" and e[1][0] == "write" and _file["f"] is None and mentions(e[1][1].f[0], N[0]):
                        _file["w"] = e[1][1].f[0]
            _file["f"] = _file["f"] or _file.get("w")
        except KeyError:
            pass
    f = _file["f"]
    if f is None:
        return None
    return renamed(f, N[0], name)
