"""The resolved program, as dumped by the driver."""
import json, os


class Fn:
    __slots__ = ("path", "crate", "j", "prog", "span", "kind", "name", "pub", "types", "parent", "trait", "self_ty")

    def __init__(self, path, crate, j, types):
        self.path, self.crate, self.j, self.types = path, crate, j, types
        self.span, self.kind, self.name = j["span"], j["kind"], j.get("name", path.rsplit("::", 1)[-1])
        self.pub, self.parent, self.trait = j.get("pub", False), j["parent"], j.get("trait")
        self.self_ty = types[j["self"]]["s"] if "self" in j else None

    @property
    def blocks(self):
        return self.j["body"]["blocks"]

    @property
    def promoted(self):
        return self.j["promoted"]

    def calls(self):
        """(block index, func const or None, terminator) for every call that is not on a cleanup path"""
        for n, b in enumerate(self.blocks):
            t = b["t"]
            if t[0] == "call" and not b["cleanup"]:
                f = t[1]
                fc = f[1].get("f") if f[0] == "k" and f[1].get("c") == "fn" else None
                yield n, fc, t

    def __repr__(self):
        return f"<fn {self.path}>"


class Program:
    def __init__(self, directory, crates=("sourisdb", "sourisd", "mouse")):
        self.fns, self.adts, self.consts, self.files = {}, {}, {}, {}
        self.crates = {}
        for c in crates:
            with open(os.path.join(directory, c + ".json")) as f:
                j = json.load(f)
            self.crates[c] = j
            for p, x in j["fns"].items():
                self.fns[p] = Fn(p, c, x, j["types"])
            for p, a in j["adts"].items():
                a["types"] = j["types"]
                if p not in self.adts or a["local"]:
                    self.adts[p] = a
            for p, v in j["consts"].items():
                self.consts[p] = v

    def variant(self, adt, name):
        for n, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name:
                return n
        return None


def show_place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += f".{e[1]}"
        elif e[0] == "d":
            s += f"@{e[1]}"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        else:
            s += str(e)
    return s


def show_op(o):
    if o[0] in ("cp", "mv"):
        return ("move " if o[0] == "mv" else "") + show_place(o[1])
    c = o[1]
    if c["c"] == "fn":
        f = c["f"]
        return f.get("via") or f.get("r") or f["p"]
    if c["c"] in ("int", "str", "bytes", "promoted"):
        return f"{c['c']}:{c['v']!r}" + (f"<{c['name']}>" if "name" in c else "")
    return json.dumps(c)[:200]


def show(fn, body=None):
    body = body or fn.j["body"]
    T = fn.types
    out = [f"fn {fn.path}  [{fn.span}] {fn.kind} argc={body['argc']}"]
    for n, (t, name) in enumerate(body["locals"]):
        out.append(f"  _{n}: {T[t]['s'][:160]} {name or ''}")
    for n, b in enumerate(body["blocks"]):
        if b["cleanup"]:
            continue
        out.append(f" bb{n}:")
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("use",):
                    rs = show_op(r[1])
                elif r[0] == "ref":
                    rs = f"&{r[2]} {show_place(r[1])}"
                elif r[0] == "bin":
                    rs = f"{r[1]}({show_op(r[2])}, {show_op(r[3])})"
                elif r[0] == "agg":
                    rs = f"{r[1][:3]} [{', '.join(map(show_op, r[2]))}]"
                elif r[0] == "cast":
                    rs = f"{show_op(r[2])} as {T[r[3]]['s']} ({r[1]})"
                elif r[0] == "discr":
                    rs = f"discr {show_place(r[1])}"
                elif r[0] == "un":
                    rs = f"{r[1]} {show_op(r[2])}"
                else:
                    rs = str(r)
                out.append(f"   {show_place(s[1])} = {rs}")
        t = b["t"]
        if t[0] == "call":
            out.append(f"   {show_place(t[3])} = CALL {show_op(t[1])}({', '.join(map(show_op, t[2]))}) -> {t[4]}   # {t[5]}")
        elif t[0] == "switch":
            out.append(f"   switch {show_op(t[1])} {t[3]} else {t[4]}")
        elif t[0] == "drop":
            out.append(f"   drop {show_place(t[1])} -> {t[2]}")
        elif t[0] == "assert":
            out.append(f"   assert {show_op(t[1])}=={t[2]} {t[3]} -> {t[5]}")
        elif t[0] == "yield":
            out.append(f"   yield {show_op(t[1])} -> {t[2]} arg {show_place(t[3])}")
        else:
            out.append("   " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    import dump
    P = Program(dump.dump())
    if len(sys.argv) < 2:
        for p, f in sorted(P.fns.items()):
            print(p, f.kind, f.span, len(f.blocks))
    else:
        for p, f in P.fns.items():
            if sys.argv[1] in p and (len(sys.argv) < 3 or p.endswith(sys.argv[2])):
                print(show(f))
                for n, b in enumerate(f.promoted):
                    print("PROMOTED", n, show(f, b))
