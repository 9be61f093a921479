"""C27: declining a confirmation changes nothing, accepting it sends exactly the announced change."""
from mousefn import *

NAMES = ("alpha", "beta", "gamma")
FRESH = "fresh"
#what each command may change, and whether it asks before it does
OPS = {"CreateNew": "create_new_db", "AddEntry": "add_entry_to_db", "RemoveEntry": "remove_entry_from_db", "UpdateEntry": "add_entry_to_db",
       "ImportFromJSON": "add_db_with_contents", "RemoveDatabase": "remove_db"}
CONFIRMED = ("AddEntry", "RemoveEntry", "UpdateEntry")
MAXASK = 6


def plain(v):
    return v.const() if isinstance(v, Str) else v


def history(st):
    out = []
    for e in st.events:
        if e[0] == "ASK":
            out.append(f"{plain(e[3])!s:.45} {('no', 'yes')[e[5]] if e[2] == 'Confirm' else short(plain(e[5]))}")
        elif e[0] in ("ASKERR", "ASKNONE"):
            out.append(f"{plain(e[3])!s:.45} ({'failed' if e[0] == 'ASKERR' else 'left without an answer'})")
        elif e[0] == "CHANGE":
            out.append(f"{e[1]}({', '.join(f'{k}={short(plain(v))}' for k, v in e[2].items())})")
    return "; ".join(out)


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("fun_main is interpreted for every command against a daemon with no, one, two and three databases, of none, one and two keys; every answer to every prompt is followed, a name that is typed "
                       "is an existing one, a new one or the reserved one, prompts fail too. The requests that change data are compared with the answers given before them.")
    ctx.rule("no request that changes data follows when the last confirmation was declined, failed or was left without an answer")
    ctx.rule("adding, updating and removing an entry, and clearing or overwriting a database that is there, are confirmed first; then exactly the one change announced is sent")
    ctx.rule("the change is for the database and key chosen, with the value entered, and does what was announced (an update replaces, clearing clears)")
    ctx.floor = 12
    ctx.assumptions.append("the client's operations send what they are called with (C24)")
    if not ctx.need(MAIN, PICKV) or not all(x in P.adts for x in ("mouse::Commands", "mouse::Arguments")):
        return
    vs = {v["n"]: [n for n, _ in v["f"]] for v in commands(P)}
    for cmd in OPS:
        ctx.ob(f"command {cmd}", None if cmd not in vs else True, "the command exists", "")
    for cmd, fields in vs.items():
        for n in (0, 1, 2, 3):
            names = NAMES[:n]
            for arg in (names + (FRESH,) if cmd == "CreateNew" else (FRESH,)):
                for keys in ((), ("k0",), ("k0", "k1")) if cmd in ("RemoveEntry", "UpdateEntry") else (("k0", "k1"),):
                    for bad in (False, True):
                        guard(ctx, f"{cmd}, {n} databases", "the command can be followed",
                              lambda cmd=cmd, fields=fields, names=names, arg=arg, keys=keys, bad=bad: command(ctx, cmd, fields, names, arg, keys, bad))


def command(ctx, cmd, fields, names, arg, keys, bad):
    I, _ = machine(ctx, names, keys, can_fail=bad)
    I.maxask = MAXASK + (2 if ctx.thorough else 0)
    I.max_paths = 1500
    I.prompt_errors = bad
    I.split_reads = 1
    #the first database name typed is one of these, later ones new, so that a refused name is followed by another one
    tries = [Str((x,)) for x in names[:1] + names[-1:] + (FRESH, "meta")]

    def typed_name(I, st, n, p, ty):
        s = plain(p.f[0])
        if isinstance(s, str) and ("name" in s.lower() or "database" in s.lower()):
            return tries if sum(1 for e in st.events if e[0] == "ASK" and e[2] == "Input") < 2 else [Str(("other",))]
        return None
    I.answers = typed_name
    fl = {n: Str((arg,)) if n == "db_name" else T("sym", n) for n in fields}
    for st, v in I.run(MAIN, [start(ctx.program(), cmd, fl)], State()):
        ctx.paths += 1
        ctx.current[0] = st
        judge(ctx, I, st, v, cmd, names, arg, keys)
    ctx.current[0] = None


def judge(ctx, I, st, v, cmd, names, arg, keys):
    h = history(st)
    ev = st.events
    change = [i for i, e in enumerate(ev) if e[0] == "CHANGE"]
    if any(e[0] == "OTHER" for e in ev):
        ctx.ob(f"{cmd} sends", None, "the requests are known", f"{[e[1] for e in ev if e[0] == 'OTHER']} after {h}")
        return
    if isinstance(v, Stop) and v.kind != "diverge":
        if v.kind == "panic":
            #an abort is not a change; it only matters when something was sent before
            ctx.ob(f"{cmd} ends", None, "the command ends", f"{v}: {h}")
        if not change:
            return
    key = f"{cmd}: "
    for i in change:
        e = ev[i]
        ctx.ob(key + "what is sent", e[1] == OPS.get(cmd), "only the change the command is for is sent", h)
        last = next((x for x in reversed(ev[:i]) if x[0] in ("ASK", "ASKERR", "ASKNONE") and (x[2] == "Confirm")), None)
        settled = last is not None and last[0] == "ASK" and last[5] == 1
        #a declined question about something else: the database was chosen in another way afterwards
        after = [x for x in ev[ev.index(last) + 1:i] if x[0] in ("ASK", "ASKNONE")] if last else []
        db = plain(e[2].get("db"))
        exists = db in names
        if cmd in CONFIRMED:
            ctx.ob(key + "confirmed", settled and not after, "the change follows a confirmation that was accepted, after everything was entered", h)
        elif cmd == "CreateNew" and exists:
            ctx.ob(key + "confirmed", settled, "an existing database is cleared only after it was confirmed", h)
        elif cmd == "CreateNew":
            ctx.ob(key + "new", last is None or settled, "a declined confirmation is followed by no change", h)
        elif cmd == "ImportFromJSON":
            typed = next((x for x in reversed(ev[:i]) if x[0] == "ASK" and x[2] == "Input"), None)
            if typed is not None and plain(typed[5]) in names:
                ctx.ob(key + "confirmed", settled and ev.index(last) > ev.index(typed), "an existing database is overwritten under a name that was typed only after it was confirmed", h)
        elif cmd == "RemoveDatabase":
            ctx.ob(key + "confirmed", last is None or settled, "a declined confirmation is followed by no change", h)
        if last is not None and last[0] in ("ASKERR", "ASKNONE"):
            ctx.ob(key + "no answer", False, "without an answer to the confirmation nothing is changed", h)
    ctx.ob(key + "one change", len(change) <= 1, "at most one change is sent", h)
    if isinstance(v, Stop):
        return
    for i in change[:1]:
        what(ctx, I, st, cmd, key, ev[:i], ev[i], names, arg, keys, h)
    #accepted: the change has to come
    if not change and isinstance(v, Agg) and v.tag == RES and v.var == 0 and cmd in OPS:
        confirms = [x for x in ev if x[0] == "ASK"]
        lastq = confirms[-1] if confirms else None
        if lastq is not None and lastq[2] == "Confirm":
            ctx.ob(key + "accepted", lastq[5] == 0, "an accepted confirmation is followed by the change", h)
        elif any(x[0] in ("ASKERR", "ASKNONE", "LISTERR", "GETERR") for x in ev):
            pass
        elif cmd in ("RemoveEntry", "UpdateEntry") and not keys:
            ctx.ob(key + "empty", True, "there is nothing to change in an empty database", h)
        else:
            ctx.ob(key + "done", False if cmd in ("CreateNew", "ImportFromJSON", "RemoveDatabase") else None, "a command that ends well has sent its change", h or "nothing asked")


def what(ctx, I, st, cmd, key, before, e, names, arg, keys, h):
    a = e[2]
    asks = [x for x in before if x[0] == "ASK"]
    #the database
    want = None
    if cmd == "CreateNew":
        want = {arg}
    else:
        pick = [x for x in asks if x[2] in ("FuzzySelect", "Select") and isinstance(x[4], Seq) and x[4].items and all(plain(y) in names for y in x[4].items)]
        got = next((x for x in before if x[0] == "GET"), None)
        typed = [x for x in asks if x[2] == "Input" and isinstance(x[5], Str)]
        if pick:
            want = {plain(pick[-1][4].items[pick[-1][5]])}
        elif typed:
            want = {plain(typed[-1][5])}
        elif len(names) == 1:
            want = {names[0]}
        elif names and plain(a.get("db")) in names and not any(x[0] == "LISTERR" for x in before) and not any(x[2] in ("FuzzySelect", "Select", "Input") and not (isinstance(x[4], Seq) and all(plain(y) in keys for y in x[4].items)) for x in asks):
            ctx.ob(key + "choice", False, "of several databases one is chosen by the user", h)
        if got is not None:
            ctx.ob(key + "same database", plain(got[1]) == plain(a.get("db")), "the database changed is the one that was shown", h)
    if want is not None:
        ctx.ob(key + "database", plain(a.get("db")) in want, "the change is for the database chosen", f"{sorted(want)}: {h}")
    if cmd in ("RemoveEntry", "UpdateEntry"):
        pick = [x for x in asks if x[2] in ("FuzzySelect", "Select") and isinstance(x[4], Seq) and sorted(str(plain(y)) for y in x[4].items) == sorted(keys)]
        if pick:
            shown = [plain(y) for y in pick[-1][4].items]
            ctx.ob(key + "key", plain(a.get("key")) == shown[pick[-1][5]], "the change is for the key picked", h)
        elif len(keys) == 1:
            ctx.ob(key + "key", plain(a.get("key")) == keys[0], "the change is for the only key", h)
    if cmd == "AddEntry":
        t = [x for x in asks if x[2] == "Input" and isinstance(x[5], T) and x[5].op == "typed"]
        if len(t) == 1:
            ctx.ob(key + "key", a.get("key") == t[0][5], "the entry is added under the key entered", h)
    if cmd in ("AddEntry", "UpdateEntry"):
        n = sum(1 for x in before if x[0] == "VALUE")
        if n == 1:
            ctx.ob(key + "value", a.get("value") == T("entered", 0), "the value sent is the one entered", h)
    if cmd == "UpdateEntry":
        ctx.ob(key + "replaces", a.get("overwrite") == 1 if is_int(a.get("overwrite")) else None, "an update replaces the value of the key", h)
    if cmd == "AddEntry" and plain(a.get("db")) not in names:
        ctx.ob(key + "creates", a.get("create") == 1 if is_int(a.get("create")) else None, "an entry for a new database creates it", h)
    if cmd in ("CreateNew", "ImportFromJSON") and plain(a.get("db")) in names:
        ctx.ob(key + "overwrites", a.get("overwrite") == 1 if is_int(a.get("overwrite")) else None, "a database confirmed to be cleared or overwritten is", h)
    if cmd == "ImportFromJSON":
        ctx.ob(key + "contents", isinstance(a.get("store"), T) and a["store"].op == "parsed" or None, "what is stored is what was read from the file", h)
