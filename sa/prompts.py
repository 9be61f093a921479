"""Models of the prompts of the command-line tool (dialoguer): what is asked, in which order, and every answer."""
from daemon import *
from stdmodels import MODELS

MAXPICK = 40    #how many options of a list are followed one by one
MAXASK = 40


def prompt_of(I, st, v):
    v = L(I, st, v)
    while isinstance(v, Ref):
        v = L(I, st, v)
    return v if isinstance(v, Agg) and v.tag == "prompt" else None


def text(I, st, v):
    v = I.deep(st, L(I, st, v))
    while isinstance(v, Ref):
        v = I.deep(st, L(I, st, v))
    if isinstance(v, Agg) and v.tag == "fmtargs":
        v = v.f[0]
    return v


KINDS = ("FuzzySelect", "Select", "Confirm", "Input", "MultiSelect", "Sort", "Password", "Editor")
#what only changes how a prompt looks or which answers it accepts
PASS = ("report", "clear", "default", "highlight_matches", "max_length", "with_initial_text", "vim_mode", "wait_for_newline", "show_default", "allow_empty",
        "validate_with", "with_post_completion_text", "with_confirmation")


def make():
    for k in KINDS[:4]:
        def new(I, st, a, c, k=k):
            return Agg("prompt", k, (T("noprompt"), Seq(()), T("nodefault")))

        def keep(I, st, a, c):
            p = prompt_of(I, st, a[0])
            return p

        def prompt(I, st, a, c):
            p = prompt_of(I, st, a[0])
            return p and Agg("prompt", p.var, (text(I, st, a[1]), p.f[1], p.f[2]))

        def items(I, st, a, c):
            p = prompt_of(I, st, a[0])
            if p is None:
                return None
            x = I.deep(st, L(I, st, a[1]))
            while isinstance(x, Ref):
                x = I.deep(st, L(I, st, x))
            old = p.f[1]
            if isinstance(old, Seq) and isinstance(x, Seq):
                x = Seq(list(old.items) + [text(I, st, y) for y in x.items])
            elif not (isinstance(old, Seq) and not old.items):
                x = T("items", old, x)
            return Agg("prompt", p.var, (p.f[0], x, p.f[2]))

        def item(I, st, a, c):
            p = prompt_of(I, st, a[0])
            if p is None or not isinstance(p.f[1], Seq):
                return None
            return Agg("prompt", p.var, (p.f[0], Seq(list(p.f[1].items) + [text(I, st, a[1])]), p.f[2]))

        for n in ("with_theme", "new"):
            MODELS[f"{k}::{n}"] = new
        MODELS[f"{k}::with_prompt"] = prompt
        MODELS[f"{k}::items"] = items
        MODELS[f"{k}::item"] = item
        for n in PASS:
            MODELS[f"{k}::{n}"] = keep
        for n in ("interact", "interact_opt", "interact_on", "interact_text", "interact_text_on", "interact_on_opt"):
            MODELS[f"{k}::{n}"] = lambda I, st, a, c, n=n: interact(I, st, a, c, n)


def asked(st):
    return sum(1 for e in st.events if e[0] == "ASK")


def interact(I, st, a, c, how):
    """("ASK", number, kind, prompt, items, answer)"""
    p = prompt_of(I, st, a[0])
    if p is None:
        return None
    n = asked(st)
    if n >= getattr(I, "maxask", MAXASK):
        return [(st, Stop("diverge", "prompts"))]
    wrap_ = (lambda v: ok(some(v))) if "opt" in how else ok
    out = []

    def answer(s, v):
        s.ev("ASK", n, p.var, p.f[0], p.f[1], v, c.span)
        out.append((s, wrap_(v)))

    if getattr(I, "prompt_errors", False):
        s = st.copy()
        s.ev("ASKERR", n, p.var, p.f[0], c.span)
        out.append((s, err(T("dialogueerr", n))))
    if "opt" in how:
        s = st.copy()
        s.ev("ASKNONE", n, p.var, p.f[0], c.span)
        out.append((s, ok(NONE)))
    script = getattr(I, "answers", None)
    if p.var == "Confirm":
        for b in (0, 1):
            answer(st.copy(), b)
    elif p.var == "Input":
        ty = "?"
        d = c.dest_ty
        if d and d.get("a"):
            ty = c.frame.fn.types[d["a"][0]]["s"] if isinstance(d["a"][0], int) else "?"
        fixed = script(I, st, n, p, ty) if script else None
        for v in fixed if fixed is not None else [typed(I, st, n, ty)]:
            answer(st.copy(), v)
    elif isinstance(p.f[1], Seq) and not p.f[1].chunks() and len(p.f[1].items) <= MAXPICK:
        pick = getattr(I, "picks", None)
        for i in (pick and pick(I, st, n, p)) or range(len(p.f[1].items)):
            answer(st.copy(), i)
    else:
        v = T("picked", n)
        s = st.copy()
        s.iv[v] = (0, (1 << 64) - 1, frozenset())
        answer(s, v)
    return out


def typed(I, st, n, ty):
    v = T("typed", n, ty)
    if ty in WIDTH and not ty.startswith("f"):
        st.iv[v] = ty_range(ty) + (frozenset(),)
    return v


make()
