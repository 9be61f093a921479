"""Models of what the daemon's main function is made of: tasks, channels, timers, signals and serving."""
from daemon import *
from stdmodels import MODELS

MAXTICKS = 3


def leaf(name, what, done, limit=None):
    """a future that is ready or not when it is polled in a select, and eventually ready otherwise"""
    def f(I, st, a, c):
        out = []
        if st.x.get("select"):
            s2 = st.copy()
            out.append((s2, Stop("pending", name)))
        if limit and sum(1 for e in st.events if e[0] == limit) >= MAXTICKS:
            return out or [(st, Stop("diverge", name))]
        st.ev(*what)
        out.append((st, done))
        return out
    return future(name, f, [])


@model("sleep::sleep", "time::sleep", "sleep::sleep_until", "time::sleep_until", "Interval::tick")
def m_sleep(I, st, a, c):
    return leaf("sleep", ("TICK",), UNIT, "TICK")


@model("interval::interval", "time::interval", "interval::interval_at", "time::interval_at")
def m_interval(I, st, a, c):
    return T("interval")


@model("time::timeout", "timeout::timeout")
def m_timeout(I, st, a, c):
    def f(I, st, x, c):
        s2 = st.copy()
        s2.ev("TIMEOUT", c.span)
        return [(s2, err(T("elapsed")))] + each(run_future(I, st, x[0], c), lambda s, v: ok(v))
    return future("timeout", f, [a[1]])


@model("broadcast::channel", "watch::channel", "mpsc::channel", "oneshot::channel", "mpsc::unbounded_channel", "channel::channel", "unbounded::unbounded_channel")
def m_channel(I, st, a, c):
    n = T("channel", sum(1 for e in st.events if e[0] == "CHANNEL"))
    st.ev("CHANNEL", n)
    return tup(Agg("tx", None, (n,)), Agg("rx", None, (n,)))


def chan(I, st, v):
    v = L(I, st, v)
    while isinstance(v, Ref):
        v = L(I, st, v)
    return v.f[0] if isinstance(v, Agg) and v.tag in ("tx", "rx") else None


@model("Receiver::resubscribe", "Sender::subscribe", "Sender::clone", "Receiver::clone")
def m_resub(I, st, a, c):
    n = chan(I, st, a[0])
    return Agg("rx" if c.key != "Sender::clone" else "tx", None, (n,)) if n is not None else None


@model("Receiver::recv", "Receiver::changed", "UnboundedReceiver::recv", "Notify::notified", "CancellationToken::cancelled")
def m_recv(I, st, a, c):
    n = chan(I, st, a[0]) or I.deep(st, L(I, st, a[0]))
    return leaf("recv", ("RECV", n), T("received"))


@model("Sender::send", "UnboundedSender::send", "Notify::notify_one", "Notify::notify_waiters", "CancellationToken::cancel", "Sender::send_replace")
def m_send_stop(I, st, a, c):
    n = chan(I, st, a[0])
    if n is None:
        n = I.deep(st, L(I, st, a[0]))
    st.ev("STOP", n, c.span)
    return ok(T("sent"))


@model("spawn::spawn", "task::spawn", "tokio::spawn", "tokio::task::spawn::spawn")
def m_spawn(I, st, a, c):
    n = T("task", sum(1 for e in st.events if e[0] == "SPAWN"))
    st.ev("SPAWN", n, a[0], c.span)
    return Agg("future", None, (Fut2("join", lambda I, st, x, c: [(joined(st, n, c), ok(T("joined")))], n), ()))


def joined(st, n, c):
    st.ev("JOIN", n, c.span)
    return st


class Fut2:
    def __init__(self, name, f, n):
        self.name, self.f, self.n = name, f, n

    def __call__(self, I, st, a, c):
        return self.f(I, st, a, c)

    def __hash__(self):
        return hash((self.name, self.n))

    def __eq__(self, o):
        return isinstance(o, Fut2) and (o.name, o.n) == (self.name, self.n)

    def __repr__(self):
        return f"future {self.name} {self.n}"


@model("JoinHandle::abort", "AbortHandle::abort")
def m_abort(I, st, a, c):
    v = L(I, st, a[0])
    while isinstance(v, Ref):
        v = L(I, st, v)
    st.ev("ABORT", v.f[0].n if isinstance(v, Agg) and v.tag == "future" and isinstance(v.f[0], Fut2) else T("?"), c.span)
    return UNIT


@model("ctrl_c::ctrl_c", "signal::ctrl_c")
def m_ctrl_c(I, st, a, c):
    return leaf("signal", ("SIGNAL", "interrupt"), ok(UNIT))


KINDS = ("terminate", "interrupt", "hangup", "quit", "user_defined1", "user_defined2", "alarm", "child", "io", "pipe", "window_change")
for n in KINDS:
    MODELS[f"SignalKind::{n}"] = lambda I, st, a, c, n=n: T("signalkind", n)


@model("unix::signal", "signal::unix::signal")
def m_signal(I, st, a, c):
    return ok(Agg("signal", None, (L(I, st, a[0]),)))


@model("Signal::recv")
def m_signal_recv(I, st, a, c):
    v = L(I, st, a[0])
    while isinstance(v, Ref):
        v = L(I, st, v)
    k = v.f[0] if isinstance(v, Agg) and v.tag == "signal" else None
    return leaf("signal", ("SIGNAL", k.a[0] if isinstance(k, T) and k.op == "signalkind" else "?"), some(UNIT))


@model("support::thread_rng_n")
def m_rng(I, st, a, c):
    return 0


@model("TcpListener::bind")
def m_bind(I, st, a, c):
    return future("bind", lambda I, st, a, c: ok(T("listener")), a)


@model("serve::serve", "axum::serve")
def m_serve(I, st, a, c):
    return Agg("future", None, (Fut2("serve", do_serve, L(I, st, a[-1])), (L(I, st, a[-1]), NONE)))


@model("Serve::with_graceful_shutdown")
def m_graceful(I, st, a, c):
    v = L(I, st, a[0])
    if not (isinstance(v, Agg) and v.tag == "future"):
        return None
    return Agg("future", None, (v.f[0], (v.f[1][0], some(a[1]))))


@model("Serve::tcp_nodelay")
def m_nodelay(I, st, a, c):
    return L(I, st, a[0])


def do_serve(I, st, a, c):
    st.ev("SERVE", a[0], c.span)
    if a[1].var == 0:
        return [(st, Stop("diverge", "serves until it is killed"))]
    out = []
    for s, v in run_future(I, st, a[1].f[0], c):
        if isinstance(v, Stop):
            out.append((s, v))
            continue
        s.ev("SERVED", c.span)
        out.append((s, ok(UNIT)))
    return out


def m_with_state(I, st, a, c):
    r = L(I, st, a[0])
    v = I.deep(st, L(I, st, a[1]))
    st.ev("STATE", v)
    return r


MODELS["Router::with_state"] = m_with_state


def main_paths(ctx):
    """[(I, state, result)] of main followed to its end, with state creation and saving as units"""
    I = dinterp(ctx, max_visits=80)
    made = []

    def new(I, st, a, c):
        def f(I, st, a, c):
            sv, cell = state(I, st, ctx)
            st.ev("NEW", cell)
            made.append((sv, cell))
            return ok(sv)
        return future("new state", f, [])

    def save(I, st, a, c):
        sv = I.deep(st, L(I, st, a[0]))

        def f(I, st, a, c):
            s2 = st.copy()
            st.ev("SAVE", cell_of(sv), 1, c.span)
            s2.ev("SAVE", cell_of(sv), 0, c.span)
            return [(st, ok(UNIT)), (s2, err(Agg(SE, 0, (T("ioerr", "Other", "save", 0),))))]
        return future("save", f, [])
    I.hooks[STATE + "::new"] = new
    I.hooks[STATE + "::save"] = save
    I.hooks[f"<{STATE} as core::clone::Clone>::clone"] = lambda I, st, a, c: I.deep(st, L(I, st, a[0]))
    I.hooks["sourisd::setup"] = lambda I, st, a, c: UNIT
    out = []
    for p in ("sourisd::main::{closure#0}", "sourisd::main"):
        fn = ctx.P.fns.get(p)
        if not fn:
            continue
        st = State()
        if fn.kind != "fn":
            c0 = I.cell(st, Agg("coroutine:" + p, 0, ()))
            out = I.run(p, [Ref(c0), T("ctx")][:fn.j["body"]["argc"]], st)
        else:
            out = I.run(p, [], st)
        break
    return I, out


def cell_of(v):
    for x in ([v] + list(v.f) if isinstance(v, Agg) else []):
        if isinstance(x, Agg) and x.tag == "mutex" and x.f[0] == "dbs":
            return x.f[1]
    return None
