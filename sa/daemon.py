"""Models of what the daemon is built from: the async mutex, the cache, the file system, HTTP types and the router."""
from lib import *
from souris import *
from stdmodels import MODELS, model, future, L, each, opt_split, fork_opaque, run_future

STATE = "sourisd::v1_routes::state::SourisState"
STORE = "sourisdb::store::Store"
SE = "sourisd::error::SourisError"
CREATION = "sourisdb::client::CreationResult"
SC = "http::status::StatusCode"


# ---- the mutex -------------------------------------------------------------------------------------------------------
def mutex_of(I, st, v):
    v = L(I, st, v)
    while isinstance(v, Ref):
        v = L(I, st, v)
    return v if isinstance(v, Agg) and v.tag == "mutex" else None


@model("Mutex::lock", "Mutex::lock_owned", "Mutex::blocking_lock", "RwLock::write", "RwLock::read")
def m_lock(I, st, a, c):
    m = mutex_of(I, st, a[0])
    if m is None:
        return None
    if c.key == "Mutex::blocking_lock" or c.target.startswith("std::"):
        g = do_lock(I, st, m, c)
        return ok(g) if c.target.startswith("std::") else g
    return future("lock", lambda I, st, a, c: do_lock(I, st, mutex_of(I, st, a[0]), c), [a[0]])


def do_lock(I, st, m, c):
    st.ev("LOCK", m.f[0], c.span)
    return Agg("guard", None, (m.f[0], Ref(m.f[1])))


@model("Mutex::try_lock")
def m_try_lock(I, st, a, c):
    m = mutex_of(I, st, a[0])
    if m is None:
        return None
    s2 = st.copy()
    return [(st, ok(do_lock(I, st, m, c))), (s2, err(T("TryLockError")))]


@model("Mutex::new", "RwLock::new")
def m_mutex_new(I, st, a, c):
    return Agg("mutex", None, ("dbs" if "MapV" in type(a[0]).__name__ else "other", I.cell(st, a[0])))


# ---- the cache -------------------------------------------------------------------------------------------------------
@model("Cache::new")
def m_cache_new(I, st, a, c):
    return T("cache")


@model("Cache::get", "Cache::insert", "Cache::invalidate", "Cache::remove", "Cache::invalidate_all", "Cache::contains_key")
def m_cache(I, st, a, c):
    n = c.key.split("::")[1]
    if n in ("invalidate_all", "contains_key"):
        return cache_op(I, st, n, a, c)
    return future("cache " + n, lambda I, st, a, c: cache_op(I, st, n, a, c), a)


def cache_op(I, st, n, a, c):
    if n == "invalidate_all":
        st.ev("CINVALL", c.span)
        return UNIT
    key = I.deep(st, L(I, st, a[1]))
    if n == "insert":
        st.ev("CSET", key, I.deep(st, a[2]), c.span)
        return UNIT
    if n == "invalidate":
        st.ev("CINV", key, c.span)
        return UNIT
    k = T("cached", key, sum(1 for e in st.events if e[0] in ("CSET", "CINV", "CINVALL")))
    out = []
    for s, b in I.decide(st, k):
        if n == "remove":
            s.ev("CINV", key, c.span)
        if n == "contains_key":
            out.append((s, int(b)))
            continue
        s.ev("CGET", key, b, c.span)
        out.append((s, some(T("cachedvalue", key)) if b else NONE))
    return out


# ---- paths -----------------------------------------------------------------------------------------------------------
def as_str(I, st, v):
    v = I.deep(st, L(I, st, v))
    if isinstance(v, Agg) and v.tag == "path":
        v = v.f[0]
    return v if isinstance(v, Str) else Str((v,))


@model("Path::join", "PathBuf::join")
def m_join(I, st, a, c):
    x, y = as_str(I, st, a[0]), as_str(I, st, a[1])
    if y.parts and isinstance(y.parts[0], str) and y.parts[0].startswith("/"):
        return y
    if x.parts and isinstance(x.parts[-1], str) and x.parts[-1].endswith("/"):
        return Str(x.parts + y.parts)
    return Str(x.parts + ("/",) + y.parts)


@model("PathBuf::push")
def m_pbpush(I, st, a, c):
    x, y = as_str(I, st, a[0]), as_str(I, st, a[1])
    if y.parts and isinstance(y.parts[0], str) and y.parts[0].startswith("/"):
        r = y
    elif x.parts and isinstance(x.parts[-1], str) and x.parts[-1].endswith("/"):
        r = Str(x.parts + y.parts)
    else:
        r = Str(x.parts + ("/",) + y.parts)
    I.store(st, a[0], r)
    return UNIT


@model("Path::with_extension", "PathBuf::set_extension", "Path::with_added_extension")
def m_withext(I, st, a, c):
    x, y = as_str(I, st, a[0]), as_str(I, st, a[1])
    n = c.key.split("::")[1]
    last = x.parts[-1] if x.parts else None
    r = None
    if n == "with_added_extension":
        r = Str(x.parts + (".",) + y.parts)
    elif isinstance(last, str) and "." in last.rsplit("/", 1)[-1]:
        r = Str(x.parts[:-1] + (last.rsplit(".", 1)[0],) + ((".",) + y.parts if y.parts else ()))
    elif last is not None and not isinstance(last, str) and (len(x.parts) == 1 or isinstance(x.parts[-2], str) and x.parts[-2].endswith("/")):
        #whatever follows the last dot of the name is cut off
        r = Str(x.parts[:-1] + (T("stem", last),) + ((".",) + y.parts if y.parts else ()))
    else:
        r = Str((T("with_ext", x, y),))
    if n == "set_extension":
        I.store(st, a[0], r)
        return 1
    return r


def mentions(p, n):
    """whether a path has a name in it, as it is or changed"""
    return any(x is n or isinstance(x, T) and n in list(subterms(x)) for x in p.parts)


def renamed(p, old, new):
    def go(x):
        return new if x is old else T(x.op, *[go(y) for y in x.a]) if isinstance(x, T) else x
    return Str([go(x) for x in p.parts])


@model("Path::display", "Path::to_string_lossy", "OsStr::to_string_lossy", "OsStr::display")
def m_pdisplay(I, st, a, c):
    #the same text for every path that is text
    return as_str(I, st, a[0])


@model("Path::parent")
def m_parent(I, st, a, c):
    x = as_str(I, st, a[0])
    for i in range(len(x.parts) - 1, -1, -1):
        if isinstance(x.parts[i], str) and "/" in x.parts[i]:
            h = x.parts[i].rsplit("/", 1)[0]
            return some(Str(x.parts[:i] + ((h,) if h else ())))
    return T("call", "Path::parent", x)


# ---- the file system -------------------------------------------------------------------------------------------------
# every operation can succeed or fail; I.fs says what a file holds when it is read
def io(I, st, op, args, c, good, kinds=("NotFound", "Other")):
    """[(state, Ok(good) | Err(io error))] with an event per attempt"""
    out = []
    fails = getattr(I, "io_fail", None)
    what = (op,) + tuple(args)
    for k in (None,) + kinds:
        if k is not None and fails is not None and not fails(op, args, k):
            continue
        s = st.copy()
        s.ev("FS", what, k, c.span)
        if k is None:
            v = good(s) if callable(good) else good
            if v is NONE_PATH:
                continue
            out.append((s, ok(v)))
        else:
            s.x["io"] = s.x.get("io", ()) + ((op, k),)
            out.append((s, err(T("ioerr", k, op, len(st.events)))))
    return out


NONE_PATH = object()


def fs_async(name, argn, f):
    def g(I, st, a, c):
        if c.target.startswith("std::") or name.startswith(("Read::", "Write::")):
            return f(I, st, a, c)
        return future(name, f, a)
    return g


def fsop(*names):
    def d(f):
        for n in names:
            MODELS[n] = fs_async(n, 0, f)
        return f
    return d


def fkey(I, st, v):
    v = L(I, st, v)
    while isinstance(v, Ref):
        v = L(I, st, v)
    return v


@fsop("File::create", "fs::File::create")
def f_create(I, st, a, c):
    p = as_str(I, st, a[0])
    return io(I, st, "create", (p,), c, lambda s: Agg("file", None, (p, "w", len(s.events))))


@fsop("File::create_new")
def f_create_new(I, st, a, c):
    p = as_str(I, st, a[0])
    return io(I, st, "create", (p,), c, lambda s: Agg("file", None, (p, "w", len(s.events))), ("NotFound", "AlreadyExists", "Other"))


@fsop("File::open")
def f_open(I, st, a, c):
    p = as_str(I, st, a[0])
    return io(I, st, "open", (p,), c, lambda s: Agg("file", None, (p, "r", 0)) if I.fs(s, p) is not None else NONE_PATH,
              ("NotFound", "Other"))


@model("OpenOptions::new", "OpenOptions::read", "OpenOptions::write", "OpenOptions::create", "OpenOptions::truncate", "OpenOptions::append", "OpenOptions::create_new",
       "OpenOptions::mode", "File::options")
def f_options(I, st, a, c):
    n = c.key.split("::")[1]
    if n in ("new", "options"):
        return Agg("oo", None, ())
    v = L(I, st, a[0])
    if not (isinstance(v, Agg) and v.tag == "oo"):
        return None
    f = tuple(x for x in v.f if x.f[0] != n) + (tup(n, a[1]),)
    if isinstance(a[0], Ref):
        I.store(st, a[0], Agg("oo", None, f))
        return a[0]
    return Agg("oo", None, f)


@fsop("OpenOptions::open")
def f_oo_open(I, st, a, c):
    v, p = L(I, st, a[0]), as_str(I, st, a[1])
    o = {x.f[0]: x.f[1] for x in v.f} if isinstance(v, Agg) and v.tag == "oo" else {}
    if o.get("write") or o.get("append"):
        return io(I, st, "create" if o.get("truncate") or o.get("create_new") else "openw", (p,), c, lambda s: Agg("file", None, (p, "w", len(s.events))))
    return io(I, st, "open", (p,), c, lambda s: Agg("file", None, (p, "r", 0)) if I.fs(s, p) is not None else NONE_PATH)


@fsop("AsyncWriteExt::write_all", "Write::write_all", "AsyncWriteExt::write_all_buf")
def f_write(I, st, a, c):
    f = fkey(I, st, a[0])
    if not (isinstance(f, Agg) and f.tag == "file"):
        return [(st, T("call", c.key, I.deep(st, f)))]
    return io(I, st, "write", (f, I.deep(st, L(I, st, a[1]))), c, UNIT, ("Other",))


def partial_write(I, st, a, c):
    f = fkey(I, st, a[0])
    if not (isinstance(f, Agg) and f.tag == "file"):
        return [(st, T("call", c.key, I.deep(st, f)))]
    b = I.deep(st, L(I, st, a[1]))
    out = []
    whole, part = st.copy(), st.copy()
    s = part
    #all of it at once, or (once per file) a part of it
    n = I.seq_len(whole, b)
    out += io(I, whole, "write", (f, b), c, n if n is not None else T("written", len(st.events)), ("Other",))
    if not any(e[0] == "FS" and e[1][0] == "write_some" and e[1][1] == f for e in st.events):
        w = T("written", len(st.events))
        part.iv[w] = (1, (1 << 63) - 1, frozenset())
        if n is not None and not is_int(n):
            I.assume_cmp(part, "Lt", w, n)
        out += io(I, part, "write_some", (f, b, w), c, w, ())
    return out


for n in ("AsyncWriteExt::write", "Write::write", "AsyncWriteExt::write_buf"):
    MODELS[n] = fs_async(n, 0, partial_write)


@fsop("File::sync_all", "File::sync_data")
def f_sync(I, st, a, c):
    f = fkey(I, st, a[0])
    return io(I, st, "sync", (f,), c, UNIT, ("Other",))


@fsop("AsyncWriteExt::flush", "Write::flush", "AsyncWriteExt::shutdown")
def f_flush(I, st, a, c):
    return io(I, st, "flush", (fkey(I, st, a[0]),), c, UNIT, ("Other",))


@fsop("File::set_len")
def f_setlen(I, st, a, c):
    return io(I, st, "set_len", (fkey(I, st, a[0]),), c, UNIT, ("Other",))


def two(op):
    def f(I, st, a, c):
        return io(I, st, op, (as_str(I, st, a[0]), as_str(I, st, a[1])), c, UNIT if op != "copy" else T("copied"), ("Other",))
    return f


for n, op in (("hard_link", "link"), ("copy", "copy"), ("rename", "rename"), ("symlink", "link")):
    for k in (f"fs::{n}", f"{n}::{n}"):
        MODELS[k] = fs_async(k, 0, two(op))


@fsop("fs::remove_file", "remove_file::remove_file")
def f_remove(I, st, a, c):
    return io(I, st, "remove", (as_str(I, st, a[0]),), c, UNIT)


@fsop("fs::remove_dir_all", "fs::remove_dir", "remove_dir_all::remove_dir_all")
def f_remove_dir(I, st, a, c):
    return io(I, st, "remove_dir", (as_str(I, st, a[0]),), c, UNIT)


@fsop("fs::write", "write::write")
def f_fswrite(I, st, a, c):
    p = as_str(I, st, a[0])
    out = []
    for s, r in io(I, st, "create", (p,), c, UNIT):
        if is_err(r):
            out.append((s, r))
        else:
            out.extend(io(I, s, "write", (Agg("file", None, (p, "w", len(s.events))), I.deep(s, L(I, s, a[1]))), c, UNIT, ("Other",)))
    return out


@fsop("fs::read", "read::read", "fs::read_to_string", "read_to_string::read_to_string")
def f_fsread(I, st, a, c):
    p = as_str(I, st, a[0])
    return io(I, st, "open", (p,), c, lambda s: content(I, s, p))


def content(I, st, p):
    x = I.fs(st, p)
    return NONE_PATH if x is None else Seq([Chunk("blob", x)])


@fsop("fs::create_dir_all", "create_dir_all::create_dir_all", "fs::create_dir", "create_dir::create_dir")
def f_mkdir(I, st, a, c):
    return io(I, st, "mkdir", (as_str(I, st, a[0]),), c, UNIT, ("Other",))


@fsop("fs::try_exists", "try_exists::try_exists")
def f_try_exists(I, st, a, c):
    p = as_str(I, st, a[0])
    return io(I, st, "exists", (p,), c, lambda s: int(I.fs(s, p) is not None), ("Other",))


@model("Path::exists")
def f_exists(I, st, a, c):
    p = as_str(I, st, a[0])
    r = getattr(I, "fs", None)
    if r is None:
        return None
    return int(r(st, p) is not None)


@fsop("AsyncReadExt::read", "Read::read")
def f_read(I, st, a, c):
    """reads the whole file at once, then reports its end"""
    f = fkey(I, st, a[0])
    if not (isinstance(f, Agg) and f.tag == "file"):
        return [(st, T("call", c.key, I.deep(st, f)))]
    p, mode, pos = f.f
    x = I.fs(st, p)
    out = []
    for s, r in io(I, st, "read", (p,), c, UNIT, ("Other",)):
        if is_err(r):
            out.append((s, r))
            continue
        parts = getattr(I, "split_reads", 1)
        if pos >= parts:
            out.append((s, ok(0)))
            continue
        n = T("sym", ("read", p) if parts == 1 else ("read", p, pos), "usize")
        s.iv[n] = (1, 128, frozenset())
        I.store(s, a[0], Agg("file", None, (p, mode, pos + 1)))
        I.store(s, a[1], Agg("readbuf", None, (x if parts == 1 else T("part", x, pos), n)))
        out.append((s, ok(n)))
    return out


@fsop("AsyncReadExt::read_to_end", "Read::read_to_end", "AsyncReadExt::read_to_string", "Read::read_to_string")
def f_read_end(I, st, a, c):
    f = fkey(I, st, a[0])
    if not (isinstance(f, Agg) and f.tag == "file"):
        return [(st, T("call", c.key, I.deep(st, f)))]
    p = f.f[0]
    out = []
    for s, r in io(I, st, "read", (p,), c, UNIT, ("Other",)):
        if is_err(r):
            out.append((s, r))
            continue
        x = I.fs(s, p)
        old = L(I, s, a[1])
        I.store(s, a[1], Seq((list(old.items) if isinstance(old, Seq) else []) + [Chunk("blob", x)]))
        out.append((s, ok(T("filelen", x))))
    return out


@model("Error::kind", "io::error::Error::kind")
def m_kind(I, st, a, c):
    v = L(I, st, a[0])
    if isinstance(v, T) and v.op == "ioerr":
        ek = "core::io::error::ErrorKind"
        for ek in ("core::io::error::ErrorKind", "std::io::error::ErrorKind"):
            if ek in I.P.adts and I.P.variant(ek, v.a[0]) is not None:
                return Agg(ek, I.P.variant(ek, v.a[0]), ())
        d = c.dest_ty.get("p")
        if d in I.P.adts:
            k = I.P.variant(d, v.a[0])
            return Agg(d, k, ()) if k is not None else T("kind", v.a[0])
        return T("kind", v.a[0])
    return T("kindof", I.deep(st, v))


# ---- bytes and http ----------------------------------------------------------------------------------------------------
@model("Bytes::copy_from_slice", "Bytes::from_static", "Bytes::to_vec", "Bytes::into_vec")
def m_bytes(I, st, a, c):
    return L(I, st, a[0])


# ---- the router --------------------------------------------------------------------------------------------------------
@model("Router::new")
def m_router_new(I, st, a, c):
    return Agg("router", None, ())


METHODS = ("get", "post", "put", "delete", "patch", "head", "options", "any")


def m_method(I, st, a, c):
    n = c.key.split("::")[-1]
    if len(a) == 1:
        return Agg("mrouter", None, (tup(n, a[0]),))
    v = L(I, st, a[0])
    if isinstance(v, Agg) and v.tag == "mrouter":
        return Agg("mrouter", None, v.f + (tup(n, a[1]),))
    return None


for n in METHODS:
    MODELS.setdefault(f"method_routing::{n}", m_method)
    MODELS.setdefault(f"routing::{n}", m_method)
    MODELS.setdefault(f"MethodRouter::{n}", m_method)


@model("Router::route", "Router::nest", "Router::merge", "Router::with_state", "Router::layer", "Router::fallback", "Router::route_layer")
def m_router(I, st, a, c):
    n = c.key.split("::")[1]
    r = L(I, st, a[0])
    if not (isinstance(r, Agg) and r.tag == "router"):
        return None
    if n == "route":
        p, m = I.deep(st, a[1]), L(I, st, a[2])
        if not (isinstance(m, Agg) and m.tag == "mrouter"):
            m = Agg("mrouter", None, (tup("?", m),))
        return Agg("router", None, r.f + tuple(tup(p, x.f[0], x.f[1]) for x in m.f))
    if n in ("nest", "merge"):
        o = L(I, st, a[-1])
        if not (isinstance(o, Agg) and o.tag == "router"):
            return None
        pre = I.deep(st, a[1]) if n == "nest" else Str()
        return Agg("router", None, r.f + tuple(tup(Str(pre.parts + x.f[0].parts), x.f[1], x.f[2]) for x in o.f))
    if n == "fallback":
        return r
    return r


# ---- running the daemon's code -----------------------------------------------------------------------------------------
DB = T("sym", "dbs")
BASE = Str((T("sym", "base"),))


def store(m):
    return Agg(STORE, 0, (m,))


def sered(v):
    return T("sered", v)


def h_store_ser(I, st, a, c):
    t = T("sered", I.deep(st, L(I, st, a[0])))
    #at least the magic bytes and the tag
    st.iv.setdefault(T("len", t), (9, (1 << 63) - 1, frozenset()))
    return Seq([Chunk("blob", t)])


def h_store_deser(I, st, a, c):
    v = I.deep(st, L(I, st, a[0]))
    if isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], Chunk):
        v = v.items[0].x
    if isinstance(v, T) and v.op == "sered":
        return ok(v.a[0])
    known = getattr(I, "stores", {}).get(v)
    out = []
    for s, b in I.decide(st, T("parses", v)):
        out.append((s, ok(known if known is not None else T("parsed", "store", v)) if b else err(T("StoreSerError", v))))
    return out


def daemon_hooks():
    h = int_hooks()
    h[STORE + "::ser"] = h_store_ser
    h[STORE + "::deser"] = h_store_deser
    for t in (VAL, STORE):
        h[f"<{t} as core::clone::Clone>::clone"] = lambda I, st, a, c: I.deep(st, L(I, st, a[0]))
    return h


def dinterp(ctx, **kw):
    I = ctx.interp(daemon_hooks(), **kw)
    I.opaque_max = 2
    I.mapval = lambda st, base, key: store(MapV(T("db", key))) if base is DB else T("get", base, key)
    I.fs = lambda st, p: T("file", p)
    return I


def state(I, st, ctx, dbs=None):
    """a SourisState with unknown databases; its fields are recognised by their types"""
    a = ctx.P.adts.get(STATE)
    if a is None:
        return None, None
    cell = I.cell(st, dbs if dbs is not None else MapV(DB))
    f = []
    seen = 0
    for n, t in a["v"][0]["f"]:
        ty = a["types"][t]["s"]
        if "HashMap<" in ty and "Store" in ty and ("Mutex<" in ty or "RwLock<" in ty):
            f.append(Agg("mutex", None, ("dbs", cell)))
            seen += 1
        elif "Cache<" in ty:
            f.append(T("cache"))
        elif "PathBuf" in ty or "Path>" in ty:
            f.append(BASE)
        elif "Mutex<" in ty:
            f.append(Agg("mutex", None, (n, I.cell(st, T("sym", ("field", n))))))
        else:
            f.append(T("sym", ("field", n)))
    return (Agg(STATE, 0, f) if seen == 1 else None), cell


def routes(ctx):
    """[(path, method, handler function path)] from interpreting main up to where it serves"""
    I = dinterp(ctx, max_visits=60)
    found = []

    def serve(I, st, a, c):
        r = L(I, st, a[-1])
        if isinstance(r, Agg) and r.tag == "router":
            found.append(r)
        return Agg("serve", None, (r,))
    I.hooks["axum::serve::serve"] = I.hooks["axum::serve"] = serve
    I.hooks[STATE + "::new"] = lambda I, st, a, c: future("state", lambda I, st, a, c: ok(state(I, st, ctx)[0]), [])
    I.hooks[STATE + "::save"] = lambda I, st, a, c: future("save", lambda I, st, a, c: ok(UNIT), [])
    for p in ("sourisd::main::{closure#0}", "sourisd::main"):
        fn = ctx.P.fns.get(p)
        if not fn:
            continue
        st = State()
        try:
            if fn.kind != "fn":
                c0 = I.cell(st, Agg("coroutine:" + p, 0, ()))
                I.run(p, [Ref(c0), T("ctx")][:fn.j["body"]["argc"]], st)
            else:
                I.run(p, [], st)
        except Budget:
            pass
        if found:
            break
    if not found:
        return None
    out = []
    for x in found[0].f:
        p, m, h = x.f
        hp = None
        if isinstance(h, T) and h.op == "fn":
            fc = h.a[0].fc
            hp = fc.get("via") or fc.get("r") or fc["p"]
        out.append((p.const(), m, hp))
    return out


def extractor(I, st, ctx, fn, ty, sv, prefix=""):
    """the value an axum extractor of a given type hands to a handler"""
    t = fn.types[ty] if is_int(ty) else ty
    s = t["s"]
    if s.startswith("axum::extract::state::State<"):
        return Agg(t["p"], 0, (sv,))
    if s.startswith("axum::extract::query::Query<") or s.startswith("axum::extract::Query<"):
        inner = fn.types[t["a"][0]]
        return Agg(t["p"], 0, (struct_syms(ctx, inner["p"]),))
    if s == "bytes::bytes::Bytes":
        return T("sym", "body")
    if s == VAL:
        return T("sym", "value")
    if s == STORE:
        return T("parsed", "store", T("sym", "body"))
    if s == STATE:
        return sv
    return T("sym", ("arg", s))


def struct_syms(ctx, adt):
    a = ctx.P.adts.get(adt)
    f = []
    for n, t in a["v"][0]["f"]:
        ty = a["types"][t]["s"]
        f.append(T("sym", n, "bool") if ty == "bool" else T("sym", n))
    return Agg(adt, 0, f)


def run_handler(I, st, ctx, hp, args):
    """all outcomes of an async handler run to its end"""
    out = []
    fn = ctx.P.fns[hp]

    class FC:
        frame = None
        span = fn.span
    for s, v in I.run(fn, args, st):
        if isinstance(v, Stop):
            out.append((s, v))
            continue
        out.extend(run_future(I, s, v, FC))
    return out


def handler_args(I, st, ctx, hp, sv):
    fn = ctx.P.fns[hp]
    b = fn.j["body"]
    return [extractor(I, st, ctx, fn, b["locals"][i + 1][0], sv) for i in range(b["argc"])]


# ---- scenarios -----------------------------------------------------------------------------------------------------------
NAME, KEY, BODY, VALUE = T("sym", "db_name"), T("sym", "key"), T("sym", "body"), T("sym", "value")
NAMES = {"/v1/add_db": "add_db", "/v1/add_db_with_content": "add_db_with_content", "/v1/clear_db": "clear_db", "/v1/rm_db": "remove_db", "/v1/get_db": "get_db",
         "/v1/get_all_db_names": "get_all_dbs", "/v1/add_kv": "add_kv", "/v1/rm_kv": "rm_key", "/v1/get_value": "get_value"}


def handlers(ctx):
    """{operation: handler function}, from the router where it can be read and from the functions' names otherwise"""
    out = {}
    try:
        for p, m, h in routes(ctx) or []:
            if p in NAMES and h in ctx.P.fns:
                out[NAMES[p]] = h
    except Exception:
        pass
    for n in NAMES.values():
        if n not in out:
            for mod in ("db", "value"):
                p = f"sourisd::v1_routes::{mod}::{n}"
                if p in ctx.P.fns:
                    out[n] = p
        if n not in out:
            ctx.ob("anchor:" + n, False, "the daemon's operation exists", f"no handler for {n} found")
    return out


def setv(v, name, val):
    """a query struct with one field fixed"""
    if isinstance(v, Agg):
        return Agg(v.tag, v.var, [setv(x, name, val) for x in v.f])
    if isinstance(v, T) and v.op == "sym" and v.a[0] == name:
        return val
    return v


def outcomes(ctx, hp, ex=None, kx=None, flags={}, n=2, name=NAME, cfg=None, dbs=None):
    """runs a handler in one scenario: [(I, final state, result, dbs cell)]"""
    I = dinterp(ctx)
    if cfg:
        cfg(I)
    st = State()
    sv, cell = state(I, st, ctx, dbs)
    if sv is None:
        raise ValueError("the fields of SourisState are not recognised")
    if ex is not None:
        I.assume(st, T("has", DB, name), ex)
        st.bt[T("has", DB, name)] = ex
    if kx is not None:
        I.assume(st, T("has", T("db", name), KEY), kx)
    ks = [T("sym", f"k{i}") for i in range(n)]
    for i in range(n):
        for j in range(i):
            I.assume(st, T("Eq", *sorted((ks[i], ks[j]), key=okey)), 0)
    I.stores = {BODY: store(MapV(None, [(k, T("sym", f"v{i}")) for i, k in enumerate(ks)]))}
    if getattr(I, "parses", None) is not None:
        I.assume(st, T("parses", BODY), I.parses)
    args = [setv(a, "db_name", name) for a in handler_args(I, st, ctx, hp, sv)]
    for f, b in flags.items():
        args = [setv(a, f, b) for a in args]
    if any(t.op == "parsed" for a in args for t in subterms(a)):
        args = [I.stores[BODY] if isinstance(a, T) and a.op == "parsed" else a for a in args]
    out = []
    for s, v in run_handler(I, st, ctx, hp, args):
        ctx.paths += 1
        out.append((I, s, v, cell))
    return out


def status_of(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v if is_int(v) else None


def response(ctx, I, st, v):
    """what a handler's result says: ("status", n) | ("creation", name) | ("error", name) | ("value", v) | None"""
    v = I.deep(st, v) if not isinstance(v, Stop) else v
    if isinstance(v, Stop):
        return ("panic", v) if v.kind == "panic" else None
    if isinstance(v, Agg) and v.tag == RES:
        if v.var == 1:
            e = v.f[0]
            if isinstance(e, Agg) and e.tag == SE:
                return "error", ctx.P.adts[SE]["v"][e.var]["n"]
            if isinstance(e, Agg) and e.tag == SC:
                return "status", status_of(e)
            return None
        v = v.f[0]
    if isinstance(v, Agg) and v.tag == SC:
        return "status", status_of(v)
    if isinstance(v, Agg) and v.tag.endswith("::Json") and len(v.f) == 1:
        v = v.f[0]
        if isinstance(v, Agg) and v.tag == CREATION:
            return "creation", ctx.P.adts[CREATION]["v"][v.var]["n"]
        return "json", v
    if v == UNIT:
        return "status", 200
    return "value", v


def db_after(I, st, cell, name, ex):
    """(contents of one database afterwards, other databases that changed)

    contents: None (absent) or (what it started from, {key: value or ABSENT})"""
    m = st.cells.get(cell)
    m = I.deep(st, m)
    if isinstance(m, T):
        return ("opaque", m), []
    over = dict(map_final_(m))
    others = []
    res = (T("db", name), {}) if ex else None
    for k, v in over.items():
        if k == name or I.equal(st, k, name) is True:
            res = contents_of(I, st, v, name)
            continue
        x = contents_of(I, st, v, k)
        if x is None and I.simp(st, T("has", m.base, k)) == 0 or isinstance(x, tuple) and x[0] == T("db", k) and not x[1]:
            continue
        others.append((k, v))
    if m.base is not DB:
        others.append(("every database", m))
    return res, others


def map_final_(m):
    d = {}
    for k, v in m.over:
        d[k] = v
    return list(d.items())


def contents_of(I, st, v, name):
    if v is ABSENT:
        return None
    if isinstance(v, Agg) and v.tag == STORE and isinstance(v.f[0], MapV):
        m = v.f[0]
        over = {}
        for k, x in map_final_(m):
            had = m.base is not None and I.simp(st, T("has", m.base, k))
            if x is ABSENT and (m.base is None or had == 0):
                continue
            if isinstance(x, T) and x.op == "get" and x.a == (m.base, k):
                continue
            over[k] = x
        return m.base, over
    return "opaque", v


@model("WrapErr::context", "WrapErr::wrap_err", "WrapErr::with_context", "WrapErr::wrap_err_with", "Context::context", "Context::with_context")
def m_wrap_err(I, st, a, c):
    out = []
    for s, k, p in opt_split(I, st, a[0]):
        out.append((s, ok(p) if k == 0 else err(T("report", I.deep(s, p)))))
    return out
