"""C28: the library type-checks with every combination of its features."""
import itertools, json, os, subprocess, tomllib
from concurrent.futures import ThreadPoolExecutor
from lib import *

CRATE = "sourisdb"


def closure(feats, on):
    """the features of the crate, and the optional dependencies, that are on when `on` is asked for"""
    seen, todo = set(), list(on)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += feats.get(f, [])
    return frozenset(seen)


def run(ctx):
    d = os.path.join(dump.REPO, "crates", CRATE)
    ctx.explanation = ("The features are read from the crate's manifest; for every subset of them (subsets that switch on the same things are taken once) the compiler's type checker runs over the "
                       "current sources with exactly that configuration. Every configuration is an obligation.")
    ctx.rule("rustc's type checker accepts the library under every subset of its features")
    ctx.floor = 8
    try:
        with open(os.path.join(d, "Cargo.toml"), "rb") as f:
            feats = tomllib.load(f).get("features", {})
    except OSError as e:
        ctx.ob("manifest", False, "the crate's manifest is there", e)
        return
    names = sorted(x for x in feats if x != "default")
    seen = {}
    for n in range(len(names) + 1):
        for on in itertools.combinations(names, n):
            seen.setdefault(closure(feats, on), on)
    ctx.stats["subsets"] = 2 ** len(names)
    ctx.stats["configurations"] = len(seen)
    b = os.path.join(dump.build_dir(), "c28")
    W = 4
    jobs = sorted(seen.values())
    #one target directory per worker; each takes neighbouring configurations, which share most of what they depend on
    parts = [jobs[i * len(jobs) // W:(i + 1) * len(jobs) // W] for i in range(W)]

    def work(i):
        return [(on, check(on, os.path.join(b, str(i)))) for on in parts[i]]
    with ThreadPoolExecutor(W) as ex:
        res = [r for rs in ex.map(work, range(W)) for r in rs]
    for on, (rc, errors, text) in res:
        name = "features " + ("+".join(on) or "none")
        ctx.paths += 1
        if rc == 0:
            ctx.ob(name, True, "the library type-checks", "")
        elif not errors:
            #not the library: a dependency or cargo itself
            ctx.ob(name, None, "the library can be checked", text[-300:])
        else:
            ctx.ob(name, False, "the library type-checks with these features", "; ".join(errors))


def check(on, target):
    e = dump.env()
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_BUILD_JOBS"] = "3"
    try:
        r = subprocess.run(["cargo", "check", "--offline", "--quiet", "--message-format=json", "-p", CRATE, "--lib", "--no-default-features", "--features", ",".join(on)],
                           cwd=dump.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return 1, [], "out of time"
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error" or m.get("target", {}).get("name") != CRATE:
            continue
        sp = next((s for s in m["message"].get("spans", []) if s.get("is_primary")), None)
        if sp is None:
            continue    #"aborting due to previous errors"
        t = f"{m['message']['message']} in {sp['file_name'].split('crates/' + CRATE + '/')[-1]}"
        if t not in out:
            out.append(t)
    return r.returncode, out, r.stderr
