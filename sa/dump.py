"""Builds the MIR driver, runs it over /repo's current working tree and loads the result."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class BuildFailed(Exception):
    pass


def build_dir():
    for d in (os.path.join(VERIF, ".build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w")
            open(t, "w").close()
            os.remove(t)
            return d
        except OSError:
            continue
    raise BuildFailed("no writable build directory")


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildFailed(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def tree_hash(repo):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "fuzz", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".md", ".json", ".html", ".txt")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:24]


def build_driver(b):
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "src/dump.rs", "src/json.rs"):
        with open(os.path.join(VERIF, "driver", f), "rb") as x:
            h.update(x.read())
    stamp, hx = os.path.join(b, "driver.stamp"), h.hexdigest()
    exe = os.path.join(b, "driver", "debug", "mirdump")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hx:
        return exe, hx
    sh(["cargo", "build", "--offline", "--target-dir", os.path.join(b, "driver")], os.path.join(VERIF, "driver"), env())
    with open(stamp, "w") as f:
        f.write(hx)
    return exe, hx


def dump(repo=REPO):
    """the directory holding the dump of the repository's current sources"""
    b = build_dir()
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, hx = build_driver(b)
        out = os.path.join(b, "dumps", tree_hash(repo) + "-" + hx[:8])
        want = [os.path.join(out, c + ".json") for c in ("sourisdb", "sourisd", "mouse")]
        if all(map(os.path.exists, want)):
            os.utime(out)
            return out
        e = env()
        root = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = root + "/lib"
        tgt = os.path.join(b, "t")
        for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x in ("sourisdb", "sourisd", "mouse") or x.rsplit("-", 1)[0] in ("sourisdb", "sourisd", "mouse"):
                        shutil.rmtree(os.path.join(fp, x))
        tmp = tempfile.mkdtemp(dir=b)
        e.update(MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt)
        try:
            sh(["cargo", "check", "--workspace", "--all-features", "--offline"], repo, e)
            for c in ("sourisdb", "sourisd", "mouse"):
                if not os.path.exists(os.path.join(tmp, c + ".json")):
                    raise BuildFailed("no dump of crate " + c)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.chmod(tmp, 0o755)
            os.rename(tmp, out)
        finally:
            if os.path.isdir(tmp):
                shutil.rmtree(tmp)
        #keep only the most recent dumps
        ds = sorted((os.path.join(b, "dumps", d) for d in os.listdir(os.path.join(b, "dumps"))), key=os.path.getmtime)
        for d in ds[:-12]:
            shutil.rmtree(d)
        return out


if __name__ == "__main__":
    try:
        print(dump())
    except BuildFailed as x:
        print(x)
        sys.exit(1)
