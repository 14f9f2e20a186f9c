"""Build the MIR driver and extract the facts of /repo's current tree (cached by content)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("S2_REPO", "/repo")
CACHE = os.environ.get("S2_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_SRC = os.path.join(VERIF, "analyzer", "driver", "main.rs")


def log(*a): print("[build]", *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), check=True,
                          capture_output=True, text=True).stdout.strip()


def driver():
    src = open(DRIVER_SRC, "rb").read()
    h = hashlib.sha256(src).hexdigest()[:16]
    out = os.path.join(CACHE, "bin", "s2drv-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = time.time()
        tmp = out + ".tmp%d" % os.getpid()
        subprocess.run(["rustc", "+nightly", "--edition", "2024", "-O", DRIVER_SRC, "-o", tmp],
                       env=env(), check=True, stdout=sys.stderr)
        os.rename(tmp, out)
        log("driver built in %.1fs" % (time.time() - t))
    return out, h


def repo_files():
    fs = []
    for root, ds, names in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for n in sorted(names): fs.append(os.path.join(root, n))
    for n in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, n)
        if os.path.exists(p): fs.append(p)
    return fs


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in repo_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()[:24]


def facts():
    """path of the facts file for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dh = driver()
        th = tree_hash(dh)
        out = os.path.join(CACHE, "facts", th + ".jsonl")
        if os.path.exists(out): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = time.time()
        tgt = os.path.join(CACHE, "target")
        for d in ("debug/build/s2protocol",):
            shutil.rmtree(os.path.join(tgt, d), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("s2protocol-"): shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        e = env()
        sr = sysroot()
        e["LD_LIBRARY_PATH"] = sr + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["S2_FACTS_OUT"] = out
        e["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--locked"], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit("cannot extract facts from " + REPO)
        log("facts extracted in %.1fs" % (time.time() - t))
        old = sorted((os.path.join(CACHE, "facts", n) for n in os.listdir(os.path.join(CACHE, "facts"))
                      if n.endswith((".jsonl", ".pkl"))), key=os.path.getmtime)
        for p in old[:-6]: os.unlink(p)
        return out


if __name__ == "__main__":
    print(facts())
