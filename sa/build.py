"""Builds the compiler driver and (re)generates the program facts from /repo's working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VLINT_REPO", "/repo")
BUILD = os.environ.get("VLINT_BUILD", os.path.join(VERIF, ".build"))
CRATES = ["iris-mpc", "iris_mpc", "mpc-net", "plain-reference"]

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)} failed:\n{r.stdout[-4000:]}")
    return r.stdout

def src_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock")):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "driver", "main.rs"), "rb").read()); h.update(b"v2")
    return h.hexdigest()

def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "vlint-driver")
    stamp = out + ".stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".tmp"])
    os.replace(out + ".tmp", out)
    open(stamp, "w").write(h)
    return out

def facts():
    """returns the directory of fact files for the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        h = src_hash()
        fdir = os.path.join(BUILD, "facts")
        stamp = os.path.join(BUILD, "facts.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h and glob.glob(fdir + "/*.json"):
            return fdir, h
        if os.path.exists(stamp): os.remove(stamp)
        tmp = fdir + ".new"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, "target")
        for c in CRATES:
            # both layouts of cargo's build directory
            for p in glob.glob(f"{tgt}/debug/.fingerprint/{c}-*") + glob.glob(f"{tgt}/debug/build/{c}"):
                shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"): env.pop(k, None)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env.update(VLINT_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=tgt,
                   LD_LIBRARY_PATH=sysroot + "/lib", CARGO_NET_OFFLINE="true",
                   # release semantics: what a debug_assert! checks does not count
                   CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")
        sh(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--locked", "--offline"], cwd=REPO, env=env)
        for want in ("iris_mpc-", "mpc_net-", "plain_reference-"):
            if not any(want in f for f in os.listdir(tmp)):
                raise BuildError(f"the compiler driver produced no facts for {want[:-1]}")
        shutil.rmtree(fdir, ignore_errors=True)
        os.rename(tmp, fdir)
        open(stamp, "w").write(h)
        return fdir, h

if __name__ == "__main__":
    t = time.time()
    d, h = facts()
    print(d, h[:12], sorted(os.listdir(d)), f"{time.time()-t:.1f}s")
