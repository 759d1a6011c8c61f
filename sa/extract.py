"""Front end: hand /repo's current sources to the real compiler and get the
monomorphised, name-resolved MIR of the four contracts as JSON.

/repo itself is never built in: its source files are copied to a scratch folder,
`cargo check --release` is run there with driver/wrap.sh as RUSTC_WRAPPER.  The
result is cached under build/cache keyed by a hash of every input byte (sources,
manifests, imported wasm, driver), so that "current source" is decided on every run.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BLEND_REPO", "/repo")
CRATES = ["emitter", "backstop", "pool", "pool_factory"]
PKGS = {"emitter": "emitter", "backstop": "backstop", "pool": "pool", "pool_factory": "pool-factory"}
STABLE = "1.79.0-x86_64-unknown-linux-gnu"
WREL = "target/wasm32-unknown-unknown/release"


class ExtractError(Exception):
    pass


def _files():
    """every source file the build of the four contracts can see"""
    out = []
    for top in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, top)
        if top in ("target", ".git", "node_modules", "audits", "js"):
            continue
        if os.path.isfile(p):
            out.append(top)
            continue
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "test_snapshots", "node_modules", ".git"))
            for f in sorted(fs):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def _wasm():
    r = {}
    for c in CRATES:
        p = os.path.join(REPO, WREL, c + ".wasm")
        if not os.path.isfile(p):
            p = os.path.join(VERIF, "wasm", c + ".wasm")
        r[c] = p
    return r


def _hash(paths):
    h = hashlib.sha256()
    for name, p in paths:
        h.update(name.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _toolchain(name, what="rustc"):
    r = subprocess.run(["rustup", "which", "--toolchain", name, what], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("no toolchain %s: %s" % (name, r.stderr))
    return r.stdout.strip()


def extract(verbose=False, keep=None):
    build = os.path.join(VERIF, "build")
    os.makedirs(os.path.join(build, "cache"), exist_ok=True)
    with open(os.path.join(build, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract(build, verbose)


def _extract(build, verbose):
    files = _files()
    wasm = _wasm()
    drv = [("driver/" + f, os.path.join(VERIF, "driver", f)) for f in ("main.rs", "wrap.sh")]
    key = _hash([(f, os.path.join(REPO, f)) for f in files] + sorted(wasm.items()) + drv)
    out = os.path.join(build, "cache", key)
    if os.path.exists(os.path.join(out, "ok")):
        os.utime(out)
        return out
    t0 = time.time()
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    os.environ["PATH"] = env["PATH"]
    nrustc = _toolchain("nightly")
    sysroot = os.path.dirname(os.path.dirname(nrustc))
    # --- the driver (built in the background while the dependencies compile)
    dkey = _hash(drv)
    ddir = os.path.join(build, "driver-" + dkey)
    dbin = os.path.join(ddir, "blend-mir")
    dproc = None
    if not os.path.exists(dbin + ".ok"):
        shutil.rmtree(ddir, ignore_errors=True)
        os.makedirs(ddir)
        cmd = '"%s" --edition 2021 -O "%s" -o "%s" && touch "%s.ok" || { touch "%s.failed"; exit 1; }' % (
            nrustc, os.path.join(VERIF, "driver", "main.rs"), dbin, dbin, dbin)
        dproc = subprocess.Popen(["sh", "-c", cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # --- scratch copy of the sources
    work = os.path.join(build, "work")
    shutil.rmtree(work, ignore_errors=True)
    for f in files:
        d = os.path.join(work, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)
    os.makedirs(os.path.join(work, WREL))
    for c, p in wasm.items():
        shutil.copyfile(p, os.path.join(work, WREL, c + ".wasm"))
    # --- ethnum, patched for the newer compiler
    reg = os.path.join(env["HOME"], ".cargo/registry/src")
    eth = None
    for d in sorted(os.listdir(reg)):
        p = os.path.join(reg, d, "ethnum-1.5.0")
        if os.path.isdir(p):
            eth = os.path.join(build, "ethnum")
            shutil.rmtree(eth, ignore_errors=True)
            shutil.copytree(p, eth)
            ep = os.path.join(eth, "src/error.rs")
            s = open(ep).read().replace("mem::transmute(())", "mem::transmute(0u8)")
            open(ep, "w").write(s)
            break
    dump = os.path.join(build, "dump")
    tdir = os.path.join(build, "target")
    env.update({
        "RUSTUP_TOOLCHAIN": STABLE, "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": tdir,
        "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
        "RUSTC": nrustc, "RUSTC_WRAPPER": os.path.join(VERIF, "driver", "wrap.sh"),
        "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"), "RUSTC_BOOTSTRAP": "1",
        "BLEND_DRIVER": dbin, "BLEND_DUMP_CRATES": ",".join(CRATES), "BLEND_DUMP_DIR": dump,
    })
    if eth:
        env["BLEND_ETHNUM_SRC"] = eth
    cmd = ["cargo", "check", "--release", "--locked", "--offline", "--lib"]
    for c in CRATES:
        cmd += ["-p", PKGS[c]]

    def run(threads):
        shutil.rmtree(dump, ignore_errors=True)
        os.makedirs(dump)
        fp = os.path.join(tdir, "release", ".fingerprint")
        if os.path.isdir(fp):  # never let cargo skip the contracts
            for d in os.listdir(fp):
                if d.rsplit("-", 1)[0] in PKGS.values():
                    shutil.rmtree(os.path.join(fp, d))
        env["RUSTFLAGS"] = ("-Awarnings " + ("-Zthreads=8 " if threads else "")
                            + '--cfg curve25519_dalek_backend="serial"')
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 0 and all(os.path.exists(os.path.join(dump, c + ".json")) for c in CRATES)
        return ok, r.stdout

    ok, log = run(True)
    if dproc:
        dlog = dproc.communicate()[0]
        if dproc.returncode:
            raise ExtractError("driver does not build:\n" + dlog)
    if not ok:
        ok, log = run(False)
    if not ok:
        # the imported wasm may be older than the sources: rebuild the interfaces as build.sh does
        e2 = {k: v for k, v in env.items() if not k.startswith("BLEND_") and k not in
              ("RUSTC", "RUSTC_WRAPPER", "LD_LIBRARY_PATH", "RUSTFLAGS", "RUSTC_BOOTSTRAP")}
        e2["CARGO_TARGET_DIR"] = os.path.join(work, "target")
        for c in ("emitter", "pool_factory", "backstop"):
            r = subprocess.run(["cargo", "rustc", "--manifest-path=%s/Cargo.toml" % PKGS[c], "--crate-type=cdylib",
                                "--target=wasm32-unknown-unknown", "--release", "--locked", "--offline"],
                               cwd=work, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ExtractError("the sources do not compile:\n" + log[-3000:] + r.stdout[-3000:])
        ok, log = run(True)
    if not ok:
        raise ExtractError("the sources do not compile:\n" + log[-6000:])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(dump, out)
    shutil.rmtree(work, ignore_errors=True)
    open(os.path.join(out, "ok"), "w").write("%.1f" % (time.time() - t0))
    # keep the cache small
    cs = sorted((os.path.join(build, "cache", d) for d in os.listdir(os.path.join(build, "cache"))), key=os.path.getmtime)
    for d in cs[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    if verbose:
        print("extracted in %.1fs" % (time.time() - t0), file=sys.stderr)
    return out


if __name__ == "__main__":
    print(extract(True))
