"""Builds the extraction driver and extracts the type-checked program from /repo.

Nothing of the repository is executed: `cargo +nightly check` type-checks the two Rust
crates through the mirdump wrapper, which writes monomorphised MIR, evaluated constants and
type layouts as JSON.  Dumps are cached by the content hash of every input.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XORCA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "+nightly"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), "\n".join(l[:400] for l in r.stdout.splitlines()[-60:])))
    return r.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = _run(["rustc", TOOLCHAIN, "--print", "sysroot"], env=_env()).strip().splitlines()[-1]
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def ensure_driver():
    drv = os.path.join(VERIF, "driver")
    key = _hash_files([drv + "/src/main.rs", drv + "/Cargo.toml"])
    out = os.path.join(BUILD, "mirdump-" + key)
    if os.path.exists(out):
        return out
    with Lock("driver"):
        if os.path.exists(out):
            return out
        e = _env()
        _run(["cargo", TOOLCHAIN, "build", "--offline", "--release", "--target-dir", os.path.join(BUILD, "driver"),
              "--manifest-path", drv + "/Cargo.toml"], env=e)
        shutil.copy2(os.path.join(BUILD, "driver/release/mirdump"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


def _ethnum_swap():
    """ethnum 1.5.2 (pulled in by a client dependency, unused by the repository) contains a
    transmute this nightly rejects; substitute a copy whose one offending function body is
    replaced.  The crate is never analysed."""
    cands = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/ethnum-1.5.2"))
    if not cands:
        return None
    dst = os.path.join(BUILD, "ethnum")
    if not os.path.exists(dst + "/.ok"):
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(cands[0], dst)
        p = dst + "/src/error.rs"
        s = open(p).read()
        s = s.replace("unsafe { mem::transmute(()) }", 'panic!("stub")')
        open(p, "w").write(s)
        open(dst + "/.ok", "w").close()
    return dst + "/src/lib.rs"


CRATES = {
    # crate name -> (package, features, source globs)
    "xorca_staking_program": ("xorca-staking-program", None),
    "xorca": ("xorca", "fetch,wasm,serde"),
    # instantiates the client's generic items and constants (witness/lib.rs)
    "xw": ("xw", None),
}

# crates whose on-chain (`target_os = "solana"`) branches are analysed
SOLANA = ("xorca_staking_program,pinocchio,pinocchio_log,pinocchio_pubkey,pinocchio_system,"
          "pinocchio_token,pinocchio_associated_token_account")

STOP = ",".join([
    "core::fmt::", "std::fmt::", "alloc::fmt::", "std::io::", "std::sync::", "std::thread::", "std::time::",
    "std::rt::", "std::sys::", "std::backtrace::", "std::collections::HashMap", "std::collections::hash",
    "std::panicking", "core::panicking", "std::alloc::Global", "std::alloc::handle", "std::alloc::alloc", "std::alloc::System", "alloc::alloc::", "core::str::", "std::net::",
    "tokio::", "futures", "reqwest", "solana_client::", "solana_rpc_client", "base64::", "bs58::", "serde_json::",
    "hashbrown::", "kaigan::", "solana_transaction", "solana_message", "solana_signer", "num_traits::", "toml", "ed25519", "curve25519", "tracing", "log::",
    "base58::", "wasm_bindgen", "js_sys", "serde_wasm", "<str as", "alloc::str::", "alloc::string::",
])


def _src_files():
    out = []
    for d in ("solana-program", "rust-client"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("target", "node_modules", ".git")]
            out += [os.path.join(root, f) for f in files]
    for f in ("Cargo.toml", "Cargo.lock"):
        out.append(os.path.join(REPO, f))
    out += glob.glob(VERIF + "/witness/*")
    return [p for p in out if os.path.isfile(p)]


def dump(crate, features="default"):
    """Return the parsed dump of `crate`; extract it from REPO's current tree when needed."""
    drv = ensure_driver()
    pkg, feat = CRATES[crate]
    if features != "default":
        feat = features
    key = hashlib.sha256((_hash_files(_src_files()) + drv + STOP + SOLANA + str(feat) + REPO).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "dumps", key)
    path = os.path.join(d, crate + ".json")
    if not os.path.exists(path):
        with Lock("extract"):
            if not os.path.exists(path):
                _extract(drv, crate, pkg, feat, d)
    with open(path) as f:
        return json.load(f)


def _extract(drv, crate, pkg, feat, d):
    base = os.path.join(BUILD, "dumps")
    os.makedirs(base, exist_ok=True)
    # keep the cache bounded
    olds = sorted(glob.glob(base + "/*"), key=os.path.getmtime)
    for o in olds[:-6]:
        shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    tgt = os.path.join(BUILD, "target-" + crate + ("" if feat in (None, CRATES[crate][1]) else "-" + feat.replace(",", "-")))
    for p in glob.glob(tgt + "/debug/.fingerprint/xorca*") + glob.glob(tgt + "/debug/build/xorca*"):
        shutil.rmtree(p, ignore_errors=True)
    e = _env()
    e["RUSTC_WRAPPER"] = drv
    e["MIRDUMP_OUT"] = d
    e["MIRDUMP_CRATES"] = crate
    e["MIRDUMP_STOP"] = STOP
    if crate == "xorca_staking_program":
        e["MIRDUMP_SOLANA"] = SOLANA
    sw = _ethnum_swap()
    if sw:
        e["MIRDUMP_SWAP"] = "ethnum=" + sw
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    if crate == "xw":
        w = os.path.join(BUILD, "witness")
        os.makedirs(w, exist_ok=True)
        shutil.copy(VERIF + "/witness/lib.rs", w)
        shutil.copy(REPO + "/Cargo.lock", w)
        with open(VERIF + "/witness/Cargo.toml.in") as f, open(w + "/Cargo.toml", "w") as g:
            g.write(f.read().replace("@REPO@", REPO))
        tgt = os.path.join(BUILD, "target-xorca")
        for p in glob.glob(tgt + "/debug/.fingerprint/xw*"):
            shutil.rmtree(p, ignore_errors=True)
        cmd = ["cargo", TOOLCHAIN, "check", "--offline", "--lib", "--target-dir", tgt, "--manifest-path", w + "/Cargo.toml"]
    else:
        cmd = ["cargo", TOOLCHAIN, "check", "--offline", "--locked", "--lib", "-p", pkg, "--target-dir", tgt,
               "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    if feat:
        cmd += ["--features", feat]
    _run(cmd, env=e, cwd=REPO)
    if not os.path.exists(os.path.join(d, crate + ".json")):
        raise ExtractError("the wrapper did not dump " + crate)


if __name__ == "__main__":
    t = time.time()
    for c in sys.argv[1:] or list(CRATES):
        j = dump(c)
        print(c, len(j["insts"]), "instances", len(j["types"]), "types", round(time.time() - t, 1), "s")
