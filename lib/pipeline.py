"""Build pipeline: /repo's current sources + harness crate -> one LLVM IR module per configuration.

Every step is driven by the real compiler; nothing about the code under test is written down here.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("RSYM_BUILD", os.path.join(ROOT, ".build"))
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LOCK = "/opt/vp/Cargo.lock"

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_BOOTSTRAP="1",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        del ENV[k]

# name -> (crate dir, cargo profile, target subdirectory of the profile, features)
CONFIGS = {
    "dev": ("harness", "dev", "debug", "std,rayon"),
    "rel": ("harness", "rel", "rel", "std,rayon"),
    "devseq": ("harness", "dev", "debug", "std"),
    "relseq": ("harness", "rel", "rel", "std"),
    "devderive": ("harness", "dev", "debug", "std,exotic"),
    "relderive": ("harness", "rel", "rel", "std,exotic"),
    "devnostd": ("harness", "dev", "debug", "nalgebra"),
    "devserde": ("harness", "dev", "debug", "std,serde"),
    "relserde": ("harness", "rel", "rel", "std,serde"),
    "devros": ("harness-ros", "dev", "debug", "jazzy"),
    "relros": ("harness-ros", "rel", "rel", "jazzy"),
    "devros1": ("harness-ros", "dev", "debug", "ros1"),
    "relros1": ("harness-ros", "rel", "rel", "ros1"),
    "devr2r": ("harness-ros", "dev", "debug", "r2r"),
    "relr2r": ("harness-ros", "rel", "rel", "r2r"),
}


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, log=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), out[-6000:]))
    return out


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"]).strip()
    return _sysroot


def llbin(t):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", t)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths, exts=(".rs", ".toml")):
    h = hashlib.sha256()
    for base in paths:
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build") and not x.startswith("target-"))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, "/").encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()


def repo_hash():
    return tree_hash([os.path.join(REPO, "rpcl2"), os.path.join(REPO, "rpcl2-derive")])


def build_engine():
    with Lock("engine"):
        src = os.path.join(ROOT, "engine")
        tgt = os.path.join(BUILD, "engine")
        hv = tree_hash([src])
        exe = os.path.join(tgt, "release/rsym")
        stamp = os.path.join(tgt, "stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hv:
            return exe
        env = dict(ENV)
        env.pop("RUSTC_BOOTSTRAP")
        run(["cargo", "build", "--release", "--offline", "--target-dir", tgt], cwd=src, env=env)
        out = run([exe, "--selftest"])
        if "0 problem(s)" not in out:
            raise BuildError("engine self test failed: " + out[-2000:])
        open(stamp, "w").write(hv)
        return exe


def build_std():
    """Bitcode of the precompiled standard library (same code that is linked into real programs)."""
    with Lock("std"):
        ver = run(["rustc", "-vV"])
        d = os.path.join(BUILD, "std-" + hashlib.sha256(ver.encode()).hexdigest()[:12])
        if os.path.exists(os.path.join(d, "ok")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
        for name in ("std", "core", "alloc", "compiler_builtins", "hashbrown", "cfg_if", "memchr", "rustc_std_workspace_core",
                     "rustc_std_workspace_alloc", "libc", "std_detect", "panic_abort"):
            for r in glob.glob(os.path.join(lib, "lib%s-*.rlib" % name)):
                w = os.path.join(d, name)
                os.makedirs(w, exist_ok=True)
                run([llbin("llvm-ar") if os.path.exists(llbin("llvm-ar")) else "ar", "x", r], cwd=w)
                for o in sorted(glob.glob(os.path.join(w, "*.o"))):
                    bc = o[:-2] + ".bc"
                    p = subprocess.run([llbin("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                    os.unlink(o)
                    if p.returncode != 0 and os.path.exists(bc):
                        os.unlink(bc)
        open(os.path.join(d, "ok"), "w").write("1")
        return d


def _bcs(std, name):
    return sorted(glob.glob(os.path.join(std, name, "*.bc")))


def cargo_build(cfg, log):
    crate, profile, sub, feats = CONFIGS[cfg]
    src = os.path.join(ROOT, crate)
    tgt = os.path.join(BUILD, "t-" + cfg)
    os.makedirs(tgt, exist_ok=True)
    lock = os.path.join(src, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(LOCK, lock)
    # cargo decides by modification time; decide by content instead
    hv = repo_hash() + tree_hash([src, os.path.join(ROOT, "harness", "src"), os.path.join(ROOT, "stubs")])
    stamp = os.path.join(tgt, "stamp")
    env = dict(ENV)
    env["RUSTFLAGS"] = "--emit=llvm-bc,link -Zshare-generics=no -Zalways-encode-mir -Awarnings"
    base = ["--offline", "--target-dir", tgt, "--profile", profile]
    if not (os.path.exists(stamp) and open(stamp).read() == hv):
        if os.path.exists(stamp):
            os.unlink(stamp)
        for pk in ("ros_pointcloud2", "rpcl2-derive", "rayon-core", "r2r", "rosrust", "rosrust_msg", crate):
            u = pk.replace("-", "_")
            for f in glob.glob(os.path.join(tgt, sub, ".fingerprint", pk + "-*")):
                shutil.rmtree(f)
            for f in glob.glob(os.path.join(tgt, sub, "deps", "*")):
                if re.match(r"(lib)?%s-[0-9a-f]{16}\." % u, os.path.basename(f)):
                    os.unlink(f)
        for f in glob.glob(os.path.join(tgt, sub, "deps", "replay-*")):
            os.unlink(f)
    cmd = ["cargo", "build"] + base + (["--features", feats] if feats else [])
    out = run(cmd, cwd=src, env=env)
    open(os.path.join(tgt, "build.log"), "w").write(out)
    open(stamp, "w").write(hv)
    return hv


def find_entries(src):
    names = []
    for f in sorted(glob.glob(os.path.join(src, "src", "*.rs"))):
        names += re.findall(r"^\s*(h_\w+)\s*\(", open(f).read(), re.M)
    return names


def build_ir(cfg):
    """Returns dict(ll=..., replay=..., hash=...)."""
    crate, profile, sub, feats = CONFIGS[cfg]
    t0 = time.time()
    std = build_std()
    with Lock("cfg-" + cfg):
        hv = cargo_build(cfg, None)
        tgt = os.path.join(BUILD, "t-" + cfg)
        deps = os.path.join(tgt, sub, "deps")
        ll = os.path.join(tgt, "m.ll")
        stamp = os.path.join(tgt, "m.stamp")
        src = os.path.join(ROOT, crate)
        replay = os.path.join(tgt, sub, "replay")
        if not os.path.exists(replay):
            raise BuildError("no replay binary")
        if not (os.path.exists(ll) and os.path.exists(stamp) and open(stamp).read() == hv):
            mods = {}
            for f in glob.glob(os.path.join(deps, "*.bc")):
                n = os.path.basename(f).rsplit("-", 1)[0]
                if n in mods and os.path.getmtime(f) < os.path.getmtime(mods[n]):
                    continue
                mods[n] = f
            root = mods.pop(crate.replace("-", "_"))
            mods.pop("replay", None)
            skip = {"syn", "quote", "proc_macro2", "unicode_ident", "rpcl2_derive", "autocfg", "paste", "serde_derive", "libc"}
            others = [mods[k] for k in sorted(mods) if k not in skip and not k.startswith("build_script")]
            others.sort(key=lambda f: not os.path.basename(f).startswith("ros_pointcloud2"))
            core, alloc = _bcs(std, "core"), _bcs(std, "alloc")
            rest = _bcs(std, "std") + _bcs(std, "hashbrown") + _bcs(std, "memchr") + _bcs(std, "compiler_builtins")
            lb = os.path.join(tgt, "l.bc")
            mb = os.path.join(tgt, "m.bc")
            run([llbin("llvm-link"), "--only-needed", "-o", lb, root] + others + others + _bcs(std, "std") + alloc + core + alloc + core + rest)
            names = find_entries(src)
            run([llbin("opt"), "-passes=internalize,globaldce,mem2reg,globaldce", "--internalize-public-api-list=" + ",".join(names), "-o", mb, lb])
            run([llbin("llvm-dis"), "-o", ll, mb])
            os.unlink(lb)
            os.unlink(mb)
            open(stamp, "w").write(hv)
        opt = None
        return dict(cfg=cfg, ll=ll, replay=replay, hash=hv, build_s=time.time() - t0)


def build_opt(cfg):
    """Optimised native replay binary (release profile, optimiser on)."""
    crate, profile, sub, feats = CONFIGS[cfg]
    raise NotImplementedError
