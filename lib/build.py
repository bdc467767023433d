"""Builds the extension from /repo's current working tree and lays out a private, relocated
copy of the PostgreSQL 16 installation with the extension installed in it.

Everything is written below /verif/.build; nothing in /repo is touched (cargo's target
directory is ours)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
PGROOT = os.path.join(BUILD, "pgroot")
SQL = os.path.join(BUILD, "ext.sql")


class BuildError(Exception):
    pass


def _sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh\n" + cmd], cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths=("Cargo.toml", "Cargo.lock", "crates", "extension", ".cargo")):
    h = hashlib.sha256()
    for p in paths:
        full = os.path.join(REPO, p)
        if os.path.isfile(full):
            files = [full]
        else:
            files = []
            for d, ds, fs in os.walk(full):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def _cargo_build(extra_env=""):
    return _sh("export CARGO_TARGET_DIR=%s; %s cargo build --lib --offline --no-default-features --features pg16"
               % (TARGET, extra_env), cwd=REPO + "/extension")


def ensure(verbose=False):
    """Returns the tree hash of what is installed in PGROOT."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        stampf = os.path.join(BUILD, "stamp")
        stamp = open(stampf).read() if os.path.exists(stampf) else ""
        so = os.path.join(TARGET, "debug", "libtimescaledb_toolkit.so")
        t0 = time.time()
        before = os.stat(so).st_mtime_ns if os.path.exists(so) else None
        out = _cargo_build()
        after = os.stat(so).st_mtime_ns
        if stamp and stamp != h and before == after and "Compiling" not in out:
            # the contents differ from what was built, but cargo's timestamps did not show it
            names = " ".join("-p " + n for n in _workspace_names())
            _sh("export CARGO_TARGET_DIR=%s; cargo clean --offline %s" % (TARGET, names), cwd=REPO)
            _cargo_build()
        if stamp != h or not os.path.exists(SQL) or not os.path.exists(PGROOT + "/installed"):
            _sh("export CARGO_TARGET_DIR=%s; cargo pgrx schema --no-default-features --features pg16 --skip-build -o %s.tmp pg16"
                % (TARGET, SQL), cwd=REPO + "/extension")
            os.replace(SQL + ".tmp", SQL)
            _install(so)
            with open(stampf, "w") as f:
                f.write(h)
        if verbose:
            print("build: %.1f s" % (time.time() - t0))
        return h


ASAN_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
ASAN_ROOT = os.path.join(BUILD, "pgroot-asan")


def ensure_asan():
    """A second installation whose extension is built with AddressSanitizer. Call ensure() first."""
    target = os.path.join(BUILD, "target-asan")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        stampf = os.path.join(BUILD, "stamp-asan")
        if os.path.exists(stampf) and open(stampf).read() == h:
            return h
        so = os.path.join(target, "x86_64-unknown-linux-gnu", "debug", "libtimescaledb_toolkit.so")
        cmd = ("export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=%s RUSTFLAGS='-Zsanitizer=address -Cforce-frame-pointers=yes'; "
               "cargo build --lib --offline --no-default-features --features pg16 --target x86_64-unknown-linux-gnu" % target)
        before = os.stat(so).st_mtime_ns if os.path.exists(so) else None
        out = _sh(cmd, cwd=REPO + "/extension")
        if os.stat(so).st_mtime_ns == before and "Compiling" not in out:
            names = " ".join("-p " + n for n in _workspace_names())
            _sh("export CARGO_TARGET_DIR=%s; cargo clean --offline --target x86_64-unknown-linux-gnu %s" % (target, names), cwd=REPO)
            _sh(cmd, cwd=REPO + "/extension")
        if not os.path.exists(ASAN_ROOT + "/usr/lib/postgresql/16/bin/postgres"):
            shutil.rmtree(ASAN_ROOT, ignore_errors=True)
            shutil.copytree(PGROOT, ASAN_ROOT)
        _install(so, ASAN_ROOT)
        with open(stampf, "w") as f:
            f.write(h)
        return h


def _workspace_names():
    names = set()
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        if "Cargo.toml" in fs:
            m = re.search(r'^\[package\][^\[]*?^name\s*=\s*"([^"]+)"', open(os.path.join(d, "Cargo.toml")).read(), re.M | re.S)
            if m:
                names.add(m.group(1))
    return sorted(names)


def _install(so, PGROOT=PGROOT):
    if not os.path.exists(PGROOT + "/usr/lib/postgresql/16/bin/postgres"):
        if os.path.isdir(PGROOT):
            shutil.rmtree(PGROOT)
        os.makedirs(PGROOT + "/usr/lib/postgresql")
        os.makedirs(PGROOT + "/usr/share/postgresql")
        shutil.copytree("/usr/lib/postgresql/16", PGROOT + "/usr/lib/postgresql/16", symlinks=False,
                        ignore=shutil.ignore_patterns("bitcode"))
        shutil.copytree("/usr/share/postgresql/16", PGROOT + "/usr/share/postgresql/16", symlinks=False,
                        ignore_dangling_symlinks=True)
    lib = PGROOT + "/usr/lib/postgresql/16/lib/"
    ext = PGROOT + "/usr/share/postgresql/16/extension/"
    for d in (lib, ext):
        for f in os.listdir(d):
            if f.startswith("timescaledb_toolkit"):
                os.unlink(d + f)
    shutil.copyfile(so, lib + "timescaledb_toolkit.so")
    os.chmod(lib + "timescaledb_toolkit.so", 0o755)
    m = re.search(r'^version\s*=\s*"([^"]+)"', open(REPO + "/extension/Cargo.toml").read(), re.M)
    version = m.group(1)
    ctl = open(REPO + "/extension/timescaledb_toolkit.control").read().replace("@CARGO_VERSION@", version)
    open(ext + "timescaledb_toolkit.control", "w").write(ctl)
    shutil.copyfile(SQL, ext + "timescaledb_toolkit--%s.sql" % version)
    open(PGROOT + "/installed", "w").write(version)


if __name__ == "__main__":
    print(ensure(verbose=True))
