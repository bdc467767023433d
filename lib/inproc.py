"""The in-process harness (/verif/harness): it drives the repository's crates directly, built three
ways: natively with debug assertions, with AddressSanitizer, and for Miri."""
import fcntl, os, re, shutil, subprocess
import build

SRC = os.path.join(build.VERIF, "harness")
DIR = os.path.join(build.BUILD, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
SYSROOT = os.path.join(build.BUILD, "miri-sysroot")
MIRIFLAGS = "-Zmiri-disable-isolation"


def _target(mode):
    return os.path.join(build.BUILD, "ht-" + mode)


def _cmd(mode, args):
    if mode == "native":
        return "CARGO_TARGET_DIR=%s cargo %s --offline -q" % (_target(mode), args)
    if mode == "asan":
        return ("RUSTC_BOOTSTRAP=1 RUSTFLAGS='-Zsanitizer=address -Cforce-frame-pointers=yes' CARGO_TARGET_DIR=%s "
                "cargo %s --offline -q --target %s" % (_target(mode), args, TRIPLE))
    return ("unset RUSTUP_TOOLCHAIN; MIRI_SYSROOT=%s MIRIFLAGS='%s' CARGO_TARGET_DIR=%s cargo +nightly miri %s --offline -q"
            % (SYSROOT, MIRIFLAGS, _target(mode), args))


def ensure(modes):
    h = build.tree_hash(("Cargo.toml", "crates", SRC))
    with open(os.path.join(build.BUILD, "lock-harness"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = []
        for m in modes:
            f = os.path.join(build.BUILD, "stamp-ht-" + m)
            if not (os.path.exists(f) and open(f).read() == h):
                todo.append(m)
        if not todo:
            return h
        os.makedirs(DIR + "/src", exist_ok=True)
        for f in ["Cargo.toml", "Cargo.lock"] + ["src/" + x for x in os.listdir(SRC + "/src")]:
            text = open(os.path.join(SRC, f)).read().replace("/repo/", build.REPO + "/")
            p = os.path.join(DIR, f)
            if not os.path.exists(p) or open(p).read() != text:
                open(p, "w").write(text)
        ps = []
        for m in todo:
            # cargo judges by timestamps, which a copied tree need not respect: forget the repository's crates
            for d, ds, fs in os.walk(_target(m)):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(ds):
                        if not os.path.exists(os.path.join(DIR, "keep")) and re.match(
                                r"(vh|flat_serialize|flat_serialize_macro|encodings|hyperloglogplusplus|tdigest)-[0-9a-f]+$", x):
                            shutil.rmtree(os.path.join(d, x))
                    ds[:] = []
            cmd = _cmd(m, "build") if m != "miri" else _cmd(m, "run") + " -- enc 1 0 0"
            if m == "miri" and not os.path.isdir(SYSROOT):
                cmd = "(unset RUSTUP_TOOLCHAIN; MIRI_SYSROOT=%s cargo +nightly miri setup --offline) && %s" % (SYSROOT, cmd)
            ps.append((m, subprocess.Popen(["bash", "-c", ". /opt/vp/env.sh\nexport CARGO_PROFILE_DEV_DEBUG=1\n" + cmd], cwd=DIR,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = None
        for m, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                bad = "the harness does not build (%s):\n%s" % (m, out[-6000:])
            else:
                open(os.path.join(build.BUILD, "stamp-ht-" + m), "w").write(h)
        if bad:
            raise build.BuildError(bad)
    return h


def run(mode, suite, seed, start, count, small, timeout):
    """(lines, None) or (lines, what went wrong: ("crash", text) or ("hang", text))"""
    args = "%s %d %d %d%s" % (suite, seed, start, count, " small" if small else "")
    env = dict(os.environ)
    if mode == "native":
        cmd = "%s/debug/vh %s" % (_target(mode), args)
    elif mode == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0"
        cmd = "%s/%s/debug/vh %s" % (_target(mode), TRIPLE, args)
    else:
        cmd = ". /opt/vp/env.sh\n" + _cmd(mode, "run") + " -- " + args
    p = subprocess.Popen(["bash", "-c", cmd], cwd=DIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return out.split("\n"), ("hang", "no end after %d s" % timeout)
    lines = out.split("\n")
    if p.returncode != 0 or "END" not in lines:
        m = re.search(r"error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: unsupported operation[^\n]*|ERROR: AddressSanitizer[^\n]*|fatal runtime error[^\n]*|panicked at[^\n]*\n[^\n]*", err)
        return lines, ("crash", "exit status %s: %s ... %s" % (p.returncode, m.group(0) if m else "", err[-2500:]))
    return lines, None


class Chunks:
    """A worker whose cases are runs of the harness: PLAN lists (mode, suite, cases per run)."""
    PLAN = []

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self, r, idx, rec):
        plan = self.PLAN
        mode, suite, count = plan[idx % len(plan)]
        start = (idx // len(plan)) * 100000 + (idx % len(plan)) * 1000000000
        lines, bad = run(mode, suite, self.ctx.seed, start, count, mode == "miri", 600)
        rec.sql("vh %s %d %d %d (%s)" % (suite, self.ctx.seed, start, count, mode))
        for l in lines:
            p = l.split("\t")
            if p[0] == "C":
                rec.count(p[1], int(p[2]))
            elif p[0] == "K":
                rec.keys.add(suite + p[1])
            elif p[0] == "F":
                rec.fail(p[2], "%s, case %s: %s" % (mode, p[1], p[3]))
            else:
                self.line(p, rec)
        rec.count("cases_" + mode, count)
        rec.sample = {"run": "vh %s %d %d %d" % (suite, self.ctx.seed, start, count), "build": mode}
        if bad and bad[0] == "hang":
            rec.inconclusive(bad[1])
        elif bad and "unsupported operation" in bad[1]:
            rec.inconclusive(bad[1])
        elif bad:
            rec.fail("%s:%s" % (suite, mode), "the %s build of vh %s %d %d %d ended: %s" % (mode, suite, self.ctx.seed, start, count, bad[1]))

    def line(self, p, rec):
        pass
