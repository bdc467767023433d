"""A private PostgreSQL server (unix socket, unprivileged user, data in a scratch directory)
and a small client for it."""
import atexit, os, re, resource, shutil, signal, socket, struct, subprocess, tempfile, time
import build

PORT = 5432
BIN = build.PGROOT + "/usr/lib/postgresql/16/bin/"


class PgError(Exception):
    def __init__(self, code, msg, fields=None):
        Exception.__init__(self, "%s: %s" % (code, msg))
        self.code, self.msg, self.fields = code, msg, fields or {}


class PgCrash(Exception):
    """the backend went away while it ran a statement"""


class PgTimeout(Exception):
    pass


def _demote():
    import pwd
    os.setsid()
    if os.getuid() == 0:
        p = pwd.getpwnam("postgres")
        os.setgroups([])
        os.setgid(p.pw_gid)
        os.setuid(p.pw_uid)
    os.environ.clear()


class Server:
    def __init__(self, conf="", so_env=None, extension=True, mem=None, asan=False, root=None):
        self.dir = tempfile.mkdtemp(prefix="vpg.", dir="/tmp")
        self.data = self.dir + "/data"
        self.logf = self.dir + "/log"
        self.proc = None
        self.so_env = so_env or {}
        self.bin = ((build.ASAN_ROOT if asan else root or build.PGROOT) + BIN[len(build.PGROOT):])
        self.asan = asan
        self.mem = mem  # address space limit of each server process, in bytes
        atexit.register(self.stop)
        os.chmod(self.dir, 0o755)
        self._pid = os.getpid()
        if os.getuid() == 0:
            shutil.chown(self.dir, "postgres", "postgres")
        env = {"PATH": BIN + ":/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": self.dir}
        p = subprocess.run([self.bin + "initdb", "-D", self.data, "-A", "trust", "-U", "postgres", "-E", "UTF8",
                            "--no-sync", "--locale=C.UTF-8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, preexec_fn=_demote, env=env, cwd="/")
        if p.returncode:
            raise build.BuildError("initdb failed: " + p.stdout[-2000:])
        with open(self.data + "/postgresql.conf", "a") as f:
            f.write("""
listen_addresses = ''
unix_socket_directories = '%s'
port = %d
fsync = off
synchronous_commit = off
full_page_writes = off
autovacuum = off
max_connections = 40
max_worker_processes = 32
max_parallel_workers = 24
shared_buffers = 128MB
timezone = 'UTC'
log_timezone = 'UTC'
datestyle = 'ISO, MDY'
intervalstyle = 'postgres'
restart_after_crash = on
max_stack_depth = 2MB
jit = off
log_min_messages = warning
log_min_error_statement = panic
extra_float_digits = 1
default_toast_compression = pglz
max_wal_size = 4GB
wal_level = minimal
max_wal_senders = 0
%s
""" % (self.dir, PORT, conf))
        self.env = env
        if asan:
            # reports go to <dir>/asan.<pid>; reports of the second process of a pair do not overwrite them
            self.so_env = dict(self.so_env, LD_PRELOAD=build.ASAN_RT, ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer",
                               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:detect_odr_violation=0:allocator_may_return_null=1:"
                                            "max_allocation_size_mb=3000:hard_rss_limit_mb=4000:malloc_context_size=12:log_path=%s/asan" % self.dir)
        self.start()
        if extension:
            c = self.connect()
            c.exec("CREATE EXTENSION timescaledb_toolkit")
            c.exec("CHECKPOINT")
            c.close()

    def _limited(self):
        _demote()
        if self.mem:
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
        if self.asan:
            resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))  # instrumented frames are several times larger
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def start(self):
        env = dict(self.env)
        env.update(self.so_env)
        self.proc = subprocess.Popen([self.bin + "postgres", "-D", self.data], stdout=open(self.logf, "a"),
                                     stderr=subprocess.STDOUT, preexec_fn=self._limited, env=env, cwd="/")
        for _ in range(600):
            if self.proc.poll() is not None:
                raise build.BuildError("postgres did not start: " + open(self.logf, errors="replace").read()[-3000:])
            try:
                c = self.connect()
                c.close()
                return
            except (OSError, PgError, PgCrash):
                time.sleep(0.05)
        raise build.BuildError("postgres did not come up")

    def connect(self, **kw):
        return Conn(self.dir, **kw)

    def wait_up(self, secs=30):
        t = time.time()
        while time.time() - t < secs:
            try:
                self.connect().close()
                return True
            except (OSError, PgError, PgCrash):
                time.sleep(0.1)
        return False

    def log(self):
        try:
            return open(self.logf, errors="replace").read()
        except OSError:
            return ""

    def asan_report(self, pid=None):
        """the sanitizer's report for a process, or every report: {pid: text}"""
        out = {}
        for f in os.listdir(self.dir):
            if f.startswith("asan."):
                out[int(f[5:])] = open(os.path.join(self.dir, f), errors="replace").read()
        return out if pid is None else out.get(pid)

    def crashes(self):
        return re.findall(r".*(?:was terminated by signal|PANIC:|exited with exit code (?!1\b)).*", self.log())

    def stop(self):
        if os.getpid() != self._pid:
            return
        if self.proc is not None:
            try:
                self.proc.send_signal(signal.SIGQUIT)
                self.proc.wait(15)
            except Exception:
                try:
                    os.killpg(self.proc.pid, signal.SIGKILL)
                except Exception:
                    pass
                try:
                    self.proc.wait(5)
                except Exception:
                    pass
            self.proc = None
        if self.dir.startswith("/tmp/vpg."):
            shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    def __init__(self, sockdir, user="postgres", db="postgres", timeout=120.0):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        self.timeout = timeout
        self.sockpath = "%s/.s.PGSQL.%d" % (sockdir, PORT)
        self.s.connect(self.sockpath)
        self.buf = b""
        self.notices = []
        body = struct.pack("!i", 196608) + b"user\0" + user.encode() + b"\0database\0" + db.encode() + b"\0client_encoding\0UTF8\0\0"
        self.s.sendall(struct.pack("!i", len(body) + 4) + body)
        self.pid = self.key = None
        err = None
        while True:
            t, b = self._msg()
            if t == b"E":
                f = self._fields(b)
                raise PgError(f.get("C"), f.get("M"), f)
            if t == b"K":
                self.pid, self.key = struct.unpack("!ii", b)
            if t == b"Z":
                break

    def _recv(self, n):
        while len(self.buf) < n:
            try:
                d = self.s.recv(1 << 16)
            except socket.timeout:
                raise PgTimeout("no answer in %s s" % self.timeout)
            except OSError as e:
                raise PgCrash("connection lost: %s" % e)
            if not d:
                raise PgCrash("connection closed by the server")
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def _msg(self):
        h = self._recv(5)
        n = struct.unpack("!i", h[1:])[0] - 4
        return h[:1], self._recv(n)

    @staticmethod
    def _fields(b):
        f = {}
        for part in b.split(b"\0"):
            if part:
                f[chr(part[0])] = part[1:].decode("utf8", "replace")
        return f

    def _send(self, q):
        b = q.encode("utf8") + b"\0"
        try:
            self.s.sendall(b"Q" + struct.pack("!i", len(b) + 4) + b)
        except OSError as e:
            raise PgCrash("connection lost: %s" % e)

    def query(self, q):
        """Returns the rows (lists of str/None) of the last statement in q."""
        self._send(q)
        rows, err, fatal = [], None, None
        while True:
            t, b = self._msg()
            if t == b"T":
                rows = []
            elif t == b"D":
                n = struct.unpack("!h", b[:2])[0]
                o, r = 2, []
                for _ in range(n):
                    ln = struct.unpack("!i", b[o:o + 4])[0]
                    o += 4
                    if ln < 0:
                        r.append(None)
                    else:
                        r.append(b[o:o + ln].decode("utf8", "replace"))
                        o += ln
                rows.append(r)
            elif t == b"E":
                f = self._fields(b)
                err = PgError(f.get("C"), f.get("M"), f)
                if f.get("V", f.get("S")) in ("FATAL", "PANIC"):
                    raise PgCrash("backend ended: " + str(err))
            elif t == b"N":
                self.notices.append(self._fields(b))
                del self.notices[:-20]
            elif t == b"Z":
                break
        if err:
            raise err
        return rows

    exec = query

    def one(self, q):
        r = self.query(q)
        return r[0] if r else None

    def val(self, q):
        r = self.one(q)
        return r[0] if r else None

    def cancel(self):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.sockpath)
        s.sendall(struct.pack("!iiii", 16, 80877102, self.pid, self.key & 0xffffffff if self.key >= 0 else self.key))
        s.close()

    def close(self):
        try:
            self.s.sendall(b"X" + struct.pack("!i", 4))
        except OSError:
            pass
        self.s.close()


# ---- literals and values ---------------------------------------------------------------

US = 1000000
PG_EPOCH_DAYS = 10957  # 1970-01-01 .. 2000-01-01


def _civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + 1 if m <= 2 else y), m, d


def _days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def ts_text(us):
    """microseconds since 2000-01-01 00:00 UTC -> text"""
    if us == "inf":
        return "infinity"
    if us == "-inf":
        return "-infinity"
    days, rem = divmod(us, 86400 * US)
    y, m, d = _civil(days + PG_EPOCH_DAYS)
    bc = ""
    if y <= 0:
        y, bc = 1 - y, " BC"
    s, f = divmod(rem, US)
    return "%04d-%02d-%02d %02d:%02d:%02d.%06d+00%s" % (y, m, d, s // 3600, s // 60 % 60, s % 60, f, bc)


def ts_lit(us):
    return "NULL::timestamptz" if us is None else "'%s'::timestamptz" % ts_text(us)


_TS = re.compile(r"(\d+)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d+))?\+00( BC)?$")


def ts_parse(s):
    if s is None:
        return None
    if s == "infinity":
        return "inf"
    if s == "-infinity":
        return "-inf"
    m = _TS.match(s)
    if not m:
        raise ValueError("timestamp " + repr(s))
    y = int(m[1])
    if m[8]:
        y = 1 - y
    f = int((m[7] or "0").ljust(6, "0"))
    return ((_days(y, int(m[2]), int(m[3])) - PG_EPOCH_DAYS) * 86400 + int(m[4]) * 3600 + int(m[5]) * 60 + int(m[6])) * US + f


def f_lit(v):
    if v is None:
        return "NULL::float8"
    if v != v:
        return "'NaN'::float8"
    if v in (float("inf"), float("-inf")):
        return "'%s'::float8" % ("Infinity" if v > 0 else "-Infinity")
    return "'%r'::float8" % float(v)


def f_parse(s):
    if s is None:
        return None
    return float(s.replace("Infinity", "inf"))


def i_parse(s):
    return None if s is None else int(s)


def s_lit(s):
    if s is None:
        return "NULL::text"
    return "'" + s.replace("'", "''") + "'" if "\\" not in s else "E'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


def iv_lit(us):
    return "NULL::interval" if us is None else "'%d us'::interval" % us if -2**31 < us < 2**31 else \
        "('%d s'::interval + '%d us'::interval)" % (us // US, us % US) if abs(us // US) < 2**31 else \
        "make_interval(hours => %d, secs => %d.%06d)" % (us // (3600 * US), us // US % 3600, us % US)


def rows_values(rows, n):
    return "(VALUES " + ",".join("(" + ",".join(r) + ")" for r in rows) + ")"


IVSEC = "(extract(epoch from (%s))*1000000)::bigint"
