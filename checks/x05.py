"""Hostile input never takes the server down: every statement ends with a result or an ordinary error, can be cancelled, and leaves the session as it was."""
from run import SqlWorker
from pg import *
import pg, fuzz, re, time, random

ID = "X05"
QUICK, THOROUGH = 6000, 250000
RULE = ("statements generated by type from the server's catalogue: every function, aggregate and operator of the extension on hostile values of its argument types (extreme numbers, times, intervals, ranges, sizes, "
        "strings, lambdas nested deep, NULLs, summaries built from such values), and mutated text forms of every type, which if accepted go through their output, their accessors and rollups; the server process, "
        "its log, statement_timeout and a canary query with known answers are watched; distinct = distinct (function or type, outcome)")
ASSUMPTIONS = ["out of memory is judged by the size of the data: the server may use 3 GB per session", "Rust panics turned into an SQL error are ordinary errors"]
MUST_OBSERVE = ["returned", "refused", "mutation_accepted", "mutation_refused", "canary", "polymorphic", "aggregates", "operators", "functions", "accessor_of_mutated", "rollup_of_mutated", "deep_lambda", "known:template_recursion"]
MEM = 3 << 30
TIMEOUT, STMT_TIMEOUT = 30.0, 4

CANARY = ("SELECT stats_agg(x)->sum(), (percentile_agg(x) -> num_vals()), delta(counter_agg('2020-01-01'::timestamptz + x * '1 s'::interval, x)), (max_n(x, 2))::text, "
          "(timevector('2020-01-01'::timestamptz, x) -> (toolkit_experimental.map($$ ($time, $value + 1) $$)))::text FROM (VALUES (1::float8), (2), (3)) v(x)")
CANARY_ANSWER = ["6", "3", "2", "(version:1,capacity:2,elements:2,values:[3,2])"]


class Worker(SqlWorker):
    TIMEOUT = TIMEOUT
    STMT_TIMEOUT = STMT_TIMEOUT

    def __init__(self, ctx):
        SqlWorker.__init__(self, ctx)
        self.fz = fuzz.Fuzz(self.conn)
        self.fz.seed(random.Random("X05 corpus %d" % ctx.seed), self.conn, 4 if ctx.thorough else 2)
        self.targets = [("functions", f) for f in self.fz.fns] + [("aggregates", f) for f in self.fz.aggs] + [("operators", o) for o in self.fz.ops]
        self.poly = [(k, f) for k, f in self.targets if k != "operators" and any(a in ("anyelement", '"any"', "any") for a in f.args)]
        self.answer = None
        self.canary(None)

    def canary(self, rec):
        try:
            a = self.conn.query(CANARY)
        except (pg.PgCrash, pg.PgTimeout):
            if not rec:
                raise
            rec.sql(CANARY)
            self.died(rec, "canary", CANARY, self.conn.pid)
            return
        if self.answer is None:
            self.answer = a
        if rec:
            rec.count("canary")
            if a != self.answer:
                rec.fail("canary", "the session answers differently afterwards: %r instead of %r" % (a, self.answer))

    def run(self, rec, what, q):
        """-> ('ok', rows) / ('error', code); a dead or stuck backend is a violation"""
        rec.sql(q)
        pid = self.conn.pid
        t = time.time()
        try:
            rows = self.conn.query(q)
            rec.count("returned")
            rec.seen((what, "ok", rows[0][0] is None if rows and rows[0] else "none"))
            return "ok", rows
        except pg.PgError as e:
            if e.code == "57014":
                rec.count("timed_out")
            elif e.code == "53200":
                rec.count("out_of_memory")
            else:
                rec.count("refused")
            rec.seen((what, e.code))
            return "error", e
        except pg.PgTimeout:
            rec.fail("uninterruptible:" + what, "%s: statement_timeout was %d s, but the statement still runs after %d s: %s" % (what, STMT_TIMEOUT, TIMEOUT, q[:1500]))
            self.kill(pid)
            self.back()
            return "dead", None
        except pg.PgCrash:
            self.died(rec, what, q, pid)
            return "dead", None

    def died(self, rec, what, q, pid):
        """did our backend crash, or was it ended because another one did?"""
        m = None
        for _ in range(20):
            time.sleep(.1)
            m = re.search(r"server process \(PID %d\) (was terminated by signal \d+|exited with exit code \d+)" % pid, self.ctx.server.log())
            if m:
                break
        if m:
            rec.fail("crash:" + what, "%s: the backend %s: %s" % (what, m[1], q[:1500]))
        else:
            rec.count("disturbed")
        self.back()

    def kill(self, pid):
        # the stuck backend is one of our private server's own processes
        try:
            import os, signal
            if open("/proc/%d/stat" % pid).read().split()[3] == str(self.ctx.server.proc.pid):
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        time.sleep(.5)

    def back(self):
        self.ctx.server.wait_up(60)
        self.reconnect()

    def case(self, r, idx, rec):
        if idx == 0:
            self.known(rec)
        if idx % 60 == 31:
            q = fuzz.DEEP[idx // 60 % len(fuzz.DEEP)].replace("{n}", str(r.choice([1000, 5000, 40000])))
            rec.count("deep_lambda")
            self.run(rec, "deep lambda", "SELECT (timevector('2020-01-01'::timestamptz, 1.0) -> toolkit_experimental.%s((%s)::toolkit_experimental.lambda))::text" % (r.choice(["map", "filter"]), q))
        elif idx % 3 == 2:
            self.do_text(r, idx, rec)
        else:
            self.do_call(r, idx - idx // 3, rec)
        if idx % 5 == 0:
            self.canary(rec)

    def do_call(self, r, i, rec):
        kind, f = self.targets[i % len(self.targets)]
        if r.random() < .12:
            kind, f = r.choice(self.poly)
            rec.count("polymorphic")
        rec.count(kind)
        if kind == "operators":
            op, schema, left, right, res = f
            q = "(%s) OPERATOR(%s.%s) (%s)" % (self.fz.expr(r, left), schema, op, self.fz.expr(r, right))
            what = "%s %s %s" % (left, op, right)
        else:
            q = self.fz.call(r, f)
            what = f.key
        if re.search(r"repeat\(.*lambda", q):
            rec.count("deep_lambda")
        self.run(rec, what, "SELECT (%s)::text" % q if kind == "operators" or not f.srf == "t" else "SELECT count(*), min(z::text) FROM (SELECT %s z LIMIT 100000) q" % q)

    def do_text(self, r, idx, rec):
        fz = self.fz
        tys = sorted(fz.corpus)
        big = [t for t in tys if "accessor" not in t]
        ty = big[idx // 3 % len(big)] if r.random() < .8 else r.choice(tys)
        t = fz.mutate(r, r.choice(fz.corpus[ty]))
        lit = "%s::%s" % (s_lit(t), ty)
        st, _ = self.run(rec, "text of " + ty, "SELECT (%s)::text" % lit)
        if st != "ok":
            rec.count("mutation_refused")
            return
        rec.count("mutation_accepted")
        if self.ctx.thorough and len(fz.corpus[ty]) < 60 and len(t) < 5000:
            fz.corpus[ty].append(t)
        fs = fz.by_arg.get(ty, [])
        for f in r.sample(fs, min(len(fs), 4)):
            rec.count("accessor_of_mutated")
            q = fz.call(r, f, first=(ty, lit))
            if self.run(rec, f.key, "SELECT (%s)::text" % q if f.srf != "t" else "SELECT count(*), min(z::text) FROM (SELECT %s z LIMIT 100000) q" % q)[0] == "dead":
                return
        ro = [f for f in fz.aggs if f.args == [ty]]
        for f in ro[:1]:
            rec.count("rollup_of_mutated")
            o = [fz.expr(r, ty, 2) for _ in range(r.choice([0, 1, 2]))] + [lit]
            r.shuffle(o)
            self.run(rec, f.key, "SELECT %s(x)::text FROM (VALUES %s) d(x)" % (f.sqlname, ",".join("(%s)" % x for x in o)))

    def known(self, rec):
        """templates of to_text are programs: the listed ones are known to take the server down, so they run on a server of their own"""
        rec.count("known:template_recursion")
        s = pg.Server(mem=MEM)
        try:
            tv = "timevector('2020-01-01'::timestamptz, 1.0)"
            for sig, q in (("template:macro-recursion", "SELECT toolkit_experimental.to_text(%s, '{%% macro a() %%}{{ self::a() }}{%% endmacro %%}{{ self::a() }}')" % tv),
                           ("template:deep-nesting", "SELECT toolkit_experimental.to_text(%s, repeat('{%% if true %%}', 20000) || 'x' || repeat('{%% endif %%}', 20000))" % tv),
                           ("template:long-loop", "SELECT length(toolkit_experimental.to_text(%s, '{%% for i in range(end=30000) %%}{%% for j in range(end=30000) %%}{%% endfor %%}{%% endfor %%}'))" % tv)):
                rec.sql(q)
                try:
                    c = s.connect(timeout=6)
                    c.exec("SET statement_timeout='1s'")
                    c.query(q)
                except pg.PgError:
                    pass
                except pg.PgTimeout:
                    rec.fail(sig, "statement_timeout of 1 s is not honoured after 6 s: " + q)
                except pg.PgCrash:
                    rec.fail(sig, "the backend crashed: " + q)
                    s.wait_up(30)
        finally:
            s.stop()
