"""The examples in the documentation give the documented results."""
import fcntl, os, re, shutil, tempfile
import build
from checks import p01

ID = "P02"
QUICK, THOROUGH = 6, 60
WORKERS = 3
RULE = ("every SQL example of docs/ and tests/update, run by the repository's own testers with a stand-in for the timescaledb extension (time_bucket by date_bin, hypertables as plain tables, continuous "
        "aggregates, which show the latest data, as views), under planner, memory and worker settings that must not change a result; distinct = distinct (settings, number of examples, reports)")
ASSUMPTIONS = ["the stand-in for timescaledb behaves like it as far as the examples go", "examples marked ignore, and outputs marked ignore-output, are not judged"]
SETTINGS = {
    "plain": {},
    "worker": {"debug_parallel_query": "regress"},
    "sort": {"enable_hashagg": "off", "enable_hashjoin": "off"},
    "lowmem": {"work_mem": "'64kB'", "jit": "off"},
    "nested": {"enable_mergejoin": "off", "enable_material": "off", "enable_memoize": "off", "enable_sort": "off"},
    "index": {"plan_cache_mode": "force_custom_plan", "enable_seqscan": "off"},
}
MUST_OBSERVE = ["examples", "update_examples"] + ["settings:" + v for v in SETTINGS]
PGCONF = p01.PGCONF + "max_parallel_workers = 8\n"
make_server, prepare = p01.make_server, p01.prepare


def db_setup(c, ctx):
    for v, ss in SETTINGS.items():
        c.exec("CREATE ROLE docs_%s SUPERUSER LOGIN" % v)
        for k, x in ss.items():
            c.exec("ALTER ROLE docs_%s SET %s = %s" % (v, k, x))


def adapted(text):
    """the same lines, without what only timescaledb has"""
    def view(m):
        return re.sub(r"MATERIALIZED", "", re.sub(r"WITH \(timescaledb[^)]*\)", "", m[0]))
    return re.sub(r"CREATE MATERIALIZED VIEW \w+\s+WITH \(timescaledb[^)]*\)", view, text)


def examples(text):
    """number of SQL blocks that are run"""
    return len([l for l in text.split("\n") if re.match(r"\s*```\s*sql\b", l, re.I) and "ignore" not in [t.strip() for t in l.split(",")]])


class Worker(p01.Worker):
    def case(self, r, idx, rec):
        v = list(SETTINGS)[idx % len(SETTINGS)]
        rec.count("settings:" + v)
        d = tempfile.mkdtemp(prefix="vpd.", dir="/tmp")
        try:
            n, texts = 0, {}
            for sub, src in (("docs", "docs"), ("tests/update", "tests/update")):
                os.makedirs(d + "/" + sub)
                for f in sorted(os.listdir(build.REPO + "/" + src)):
                    if f.endswith(".md"):
                        with open(build.REPO + "/" + src + "/" + f, newline="") as h:
                            texts[sub + "/" + f] = t = adapted(h.read())
                        with open(d + "/" + sub + "/" + f, "w", newline="") as h:
                            h.write(t)
                        rec.count("examples" if sub == "docs" else "update_examples", examples(t) if sub == "docs" or idx % 2 == 0 else 0)
            rc, out, err = self.tool(rec, [p01.TOOLS["sql-doctester"]] + self.conn_args("docs_" + v) + ["-d", "postgres", d + "/docs"], d)
            got = self.check(rec, "sql-doctester", v, d + "/docs/", rc, out, err, texts, "docs/")
            with open(self.ctx.server.dir + "/update.lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                self.layout(rec, d)
                for sub in ("create-test-objects", "validate-test-objects") if idx % 2 == 0 else ():
                    rc, out, err = self.tool(rec, [p01.TOOLS["update-tester"], sub] + self.conn_args("docs_" + v) + ["-d", "postgres"], d)
                    got += self.check(rec, "update-tester " + sub, v, "", rc, err, err, texts, "")
            rec.seen((v, sorted(texts), got))
            rec.sample = "%s: %d files, reported %s" % (v, len(texts), got)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    threads = 4

    def check(self, rec, tool, v, root, rc, out, err, texts, sub):
        if rc not in (0, 1):
            at = max(0, err.find("panicked"))
            rec.fail("docs:died", "%s ended with status %d: %s" % (tool, rc, err[at:at + 500]))
            return []
        got = self.reports(out)
        for p, kind in got:
            at = out.find(p + " ")
            if v != "plain" and self.reordered(out[at:]):
                rec.count("reordered")
                continue
            name, line = p[len(root):].rsplit(":", 1)
            first = texts[sub + name].split("\n")[int(line)].strip() if sub + name in texts else "?"
            rec.fail("docs:%s:%s" % (name, re.sub(r"\s+", "_", first)), "with %s settings %s reports %s: %s" % (v, tool, p[len(root):], out[at:at + 1500]))
        if rc and not got:
            rec.fail("docs:status", "%s ended with status %d and no report: %s" % (tool, rc, err[-400:]))
        return [p[len(root):] for p, _ in got]

    def reordered(self, t):
        """the rows shown, in an order that the query does not ask for"""
        m = re.match(r"[^\n]*\n(.*?)\nError: output has a different values[^\n]*\nExpected\n(.*?)\n\(\d+ rows\)\n+Received\n(.*?)\n\(\d+ rows\)", t, re.S)
        if not m or re.search(r"order\s+by", m[1], re.I):
            return False
        rows = [sorted(re.sub(r"\s+", " ", x).strip() for x in g.split("\n")) for g in (m[2], m[3])]
        return rows[0] == rows[1]
