"""The client library's t-digest: the C interface, and what the server makes of its text."""
import inproc
from run import SqlWorker
from pg import *

ID = "B01"
QUICK, THOROUGH = 32, 1440
RULE = ("digests of seeded values, sizes and merges built through the C interface (native, AddressSanitizer, Miri) against the crate's, and their text cast to tdigest in the server against tdigest(size, value) over the same "
        "values: same text, same accessors and percentiles, same rollup; distinct = distinct (size, values)")
ASSUMPTIONS = ["builders that are merged have the same size, as the interface requires"]
MUST_OBSERVE = ["built", "merged", "cases_native", "cases_asan", "cases_miri", "sent_to_the_server", "percentiles"]


def prepare(tier):
    inproc.ensure(["native", "asan", "miri"])


class Worker(inproc.Chunks, SqlWorker):
    PLAN = [("native", "digest", 40), ("asan", "digest", 60), ("native", "digest", 40), ("miri", "digest", 3)]

    def __init__(self, ctx):
        SqlWorker.__init__(self, ctx)
        self.sent = 0

    def case(self, r, idx, rec):
        self.sent = 0
        inproc.Chunks.case(self, r, idx, rec)

    def line(self, p, rec):
        if p[0] != "D" or self.sent >= 12:
            return
        self.sent += 1
        size, vals, text = int(p[1]), p[2].split(",") if p[2] else [], p[3]
        rec.count("sent_to_the_server")
        ps = [0, .001, .01, .1, .25, .5, .75, .9, .99, .999, 1]
        acc = "num_vals(%s), mean(%s), min_val(%s), max_val(%s)" + "".join(", approx_percentile(%g, %%s)" % x for x in ps) + "".join(
            ", approx_percentile_rank(%s, %%s)" % v for v in vals[:3])
        n = acc.count("%s")
        lit = s_lit(text) + "::tdigest"
        if not vals:
            row = self.Q(rec, "SELECT num_vals(%s)" % lit)[0]
            if row[0] not in ("0", 0):
                rec.fail("client:empty", "an empty digest has num_vals %r" % (row[0],))
            return
        rec.count("percentiles", len(ps))
        src = "(SELECT tdigest(%d, v) AS d FROM unnest(ARRAY[%s]::float8[]) v) x" % (size, ",".join(vals))
        roll = "(SELECT rollup(y.u)::text FROM (SELECT x.d AS u) y)"
        a = self.Q(rec, "SELECT %s, d::text, %s FROM (SELECT %s AS d) x" % (acc % (("d",) * n), roll, lit))[0]
        b = self.Q(rec, "SELECT %s, d::text, %s FROM %s" % (acc % (("d",) * n), roll, src))[0]
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                rec.fail("client:answers", "size %d: column %d of the digest built by the client is %r, of the server's own %r, over %s values" % (size, i, x, y, len(vals)))
                break
