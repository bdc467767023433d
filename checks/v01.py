"""Summaries stored by an earlier build keep every answer, and combine with new ones."""
import random
from run import SqlWorker
from pg import *
import cat, golden

ID = "V01"
GOLD = golden.load()
QUICK, THOROUGH = 4000, 60000
RULE = ("recorded summaries of every stable type as the pinned build stored them (bytes and text), read by the current build: every recorded answer the same, from the bytes, from the "
        "text and after being written again; a rollup of recorded and newly built pieces answers as the rollup of new ones; in thorough runs more pairings of recorded pieces; distinct = "
        "distinct (recording, way of reading)")
ASSUMPTIONS = ["the recordings were made from the pinned tree (with this project's fixes); answers are compared exactly, floating-point ones up to the rounding of a reordered sum"]
MUST_OBSERVE = ["bytes_read", "text_read", "rewritten", "answers_compared", "mixed_rollups", "through_table"] + ["kind:" + k for k in sorted({g["kind"] for g in GOLD})]


def db_setup(c, ctx):
    golden.casts(c, sorted({g["ty"] for g in GOLD}))


def scale(rows):
    m = 1.0
    for row in rows:
        for x in row:
            if x.endswith("::float8"):
                v = abs(f_parse(x[:-8].strip("'()")))
                if v == v and v != float("inf"):
                    m = max(m, v)
    return m


def same(mode, a, b, sc):
    """the same answer; a floating-point one up to the rounding that a reordered sum has"""
    if a == b:
        return True
    if a is None or b is None or mode == "exact":
        return False
    if mode == "h":
        return True
    try:
        x, y = f_parse(a), f_parse(b)
    except (ValueError, TypeError):
        return False
    if x != x or y != y:
        return x != x and y != y
    if abs(x) == float("inf") or abs(y) == float("inf"):
        return x == y
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + (1e-15 * sc * sc if sc < 1e100 else float("inf"))


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        # every recording in turn; the pieces and the ways at random
        g = GOLD[(idx * 7919 + self.ctx.seed) % len(GOLD)]
        rec.count("kind:" + g["kind"])
        for p in r.sample(g["parts"], 1 if idx % 2 else 2):
            how = r.choice(["bytes", "bytes", "text", "rewrite", "table"])
            raw = "(decode('%s','hex')::bytea)::%s" % (p["hex"], g["ty"])
            if how == "bytes":
                src = "SELECT %s a" % raw
                rec.count("bytes_read")
            elif how == "text":
                src = "SELECT %s::%s a" % (s_lit(p["text"]), g["ty"])
                rec.count("text_read")
            elif how == "rewrite":
                src = "SELECT (%s)::text::%s a" % (raw, g["ty"])
                rec.count("rewritten")
            else:
                t = "g_" + g["ty"]
                self.conn.exec("CREATE TEMP TABLE IF NOT EXISTS %s(b bool, a %s); TRUNCATE %s" % (t, g["ty"], t))
                self.Q(rec, "INSERT INTO %s SELECT true, %s" % (t, raw))
                src = "SELECT a FROM %s" % t
                rec.count("through_table")
            rows, e = self.err(rec, "SELECT %s FROM (%s) z" % (", ".join(x[0] for x in p["ans"]), src))
            if e:
                rec.fail("unreadable:" + g["kind"], "a stored %s cannot be read any more (%s): %s" % (g["kind"], how, e))
                return
            sc = scale(p["rows"])
            for (q, mode, want), got in zip(p["ans"], rows[0]):
                rec.count("answers_compared")
                if not same(mode, want, got, sc):
                    rec.fail("answer:" + g["kind"], "%s of a stored %s (%s, read from %s): %s, was %s" % (q, g["kind"], g["agg"], how, got, want))
                    return
            rec.seen((g["kind"], p["hex"][:200], how))
        if g["roll"]:
            self.mix(r, rec, g)
        if idx < 5:
            rec.sample = {"kind": g["kind"], "agg": g["agg"], "bytes": g["parts"][0]["hex"][:80], "answers": [x[2] for x in g["parts"][0]["ans"]][:4]}

    def mix(self, r, rec, g):
        a, b = g["parts"][1], g["parts"][2]
        new = lambda p: "(SELECT %s FROM %s)" % (g["agg"], golden.vals(g["cols"], p["rows"]))
        old = lambda p: "(decode('%s','hex')::bytea)::%s" % (p["hex"], g["ty"])
        accs = g["parts"][0]["ans"]
        q = lambda x, y: "SELECT %s FROM (SELECT %s a FROM (VALUES (1, %s), (2, %s)) k(o, s)) z" % (", ".join(z[0] for z in accs), g["roll"].replace("{a}", "s ORDER BY o" if cat.KINDS[g["kind"]].order else "s"), x, y)
        want, e0 = self.err(rec, q(new(a), new(b)))
        for x, y in r.sample([(old(a), new(b)), (new(a), old(b)), (old(a), old(b))], 2):
            got, e = self.err(rec, q(x, y))
            if (e0 is None) != (e is None):
                rec.fail("mixed:" + g["kind"], "a rollup of stored and new pieces: %s; of new pieces: %s" % (e or "answers", e0 or "answers"))
                return
            if e0:
                rec.count("mixed_refused_alike")
                continue
            rec.count("mixed_rollups")
            for (z, mode, _), w, v in zip(accs, want[0], got[0]):
                if not same(mode, w, v, scale(a["rows"] + b["rows"])):
                    rec.fail("mixed:" + g["kind"], "%s of a rollup with a stored piece of %s: %s, with new pieces %s" % (z, g["agg"], v, w))
                    return
