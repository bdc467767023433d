"""The utility functions: saturating arithmetic, calendar helpers, the generated series."""
from run import SqlWorker
from pg import *
import gen, calendar, datetime, math, zoneinfo

ID = "Z01"
QUICK, THOROUGH = 4000, 120000
RULE = ("saturating arithmetic on seeded and boundary integers against exact integers; to_epoch, days_in_month and month_normalize on seeded times (month ends, leap years, transitions of daylight saving time, before "
        "the epoch) in 12 time zones against Python's calendar and zoneinfo; generated series with seeded parameters for their times, length, repeatability, bounds and mean; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["Python's zoneinfo and PostgreSQL read the same time zone data"]
MUST_OBSERVE = ["saturating", "saturated", "to_epoch", "days_in_month", "month_normalize", "month_end", "short_month", "series", "series_repeated", "series_exact", "null_args"]
ZONES = ["UTC", "America/New_York", "Europe/Dublin", "Asia/Kathmandu", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "Asia/Tokyo", "Africa/Casablanca", "America/St_Johns", "Asia/Beirut", "Antarctica/Troll"]
EPOCH = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)
LO, HI = -2 ** 31, 2 ** 31 - 1


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        [self.saturating, self.dates, self.dates, self.series][idx % 4](r, rec)

    def saturating(self, r, rec):
        rec.count("saturating")
        edge = [LO, LO + 1, HI, HI - 1, 0, 1, -1, 2, -2, 46340, 46341, -46341, 65536]
        ps = []
        for _ in range(40):
            x, y = (r.choice(edge) if r.random() < .5 else r.randint(-2 ** r.randint(1, 31), 2 ** r.randint(1, 31) - 1) for _ in range(2))
            if r.random() < .2:
                y = max(LO, min(HI, r.choice([HI - x, LO - x, x - HI, x - LO, -x, x]) + r.choice([-1, 0, 1])))
            ps.append((x, y))
        q = "SELECT " + ", ".join("toolkit_experimental.%s(x, y)" % f for f in ("saturating_add", "saturating_add_pos", "saturating_sub", "saturating_sub_pos", "saturating_mul")) + \
            " FROM (VALUES %s) d(x, y)" % ",".join("((%d)::int,(%d)::int)" % p for p in ps)
        clamp = lambda v: max(LO, min(HI, v))
        for (x, y), row in zip(ps, self.Q(rec, q)):
            want = [clamp(x + y), max(0, clamp(x + y)), clamp(x - y), max(0, clamp(x - y)), clamp(x * y)]
            if not LO <= x + y <= HI or not LO <= x * y <= HI:
                rec.count("saturated")
            rec.seen(("sat", x, y))
            if [int(v) for v in row] != want:
                rec.fail("saturating", "saturating_{add,add_pos,sub,sub_pos,mul}(%d, %d) = %r, expected %r" % (x, y, row, want))

    def dates(self, r, rec):
        z = r.choice(ZONES)
        tz = zoneinfo.ZoneInfo(z)
        ts = []
        for _ in range(12):
            y, m = r.randint(1972, 2036), r.randint(1, 12)
            if r.random() < .3:
                y, m = r.choice([2000, 2024, 1972, 2023, 2028]), 2
            if r.random() < .3:
                m = r.choice([3, 11, 10, 4, 9])
            n = calendar.monthrange(y, m)[1]
            d = r.choice([1, n, n, n - 1, 28, r.randint(1, n)])
            t = datetime.datetime(y, m, d, r.choice([0, 0, 1, 2, 3, 12, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59]), r.choice([0, 999999, r.randrange(10 ** 6)]), tzinfo=tz)
            ts.append((t - EPOCH) // datetime.timedelta(microseconds=1))
        self.Q(rec, "SET TimeZone='%s'" % z)
        try:
            vals = [round(r.uniform(-1000, 1000), 3) for _ in ts]
            days = r.choice([None, 30.0, 30.5, 28.0, -1.5, 0.0])
            rows = self.Q(rec, "SELECT days_in_month(t), month_normalize(v, t), month_normalize(v, t, %s), to_epoch(t), days_in_month(NULL), month_normalize(NULL, t), to_epoch(NULL) FROM (VALUES %s) d(t, v)" % (
                f_lit(days), ",".join("(%s,%s)" % (ts_lit(t), f_lit(v)) for t, v in zip(ts, vals))))
        finally:
            self.conn.exec("RESET TimeZone")
        for t, v, row in zip(ts, vals, rows):
            loc = (EPOCH + datetime.timedelta(microseconds=t)).astimezone(tz)
            n = calendar.monthrange(loc.year, loc.month)[1]
            rec.count("days_in_month")
            rec.count("month_normalize")
            rec.count("to_epoch")
            if loc.day > 28:
                rec.count("month_end")
            first = datetime.datetime(loc.year, loc.month, 1, tzinfo=tz)
            nxt = datetime.datetime(loc.year + loc.month // 12, loc.month % 12 + 1, 1, tzinfo=tz)
            if (nxt.astimezone(datetime.timezone.utc) - first.astimezone(datetime.timezone.utc)) < datetime.timedelta(days=n):
                rec.count("short_month")
            rec.seen((z, t))
            if row[0] is None or int(row[0]) != n:
                rec.fail("days_in_month", "days_in_month(%s) in %s = %s, expected %d" % (ts_text(t), z, row[0], n))
            for got, dd in ((row[1], 365.25 / 12), (row[2], days)):
                want = None if dd is None else v * dd / n
                if (got is None) != (want is None) or want is not None and not math.isclose(float(got), want, rel_tol=1e-12, abs_tol=1e-300):
                    rec.fail("month_normalize", "month_normalize(%r, %s, %s) in %s = %s, expected %s" % (v, ts_text(t), dd, z, got, want))
            want = (t + 946684800 * US) / 1e6
            if row[3] is None or float(row[3]) != want:
                rec.fail("to_epoch", "to_epoch(%s) = %s, expected %r" % (ts_text(t), row[3], want))
            rec.count("null_args")
            if row[4] is not None or row[5] is not None or row[6] is not None:
                rec.fail("null-args", "NULL arguments gave %r" % row[4:])

    def series(self, r, rec):
        rec.count("series")
        start = r.choice([0, -10 ** 15, 631152000 * US, 1, r.randint(-10 ** 15, 10 ** 15)])
        step = r.choice([1, 7, US, 600 * US, 86400 * US])
        n = r.choice([0, 1, 2, 50, 200])
        ln = max(0, n * step - r.choice([0, 0, step - 1, step // 2])) if n else 0
        base, mag = r.choice([0.0, 1000.0, -5.5, 1e9]), r.choice([0.0, 100.0, -3.0])
        period = r.choice([1, step, 10 * step, 86400 * US])
        sd = r.choice([0.0, 0.0, 1.0, 50.0])
        seed = r.choice(["NULL", str(r.randint(-2 ** 63, 2 ** 63 - 1)), "0", "1"])
        q = "SELECT * FROM toolkit_experimental.generate_periodic_normal_series(%s, %d, %d, %s, %d, %s, %s, %s)" % (ts_lit(start), ln, step, f_lit(base), period, f_lit(mag), f_lit(sd), seed)
        if r.random() < .1:
            ln, step, base, mag, sd = 28 * 86400 * US, 600 * US, 1000.0, 100.0, 100.0
            q = "SELECT * FROM toolkit_experimental.generate_periodic_normal_series(%s, %s)" % (ts_lit(start), seed)
        rows = self.Q(rec, q)
        rec.seen(q)
        want = [start + i for i in range(0, ln, step)]
        got = [ts_parse(x[0]) for x in rows]
        if got != want:
            rec.fail("series-times", "%s: %d times, expected %d; first difference at %s" % (q, len(got), len(want), next(((a, b) for a, b in zip(got, want) if a != b), None)))
        vals = [float(x[1]) for x in rows]
        if seed != "NULL":
            rec.count("series_repeated")
            if self.Q(rec, q) != rows:
                rec.fail("series-seed", "the same seed gave another series: " + q)
        lim = abs(mag) + sd * 9 + 1e-9 * (abs(base) + 1)
        if any(abs(v - base) > lim for v in vals):
            rec.fail("series-bounds", "%s: values further than magnitude %s and 9 deviations of %s from %s" % (q, mag, sd, base))
        if sd == 0.0:
            rec.count("series_exact")
            if mag == 0.0 and any(v != base for v in vals):
                rec.fail("series-exact", "%s: without magnitude and deviation the values are not the base" % q)
            if seed == "NULL" and self.Q(rec, q) != rows:
                rec.fail("series-exact", "%s: differs from run to run without a deviation" % q)
        elif len(vals) >= 200 and mag == 0.0:
            m = sum(vals) / len(vals)
            if abs(m - base) > 8 * sd / math.sqrt(len(vals)) + 1e-6:
                rec.fail("series-mean", "%s: mean %r" % (q, m))
