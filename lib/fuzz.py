"""Type-directed generation of hostile SQL over everything the extension defines, read from the server's catalogue:
functions, operators (through the functions behind them), casts, aggregates and text input."""
import re
import cat, gen
from pg import *

FLOATS = ["'NaN'", "'Infinity'", "'-Infinity'", "'-0'", "0", "1", "-1", "0.5", "2", "1e-9", "5e-324", "1.7976931348623157e308", "-1.7976931348623157e308", "0.999999999", "1.0000001", "100", "1e15", "-3.25",
          "9223372036854775807", "0.01", "4e9"]
INTS = [0, 1, -1, 2, 3, 4, 5, 8, 10, 16, 17, 18, 19, 100, 1000, 32767, 65536, -2, -100]
INT4X = [2 ** 31 - 1, -2 ** 31, 2 ** 30, 10 ** 6, 2 ** 24]
INT8X = [2 ** 63 - 1, -2 ** 63, 2 ** 62, 2 ** 32, -2 ** 32, 10 ** 18]
# lambdas nested or chained n times
DEEP = ["repeat('(', {n}) || '1.0' || repeat(')', {n})", "repeat('-', {n}) || '$value'", "repeat('not ', {n}) || '$value = 1'", "'1.0' || repeat('+1.0', {n})", "'1.0' || repeat('^$value', {n})",
        "'$value=1' || repeat(' and $value=1', {n})", "repeat('sin(', {n}) || '1.0' || repeat(')', {n})", "'1' || repeat(',1', {n})", "repeat('1.0^(', {n}) || '1.0' || repeat(')', {n})",
        "repeat('(let $x = ', {n}) || '1.0' || repeat('; $x)', {n})", "repeat('let $x = 1.0;', {n}) || '$x'", "repeat('NOTnot', {n}) || '$value=1'", "repeat('(1=1 or ', {n}) || '1=1' || repeat(')', {n})",
        "repeat('-(', {n}) || '$value' || repeat(')', {n})", "'$time' || repeat('+''1 s''i', {n})", "repeat('('')''i = ', {n})", "repeat('pow(1,', {n}) || '1.0' || repeat(')', {n})"]
# what a polymorphic argument can be beside the common types: every length, alignment and way to be passed
ANY = {
    "smallint": ["1", "-32768"], "real": ["1.5", "'nan'"], "oid": ["0", "4294967295", "23"], '"char"': ["'a'", "''"], "name": ["'n'", "repeat('x', 63)"],
    "numeric": ["1", "'NaN'", "1e300", "0.001"], "uuid": ["'00112233445566778899aabbccddeeff'"], "bytea": ["''", "'\\x0001'", "decode(repeat('ab', 5000), 'hex')"],
    "varchar(5)": ["'abc'", "''"], "date": ["'infinity'", "'2020-01-01'"], "time with time zone": ["'12:00+1'"], "interval": ["'1 mon'", "'-1 us'"],
    "point": ["'(1,2)'"], "polygon": ["'((0,0),(1,1),(2,0))'"], "inet": ["'::1'", "'10.0.0.0/8'"], "jsonb": ["'{}'", "'[1,2]'"], "bit(3)": ["'101'"], "macaddr": ["'08:00:2b:01:02:03'"],
    "int4range": ["'[1,5)'", "'empty'"], "integer[]": ["'{}'", "'{1,NULL,3}'", "'{{1,2},{3,4}}'"], "text[]": ["'{a,NULL}'"], "regclass": ["'pg_class'", "0"], "tid": ["'(0,1)'"],
    "pg_class": ["ROW()", "(SELECT c FROM pg_class c WHERE oid = 1259)"], "money": ["1"], "xid8": ["'1'"], "void": ["''"], "record": ["ROW(1, 'a', NULL)", "ROW()"], "cstring": ["'a'"],
    "stats_agg_any": [],
}
del ANY["stats_agg_any"]
TEXTS = ["", " ", "pop", "sample", "prometheus", "LOCF", "linear", "Linear", "second", "hour", "us", "hello", "a'b", "é漢", "\U0001f600", "x" * 300, "NULL", "{}", "[", "\\", '"', "0", "-1", "%", "{{ 1 }}", "{{TIMES}}",
         "{{ VALUES | json_encode() | safe }}", "{% for", "{{", "sum", "{{TIMES | first}}", "{{ 1 / 0 }}", "{{ TIMES | slice(start=5, end=1) }}"]
STAMPS = ["infinity", "-infinity", "4713-01-01 00:00:00+00 BC", "294276-12-31 23:59:59.999999+00", "1970-01-01 00:00:00+00", "2000-01-01 00:00:00+00", "1999-12-31 23:59:59.999999+00",
          "2020-01-01 00:00:00+00", "2020-01-01 00:00:01+00", "2020-02-29 12:00:00+00", "2038-01-19 03:14:08+00", "290000-01-01 00:00:00+00", "0001-01-01 00:00:00+00 BC"]
IVS = ["0", "1 us", "-1 us", "1 s", "1 min", "1 hour", "1 day", "1 month", "1 year", "-1 day", "1 month -30 days", "178000000 years", "-178000000 years", "106751991 days", "2147483647 days",
       "2147483647 months", "-2147483648 days", "1 month 1 day 1 us", "2562047788 hours", "10 s"]
RANGES = ["empty", "(,)", "[2020-01-01,)", "(,2020-01-01]", "[2020-01-01,2020-01-01]", "(2020-01-01,2020-01-02)", "[-infinity,infinity]", "[2019-01-01,2021-01-01)", "[4713-01-01 BC,294276-12-31]",
          "[2020-01-01 00:00:00,2020-01-01 00:00:00.000001)"]
PROCS = ["sqrt(float8)", "ln(float8)", "abs(float8)", "float8um(float8)", "random()", "float8div(float8,float8)", "upper(text)", "now()", "pi()"]
VOC = ["$value", "$time", "1.0", "-2.5", "'2020-01-01't", "'1 day'i", "'x'i", "'nope't", "$x", "+", "-", "*", "/", "^", "=", "<", ">", "<=", ">=", "<>", "!=", "and", "or", "not", "(", ")", ",", ";", "let", "let $x =", "sin(", "pow(", "abs(",
       "round(", "e()", "pi()", "1e308", "1e999", "0", "'", "$", "é", "true"]

FUNCS = """
SELECT p.oid::regproc::text, n.nspname, p.proname, format_type(p.prorettype, NULL), coalesce((SELECT string_agg(format_type(t, NULL), '|' ORDER BY o) FROM unnest(p.proargtypes) WITH ORDINALITY u(t, o)), ''),
       p.prokind, p.proretset
FROM pg_proc p JOIN pg_namespace n ON n.oid = p.pronamespace
JOIN pg_depend d ON d.objid = p.oid AND d.classid = 'pg_proc'::regclass AND d.deptype = 'e'
JOIN pg_extension e ON e.oid = d.refobjid AND e.extname = 'timescaledb_toolkit'
ORDER BY 1, 5"""
OPS = """
SELECT o.oprname, n.nspname, format_type(o.oprleft, NULL), format_type(o.oprright, NULL), format_type(o.oprresult, NULL) FROM pg_operator o JOIN pg_namespace n ON n.oid = o.oprnamespace
JOIN pg_depend d ON d.objid = o.oid AND d.classid = 'pg_operator'::regclass AND d.deptype = 'e' ORDER BY 1, 2, 3, 4"""


class Fn:
    def __init__(self, row):
        _, self.schema, self.name, self.ret, args, self.kind, self.srf = row
        self.args = args.split("|") if args else []
        self.sqlname = "%s.%s" % (self.schema, '"%s"' % self.name if not re.match(r"^[a-z_0-9]+$", self.name) else self.name)
        self.key = "%s(%s)" % (self.sqlname, ",".join(self.args))


class Fuzz:
    def __init__(self, conn):
        fs = [Fn(x) for x in conn.query(FUNCS)]
        self.ops = [x for x in conn.query(OPS)]
        self.types = {x[0] for x in conn.query("SELECT format_type(t.oid, NULL) FROM pg_type t JOIN pg_depend d ON d.objid = t.oid AND d.classid = 'pg_type'::regclass AND d.deptype = 'e' WHERE t.typelem = 0 AND typtype = 'b' ORDER BY 1")}
        bad = ("internal", "cstring", "oid", "trigger", "event_trigger", "language_handler", "void")
        ok = [f for f in fs if not any(a in bad for a in f.args) and f.ret not in bad and f.kind in "fa"]
        self.fns = [f for f in ok if f.kind == "f"]
        self.aggs = [f for f in ok if f.kind == "a" and f.args]
        self.by_ret, self.by_arg = {}, {}
        for f in self.fns + self.aggs:
            if not f.srf == "t":
                self.by_ret.setdefault(f.ret, []).append(f)
        for f in self.fns:
            for a in set(f.args):
                self.by_arg.setdefault(a, []).append(f)
        self.corpus = {}

    # ---- corpus of text forms
    def seed(self, r, conn, n=3):
        for name in sorted(cat.KINDS):
            k = cat.KINDS[name]
            for _ in range(n):
                k, cols, rows = cat.instance(r, name, n=r.choice([1, 2, 5, 12]))
                try:
                    t = conn.val("SELECT (%s)::text FROM (VALUES %s) d(%s)" % (k.agg(r, rows).replace("{o}", ""), ",".join("(" + ",".join(x) + ")" for x in rows), ", ".join(c[0] for c in cols)))
                except PgError:
                    continue
                if t and len(t) < 20000:
                    self.corpus.setdefault(k.ty, []).append(t)
        for ty in sorted(self.types):
            if ty not in self.corpus:
                for _ in range(n):
                    fs = [f for f in self.by_ret.get(ty, []) if f.kind == "f"]
                    if not fs:
                        break
                    try:
                        t = conn.val("SELECT (%s)::text" % self.call(r, r.choice(fs), 1, tame=True))
                    except PgError:
                        continue
                    if t:
                        self.corpus.setdefault(ty, []).append(t)

    NUM = re.compile(r"-?\d+(?:\.\d+)?(?:e-?\d+)?")

    def mutate(self, r, t):
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            m = r.randrange(11)
            nums = list(self.NUM.finditer(t))
            if m <= 3 and nums:
                x = r.choice(nums)
                v = r.choice([str(r.choice(INTS)), str(r.choice(INTS)), str(r.choice(INT4X + INT8X)), str(r.choice([2 ** 32 - 1, 2 ** 32, 2 ** 64 - 1, 2 ** 64, 256, 255, 65535])), r.choice(["NaN", "inf", "-inf", "1e308", "-0.0", "5e-324", "0.5", "1e400"]),
                              str(int(float(x[0])) + r.choice([1, -1])) if "e" not in x[0] and len(x[0]) < 18 else "1"])
                t = t[:x.start()] + v + t[x.end():]
            elif m == 4:
                q = [i for i, c in enumerate(t) if c in "(),:[]{}\""]
                if q:
                    i = r.choice(q)
                    t = t[:i] + r.choice(["", t[i] * 2, r.choice("(),:[]{}\"")]) + t[i + 1:]
            elif m == 5 and len(t) > 2:
                i, j = sorted(r.sample(range(len(t)), 2))
                t = t[:i] + t[j:] if r.random() < .5 else t[:j] + t[i:]
            elif m == 6:
                for a, b in r.sample([("true", "false"), ("false", "true"), ("None", "Some(1)"), ("Some", "None"), ("Linear", "LOCF"), ("LOCF", "Linear"), ("Sparse", "Dense"), ("NaN", "1")], 8):
                    if a in t:
                        t = t.replace(a, b, r.choice([1, 100]))
                        break
            elif m == 7:
                # repeat or drop one element of a list
                ls = [x for x in re.finditer(r"\[([^\[\]]*)\]", t) if x[1]]
                if ls:
                    x = r.choice(ls)
                    e = re.split(r",(?![^(]*\))", x[1])
                    i = r.randrange(len(e))
                    if r.random() < .4:
                        del e[i]
                    elif r.random() < .5:
                        e[i:i] = [e[i]] * r.choice([1, 1, 3, 300])
                    else:
                        r.shuffle(e)
                    t = t[:x.start(1)] + ",".join(e) + t[x.end(1):]
            elif m == 8 and t:
                i = r.randrange(len(t))
                t = t[:i] + chr(r.choice([r.randrange(1, 127), 0xe9, 0x6f22, 0x1f600])) + t[i + r.choice([0, 1]):]
            elif m == 9:
                for a in r.sample(sorted(self.corpus), 1):
                    o = r.choice(self.corpus[a])
                    t = t[:r.randrange(len(t) + 1)] + o[r.randrange(len(o)):] if r.random() < .5 else o
            elif m == 10 and r.random() < .1:
                t = r.choice(["(", "[", "{", "Some("]) * r.choice([50, 5000]) + t
        return t[:60000]

    # ---- expressions of a type
    def rows(self, r, f, depth, tame=False):
        """VALUES and the call for an aggregate"""
        n = r.choice([0, 1, 2, 3, 10, 40])
        cons = [a == "integer" or (a in ("text", "interval", "tstzrange") and i != len(f.args) - 1) or (a == "double precision" and len(f.args) > 1 and i == 0 and "timestamp" not in f.args[1]) for i, a in enumerate(f.args)]
        cons = [c if r.random() < .93 else not c for c in cons]
        if all(cons):
            cons[-1] = False
        vals = []
        fargs = [self.anytype(r) if a in ("anyelement", '"any"', "any") else a for a in f.args]
        base = [self.expr(r, a, depth + 1, tame=tame) for a in fargs]
        mono = r.random() < .7
        for j in range(n):
            row = []
            for i, a in enumerate(fargs):
                if cons[i]:
                    continue
                if a == "timestamp with time zone" and mono:
                    row.append("('2020-01-01'::timestamptz + '%d us'::interval)" % (j * r.choice([1, 10 ** 6, 10 ** 6, 6 * 10 ** 7])))
                else:
                    row.append(self.expr(r, a, depth + 1, tame=tame))
            vals.append("(%s)" % ",".join(row))
        cols = ["c%d" % i for i in range(len(f.args)) if not cons[i]]
        args = ", ".join(base[i] if cons[i] else "c%d" % i for i in range(len(f.args)))
        if not vals:
            return "(SELECT %s(%s) FROM (SELECT %s) d(%s) WHERE false)" % (f.sqlname, args, ", ".join(self.expr(r, a, 3) for a, c in zip(fargs, cons) if not c), ", ".join(cols))
        return "(SELECT %s(%s) FROM (VALUES %s) d(%s))" % (f.sqlname, args, ",".join(vals), ", ".join(cols))

    def call(self, r, f, depth=0, first=None, tame=False):
        if f.kind == "a":
            return self.rows(r, f, depth, tame)
        args = []
        for a in f.args:
            if first is not None and a == first[0]:
                args.append(first[1])
                first = None
            else:
                args.append(self.expr(r, a, depth + 1, tame=tame))
        return "%s(%s)" % (f.sqlname, ", ".join(args))

    def anytype(self, r):
        return "any=" + r.choice(["double precision", "integer", "bigint", "text", "timestamp with time zone", "boolean"] if r.random() < .5 else sorted(ANY))

    def scalar(self, r, ty, tame):
        if ty == "double precision":
            return r.choice([r.choice(FLOATS), repr(round(r.uniform(-100, 100), 2))]) + "::float8" if r.random() > .04 else "NULL::float8"
        if ty in ("integer", "bigint"):
            v = r.choice(INTS)
            if not tame and r.random() < .15:
                v = r.choice(INT4X if ty == "integer" else INT8X + INT4X)
            return "(%d)::%s" % (v, ty)
        if ty == "text":
            return s_lit(r.choice(TEXTS)) + "::text"
        if ty == "timestamp with time zone":
            if r.random() < .6:
                return "'%s'::timestamptz" % ts_text(631152000000000 + r.randrange(0, 100) * r.choice([1, US, 60 * US]))
            return "'%s'::timestamptz" % r.choice(STAMPS)
        if ty == "interval":
            return "'%s'::interval" % r.choice(IVS)
        if ty == "tstzrange":
            return "'%s'::tstzrange" % r.choice(RANGES)
        if ty == "double precision[]":
            return "ARRAY[%s]::float8[]" % ",".join(self.scalar(r, "double precision", tame) for _ in range(r.choice([0, 1, 2, 5])))
        if ty == "boolean":
            return r.choice(["true", "false"])
        if ty == "regproc":
            p = r.choice(PROCS)
            return "'%s'::regprocedure" % p
        if ty == "bytea":
            return "'\\x%s'::bytea" % "".join("%02x" % r.randrange(256) for _ in range(r.choice([0, 1, 4, 8, 33])))
        if ty in ("anyelement", '"any"', "any"):
            ty = self.anytype(r)
        if ty.startswith("any="):
            ty = ty[4:]
            if r.random() < .25:
                return "NULL::" + ty
            return "(%s)::%s" % (r.choice(ANY[ty]), ty) if ty in ANY else self.scalar(r, ty, tame)
        if ty == "anyarray":
            return self.scalar(r, "double precision[]", tame)
        return "NULL"

    def lam(self, r):
        if r.random() < .5:
            return s_lit(r.choice(["$value + 1", "$time", "$value > 0", "$time + '1 day'i", "($time, $value)", "let $x = $value; $x ^ 2", "sin($value)", "($time + '1 s'i, 1 / $value)", "not ($value = 1)"]))
        if r.random() < .12:
            n = r.choice([100, 1000, 5000, 40000])
            return r.choice(DEEP).replace("{n}", str(n))
        return s_lit(r.choice(["", " "]).join(r.choice(VOC) for _ in range(r.randint(1, 9))))

    def expr(self, r, ty, depth=0, tame=False):
        if ty not in self.types:
            return self.scalar(r, ty, tame)
        x = r.random()
        if ty.endswith("lambda"):
            return "(%s)::%s" % (self.lam(r), ty)
        if x < .04:
            return "NULL::" + ty
        c = self.corpus.get(ty)
        if c and (x < .45 or depth > 2):
            t = r.choice(c)
            return "%s::%s" % (s_lit(t), ty)
        if c and not tame and x < .55:
            return "%s::%s" % (s_lit(self.mutate(r, r.choice(c))), ty)
        fs = self.by_ret.get(ty)
        if not fs or depth > 3:
            return "NULL::" + ty
        return self.call(r, r.choice(fs), depth, tame=tame)
