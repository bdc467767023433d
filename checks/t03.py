"""Lambda expressions: precedence, types, variables, functions, times and intervals."""
import math
from run import SqlWorker
from pg import *
import gen, pipe
from pipe import fdiv, fpow, fln, fround, fint, NAN, INF
from checks.t01 import rel

ID = "T03"
QUICK, THOROUGH = 8000, 40000
RULE = ("seeded typed expressions of up to 40 nodes over $value, $time, constants in every spelling, variables (nested, shared, unused), 25 functions and all operators, printed with as few or as many "
        "parentheses as wanted, evaluated for one point and over series; compared with an independent evaluation (time and interval results with PostgreSQL's own operators); distinct = distinct texts")
ASSUMPTIONS = ["sign of zero is not specified", "transcendental functions may differ in the last digits"]
MUST_OBSERVE = ["Double", "Bool", "Time", "Interval", "point", "let", "nested_let", "series", "few_parens", "many_parens", "type_error", "ill_typed_pair", "syntax_error", "tuple_compare", "interval_compare", "short_circuit",
                "months", "special_names"]
PREC = {"or": 1, "and": 2, "=": 3, "!=": 3, "<>": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "^": 6}


def dom(f):
    def g(*a):
        if any(x != x for x in a):
            return NAN
        try:
            return f(*a)
        except ValueError:
            return NAN
        except OverflowError:
            return None
    return g


def fatanh(a):
    return math.copysign(INF, a) if abs(a) == 1 else math.atanh(a)


def trig(f):
    return lambda a: NAN if abs(a) == INF else f(a)


# name: (function, discontinuous)
FN = {"abs": (abs, 0), "cbrt": (lambda a: a if abs(a) == INF else math.cbrt(a), 0), "ceil": (fint(math.ceil), 1), "floor": (fint(math.floor), 1), "ln": (fln, 0),
      "log10": (lambda a: -INF if a == 0 else math.log10(a), 0), "round": (fround, 1), "sign": (lambda a: None if a == 0 else math.copysign(1.0, a), 1),
      "sqrt": (math.sqrt, 0), "trunc": (fint(math.trunc), 1), "acos": (math.acos, 0), "asin": (math.asin, 0), "atan": (math.atan, 0), "cos": (trig(math.cos), 0), "sin": (trig(math.sin), 0), "tan": (trig(math.tan), 0),
      "sinh": (math.sinh, 0), "cosh": (math.cosh, 0), "tanh": (math.tanh, 0), "asinh": (math.asinh, 0), "acosh": (math.acosh, 0), "atanh": (fatanh, 0)}
ILL = ["$value + $time", "$time + 1", "$time * 2.0", "1 and 2", "not 1", "- '1 day'i", "'1 day'i > 1", "$time = $value", "1 + (1 = 1)", "'1 day'i ^ 2", "$time - $time", "sqrt(1, 2)", "log(2)", "pi(1)",
       "nosuch(1)", "$nosuch + 1", "let $a = 1; let $a = 2; $a", "(1 = 1) + 1", "1 < 2 < 3", "2.0 / '1 day'i"]
BADSYN = ["", "1 +", "(1", "1)", "* 2", "1 2", "let $x 1; $x", "let $x = 1 $x", "'2020-01-01'", "sqrt(", "sqrt 4", "$", "1 == 1", "1 && 1", "$value +/ 2", "let $x = 1;", "'not a time't", "'5 parsecs'i", ", 1"]


class Node:
    def __init__(self, ty, op, *kids, val=None):
        self.ty, self.op, self.kids, self.val = ty, op, kids, val

    def size(self):
        return 1 + sum(k.size() for k in self.kids)


class Skip(Exception):
    pass


class Gen:
    def __init__(self, r, rec):
        self.r, self.rec, self.vars, self.n = r, rec, [], 0

    def name(self):
        self.n += 1
        if self.r.random() < .2:
            self.rec.count("special_names")
            return "$" + self.r.choice(["time", "value", "Value", "TIME", "let", "and", "pi"]) + "_%d" % self.n if self.r.random() < .5 else "$" + self.r.choice(["values", "times", "value2", "timer"]) + "x%d" % self.n
        return self.r.choice(["$x%d", "$_v%d", "$%d", "$Abc_%d"]) % self.n

    def double(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            c = [x for x in self.vars if x[1] == "D"]
            if c and r.random() < .5:
                x = r.choice(c)
                return Node("D", "var", val=x)
            if r.random() < .45:
                return Node("D", "value")
            return Node("D", "num", val=r.choice([0.0, 1.0, 2.0, .5, 10.0, 3.0, 1e3, 2.5e-3, float(r.randint(0, 20)), round(r.uniform(0, 50), 3)]))
        o = r.random()
        if o < .55:
            return Node("D", r.choice("+-*/^"), self.double(d - 1), self.double(d - 1 - r.randint(0, 1)))
        if o < .65:
            return Node("D", "neg", self.double(d - 1))
        if o < .92:
            f = r.choice(list(FN) + ["log", "atan2", "pi"])
            return Node("D", "fn", *[self.double(d - 1) for _ in range({"log": 2, "atan2": 2, "pi": 0}.get(f, 1))], val=f)
        return self.let("D", d)

    def let(self, ty, d):
        self.rec.count("nested_let")
        keep = list(self.vars)
        defs = []
        for _ in range(self.r.randint(1, 2)):
            t = self.r.choice("DDBTI")
            e = self.any(t, d - 2)
            v = (self.name(), t, object())
            defs.append((v, e))
            self.vars.append(v)
        body = self.any(ty, d - 1)
        self.vars = keep
        return Node(ty, "let", *[e for _, e in defs], body, val=[v for v, _ in defs])

    def any(self, t, d):
        return {"D": self.double, "B": self.bool, "T": self.time, "I": self.interval}[t](d)

    def bool(self, d):
        r = self.r
        c = [x for x in self.vars if x[1] == "B"]
        if c and r.random() < .2:
            return Node("B", "var", val=r.choice(c))
        if d <= 1 or r.random() < .4:
            cmp = r.choice(["=", "!=", "<>", "<", "<=", ">", ">="])
            t = r.choice("DDDTI")
            o = r.random()
            if o < .08:
                self.rec.count("tuple_compare")
                k = r.choice([["D", "D"], ["T", "D"], ["D", "B"]])
                return Node("B", cmp, Node("P", "tuple", *[self.any(x, d - 2) for x in k]), Node("P", "tuple", *[self.any(x, d - 2) for x in k]))
            if t == "I":
                self.rec.count("interval_compare")
            a, b = self.any(t, d - 1), self.any(t, d - 1)
            return Node("B", cmp, a, b)
        if r.random() < .25:
            return Node("B", "not", self.bool(d - 1))
        if r.random() < .1:
            return Node("B", r.choice(["=", "!=", "<", ">="]), self.bool(d - 1), self.bool(d - 1))
        return Node("B", r.choice(["and", "or"]), self.bool(d - 1), self.bool(d - 1))

    def time(self, d):
        r = self.r
        c = [x for x in self.vars if x[1] == "T"]
        if c and r.random() < .3:
            return Node("T", "var", val=r.choice(c))
        if d <= 0 or r.random() < .4:
            if r.random() < .6:
                return Node("T", "time")
            return Node("T", "tlit", val=r.randint(-10 ** 9, 10 ** 9) * US)
        return Node("T", r.choice("+-"), self.time(d - 1), self.interval(d - 1))

    def interval(self, d):
        r = self.r
        c = [x for x in self.vars if x[1] == "I"]
        if c and r.random() < .3:
            return Node("I", "var", val=r.choice(c))
        if d <= 0 or r.random() < .4:
            m = r.choice([0, 0, 0, r.randint(-14, 14)])
            return Node("I", "ilit", val=(m, r.choice([0, 0, r.randint(-40, 40)]), r.choice([0, r.randint(-10 ** 5, 10 ** 5) * US, r.randint(-10 ** 9, 10 ** 9)])))
        o = r.random()
        if o < .5:
            return Node("I", r.choice("+-"), self.interval(d - 1), self.interval(d - 1))
        if o < .8:
            a, b = self.interval(d - 1), self.double(d - 2)
            return Node("I", "*", *((a, b) if r.random() < .5 else (b, a)))
        return Node("I", "/", self.interval(d - 1), self.double(d - 2))


class Eval:
    """doubles and booleans as Python values; times and intervals as SQL text, so that PostgreSQL's operators are the reference"""

    def __init__(self, value, time, ask):
        self.v, self.t, self.env, self.ask, self.approx, self.short = value, time, {}, ask, False, False

    def ev(self, n):
        o, k = n.op, n.kids
        if o == "num":
            return n.val
        if o == "value":
            return self.v
        if o == "time":
            return ts_lit(self.t)
        if o == "tlit":
            return ts_lit(n.val)
        if o == "ilit":
            return "'%s'::interval" % ivtext(n.val)
        if o == "var":
            e = self.env[n.val[2]]
            if e[0] is None:
                e[0] = (self.ev(e[1]),)
            return e[0][0]
        if o == "let":
            for v, e in zip(n.val, k):
                self.env[v[2]] = [None, e]
            return self.ev(k[-1])
        if o == "tuple":
            return [self.ev(x) for x in k]
        if o == "neg":
            return -self.ev(k[0])
        if o == "not":
            return not self.ev(k[0])
        if o == "and" or o == "or":
            a = self.ev(k[0])
            if a == (o == "or"):
                self.short = True
                return a
            return self.ev(k[1])
        if o == "fn":
            a = [self.ev(x) for x in k]
            if n.val == "pi":
                return math.pi
            if self.approx and n.val not in ("abs", "atan", "asinh", "tanh", "sinh", "cosh") and any(abs(x) < 1e-3 or abs(abs(x) - 1) < 1e-3 or abs(x) > 1e4 for x in a):
                raise Skip  # near a pole, a branch or a period an earlier rounding may show
            if n.val in FN and FN[n.val][1] and self.approx:
                raise Skip
            if n.val in FN:
                if n.val not in ("abs", "ceil", "floor", "round", "sign", "trunc", "sqrt"):
                    self.approx = True
                x = dom(FN[n.val][0])(*a)
            else:
                self.approx = True
                x = dom((lambda p, q: fdiv(fln(p), fln(q))) if n.val == "log" else math.atan2)(*a)
            if x is None:
                raise Skip
            return x
        a, b = self.ev(k[0]), self.ev(k[1])
        if n.ty == "D":
            if o in "+-" and self.approx and abs(a + b if o == "+" else a - b) < 1e-3 * max(abs(a), abs(b)):
                raise Skip  # cancellation
            if o == "^" and self.approx and (a < 1e-3 or abs(b) > 1e3):
                raise Skip
            if o == "^":
                self.approx = True
                return fpow(a, b)
            return a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else fdiv(a, b)
        if n.ty == "B":
            return self.cmp(o, k[0].ty, a, b, k)
        # times and intervals: PostgreSQL's own operators
        if k[0].ty == "D":
            a = f_lit(a)
        if k[1].ty == "D":
            b = f_lit(b)
        return "(%s %s %s)" % (a, o, b)

    def cmp(self, o, ty, a, b, kids):
        o = "!=" if o == "<>" else o
        if ty in "TI":
            # also what the second comparison below would see when variables are shared
            return self.ask("%s %s %s" % (a, o, b)) == "t"
        if ty == "P":
            for x, y, kx in zip(a, b, kids[0].kids):
                e = self.cmp("=", kx.ty, x, y, None)
                if e:
                    continue
                if o in ("=", "!="):
                    return o == "!="
                return self.cmp(o if o in "<>" else o[0], kx.ty, x, y, None)
            return o in ("=", "<=", ">=")
        if ty == "D" and self.approx and (a == a and b == b) and not (abs(a - b) > 1e-6 * max(abs(a), abs(b))):
            raise Skip
        return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]


def ivtext(v):
    return "%d months %d days %s%d.%06d secs" % (v[0], v[1], "-" if v[2] < 0 else "", abs(v[2]) // US, abs(v[2]) % US)


class Print:
    def __init__(self, r, extra):
        self.r, self.extra = r, extra

    def case(self, s):
        return self.r.choice([s, s, s.upper(), s.capitalize()])

    def p(self, n, ctx=0):
        """ctx: the binding strength the context needs"""
        o, k, r = n.op, n.kids, self.r
        if o == "num":
            v = n.val
            s = r.choice([repr(v), repr(v), "%.17g" % v if v != int(v) or v > 1e15 else "%d" % v, "%r" % v if v != int(v) else "%d." % v, "+" + repr(v)])
            if float(s) != v or (s[0] == "+" and ctx >= 7):
                s = repr(v)
            s = s.replace("e", r.choice("eE"))
            prec = 9
        elif o == "value":
            s, prec = r.choice(["$value", "$value", "$VALUE", "$Value"]), 9
        elif o == "time":
            s, prec = r.choice(["$time", "$time", "$TIME"]), 9
        elif o == "tlit":
            s, prec = "'%s't" % ts_text(n.val), 9
        elif o == "ilit":
            s, prec = "'%s'i" % ivtext(n.val), 9
        elif o == "var":
            s, prec = n.val[0], 9
        elif o == "fn":
            s, prec = "%s(%s)" % (n.val, ", ".join(self.p(x, 0) if x.op not in ("let", "tuple") else "(%s)" % self.p(x) for x in k) + (r.choice(["", "", " ,"]) if k else "")), 9
        elif o == "tuple":
            s, prec = ", ".join(self.p(x, .5) for x in k), 0.2
        elif o == "let":
            s, prec = "".join("let %s = %s;%s" % (v[0], self.p(e, .1), r.choice([" ", "\n", ""])) for v, e in zip(n.val, k)) + self.p(k[-1], .1 if k[-1].op == "tuple" else .5), 0
        elif o == "neg":
            s, prec = "-" + r.choice(["", " "]) + self.p(k[0], 7), 7
        elif o == "not":
            s, prec = self.case("not") + " " + self.p(k[0], 7), 7
        else:
            prec = PREC[o]
            left, right = (prec, prec + 1) if o != "^" else (prec + 1, prec)
            sp = r.choice([" ", " ", "  ", "\n", ""]) if o not in ("and", "or") else " "
            s = self.p(k[0], left) + sp + (self.case(o) if o in ("and", "or") else o) + sp + self.p(k[1], right)
        if prec < ctx or (o not in ("let", "tuple") and r.random() < self.extra):
            s = "(" + r.choice(["", " "]) + s + r.choice(["", "\n"]) + ")"
        return s


class Worker(SqlWorker):
    def ask(self, q):
        return self.Q(self.rec, "SELECT " + q)[0][0]

    def errors(self, r, rec):
        bad = r.choice(ILL + BADSYN)
        rec.count("type_error" if bad in ILL else "syntax_error")
        got, e = self.err(rec, "SELECT toolkit_experimental.%s_lambda($q$%s$q$, now(), 2.0)" % (r.choice(["f64", "bool", "ttz", "interval"]), bad))
        if e is None:
            rec.fail("lambda:accepted", "%r was accepted: %s" % (bad, got))
        # any pair of operands an operator is not defined for, also where it would never be evaluated
        some = {"D": ["1.0", "$value", "abs(-2)"], "B": ["(1 = 1)", "(not (2 < 1))"], "T": ["$time", "'2020-01-01 00:00:00+00't"], "I": ["'1 day'i", "('1 hour'i + '2 hours'i)"]}
        legal = {"+": ("DD", "TI", "II"), "-": ("DD", "TI", "II"), "*": ("DD", "ID", "DI"), "/": ("DD", "ID"), "^": ("DD",), "and": ("BB",), "or": ("BB",)}
        for _ in range(6):
            op = r.choice(list(legal) * 2 + ["=", "!=", "<", "<=", ">", ">=", "=", "!=", "<", "<=", ">", ">="])
            x, y = r.choice("DBTI"), r.choice("DBTI")
            if x + y in legal.get(op, ("DD", "BB", "TT", "II")):
                continue
            rec.count("ill_typed_pair")
            e0 = "%s %s %s" % (r.choice(some[x]), op, r.choice(some[y]))
            k = r.random()
            text = e0 if k < .4 else "(%s)" % e0 if k < .6 else "let $q = %s; 1.0" % e0 if k < .7 else "1 = 2 and (1 = 1 and (%s) = (%s))" % (e0, e0) if k < .85 else "(%s, 1.0)" % e0
            for fn in ("f64", "bool", "ttz", "interval"):
                got, e = self.err(rec, "SELECT toolkit_experimental.%s_lambda($q$%s$q$, now(), 2.0)" % (fn, text))
                if e is None:
                    rec.fail("lambda:accepted", "%r was accepted: %s" % (text, got))
        # the right expression through the wrong function
        right = {"f64": "1.0", "bool": "1 = 1", "ttz": "$time", "interval": "'1 day'i"}
        a, b = r.sample(sorted(right), 2)
        got, e = self.err(rec, "SELECT toolkit_experimental.%s_lambda($q$%s$q$, now(), 2.0)" % (a, right[b]))
        if e is None:
            rec.fail("lambda:accepted", "%s_lambda of %r was accepted: %s" % (a, right[b], got))

    def case(self, r, idx, rec):
        self.rec = rec
        if r.random() < .05:
            return self.errors(r, rec)
        g = Gen(r, rec)
        ty = r.choice("DDDBBTI")
        n = g.any(ty, r.choice([2, 3, 4, 5]))
        if r.random() < .4:
            # top level let
            rec.count("let")
            g.vars = []
            n = g.let(ty, r.randint(2, 4))
        if n.size() > 40:
            return
        point = ty == "D" and r.random() < .15
        extra = r.choice([0, 0, .3])
        text = Print(r, extra).p(n)
        rec.count("many_parens" if extra else "few_parens")
        ts = gen.base_ts(r) % 10 ** 15
        vs = [r.choice([0.0, 1.0, -1.0, 2.0, 7.5, -3.25, float(r.randint(-9, 9)), round(r.uniform(-20, 20), 4), 1e-3, 1e6]) for _ in range(5)]
        want, approx = [], False
        try:
            for i, v in enumerate(vs):
                e = Eval(v, ts + i * US, self.ask)
                want.append(e.ev(n))
                approx |= e.approx
                if e.short:
                    rec.count("short_circuit")
        except Skip:
            rec.count("skipped")
            return
        except PgError as e:
            if e.code[:2] != "22":
                raise
            rec.count("skipped")
            return
        if "months" in text and " 0 months" not in text:
            rec.count("months")
        rec.count({"D": "Double", "B": "Bool", "T": "Time", "I": "Interval"}[ty])
        fn = {"D": "f64", "B": "bool", "T": "ttz", "I": "interval"}[ty]
        if ty in "TI":
            # the reference: PostgreSQL; an overflow there must be one here
            ref, e1 = self.err(rec, "SELECT " + want[0])
            ref2, e2 = self.err(rec, "SELECT toolkit_experimental.%s_lambda($q$%s$q$, %s, %s)" % (fn, text, ts_lit(ts), f_lit(vs[0])))
            if e1 is None and e2 is None and ref != ref2 and approx:
                # roundings of a logarithm or power reach the microseconds
                d = self.Q(rec, "SELECT abs(extract(epoch from a) - extract(epoch from b)) <= 0.01 + 1e-9 * abs(extract(epoch from a)) FROM (SELECT '%s'::%s a, '%s'::%s b) x"
                           % (ref[0][0], "interval" if ty == "I" else "timestamptz", ref2[0][0], "interval" if ty == "I" else "timestamptz"))[0][0]
                ref2 = ref if d == "t" else ref2
            if (e1 is None) != (e2 is None) or (e1 is None and ref != ref2):
                rec.fail("lambda:" + fn, "%r at value %s, time %s is %s, expected %s" % (text, vs[0], ts_text(ts), e2 or ref2, e1 or ref))
            rec.seen(text)
            return
        if point:
            rec.count("point")
            got = self.Q(rec, "SELECT x.value FROM toolkit_experimental.point_lambda($q$ $time, (%s) $q$, %s, %s) x" % (text, ts_lit(ts), f_lit(vs[0])))[0][0]
        else:
            got = self.Q(rec, "SELECT toolkit_experimental.%s_lambda($q$%s$q$, %s, %s)" % (fn, text, ts_lit(ts), f_lit(vs[0])))[0][0]
        got = got == "t" if ty == "B" else f_parse(got)
        if not self.same(got, want[0], approx):
            rec.fail("lambda:" + fn, "%r at value %s, time %s is %s, expected %s" % (text, vs[0], ts_text(ts), got, want[0]))
        rec.seen(text)
        if idx < 8:
            rec.sample = "%s at %s -> %s" % (text, vs[0], got)
        if r.random() < .5:
            rec.count("series")
            rows = [(ts + i * US, v) for i, v in enumerate(vs)]
            el = "toolkit_experimental.%s($q$%s$q$)" % ("filter" if ty == "B" else "map", text)
            got = self.Q(rec, "SELECT (extract(epoch from u.time - %s)*1000000)::bigint, u.value FROM (SELECT timevector(t,v ORDER BY o) tv FROM %s) s, LATERAL unnest(tv -> %s) u" % (ts_lit(ts), rel(rows), el))
            exp = [(i * US, v) for i, v in enumerate(vs) if want[i]] if ty == "B" else [(i * US, w) for i, w in enumerate(want)]
            if len(got) != len(exp) or any(int(a[0]) != b[0] or not self.same(f_parse(a[1]), b[1], approx) for a, b in zip(got, exp)):
                rec.fail("lambda:series", "%s over values %s gives %s, expected %s" % (el, vs, got, exp))

    def same(self, a, b, approx):
        if isinstance(b, bool):
            return a == b
        if a != a or b != b:
            return a != a and b != b
        return a == b or (approx and (abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9))
