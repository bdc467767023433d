"""Summaries as the pinned build stored them: golden.json.xz holds, for each, the rows, the stored bytes, the text and the answers.
`python3 lib/golden.py make` writes it (once, from the pinned tree: it is not rewritten by any check)."""
import json, lzma, os, random, sys

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "golden.json.xz")
PER_KIND = 24


def load():
    return json.loads(lzma.open(FILE).read())


def casts(conn, types):
    for ty in types:
        try:
            conn.exec("CREATE CAST (%s AS bytea) WITHOUT FUNCTION; CREATE CAST (bytea AS %s) WITHOUT FUNCTION" % (ty, ty))
        except Exception as e:
            if getattr(e, "code", "") != "42710":
                raise


def vals(cols, rows):
    return "(VALUES %s) d(%s)" % (",".join("(%s)" % ",".join(x) for x in rows), ",".join(c[0] for c in cols))


def make():
    import build, pg, cat, gen
    build.ensure()
    s = pg.Server()
    c = s.connect()
    c.exec("SET search_path=public; SET client_min_messages=error")
    out = []
    kinds = [k for k in sorted(cat.KINDS) if "toolkit_experimental" not in cat.KINDS[k].ty]
    casts(c, sorted({cat.KINDS[k].ty for k in kinds}))
    for name in kinds:
        i = n = 0
        while n < PER_KIND:
            i += 1
            r = random.Random("golden/%s/%d" % (name, i))
            k, cols, rows = cat.instance(r, name, n=r.choice([2, 3, 5, 8, 13, 21, 34]) if n % 6 or name not in ("hll", "udd", "tdigest", "timevector", "state_text") else r.randint(400, 1500))
            agg = k.agg(r, rows).replace("{o}", "")
            accs = k.accs(r, rows)
            cut = r.randint(1, len(rows) - 1)
            g = {"kind": name, "ty": k.ty, "agg": agg, "cols": cols, "roll": k.roll if k.pieces != "none" else None, "parts": []}
            try:
                for part in (rows, rows[:cut], rows[cut:]):
                    q = c.query("SELECT encode(a::bytea,'hex'), a::text FROM (SELECT %s a FROM %s) z" % (agg, vals(cols, part)))[0]
                    if q[0] is None:
                        raise pg.PgError("", "null")
                    ans = []
                    for x in accs:
                        try:
                            ans.append([x.sql("a"), x.mode, c.query("SELECT %s FROM (SELECT %s a FROM %s) z" % (x.sql("a"), agg, vals(cols, part)))[0][0]])
                        except pg.PgError:
                            pass
                    if not ans:
                        raise pg.PgError("", "no answers")
                    g["parts"].append({"rows": part, "hex": q[0], "text": q[1], "ans": ans})
            except pg.PgError as e:
                if i > 200:
                    raise
                continue
            out.append(g)
            n += 1
    s.stop()
    with lzma.open(FILE, "w", preset=9) as f:
        f.write(json.dumps(out).encode())
    print(len(out), os.path.getsize(FILE))


if __name__ == "__main__":
    make()
