"""Driver: case generation from (seed, index), worker processes, verdicts, evidence.

A check module defines
  ID, LEVEL, RULE, ASSUMPTIONS (list)
  QUICK, THOROUGH : number of cases
  class Worker(ctx): setup; method case(rng, idx, rec) runs one case
     rec.seen(key)      -> counts a non-trivial case under a distinctness key
     rec.count(name, n) -> counts observed events
     rec.sql(...)       -> remembered for the replay file
     rec.fail(sig, msg) -> a violation (sig identifies the failing call/input for known findings)
"""
import hashlib, importlib, json, multiprocessing as mp, os, queue, random, sys, time, traceback
import build, pg

VERIF = build.VERIF
NPROC = min(8, os.cpu_count() or 1)


class Rec:
    def __init__(self, idx):
        self.idx = idx
        self.counts = {}
        self.keys = set()
        self.viol = []
        self.stmts = []
        self.sample = None
        self.incon = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sql(self, q):
        self.stmts.append(q)

    def fail(self, sig, msg):
        self.viol.append({"sig": sig, "msg": msg[:4000], "idx": self.idx, "stmts": [s[:20000] for s in self.stmts[-8:]]})

    def inconclusive(self, why):
        self.incon.append(why[:500])


class Ctx:
    def __init__(self, tier, seed, server):
        self.tier, self.seed, self.server = tier, seed, server
        self.thorough = tier == "thorough"


def case_rng(prop, seed, idx):
    return random.Random("%s/%d/%d" % (prop, seed, idx))


class SqlWorker:
    """a worker with a connection; Q() records and runs"""
    SETTINGS = ""

    def __init__(self, ctx):
        self.ctx = ctx
        self.conn = None
        self.reconnect()

    def reconnect(self):
        if self.conn:
            try:
                self.conn.close()
            except Exception:
                pass
        self.conn = self.ctx.server.connect(timeout=getattr(self, "TIMEOUT", 120.0))
        self.conn.exec("SET statement_timeout='%ds'; SET client_min_messages=error; SET search_path=public; %s"
                       % (getattr(self, "STMT_TIMEOUT", 60), self.SETTINGS))

    def Q(self, rec, q):
        rec.sql(q)
        try:
            return self.conn.query(q)
        except (pg.PgCrash, pg.PgTimeout) as e:
            try:
                self.ctx.server.wait_up(40)
                self.reconnect()
            except Exception:
                pass
            raise
        except pg.PgError:
            # leave no failed transaction behind
            raise

    def err(self, rec, q):
        """runs q; returns (rows, None) or (None, PgError)"""
        try:
            return self.Q(rec, q), None
        except pg.PgError as e:
            return None, e


def _worker(mod, ctx, wid, nw, ncases, deadline, out):
    try:
        w = mod.Worker(ctx)
    except Exception:
        out.put(("err", "worker setup: " + traceback.format_exc()))
        out.put(("end", wid))
        return
    for idx in range(wid, ncases, nw):
        if time.time() > deadline:
            out.put(("deadline", idx))
            break
        rec = Rec(idx)
        try:
            w.case(case_rng(mod.ID, ctx.seed, idx), idx, rec)
        except pg.PgCrash as e:
            rec.fail("backend-crash", "the backend died: %s" % e)
        except pg.PgTimeout as e:
            rec.inconclusive("client timeout: %s" % e)
        except pg.PgError as e:
            if e.code == "57014":
                rec.inconclusive("statement timeout")
            elif e.code in ("53200", "53300", "57P03", "57P02", "57P01"):
                rec.inconclusive("server resource: %s" % e)
            else:
                rec.fail("unexpected-error:" + getattr(w, "errsig", lambda e: e.code)(e),
                         "a legitimate statement failed: %s" % e)
        except Exception:
            out.put(("err", "case %d: %s\nlast statement: %s" % (idx, traceback.format_exc(), (rec.stmts or [""])[-1][:3000])))
            break
        out.put(("rec", idx, rec.counts, list(rec.keys), rec.viol, rec.sample, rec.incon))
    try:
        fin = getattr(w, "finish", None)
        if fin:
            rec = Rec(-1)
            fin(rec)
            out.put(("rec", -1, rec.counts, list(rec.keys), rec.viol, rec.sample, rec.incon))
    except Exception:
        out.put(("err", "finish: " + traceback.format_exc()))
    out.put(("end", wid))


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    known = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> sig=<signature> :: <what fails>
                head, _, what = line[len("finding: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                known.append((d["property"], d["sig"], what))
    return known


def run_check(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("checks." + prop.lower())
    h = build.ensure() if getattr(mod, "NEEDS_EXT", True) else build.tree_hash()
    if getattr(mod, "ASAN", False):
        build.ensure_asan()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    tbuild = time.time() - t0
    needs_server = getattr(mod, "SERVER", True)
    server = None
    if needs_server:
        server = mod.make_server(mod.PGCONF) if hasattr(mod, "make_server") else \
            pg.Server(getattr(mod, "PGCONF", ""), extension=True, mem=getattr(mod, "MEM", None), asan=getattr(mod, "ASAN", False))
    ctx = Ctx(tier, seed, server)
    if hasattr(mod, "db_setup"):
        c = server.connect()
        mod.db_setup(c, ctx)
        c.close()
    ncases = mod.THOROUGH if tier == "thorough" else mod.QUICK
    budget = 640 if tier == "quick" else 3000
    deadline = time.time() + (getattr(mod, "QUICK_SECS", 100) if tier == "quick" else getattr(mod, "THOROUGH_SECS", 1500))
    nw = min(NPROC, getattr(mod, "WORKERS", NPROC), ncases)
    if only is not None:
        w = mod.Worker(ctx)
        rec = Rec(only)
        try:
            w.case(case_rng(mod.ID, seed, only), only, rec)
        except pg.PgCrash as e:
            rec.fail("backend-crash", str(e))
        except pg.PgError as e:
            rec.fail("unexpected-error:" + e.code, str(e))
        for v in rec.viol:
            print(json.dumps(v, indent=1))
        print("%d violation(s)" % len(rec.viol))
        return 1 if rec.viol else 0
    m = mp.get_context("fork")
    out = m.Queue()
    ps = [m.Process(target=_worker, args=(mod, ctx, i, nw, ncases, deadline, out), daemon=True) for i in range(nw)]
    for p in ps:
        p.start()
    counts, keys, viols, samples, errs, incon = {}, set(), [], {}, [], []
    evals, ended, cut = 0, 0, False
    hard = time.time() + budget
    while ended < nw:
        try:
            msg = out.get(timeout=5)
        except queue.Empty:
            if time.time() > hard:
                errs.append("hard time limit reached with workers still running")
                break
            if all(not p.is_alive() for p in ps) and out.empty():
                errs.append("a worker died")
                break
            continue
        if msg[0] == "end":
            ended += 1
        elif msg[0] == "err":
            errs.append(msg[1])
        elif msg[0] == "deadline":
            cut = True
        else:
            _, idx, c, k, v, s, inc = msg
            if idx >= 0:
                evals += 1
            for n, x in c.items():
                counts[n] = counts.get(n, 0) + x
            keys.update(k)
            viols += v
            incon += inc
            if s is not None and len(samples) < 6:
                samples[idx] = s
    for p in ps:
        p.terminate()
    crashes = server.crashes() if server else []
    if server:
        server.stop()
    viols.sort(key=lambda v: v["idx"])
    known = [k for k in load_known() if k[0] == prop]
    kf, real = {}, []
    for v in viols:
        hit = [k for k in known if k[1] == v["sig"]]
        if hit:
            kf.setdefault(hit[0][1], hit[0][2])
        else:
            real.append(v)
    nothing = [n for n in getattr(mod, "MUST_OBSERVE", []) if not counts.get(n)]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [samples[k] for k in sorted(samples)] or ["(no case ran)"],
                       "observed_events": dict(sorted(counts.items())),
                       "inconclusive": len(incon), "inconclusive_reasons": sorted(set(incon))[:5],
                       "known_findings_seen": sorted(kf),
                       "stopped_at_deadline": cut, "tree": h, "build_s": round(tbuild, 1)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.0f s (build %.0f s)"
          % (prop, tier, seed, evals, len(keys), len(incon), time.time() - t0, tbuild))
    print("observed: " + ", ".join("%s=%d" % x for x in sorted(counts.items())))
    for s, what in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if real:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": real[:50], "server_log": crashes[:10]}, f, indent=1)
        sigs = {}
        for v in real:
            sigs.setdefault(v["sig"], []).append(v)
        for s, vs in list(sigs.items())[:12]:
            print("violated [%s] x%d, case %d: %s" % (s, len(vs), vs[0]["idx"], vs[0]["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        print("ERROR (inconclusive): " + "\n".join(errs)[:6000])
        return 2
    if nothing or evals == 0:
        print("ERROR (inconclusive): nothing observed for %s" % (nothing or "any case"))
        return 2
    if len(incon) * 5 > evals + 5:
        print("ERROR (inconclusive): too many inconclusive cases: %s" % sorted(set(incon))[:5])
        return 2
    return 0


def main(argv):
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(10000)
    try:
        if argv[0] == "setup":
            build.ensure(verbose=True)
            import setup_extra
            setup_extra.main()
            rc = 0
        elif argv[0] == "replay":
            d = json.load(open(argv[1]))
            os.environ["VERIF_SEED"] = str(d["seed"])
            rc = 0
            for i in sorted({v["idx"] for v in d["violations"]})[:5]:
                rc = run_check(d["property"], d["tier"], only=i) or rc
        else:
            rc = run_check(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"),
                           only=int(argv[3]) if len(argv) > 3 and argv[2] == "case" else None)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
