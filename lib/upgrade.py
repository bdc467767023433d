"""A private installation laid out by the repository's own tools/post-install, with a simulated earlier
version beside the current one for every version the release can be updated from.

The earlier versions are the current install script, under the earlier version's name and library, from which
everything that was stabilised later is dropped again (lib/stable_objects.json: what each release had stabilised,
recorded from the pinned tree), and to which the objects that only old releases had are added."""
import fcntl, hashlib, json, os, re, shutil
import build
from build import BuildError

ROOT = os.path.join(build.BUILD, "pgroot-up")
FAILED = []  # how post-install failed, if it did
SNAP = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stable_objects.json")))


def vkey(v):
    if v == "prehistory":
        return (0, 0, 0)
    p = [int(x) for x in v.replace("-dev", "").split(".")]
    return tuple(p + [0] * (3 - len(p)))


def later_than(v):
    """the objects stabilised after version v"""
    return sorted(o for o, at in SNAP["objects"].items() if vkey(at) > vkey(v))


def drops(objs):
    out = []
    for kind, stmt in (("operator", "DROP OPERATOR IF EXISTS %s"), ("function", "DROP ROUTINE IF EXISTS %s"), ("type", "DROP TYPE IF EXISTS %s CASCADE")):
        for o in objs:
            k, _, rest = o.partition(" ")
            if k == kind:
                if k == "operator":
                    m = re.match(r"(\S+?)\((.*)\)$", rest)
                    rest = "%s (%s)" % (m.group(1), m.group(2))
                out.append((stmt % rest) + (" CASCADE" if k != "type" else "") + ";")
    return out


OLD_ONLY = """
CREATE FUNCTION disallow_experimental_dependencies() RETURNS event_trigger AS $$ BEGIN RETURN; END; $$ LANGUAGE plpgsql;
CREATE FUNCTION disallow_experimental_view_dependencies() RETURNS event_trigger AS $$ BEGIN RETURN; END; $$ LANGUAGE plpgsql;
CREATE EVENT TRIGGER disallow_experimental_deps ON ddl_command_end WHEN TAG IN ('CREATE AGGREGATE') EXECUTE FUNCTION disallow_experimental_dependencies();
CREATE EVENT TRIGGER disallow_experimental_dependencies_on_views ON ddl_command_end WHEN TAG IN ('CREATE VIEW') EXECUTE FUNCTION disallow_experimental_view_dependencies();
CREATE FUNCTION timescaledb_toolkit_probe() RETURNS void AS $$ SELECT NULL::void $$ LANGUAGE SQL;
CREATE FUNCTION toolkit_experimental.dropped_since(a int) RETURNS int AS $$ SELECT 1 $$ LANGUAGE SQL;
"""

# stats_agg is older than the transition functions its moving form has now
OLD_STATS = "".join("""
CREATE AGGREGATE stats_agg(%s) (sfunc=stats%dd_trans, stype=internal, finalfunc=stats%dd_final, combinefunc=stats%dd_combine, serialfunc=stats%dd_trans_serialize,
  deserialfunc=stats%dd_trans_deserialize, msfunc=stats%dd_trans, minvfunc=stats%dd_inv_trans, mstype=internal, mfinalfunc=stats%dd_final, parallel=safe);
""" % ((a,) + (d,) * 8) for d, a in ((1, "value double precision"), (2, "y double precision, x double precision")))


def ensure():
    """Returns the current version. Call build.ensure() first."""
    with open(os.path.join(build.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build._sh("export CARGO_TARGET_DIR=%s; cargo build --offline -p post-install" % build.TARGET, cwd=build.REPO)
        tool = os.path.join(build.TARGET, "debug", "post-install")
        h = hashlib.sha256(open(tool, "rb").read())
        h.update(build.tree_hash().encode())
        h.update(open(os.path.abspath(__file__), "rb").read())
        h = h.hexdigest()
        stampf = os.path.join(build.BUILD, "stamp-up")
        if os.path.exists(stampf) and open(stampf).read().split()[0] == h:
            return open(stampf).read().split()[1]
        if os.path.exists(stampf):
            os.unlink(stampf)
        version = open(build.PGROOT + "/installed").read()
        pkg = os.path.join(build.BUILD, "pkg-up")
        shutil.rmtree(pkg, ignore_errors=True)
        e, l = pkg + "/usr/share/postgresql/16/extension/", pkg + "/usr/lib/postgresql/16/lib/"
        os.makedirs(e)
        os.makedirs(l)
        src = build.PGROOT + "/usr/share/postgresql/16/extension/"
        for f in os.listdir(src):
            if f.startswith("timescaledb_toolkit"):
                shutil.copyfile(src + f, e + f)
        so = build.PGROOT + "/usr/lib/postgresql/16/lib/timescaledb_toolkit.so"
        os.link(so, l + "timescaledb_toolkit.so")
        install = open(e + "timescaledb_toolkit--%s.sql" % version).read()
        try:
            build._sh("%s --dir %s" % (tool, pkg), cwd=pkg)
            FAILED.clear()
        except BuildError as err:
            FAILED.append(str(err))
        # a private installation without the extension
        shutil.rmtree(ROOT, ignore_errors=True)
        shutil.copytree(build.PGROOT, ROOT, copy_function=os.link, ignore=lambda d, fs: [f for f in fs if f.startswith("timescaledb_toolkit") or f == "installed"])
        el, ll = ROOT + e[len(pkg):], ROOT + l[len(pkg):]
        for f in os.listdir(e):
            shutil.copyfile(e + f, el + f)
        for f in os.listdir(l):
            os.link(l + f, ll + f)
        for v in SNAP["upgradeable_from"]:
            old = install.replace("MODULE_PATHNAME", "$libdir/timescaledb_toolkit-" + v)
            with open(el + "timescaledb_toolkit--%s.sql" % v, "w") as f:
                f.write(old + "\n" + OLD_ONLY + "\n" + "\n".join(drops(later_than(v))) + "\n" + (OLD_STATS if vkey(v) < (1, 12, 0) else ""))
            os.link(so, ll + "timescaledb_toolkit-%s.so" % v)
        shutil.rmtree(pkg)
        if FAILED:
            return version
        with open(stampf, "w") as f:
            f.write("%s %s" % (h, version))
        return version
