"""What setup builds besides the extension."""
import build, inproc, upgrade


def main():
    build.ensure_asan()
    upgrade.ensure()
    build._sh("export CARGO_TARGET_DIR=%s; cargo build --offline -p sql-doctester -p update-tester" % build.TARGET, cwd=build.REPO)
    inproc.ensure(["native", "asan", "miri"])
