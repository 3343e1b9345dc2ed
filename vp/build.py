"""Build verifypn (all of it, ptrie/spot replaced by /verif/standins) and the
harness from /repo's current working tree, incrementally, under /verif/_build."""
import os, subprocess, shutil, sys, filecmp, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "_build"))
SRC = os.path.join(BUILD, "src")
BLD = os.path.join(BUILD, "bld")
BIN = os.path.join(BLD, "verifypn", "bin", "verifypn-linux64")
HARNESS = os.path.join(BLD, "verifypn", "bin", "vph")

SKIP_DIRS = ("test_models/", "_build/", ".git/", "Tests/", "cpn_tests/", "boost_tests/", "Documentation/")


class BuildError(Exception):
    pass


def repo_files():
    try:
        out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                             check=True, capture_output=True).stdout.decode()
        files = [f for f in out.split("\0") if f]
    except Exception:
        files = []
        for d, dn, fn in os.walk(REPO):
            rel = os.path.relpath(d, REPO)
            dn[:] = [x for x in dn if x not in (".git", "_build", "test_models")]
            for f in fn:
                p = os.path.normpath(os.path.join(rel, f))
                if "pqlqueryparser" in p and p.endswith((".hpp", ".parser.cpp", ".lexer.cpp")):
                    continue
                files.append(p)
    return [f for f in files if not f.startswith(SKIP_DIRS)]


def sync():
    want = set()
    for f in repo_files():
        s = os.path.join(REPO, f)
        if not os.path.isfile(s):
            continue
        want.add(f)
        d = os.path.join(SRC, f)
        if os.path.isfile(d) and filecmp.cmp(s, d, shallow=False):
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(s, d)
    stamp = os.path.join(BUILD, "files.txt")
    changed = True
    if os.path.exists(stamp):
        old = set(x for x in open(stamp).read().split("\n") if x)
        changed = old != want
        for f in old - want:
            if os.path.exists(os.path.join(SRC, f)):
                os.remove(os.path.join(SRC, f))
    with open(stamp, "w") as o:
        o.write("\n".join(sorted(want)))
    return changed


def build(quiet=True):
    """Returns True when binaries are up to date; raises BuildError otherwise."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        changed = sync()
        log = open(os.path.join(BUILD, "build.log"), "w")
        if changed or not os.path.exists(os.path.join(BLD, "build.ninja")):
            if not os.path.exists(os.path.join(BLD, "build.ninja")):
                shutil.rmtree(BLD, ignore_errors=True)
            cmd = ["cmake", "-S", SRC, "-B", BLD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Verif",
                   "-DCMAKE_CXX_FLAGS_VERIF=-O1 -w", "-DVERIFYPN_Static=OFF",
                   "-DVERIFYPN_MC_Simplification=OFF", "-DVERIFYPN_TEST=OFF",
                   "-DVERIFYPN_GetDependencies=OFF",
                   "-DCMAKE_PROJECT_INCLUDE=" + os.path.join(VERIF, "cmake", "deps.cmake")]
            env = dict(os.environ, CC="gcc", CXX="g++")
            r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env)
            if r.returncode != 0:
                raise BuildError("cmake failed, see %s" % log.name)
        r = subprocess.run(["ninja", "-C", BLD], stdout=log, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("build failed, see %s" % log.name)
    return True


if __name__ == "__main__":
    try:
        build()
    except BuildError as e:
        print(e)
        sys.exit(3)
