"""Running the real verifypn and reading its answers."""
import os, re, subprocess, tempfile, shutil, time, itertools
from concurrent.futures import ThreadPoolExecutor
from . import build

NPROC = os.cpu_count() or 8
TIMEOUT = 30
SLOW = [] if os.environ.get('VP_SLOW') else None


ENV = dict(os.environ, LC_ALL="C", GLIBC_TUNABLES="glibc.malloc.hugetlb=1")


class Out:
    __slots__ = ("rc", "out", "err", "timeout", "argv")

    def crashed(self):
        return self.timeout or self.rc is None or self.rc < 0 or self.rc > 3


def run(argv, cwd=None, timeout=TIMEOUT, stdin=None, binary=None):
    o = Out()
    o.argv = [binary or build.BIN] + list(argv)
    o.timeout = False
    t0 = time.time()
    try:
        r = subprocess.run(o.argv, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, input=stdin.encode() if stdin is not None else None,
                           stdin=subprocess.DEVNULL if stdin is None else None,
                           env=ENV)
        o.rc, o.out, o.err = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        o.rc, o.out, o.err, o.timeout = None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace"), True
    if SLOW is not None and time.time() - t0 > 2:
        SLOW.append((time.time() - t0, o.argv[1:]))
    return o


FORM = re.compile(r"^FORMULA (\S+) (TRUE|FALSE|CANNOT_COMPUTE|\d+)\b", re.M)


def formulas(out):
    """name -> list of answers, as printed"""
    d = {}
    for n, v in FORM.findall(out):
        d.setdefault(n, []).append(v)
    return d


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vp_", dir=base)
        self.ids = itertools.count(1)      # next() is atomic

    def file(self, suffix, content=None):
        p = os.path.join(self.dir, "%06d%s" % (next(self.ids), suffix))
        if content is not None:
            with open(p, "w") as f:
                f.write(content)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(fn, items))
