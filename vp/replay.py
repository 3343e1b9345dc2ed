"""Re-run a recorded violation: writes the inputs, runs the program, shows the outcome."""
import json, os, tempfile
from . import build, runner


def main(path):
    build.build()
    d = json.load(open(path))
    t = tempfile.mkdtemp(prefix="vp_replay_")
    files = []
    if d.get("pnml"):
        files.append(os.path.join(t, "net.pnml"))
        open(files[-1], "w").write(d["pnml"])
    if d.get("queries"):
        files.append(os.path.join(t, "queries.xml"))
        open(files[-1], "w").write(d["queries"])
    print(d.get("what", "")[:2000])
    argv = files + list(d.get("argv", []))
    print("inputs in", t)
    print("$ verifypn", " ".join(argv))
    o = runner.run(argv, timeout=60, stdin=d.get("stdin"))
    print(o.out[-4000:])
    print(o.err[-2000:])
    print("status", o.rc, "(timed out)" if o.timeout else "")
    if "expected" in d:
        print("expected by the specification:", d["expected"])
    return 0
