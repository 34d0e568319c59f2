# encoding: utf-8
"""A copy of a program is equal to it exactly when the transfer left every command intact."""
import io
import re

from .procs import setup
from .. import gen, loader, session, shrink as shr
from ..core import Outcome, digest
from ..printer import Cmd, strip_comment

ID = "P20"
RUNS = {"quick": 25000, "thorough": 1500000}
RULE = ("two hosts receive one program over lines which lose, double, swap, damage and repeat what they carry (values are "
        "changed below and above the tolerance, comments and spelling are changed), keep it as block, line by line or both, "
        "edit, save and reload it; at seeded points and at the end the copies are compared in both directions with == and diff, "
        "which is judged by a command by command comparison of what was delivered; a comparison leaves both copies "
        "untouched; non-trivial: the copies were equal at one point and different at another one, or one fault happened")
MEASURE = "distinct (program, deliveries, comparison points) histories, by digest"
REAL = ["gcodeutils.gcoder"]
STUB = []
ASSUMPTIONS = ["values which differ by about the tolerance (0.0005 to 0.002 mm) are not judged", "lines which are no G, M or T "
               "command are not part of the programs"]

NEAR, FAR = 0.0005, 0.002
EXTRA = ["M104 S200", "M104 S210", "M92 E100", "M92 E96.5", "M203 X100 Y100", "T0", "T1", "M84 X", "M84", "M300 S440 P200",
         "G4 P100", "G4 P200", "G10 P1 S5", "M106 S255", "M107", "G28", "G28 X0", "G28 X0 Y0", "G92 E0", "M204 S1000"]
PLAIN = "GMT"


def commands(lines):
    """[(name, {letter: value})] of what was delivered; lengths in mm."""
    out = []
    inch = False
    for s in lines:
        c = Cmd(s)
        if c.name is None:
            continue
        if c.name in ("G20", "G21"):
            inch = c.name == "G20"
        args = {}
        for letter in c.letters:
            v = c.args.get(letter)
            if v is not None and inch and c.name[0] == "G" and letter in "XYZEFIJ":
                v *= 25.4
            args[letter] = v
        out.append((c.name, args))
    return out


def same(a, b):
    """True, False, or None when it depends on rounding."""
    if len(a) != len(b):
        return False
    doubt = False
    for (n, x), (m, y) in zip(a, b):
        if n != m or set(x) != set(y):
            return False
        for letter in x:
            v, w = x[letter], y[letter]
            if (v is None) != (w is None):
                return False
            if v is not None:
                if abs(v - w) > FAR:
                    return False
                doubt = doubt or abs(v - w) > NEAR
    return None if doubt else True


def plain(s):
    s = s.strip()
    c = Cmd(s)
    if re.search(r"(?<![0-9])[-+.]+(?![0-9.])", strip_comment(s)):
        return False                  # no number: refused
    if c.name == "G4" and len(c.args) < len(c.letters):
        return False
    return c.name is None and (not s or s[0] in ";(") or (
        c.name is not None and s[0].upper() in PLAIN + "N" and c.name[0] in PLAIN and c.name[1:].isdigit()
        and len(set(c.letters)) == len(c.letters) and "N" not in c.letters)


def disturb(rng, s):
    """(what, the lines which arrive instead of s)"""
    head = re.split(r"[;(*]", s)[0]
    nums = [m for m in re.finditer(r"(?<=[A-Za-z])[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)", head)][1:]
    r = rng.random()
    if r < 0.12:
        return "lost", []
    if r < 0.22:
        return "doubled", [s, s]
    if r < 0.30:
        return "cut", [s[:rng.randint(1, max(1, len(s) - 1))]]
    if r < 0.38:
        return "inserted", [s, rng.choice(EXTRA)]
    if r < 0.44:
        return "replaced", [rng.choice(EXTRA)]
    if r < 0.50:
        return "comment", [rng.choice([s + " ; note e5", "; before\n" + s, s + "\n(after)"])][0].split("\n")
    if r < 0.55:
        return "case", [head.lower() + s[len(head):]]
    if nums:
        m = rng.choice(nums)
        v = float(m.group())
        if r < 0.70:
            w = v + rng.choice([-1, 1]) * rng.choice([1e-5, 1.5e-5, 0.0004])
            what = "rounded"
        elif r < 0.90:
            w = v + rng.choice([-1, 1]) * rng.choice([0.003, 0.01, 0.1, 1, 10, 100])
            what = "changed"
        elif r < 0.95 and s[m.start() - 1] not in "fF":
            w = -v
            what = "sign"
        else:
            # the parameter is lost
            return "dropped", [(s[:m.start() - 1] + s[m.end():]).replace("  ", " ").rstrip()]
        return what, [s[:m.start()] + "%.6f" % w + s[m.end():]]
    return "moved", None


def deliver(rng, prog, rate):
    """What arrives, as [line, what happened]."""
    out = []
    held = None
    for s in prog:
        if rng.random() >= rate:
            out.append([s, ""])
        else:
            what, got = disturb(rng, s)
            if got is None:
                if held is None:
                    held = s
                    continue
                got, what = [s], ""
            got = [g for g in got if plain(g)]
            out += [[g, what] for g in got] or [["", what]]
        if held is not None and rng.random() < 0.5:
            out.append([held, "reordered"])
            held = None
    if held is not None:
        out.append([held, "reordered"])
    return out


def generate(rng, tier):
    r = rng.random()
    if r < 0.6:
        prog = gen.free_program(rng, imperial=rng.random() < 0.25, linenos=rng.random() < 0.15, lower=rng.random() < 0.15)
    elif r < 0.85:
        prog = gen.layered_program(rng, layers=rng.choice([1, 2, 3]))
    else:
        prog = [rng.choice(EXTRA) for _ in range(rng.randint(0, 6))]
    prog = [s.strip() for s in prog]
    for _ in range(rng.randint(0, 4)):
        prog.insert(rng.randint(0, len(prog)), rng.choice(EXTRA))
    prog = [s for s in prog if s and plain(s)]
    hosts = []
    light = rng.random() < 0.1
    # most faults are few: a single one is what a comparison may overlook
    for _ in range(2):
        rate = rng.choice([0, 0, 1.0 / (len(prog) + 1), 0.1, 0.4])
        got = deliver(rng, prog, rate)
        if rng.random() < 0.15 and got:
            # the line goes down before the end
            cut = rng.choice([len(got) - 1, len(got) - 1, len(got) - 2, rng.randint(0, len(got))])
            got = got[:max(0, cut)] + [["", "line down"]]
        block = rng.choice([0, 0, len(got), rng.randint(0, len(got))])
        hosts.append({"got": got, "block": block, "light": light,
                      "reload": [rng.randint(0, len(got)) for _ in range(rng.choice([0, 0, 1, 2]))]})
    looks = sorted(set(rng.randint(0, max(len(h["got"]) for h in hosts)) for _ in range(rng.choice([0, 1, 3]))))
    edits = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        # the same edit in both copies, or in one
        step, layer, line = rng.randint(0, len(prog)), rng.randint(0, 3), rng.choice(EXTRA)
        edits += [[step, n, layer, line] for n in rng.choice([[0, 1], [0, 1], [0], [1]])]
    return {"hosts": hosts, "looks": looks, "edits": edits}


def compare(o, where, a, b, cmds):
    want = same(*cmds)
    if want is None:
        o.probe("not judged")
        return None
    before = [(session.structure(g), session.state(g)) for g in (a, b)]
    for x, y, name in ((a, b, "first == second"), (b, a, "second == first")):
        eq, ne, diff = x == y, x != y, x.diff(y)
        if eq is not want:
            n = next((n for n, (p, q) in enumerate(zip(*cmds)) if same([p], [q]) is not True), min(map(len, cmds)))
            o.fail("equality", "%s: %s is %r, %s" % (
                where, name, eq, "nothing differs" if want else "command %d differs: %s / %s" % (
                    n, cmds[0][n:n + 1], cmds[1][n:n + 1])))
            return None
        if ne is not (not want):
            o.fail("inequality", "%s: %s, but != says %r" % (where, name, ne))
            return None
        if (diff is None) is not want:
            o.fail("diff", "%s: %s is %r, the difference report is %r" % (where, name, eq, diff))
            return None
    for g in (a, b):
        if not g == g or g.diff(g) is not None:
            o.fail("equality", "%s: a program is not equal to itself" % where)
            return None
    if before != [(session.structure(g), session.state(g)) for g in (a, b)]:
        o.fail("changed", "%s: the comparison changed a program" % where)
    return want


def run(sc):
    o = Outcome()
    mod = loader.Lib().gcoder
    objs, fed = [], []
    for h in sc["hosts"]:
        cls = mod.LightGCode if h["light"] else mod.GCode
        lines = [s for s, _ in h["got"][:h["block"]]]
        objs.append(cls(lines))
        fed.append([s for s in lines if s])
    verdicts = set()
    total = max([len(h["got"]) for h in sc["hosts"]] + [0])
    for i in range(total + 1):
        if i in sc["looks"] or i == total:
            verdicts.add(compare(o, "after %d deliveries" % i, objs[0], objs[1], [commands(f) for f in fed]))
            if o.violations:
                return o
        for step, n, layer, line in sc["edits"]:
            if step == i and layer < len(objs[n].all_layers) and len(objs[n].all_layers[layer]):
                fed[n].insert(sum(len(l) for l in objs[n].all_layers[:layer]), line)
                objs[n].prepend_to_layer([line], layer)
                o.probe("edited")
        for n, h in enumerate(sc["hosts"]):
            if i in h["reload"]:
                f = io.StringIO()
                objs[n].write(f)
                objs[n] = type(objs[n])(f.getvalue().splitlines(True))
                o.probe("reloaded")
            if h["block"] <= i < len(h["got"]):
                o.steps += 1
                s, what = h["got"][i]
                objs[n].append(s)
                if s:
                    fed[n].append(s)
                if what:
                    o.faults[what] = o.faults.get(what, 0) + 1
            elif i < len(h["got"]) and h["got"][i][1]:
                o.faults[h["got"][i][1]] = o.faults.get(h["got"][i][1], 0) + 1
    for v in verdicts:
        o.probe({True: "equal", False: "different", None: "not judged at all"}[v])
    o.nontrivial = len(verdicts - {None}) == 2 or bool(o.faults)
    o.sig = digest(sc)
    return o


def valid(sc):
    return True


def shrink(sc):
    a, b = sc["hosts"]
    if a["light"]:
        yield dict(sc, hosts=[dict(h, light=False) for h in sc["hosts"]])
    if sc["looks"]:
        yield dict(sc, looks=[])
    for c in shr.drop_chunks(sc["edits"]):
        yield dict(sc, edits=c)
    n = max(len(a["got"]), len(b["got"]))
    size = n
    while size >= 1:
        for i in range(0, n, size):
            hosts = []
            for h in sc["hosts"]:
                got = h["got"][:i] + h["got"][i + size:]
                hosts.append(dict(h, got=got, block=min(h["block"], len(got))))
            if any(x["got"] != y["got"] for x, y in zip(hosts, sc["hosts"])):
                yield dict(sc, hosts=hosts)
        size //= 2
    for n in (0, 1):
        for c in shr.drop_chunks(sc["hosts"][n]["got"]):
            hosts = list(sc["hosts"])
            hosts[n] = dict(hosts[n], got=c, block=min(hosts[n]["block"], len(c)))
            yield dict(sc, hosts=hosts)
